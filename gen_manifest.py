#!/usr/bin/env python3
"""Write MANIFEST.json from the rule modules that exist."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    "N01": "quantifies over the truncation error of an adaptive Runge-Kutta integration at run time; no sound static bound on it is in reach",
    "N02": "compares numbers produced at run time with measurements; there is no fact about the source that decides it",
    "N03": "termination of secant searches and of an adaptive integrator depends on run-time residuals; hangs were seen for some inputs (DESIGN.md) and no static ranking argument exists for them",
}
TECH = {
    "C01": "interprocedural value numbering: heap delta of solve and def-use of the integrator's arguments",
    "C02": "gated value graph of the result record compared with the specified decoding",
    "C03": "exceptional-exit analysis: every normal exit of a query requires a solution",
    "C04": "interprocedural may-mutate (effect) analysis on ownership roots",
    "C05": "interprocedural effect analysis: heap delta of queries is empty, no non-deterministic sources",
    "C06": "interval analysis of stored fields at every normal exit",
    "C07": "typestate/exception-safety: heap at every raising exit equals the entry heap",
    "C08": "derivative-order analysis of the velocity triple, moments of the difference stencils",
    "C09": "symbolic differentiation of value graphs and identity checking",
    "C10": "value-graph identities between accessors",
    "C11": "value-graph encode/decode identity of the initial state",
    "C12": "symbolic differentiation and inversion of closure relations per piece",
    "C13": "interval analysis of relation arguments and domains",
    "C14": "elementwise (lane) analysis of value graphs",
    "C15": "unit (dimension) inference over value graphs",
    "C16": "value-graph identity of events and reported quantities; constant folding at the range limit",
    "C17": "unit-scale inference per column and must-check facts at normal exits",
    "C18": "value-graph comparison of accessors with records; aliasing analysis of loaded records",
    "C19": "value-graph recomputation check, ODE rescaling identity, facts at normal exits",
    "C20": "value-graph read-back and heap-delta (frame) analysis of setters",
    "C21": "value-graph identity with the momentum integral equation",
    "C23": "interprocedural constant propagation to the accuracy arguments of library calls",
    "C22": "signature conformance over the class hierarchy",
}
NOTE = ("Static: /repo is parsed, nothing of it runs. Holds for all inputs within the modelled semantics: real "
        "arithmetic, caller functions pure and elementwise, numpy/scipy calls as modelled in sa/ext.py. "
        "Obligations that the analysis cannot decide are listed as undecided in the evidence.")


def main():
    have = sorted(f[1:3] for f in os.listdir(os.path.join(HERE, "rules")) if re.match(r"c\d\d\.py$", f))
    checks = []
    for n in have:
        p = "C" + n
        checks.append({"property": p,
                       "quick_cmd": f"python3 check.py {p} --tier quick",
                       "thorough_cmd": f"python3 check.py {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": TECH[p], "level": "other", "level_note": NOTE})
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    done = {c["property"] for c in checks}
    na = [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in done]
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa rules check.py", "checks": checks,
           "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()

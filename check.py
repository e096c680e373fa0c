#!/usr/bin/env python3
"""Decide one property of /repo's current source:  check.py C09 [--tier quick]"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def load_known(prop):
    """Known findings of a property: list of (rule, subject, text)."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(p):
        return out
    with open(p, encoding="utf-8") as fh:
        for line in fh:
            line = line.rstrip("\n")
            if line.startswith("finding: property="):
                head, _, text = line[len("finding: "):].partition(" | ")
                pid = head.split()[0].split("=")[1]
                rule, _, rest = text.partition(" | ")
                subject, _, why = rest.partition(" | ")
                if pid == prop:
                    out.append((rule.strip(), subject.strip(), why.strip()))
    return out


# of the running analysis, for the watchdog
state = {"deadline": time.monotonic() + 800}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    from sa.driver import Engine
    from sa.engine import AnchorMissing
    from rules.base import Ck
    eng = Engine(a.root)
    ck = Ck(a.property, eng, tier, seed)
    state["ck"] = ck
    mod = importlib.import_module("rules." + a.property.lower())
    state["report"] = lambda: report(a, ck, eng, mod, tier, seed, t0)
    try:
        mod.run(ck)
    except AnchorMissing as ex:
        print(f"ERROR property={a.property} public anchor missing: {ex}")
        return 2
    state["deadline"] = None
    return report(a, ck, eng, mod, tier, seed, t0)


def report(a, ck, eng, mod, tier, seed, t0):
    known = load_known(a.property)
    new, listed = [], []
    for v in ck.violations:
        hit = None
        for k in known:
            if k[0] == v.rule and v.site.startswith(k[1] + " ["):
                hit = k
        (listed if hit else new).append((v, hit))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    paths = []
    for i, (v, _) in enumerate(new):
        rp = os.path.join(evdir, f"{a.property}-violation-{i}.json")
        with open(rp, "w", encoding="utf-8") as fh:
            json.dump({"property": a.property, "rule": v.rule, "construct": v.site,
                       "finding": v.text, "data": v.data,
                       "reproduce": f"python3 check.py {a.property} --tier {tier}"},
                      fh, indent=1)
        paths.append(rp)
    holds = sum(1 for o in ck.obligations if o[2] == "holds")
    ev = {
        "property": a.property, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip()),
            "rules": sorted({o[0] for o in ck.obligations}),
            "obligations_checked": len(ck.obligations),
            "obligations_holding": holds,
            "obligations_undecided": len(ck.inconclusives),
            "undecided": ck.inconclusives[:40],
            "functions_analysed": len(eng.analysed),
            "functions": sorted(eng.analysed),
            "call_contexts": eng.ncalls,
            "value_graph_nodes": len(__import__("sa.terms", fromlist=["_all"])._all),
            "unmodelled_constructs": sorted(f"{k}: {w}" for k, w in eng.unknowns.items())[:40],
            "internal_errors": ck.errors[:10],
            "samples": [f"{r}: {s} -> {v}" for r, s, v in ck.obligations[:200:max(1, len(ck.obligations) // 25)]],
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": [{"rule": v.rule, "construct": v.site, "text": v.text, "replay": p}
                       for (v, _), p in zip(new, paths)],
    }
    with open(os.path.join(evdir, a.property + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
    if a.verbose:
        for r, s, v in ck.obligations:
            print(f"  {v:9s} {r}: {s}")
        for x in ck.inconclusives:
            print("  ?", x)
        for x in ck.errors:
            print("  !!", x)
        print("  unknowns:", eng.unknowns)
    for line in dict.fromkeys(f"KNOWN-FINDING: property={a.property} {v.rule}: {k[1]}: {k[2]}" for v, k in listed):
        print(line)
    for (v, _), p in zip(new, paths):
        print(f"{v.rule}: {v.site}: {v.text}"[:700])
        if v.data.get("point"):
            print("   at", v.data["point"])
        print(f"VIOLATION property={a.property} replay={p}")
    print(f"{a.property} {tier}: {len(ck.obligations)} obligations, {holds} hold, "
          f"{len(ck.inconclusives)} undecided, {len(new)} violations, "
          f"{len(listed)} known, {ev['wall_s']} s")
    if new:
        return 1
    if not ck.obligations or holds == 0 and not listed:
        print("ERROR nothing was decided")
        return 2
    return 0


def a_property():
    return next((x for x in sys.argv[1:] if not x.startswith("-")), "?")


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":      # same order of sets in every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    import ctypes
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    rc = [2]

    def go():
        rc[0] = main()
    th = threading.Thread(target=go, daemon=True)
    th.start()
    while th.is_alive():
        th.join(1)
        now = time.monotonic()
        ck = state.get("ck")
        if ck is not None and ck.until is not None and now > ck.until:
            # one group of obligations takes too long: it stays undecided
            ck.until = None
            from rules.base import OutOfTime
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(th.ident), ctypes.py_object(OutOfTime))
        if state["deadline"] is not None and now > state["deadline"] and "report" in state:
            ck.open("time", a_property(), "analysis stopped before the end")
            rc[0] = state["report"]()
            sys.stdout.flush()
            os._exit(rc[0])
    sys.exit(rc[0])

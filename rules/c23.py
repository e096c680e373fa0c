"""C23: the numerical libraries are asked for the accuracy the results need.

Every call of an integrator, quadrature or root search recorded while a solver is
solved, queried and searched for separation, or a similarity solution is computed
(every mode of the search), is looked at with its effective accuracy arguments, the
default of the library where none is given: constants no looser than the bound."""

from sa import terms as T
from sa.terms import num
from .common import *
from .c01 import kws
from .c19 import base, programs

BOUND = num("1e-6")
# library calls: accuracy arguments with the default of each
ACCURACY = {"scipy.integrate.solve_ivp": {"rtol": num("1e-3"), "atol": num("1e-6")},
            "scipy.integrate.quad": {"epsabs": num("1.49e-8"), "epsrel": num("1.49e-8")},
            "scipy.optimize.root_scalar": {"xtol": None, "rtol": None}, "scipy.optimize.brentq": {"xtol": None, "rtol": None},
            "scipy.optimize.bisect": {"xtol": None, "rtol": None}, "scipy.optimize.newton": {"tol": None, "rtol": None}}


def accuracy(ck, rule, r, tag, site):
    """Returns the number of calls looked at."""
    n, seen = 0, set()
    for c in r.calls:
        table = ACCURACY.get(c["f"].args[0]) if c["f"].op == "ext" else None
        if table is None:
            continue
        n += 1
        for name, default in table.items():
            got = kws(c).get(name, default)
            if got is None or got.op == "none" or (c.get("site"), name, got) in seen:
                continue
            seen.add((c.get("site"), name, got))
            subject = f"{tag}: {name} of {c['f'].args[0].split('.')[-1]}"
            if got.op == "num":
                if got.args[0] > BOUND.args[0]:
                    ck.bad(rule, subject, c.get("site") or site, f"{float(got.args[0]):g} is looser than 1e-6")
                else:
                    ck.ok(rule, subject)
            else:
                ck.holds(rule, subject, T.le(got, BOUND), list(c["state"].facts) if c.get("state") else list(r.st.facts),
                         c.get("site") or site, f"{str(got)[:80]} can be looser than 1e-6")
    return n


def solver(ck, cls, fit):
    m = Model(ck, cls, fit, solved=True)
    site = ck.at(cls, "solve")
    tag = cls + (f", {fit}" if fit else "")
    if not accuracy(ck, "C23.solve", m.r, tag, site):
        ck.open("C23.solve", tag, "no integration seen")


def similarity(ck, cls, label, program):
    r, env = base(ck, cls)
    r.exec(program[0])
    r.exec(program[1])
    tag = f"{cls} {label}"
    site = ck.at(cls, "set_solution_parameters")
    if r.st.dead:
        return ck.open("C23.similarity", tag, "no normal exit")
    if not accuracy(ck, "C23.similarity", r, tag, site):
        ck.open("C23.similarity", tag, "no library call seen")
    return None


def run(ck):
    for cls in SOLVERS:
        for fit in FITS if cls in LAMINAR else (None,):
            ck.unit(solver, cls, fit)
    for cls in ANALYTIC:
        for label, (program, given) in programs(cls).items():
            ck.unit(similarity, cls, label, program)

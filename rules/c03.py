"""C03: no boundary layer result can be read before there is a solution.

Every query is interpreted in every state without a solution (never solved,
last solve failed) or without a velocity; it must have no normal exit and its
exceptional exits must be ValueError (or an exception of a caller's function)."""

from sa import terms as T
from sa.terms import num, ZERO, ONE, mk, NONE
from .common import *
from .c01 import integrations

QUERIES = ("v_e(x)", "delta_d(x)", "delta_m(x)", "shape_d(x)", "shape_k(x)", "tau_w(x, rho)")
CONSTANT = ("delta_k(x)", "dissipation(x, rho)")
CLASSES = [(c, f) for c in LAMINAR for f in ("custom", "custom2") + FITS] + [("HeadMethod", None)]


def refuses(ck, rule, subject, run, text, site, env, why):
    g = run.fork()
    n = len(g.raises)
    v = g.val(text, **env)
    if not g.st.dead:
        if v is not None and ck.unmodelled(v):
            return ck.open(rule, subject, "unmodelled construct")
        return ck.bad(rule, subject, site, f"answers {str(v)[:120]} {why}")
    exits = [x for x in g.raises[n:]]
    wrong = [x for x in exits if not (T_is_value_error(ck, x.exc) or x.exc == "?")]
    if wrong:
        return ck.bad(rule, subject, wrong[0].site, f"raises {wrong[0].exc} instead of ValueError {why}")
    if not any(T_is_value_error(ck, x.exc) for x in exits):
        return ck.open(rule, subject, "no ValueError exit seen")
    return ck.ok(rule, subject)


def T_is_value_error(ck, exc):
    from sa.engine import exc_is
    return isinstance(exc, str) and exc != "?" and exc_is(exc, "ValueError")


HISTORIES = {
    "before the first solve": "",
    "after a failed solve": "m.solve(x0, x1)",
    "after a success and a failure": "m.solve(xa, xb)\nm.solve(x0, x1)",
}


def solver(ck, cls, fit):
    m = Model(ck, cls, fit, solved=False)
    r = m.r
    s = f"{cls}({fit})" if fit else cls
    env = dict(x=m.x, rho=m.rho)
    r.bind(**{k: r.sym(k, "float") for k in ("x0", "x1", "xa", "xb")})
    for name, hist in HISTORIES.items():
        f = r.fork()
        lines = hist.split("\n") if hist else []
        for i, line in enumerate(lines):
            n = len(f.calls)
            f.exec(line)
            for c in integrations(f, n):
                ok = T.truthy(mk("attr", c["result"], "success"))
                f.assume(ok if i < len(lines) - 1 else T.not_(ok))
        if f.st.dead:
            ck.open("C03.solution", f"{s} {name}", "history has no normal end")
            continue
        for q in QUERIES:
            if q == "shape_k(x)" or q == "delta_k(x)":
                pass
            refuses(ck, "C03.solution", f"{s}.{q} {name}", f, f"m.{q}", ck.at(cls, q.split("(")[0]), env,
                    "without a solution")
    interrupted(ck, m, s, cls, env)


def interrupted(ck, m, s, cls, env):
    """A solve that ends with an exception is a failed solve: nothing of the one before it may be read."""
    f = m.r.fork()
    n = len(f.calls)
    f.exec("m.solve(xa, xb)")
    for c in integrations(f, n):
        f.assume(T.truthy(mk("attr", c["result"], "success")))
    n = len(f.raises)
    f.exec("m.solve(x0, x1)")
    exits = [x for x in f.raises[n:] if x.state is not None and T.prove(T.FALSE, list(x.state.facts), 1) is not True]
    if not exits:
        return ck.open("C03.solution", f"{s} after an interrupted solve", "no exceptional exit seen")
    for x in exits:
        g = f.fork()
        g.st = x.state.copy()
        g.st.dead = False
        for q in QUERIES:
            refuses(ck, "C03.solution", f"{s}.{q} after a success and a solve that raised in {x.func or '?'} ({x.exc})",
                    g, f"m.{q}", x.site, env, "of the solution before the failed solve")


def velocity(ck, cls):
    r = ck.run()
    nu = r.sym("nu", "float")
    r.positive(nu)
    x = r.sym("x")
    r.exec(f"from {SOLVERS[cls]} import {cls}\nm = {cls}(nu)", nu=nu)
    for hist in ("", "m.nu = nu", "m.set_velocity(None)"):
        f = r.fork()
        if hist == "m.set_velocity(None)":
            f.exec("try:\n    m.set_velocity((1.0,))\nexcept ValueError:\n    pass")
        else:
            f.exec(hist or "pass")
        for q in ("u_e", "du_e", "d2u_e"):
            refuses(ck, "C03.velocity", f"{cls}.{q}" + (f" after {hist}" if hist else ""), f, f"m.{q}(x)",
                    ck.at(cls, q), dict(x=x), "although no velocity is set")
    f = r.fork()
    refuses(ck, "C03.velocity", f"{cls}.solve", f, "m.solve(0.0, 1.0)", ck.at(cls, "solve"), {},
            "although no velocity is set")


def similarity(ck, cls):
    s = Similarity(ck, cls)
    r = s.r
    # the field that holds the stream function
    o = r.obj(s.s)
    name = None
    for k, v in o.f.items():
        v = r.deep(v)
        if v.op == "attr" and v.args[1] == "sol":
            name = k
    if name is None:
        return ck.open("C03.similarity", cls, "no field holds the solution")
    f = r.fork()
    f.st.heap[s.s.args[0]] = o.set(name, NONE)
    for q in ("f(eta)", "f_p(eta)", "f_pp(eta)", "u(x, y)", "v(x, y)"):
        refuses(ck, "C03.similarity", f"{cls}.{q}", f, f"s.{q}", ck.at(cls, q.split("(")[0]),
                dict(eta=r.sym("eta"), x=s.x, y=s.y), "without a solution")


STANFORD = ("x_smooth", "u_e_smooth", "du_e_smooth", "x", "u_e", "du_e", "delta_d", "delta_m", "delta_k",
            "delta_c", "shape_d", "shape_k", "shape_eq", "c_f", "c_f_lt", "c_f_exp", "beta_eq", "u_star",
            "nu", "re_delta_d", "re_delta_m")
XFOIL = ["s", "x", "y", "u_e", "delta_d", "delta_m", "shape_d"]
XFOIL_SURF = ["delta_k", "shape_k", "c_f", "mass_defect", "mom_defect", "ke_defect"]


def readers(ck):
    from sa import seqs as S
    r = ck.run()
    r.exec("from ibl.reference import StanfordOlympics1968 as A, XFoilReader as B\na = A()\nb = B()\n"
           "a2 = A()\na2.case = ''\nb2 = B('')\nb2.filename = ''")
    if r.st.dead:
        return ck.bad("C03.empty", "readers", ck.at("XFoilReader", "__init__"), "an empty reader cannot be built")
    for var in ("a", "a2"):
        for q in STANFORD:
            empty(ck, r, f"{var}.{q}()", f"StanfordOlympics1968.{q}", ck.at("StanfordOlympics1968", q))
        ck.eq("C03.empty", "StanfordOlympics1968.station_count", r.fork().val(f"{var}.station_count()"), ZERO, [],
              ck.at("StanfordOlympics1968", "station_count"))
        ck.eq("C03.empty", "StanfordOlympics1968.case", r.fork().val(f"{var}.case"), T.const_str(""), [],
              ck.at("StanfordOlympics1968", "case"))
    for var in ("b", "b2"):
        for side in ("upper", "lower", "wake"):
            for q in XFOIL + (XFOIL_SURF if side != "wake" else []):
                empty(ck, r, f"{var}.{q}_{side}()", f"XFoilReader.{q}_{side}", ck.at("XFoilReader", f"{q}_{side}"))
            ck.eq("C03.empty", f"XFoilReader.{side}_count", r.fork().val(f"{var}.{side}_count()"), ZERO, [],
                  ck.at("XFoilReader", f"{side}_count"))
        ck.eq("C03.empty", "XFoilReader.filename", r.fork().val(f"{var}.filename"), T.const_str(""), [],
              ck.at("XFoilReader", "filename"))


def empty(ck, r, text, subject, site):
    from sa import seqs as S
    v = r.fork().val(f"len({text})")
    ck.eq("C03.empty", subject, v, ZERO, [], site)


def run(ck):
    for cls, fit in CLASSES:
        ck.unit(solver, cls, fit)
    for cls in SOLVERS:
        ck.unit(velocity, cls)
    for cls in ANALYTIC:
        ck.unit(similarity, cls)
    ck.unit(readers)

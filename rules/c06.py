"""C06: documented limits on parameters are enforced wherever they are set.

For every limited parameter and every route by which it can be set, the route
is interpreted with a symbolic value outside the limit (no path may reach a
normal exit and every exit is a ValueError) and inside it (a normal exit must
exist and no explicit rejection may be reachable).  For the file readers the
limit must be provable for the stored value at every normal exit."""

from sa import terms as T, ident
from sa.terms import mk, num, ZERO, ONE
from .common import *
from .c03 import T_is_value_error
from .catalog import Entry

GT = ("> 0", lambda v: T.lt(ZERO, v))
GE = (">= 0", lambda v: T.le(ZERO, v))
SAMPLES = {"> 0": ("0", "-1", "-1e-9"), ">= 0": ("-1", "-1e-9"), "in [-0.19884, 2]": ("-0.19885", "2.0001", "-1")}
BETA = ("in [-0.19884, 2]", lambda v: T.and_(T.le(num("-0.19884"), v), T.le(v, num(2))))


def route(ck, subject, site, run, text, limit, deep=False, env=None, values=None):
    """values: name -> value expression of v for text."""
    name, inside = limit
    v = run.sym("v", "float")
    env = dict(env or {})
    # outside
    f = run.fork()
    f.assume(T.not_(inside(v)))
    n = len(f.raises)
    f.exec(text, v=v, **env)
    subject = f"{subject} must be {name}"
    if not f.st.dead:
        # a boundary value decides it without the search
        for c in SAMPLES.get(name, ()):
            g = run.fork()
            g.exec(text, v=num(c), **env)
            if not g.st.dead and feasible(ck, g):
                ck.bad("C06.reject", subject, site, f"the value {c} is accepted")
                break
        if any(o[2] == "violated" and o[1] == subject for o in ck.obligations):
            pass
        elif ck.e.unknowns:
            ck.open("C06.reject", subject, "unmodelled construct")
        elif not feasible(ck, f):
            ck.open("C06.reject", subject, "a normal exit is not excluded")
        else:
            ck.bad("C06.reject", subject, site, "a value outside the limit is accepted")
    else:
        wrong = [x for x in f.raises[n:] if x.exc != "?" and not T_is_value_error(ck, x.exc)]
        if wrong:
            ck.bad("C06.reject", subject, wrong[0].site, f"rejected with {wrong[0].exc} instead of ValueError")
        elif not any(T_is_value_error(ck, x.exc) for x in f.raises[n:]):
            ck.open("C06.reject", subject, "no exit seen")
        else:
            ck.ok("C06.reject", subject)
    # inside
    g = run.fork()
    g.assume(inside(v))
    n = len(g.raises)
    g.exec(text, v=v, **env)
    if g.st.dead:
        return ck.bad("C06.accept", subject, site, "a value inside the limit is rejected")
    if not deep:
        for x in g.raises[n:]:
            if x.implicit or not T_is_value_error(ck, x.exc):
                continue
            if T.prove(T.FALSE, list(x.state.facts), 2) is True:
                continue
            if ident.falsify(T.FALSE, list(x.state.facts), 200, ck.seed):
                return ck.bad("C06.accept", subject, x.site, "a value inside the limit can be rejected")
            return ck.open("C06.accept", subject, "a rejection may be reachable")
    return ck.ok("C06.accept", subject)


def feasible(ck, run):
    """A point of the inputs that reaches the normal exit."""
    return ident.falsify(T.FALSE, list(run.st.facts), ck.tries, ck.seed) is not None


def solvers(ck):
    for cls in SOLVERS:
        r = ck.run()
        nu = r.sym("nu", "float")
        r.positive(nu)
        r.exec(f"from {SOLVERS[cls]} import {cls} as M\nm = M(nu)", nu=nu,
               **{n: r.sym(n, "callable") for n in ("ue", "due", "d2ue")})
        route(ck, f"{cls}(nu)", ck.at(cls, "__init__"), r, "m = M(v)", GT)
        route(ck, f"{cls}(nu=...)", ck.at(cls, "__init__"), r, "m = M(nu=v, U_e=ue, dU_edx=due, d2U_edx2=d2ue)", GT)
        route(ck, f"{cls}.nu", ck.at(cls, "nu"), r, "m.nu = v", GT)
        route(ck, f"{cls}.initial_delta_m", ck.at(cls, "initial_delta_m"), r, "m.initial_delta_m = v", GT)
        if cls == "HeadMethod":
            r.exec("m.initial_delta_m = d0", d0=r.sym("d0", "float"))
            r2 = r.fork()
            r2.positive(r.sym("d0", "float"))
            route(ck, f"{cls}.initial_shape_d", ck.at(cls, "initial_shape_d"), r2, "m.initial_shape_d = v", GT)


def conditions(ck):
    for cls in ("FalknerSkanStagCondition", "ManualCondition"):
        r = ck.run()
        du, a, b, c = (r.sym(n, "float") for n in ("du", "a", "b", "c"))
        r.positive(du, a, b, c)
        make = "C(du, 1e-5)" if cls.startswith("Falk") else "C(a, b, c)"
        r.exec(f"from ibl.initial_condition import {cls} as C\nm = {make}", du=du, a=a, b=b, c=c)
        route(ck, f"{cls}.nu", ck.at(cls, "nu"), r, "m.nu = v", GT)
        if cls.startswith("Falk"):
            route(ck, f"{cls}(nu)", ck.at(cls, "__init__"), r, "m = C(du, v)", GT)


def similarity(ck):
    for cls in ANALYTIC:
        head = "b0, " if cls == "FalknerSkan" else ""
        r = ck.run()
        b0, u, n, fw, ei = (r.sym(k, "float") for k in ("b0", "u", "n", "fw", "ei"))
        r.positive(u, n, fw, ei)
        r.assume(BETA[1](b0))
        r.exec(f"from ibl.analytic import {cls} as C", b0=b0, u=u, n=n, fw=fw, ei=ei)
        i = ck.at(cls, "__init__")
        route(ck, f"{cls}(u_ref)", i, r, f"m = C({head}v, n, fw, ei)", GT, True)
        route(ck, f"{cls}(nu_ref)", i, r, f"m = C({head}u, v, fw, ei)", GT, True)
        route(ck, f"{cls}(fw_pp, eta_inf given)", i, r, f"m = C({head}u, n, v, ei)", GT, True)
        route(ck, f"{cls}(fw_pp)", i, r, f"m = C({head}u, n, fw_pp=v)", GT, True)
        route(ck, f"{cls}(eta_inf, fw_pp given)", i, r, f"m = C({head}u, n, fw, v)", GT, True)
        route(ck, f"{cls}(eta_inf)", i, r, f"m = C({head}u, n, eta_inf=v)", GT, True)
        s = r.fork()
        s.exec(f"m = C({head}u, n, fw, ei)")
        if s.st.dead:
            ck.open("C06.reject", cls, "no instance")
            continue
        route(ck, f"{cls}.u_ref", ck.at(cls, "u_ref"), s, "m.u_ref = v", GT)
        route(ck, f"{cls}.nu_ref", ck.at(cls, "nu_ref"), s, "m.nu_ref = v", GT)
        p = ck.at(cls, "set_solution_parameters")
        route(ck, f"{cls}.set_solution_parameters(eta_inf)", p, s, "m.set_solution_parameters(v)", GT, True)
        route(ck, f"{cls}.set_solution_parameters(eta_inf, fw_pp given)", p, s, "m.set_solution_parameters(v, fw)", GT, True)
        route(ck, f"{cls}.set_solution_parameters(fw_pp)", p, s, "m.set_solution_parameters(fw_pp=v)", GT, True)
        route(ck, f"{cls}.set_solution_parameters(fw_pp, eta_inf given)", p, s, "m.set_solution_parameters(ei, v)", GT, True)
        if cls == "FalknerSkan":
            route(ck, f"{cls}(beta)", i, r, "m = C(v, u, n, fw, ei)", BETA, True)
            route(ck, f"{cls}(beta) alone", i, r, "m = C(v, u, n)", BETA, True)
            q = ck.at(cls, "reset_beta")
            route(ck, f"{cls}.reset_beta", q, s, "m.reset_beta(v, ei, fw)", BETA, True)
            route(ck, f"{cls}.reset_beta alone", q, s, "m.reset_beta(v)", BETA, True)
            route(ck, f"{cls}.reset_beta(eta_inf)", q, s, "m.reset_beta(b0, v, fw)", GT, True)
            route(ck, f"{cls}.reset_beta(fw_pp)", q, s, "m.reset_beta(b0, ei, v)", GT, True)
            q = ck.at(cls, "reset_m")
            m_lim = ("m giving beta in [-0.19884, 2]", lambda v: T.and_(
                T.lt(num(-1), v), BETA[1](T.div(T.mul(num(2), v), T.add(num(1), v)))))
            t = s.fork()
            t.assume(T.lt(num(-1), s.sym("v", "float")), *finite(s.sym("v", "float")))
            route(ck, f"{cls}.reset_m", q, t, "m.reset_m(v, ei, fw)", m_lim, True)
            route(ck, f"{cls}.reset_m(eta_inf)", q, s, "m.reset_m(0.25, v, fw)", GT, True)
            route(ck, f"{cls}.reset_m(fw_pp)", q, s, "m.reset_m(0.25, ei, v)", GT, True)


STATION = {"u_e": GT, "delta_d": GT, "delta_m": GT, "delta_k": GT, "delta_c": GT, "shape_d": GT, "shape_k": GT,
           "shape_eq": GT, "u_star": GT, "nu": GT, "re_delta_d": GT, "re_delta_m": GT}
PROFILE = ("y", "y_plus", "y_c", "u", "u_plus", "u_defect")
AIRFOIL = {"s": GE, "delta_d": GE, "delta_m": GE, "c_f": GE, "shape_d": GT, "shape_k": GT}
WAKE = {"s": GE, "delta_d": GE, "delta_m": GE, "shape_d": GT}
READER = {"u_ref": GT, "c": GT, "reynolds": GE, "n_trans": GT}


def records(ck):
    r = ck.run()
    r.exec("from ibl.reference import StanfordOlympics1968StationData as S\nfrom ibl.reference import XFoilAirfoilData, "
           "XFoilWakeData, XFoilReader\na = XFoilAirfoilData('')\nw = XFoilWakeData('')\nx = XFoilReader()\n")
    for var, cls, table in (("a", "XFoilAirfoilData", AIRFOIL), ("w", "XFoilWakeData", WAKE), ("x", "XFoilReader", READER)):
        for p, lim in table.items():
            route(ck, f"{cls}.{p}", ck.at(cls, p), r, f"{var}.{p} = v", lim)
    cls = "StanfordOlympics1968StationData"
    s = Station(ck, True, summary_only=True)
    for p, lim in STATION.items():
        route(ck, f"{cls}.{p}", ck.at(cls, p), s.r, f"s.{p} = v", lim)
    u, w = s.r.sym("p", "float"), s.r.sym("q", "float")
    t = s.r.fork()
    t.exec("import numpy as np")
    t.assume(T.le(ZERO, u), T.le(ZERO, w))
    for p in PROFILE:
        route(ck, f"{cls}.{p}", ck.at(cls, p), t, f"s.{p} = np.array([p, v, q])", GE, env=dict(p=u, q=w))


def loaded(ck):
    """What the readers hold at a normal exit."""
    cls = "StanfordOlympics1968StationData"
    for si in (True, False):
        for only in (True, False):
            s = Station(ck, si, only)
            tag = f"{cls}({'SI' if si else 'US'}{', summary only' if only else ''})"
            for p, (name, lim) in STATION.items():
                if only and p in ("delta_c", "nu", "re_delta_d", "re_delta_m"):
                    continue
                v = s.q("s." + p)
                ck.holds("C06.loaded", f"{tag}.{p} {name}", None if v is None else lim(v), s.facts(), ck.at(cls, "reset"),
                         "a loaded value can be outside the limit")
            if not only:
                j = s.r.sym("j", "nat")
                b = Station(ck, si, count=1)
                for p in PROFILE:
                    v = b.q(f"s.{p}[0]")
                    ck.holds("C06.loaded", f"{tag}.{p} >= 0, one row", None if v is None else GE[1](v), b.facts(),
                             ck.at(cls, "reset"), "a loaded sample can be negative")
                    f = s.r.fork()
                    f.assume(T.lt(j, T.mk("len", s.rows)))
                    v = f.val(f"s.{p}[j]", j=j)
                    ck.holds("C06.loaded", f"{tag}.{p} >= 0", None if v is None else GE[1](v), list(f.st.facts),
                             ck.at(cls, "reset"), "a loaded sample can be negative")
    r = ck.run()
    line = r.sym("line", "str")
    r.assume(T.not_(T.eq(T.const_str(""), line)))
    for cls, table in (("XFoilAirfoilData", AIRFOIL), ("XFoilWakeData", WAKE)):
        for how in (f"a = {cls}(line)", f"a = {cls}('')\na.reset(line)"):
            f = r.fork()
            f.exec(f"from ibl.reference import {cls}\n" + how, line=line)
            for p, (name, lim) in table.items():
                g = f.fork()
                v = g.val("a." + p)
                ck.holds("C06.loaded", f"{cls}.{p} {name}" + (" by reset" if "reset" in how else ""),
                         None if v is None else lim(v), list(g.st.facts), ck.at(cls, "reset"),
                         "a loaded value can be outside the limit")
    xfoil(ck)
    r = ck.run()
    c = r.sym("case", "str")
    r.assume(T.not_(T.eq(T.const_str(""), c)))
    i = r.sym("i", "nat")
    r.exec("from ibl.reference import StanfordOlympics1968 as A\ne = A(c)", c=c)
    for p, (name, lim) in STATION.items():
        if p in ("u_e", "delta_m", "shape_d", "shape_k", "shape_eq"):
            f = r.fork()
            f.assume(T.lt(i, f.val("e.station_count()")))
            v = f.val(f"e.station(i).{p}", i=i)
            ck.holds("C06.loaded", f"StanfordOlympics1968.station(i).{p} {name}", None if v is None else lim(v),
                     list(f.st.facts), ck.at("StanfordOlympics1968", "case"), "a loaded value can be outside the limit")


def xfoil(ck):
    pass


def run(ck):
    ck.unit(solvers)
    ck.unit(conditions)
    ck.unit(similarity)
    ck.unit(records)
    ck.unit(loaded)

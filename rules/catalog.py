"""All objects of the package and the queries they answer.

Each entry is a run (state built by a symbolic client program) with a variable
holding the object, the list of queries over it and the symbols used."""

from sa import terms as T
from sa.terms import mk, num, NONE, ZERO, ONE
from .common import *

SOLVER_Q = ["nu", "u_e(x)", "du_e(x)", "d2u_e(x)", "v_e(x)", "delta_d(x)", "delta_m(x)", "delta_k(x)",
            "shape_d(x)", "shape_k(x)", "tau_w(x, rho)", "dissipation(x, rho)", "initial_delta_m"]
SIM_Q = ["u_ref", "nu_ref", "fw_pp", "eta_inf", "eta_d", "eta_m", "eta_k", "eta_s", "f(x)", "f_p(x)", "f_pp(x)",
         "u_e(x)", "v_e(x)", "eta(x, y)", "u(x, y)", "v(x, y)", "delta_d(x)", "delta_m(x)", "delta_k(x)",
         "delta_s(x)", "shape_d(x)", "shape_k(x)", "tau_w(x, rho)", "dissipation(x, rho)"]
IC_Q = ["du_e", "nu", "shape_d()", "shape_k()", "delta_d()", "delta_m()", "delta_k()"]
STATION_P = ["x", "u_e", "du_e", "delta_d", "delta_m", "delta_k", "delta_c", "shape_d", "shape_k", "shape_eq",
             "c_f", "c_f_lt", "c_f_exp", "beta_eq", "u_star", "nu", "re_delta_d", "re_delta_m"]
STATION_Q = STATION_P + ["y", "y_plus", "y_c", "u", "u_plus", "u_defect", "sample_count()"]
STANFORD_Q = ["nu_ref", "case", "station_count()", "station(i)", "x_smooth()", "u_e_smooth()", "du_e_smooth()"] + \
    [p + "()" for p in STATION_P] + [p + "(i)" for p in ("y", "y_plus", "y_c", "u", "u_plus", "u_defect")]
XF_POINT = ["s", "x", "y", "u_e_rel", "delta_d", "delta_m", "shape_d"]
XF_AIRFOIL = XF_POINT + ["c_f", "shape_k", "mom_defect", "mass_defect", "ke_defect"]
XF_ALL = ["s", "x", "y", "u_e", "delta_d", "delta_m", "shape_d"]
XF_SURF = ["delta_k", "shape_k", "c_f", "mass_defect", "mom_defect", "ke_defect"]
XFOIL_Q = ["name", "alpha", "u_ref", "c", "reynolds", "n_trans", "x_trans_upper", "x_trans_lower", "filename"] + \
    [f"{s}_count()" for s in ("upper", "lower", "wake")] + [f"{s}(i)" for s in ("upper", "lower", "wake")] + \
    [f"{q}_{s}()" for s in ("upper", "lower", "wake") for q in XF_ALL] + \
    [f"{q}_{s}()" for s in ("upper", "lower") for q in XF_SURF]
FITFUN_Q = ["range()", "shape(x)", "shape_p(x)", "shear(x)", "f(x)", "get_name()"]


class Entry:
    def __init__(self, name, cls, run, var, queries, env):
        self.name, self.cls, self.run, self.var, self.queries, self.env = name, cls, run, var, queries, env

    def texts(self):
        for q in self.queries:
            yield q, f"{self.var}.{q}" if self.var else q


def solvers(ck, fits=("custom", "custom2") + FITS):
    for cls in SOLVERS:
        for fit in (fits if cls in LAMINAR else (None,)):
            m = Model(ck, cls, fit)
            m.r.bind(e=m.m)
            q = list(SOLVER_Q) + (["initial_shape_d"] if cls == "HeadMethod" else [])
            yield Entry(f"{cls}({fit})" if fit else cls, cls, m.r, "e", q, dict(x=m.x, rho=m.rho))


def velocities(ck):
    """Solvers with every form of the velocity."""
    for form in ("points", "function", "function and slope", "spline", "start value", "slope spline"):
        r = ck.run()
        nu, x = r.sym("nu", "float"), r.sym("x")
        r.positive(nu)
        xs, us = r.sym("xs", "farray"), r.sym("us", "farray")
        ue, due, d2ue = (r.sym(n, "callable") for n in ("ue", "due", "d2ue"))
        env = dict(nu=nu, xs=xs, us=us, ue=ue, due=due, d2ue=d2ue, u0=r.sym("u0", "float"))
        head = "from ibl.thwaites_method import ThwaitesMethodLinear as M\n" \
               "from scipy.interpolate import PchipInterpolator\nimport math\n"
        arg = {"points": "(xs, us)", "function": "ue", "function and slope": "ue, due",
               "spline": "PchipInterpolator(xs, us)", "start value": "1.5, (xs, us)",
               "slope spline": "ue, PchipInterpolator(xs, us)"}[form]
        r.assume(T.not_(mk("hasattr", ue, "derivative")), T.not_(mk("hasattr", due, "derivative")))
        r.exec(head + f"e = M(nu, {arg})", **env)
        if r.st.dead:
            continue
        yield Entry(f"velocity by {form}", "IBLMethod", r, "e", ["u_e(x)", "du_e(x)", "d2u_e(x)"], dict(x=x))


def similarity(ck):
    for cls in ANALYTIC:
        for search in (False, True):
            s = Similarity(ck, cls, search)
            s.r.bind(e=s.s)
            q = SIM_Q + (["beta", "m"] if cls == "FalknerSkan" else ["fw_pp_default", "eta_inf_default"])
            yield Entry(cls + (" after search" if search else ""), cls, s.r, "e", q, dict(x=s.x, y=s.y, rho=s.rho))


def conditions(ck):
    r = ck.run()
    du, nu, d, m, k = (r.sym(n, "float") for n in ("du", "nu", "d", "m", "k"))
    r.positive(nu, m, du)
    r.exec("from ibl.initial_condition import FalknerSkanStagCondition as F, ManualCondition as M\n"
           "f = F(du, nu)\nn = M(d, m, k)\n", du=du, nu=nu, d=d, m=m, k=k)
    yield Entry("FalknerSkanStagCondition", "FalknerSkanStagCondition", r, "f", IC_Q, {})
    yield Entry("ManualCondition", "ManualCondition", r, "n", IC_Q + ["del_d", "del_m", "del_k"], {})


def fits(ck):
    for name in ("White", "CebeciBradshaw", "Drela", "Spline"):
        r = ck.run()
        x = r.sym("x")
        r.exec(f"from ibl.thwaites_method import _ThwaitesFunctions{name} as F\nf = F()")
        q = FITFUN_Q + (["shear_values", "shape_values", "lambda_values", "f_values"] if name == "Spline" else [])
        yield Entry(f"fit {name}", f"_ThwaitesFunctions{name}", r, "f", q, dict(x=x))
    r = ck.run()
    S_, H, Hp = (r.sym(n, "callable") for n in ("S", "H", "Hp"))
    lo, hi = r.sym("lo", "float"), r.sym("hi", "float")
    r.assume(T.lt(lo, hi))
    r.exec("from ibl.thwaites_method import _ThwaitesFunctions as F\nf = F('n', S, H, Hp, lo, hi)",
           S=S_, H=H, Hp=Hp, lo=lo, hi=hi)
    yield Entry("fit by functions", "_ThwaitesFunctions", r, "f", FITFUN_Q, dict(x=r.sym("x")))


def closures(ck):
    r = ck.run()
    r.exec("from ibl.head_method import HeadMethod\n"
           "from ibl.skin_friction import ludwieg_tillman, felsch, white\n")
    yield Entry("turbulent closure", "HeadMethod", r, "HeadMethod",
                ["_shape_entrainment(x)", "_shape_entrainment_p(x)", "_shape_d(x)", "_entrainment_velocity(x)"],
                dict(x=r.sym("x")))
    yield Entry("skin friction", "skin_friction", r, "",
                ["ludwieg_tillman(x, h)", "felsch(x, h)", "white(x, h)"], dict(x=r.sym("x"), h=r.sym("h")))


def equations(ck):
    """Right-hand sides and events as the integrator calls them."""
    from .c01 import IMPORT, integrations, kws, items
    for cls in SOLVERS:
        m = Model(ck, cls, "custom" if cls in LAMINAR else None)
        rec = integrations(m.r)
        if len(rec) != 1:
            continue
        f = m.r.sym("f", "farray")
        kw = kws(rec[0])
        env = dict(x=m.r.sym("xx", "float"), f=f, rhs=kw.get("fun"))
        q = ["rhs(x, f)"]
        for i, e in enumerate(items(kw.get("events"))[0]):
            env[f"ev{i}"] = e
            q += [f"ev{i}(x, f)", f"ev{i}.event_info()"]
        yield Entry(f"equations of {cls}", cls, m.r, "", q, env)
    s = Similarity(ck, "FalknerSkan", True)
    i = 0
    for rec in integrations(s.r):
        kw = kws(rec)
        yield Entry(f"similarity equations {i}", "Analytic2dSimilarityIncompressible", s.r, "",
                    ["rhs(x, f)"], dict(x=s.r.sym("xx", "float"), f=s.r.sym("f", "farray"), rhs=kw.get("fun")))
        i += 1
    for rec in s.r.calls:
        if rec["f"].op == "ext" and rec["f"].args[0] in ("scipy.integrate.quad", "scipy.optimize.root_scalar"):
            kw = {a.args[0]: a.args[1] for a in rec["result"].args[1:] if a.op == "kw"}
            fn = kw.get("func", kw.get("f"))
            yield Entry(f"similarity integrand {i}", "Analytic2dSimilarityIncompressible", s.r, "", ["fn(x)"],
                        dict(x=s.r.sym("xx", "float"), fn=fn))
            i += 1


def stations(ck):
    for si in (True, False):
        s = Station(ck, si, summary_only=True)
        s.r.bind(e=s.s)
        yield Entry("station (summary)" + (" SI" if si else " US"), "StanfordOlympics1968StationData", s.r, "e",
                    STATION_Q, {})
        s = Station(ck, si)
        s.r.bind(e=s.s)
        yield Entry("station" + (" SI" if si else " US"), "StanfordOlympics1968StationData", s.r, "e", STATION_Q, {})
        r = ck.run()
        rows = r.sym("rows", "list")
        r.exec(f"from ibl.reference import StanfordOlympics1968SmoothVel as S\ne = S({si}, rows)", rows=rows)
        yield Entry("smooth velocity", "StanfordOlympics1968SmoothVel", r, "e", ["x", "u_e", "du_e", "size()"], {})


def stanford(ck):
    r = ck.run()
    c = r.sym("case", "str")
    r.assume(T.not_(T.eq(T.const_str(""), c)))
    i = r.sym("i", "nat")
    r.exec("from ibl.reference import StanfordOlympics1968 as A\ne = A(c)", c=c)
    if not r.st.dead:
        yield Entry("Stanford reader", "StanfordOlympics1968", r, "e", STANFORD_Q, dict(i=i))
    r = ck.run()
    r.exec("from ibl.reference import StanfordOlympics1968 as A\ne = A()")
    yield Entry("empty Stanford reader", "StanfordOlympics1968", r, "e", STANFORD_Q[:2] + STANFORD_Q[2:3] +
                [p + "()" for p in STATION_P], {})


def xfoil(ck):
    r = ck.run()
    fn = r.sym("fn", "str")
    r.assume(T.not_(T.eq(T.const_str(""), fn)))
    i = r.sym("i", "nat")
    r.exec("from ibl.reference import XFoilReader\ne = XFoilReader(fn)", fn=fn)
    if not r.st.dead:
        yield Entry("XFoil reader", "XFoilReader", r, "e", XFOIL_Q, dict(i=i))
    r = ck.run()
    line = r.sym("line", "str")
    r.assume(T.not_(T.eq(T.const_str(""), line)))
    r.exec("from ibl.reference import XFoilAirfoilData as A, XFoilWakeData as W\na = A(line)\nw = W(line)", line=line)
    if not r.st.dead:
        yield Entry("XFoil airfoil point", "XFoilAirfoilData", r, "a", XF_AIRFOIL, {})
        yield Entry("XFoil wake point", "XFoilWakeData", r, "w", XF_POINT, {})


def results(ck):
    r = ck.run()
    names = ("x_end", "f_end", "status", "message", "success")
    env = {n: r.sym(n + "0") for n in names}
    r.exec("from ibl.ibl_method import IntegrationResult\nres = IntegrationResult(" +
           ", ".join(f"{n}={n}" for n in names) + ")", **env)
    yield Entry("IntegrationResult", "IntegrationResult", r, "res", list(names), {})
    r.bind(res=r.var("res"))
    yield Entry("IntegrationResult text", "IntegrationResult", r, "", ["str(res)"], {})


SOURCES = (solvers, velocities, similarity, conditions, fits, closures, equations, stations, stanford, xfoil, results)


def entries(ck, sources=SOURCES):
    for s in sources:
        try:
            yield from s(ck)
        except Exception as ex:   # noqa
            from sa.engine import AnchorMissing
            if isinstance(ex, AnchorMissing):
                raise
            import traceback
            ck.errors.append(f"catalog {s.__name__}: {ex}\n" + traceback.format_exc()[-1200:])
            ck.open("catalog", s.__name__, f"internal: {type(ex).__name__}: {ex}")

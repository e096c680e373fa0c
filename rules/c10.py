"""C10: thicknesses and shape factors reported together are consistent.

Value graphs of the accessors of every class are compared: a thickness with
momentum thickness times shape factor, profile quantities with their
definitions from the stream function of the same object."""

from sa import terms as T
from sa.terms import num, ZERO, ONE, mk
from . import c18
from .common import *


def pair(ck, q, facts, cls, subject, thick, shape, args):
    a = q(f"m.{thick}({args})") if args is not None else q(f"m.{thick}()")
    b = q(f"m.delta_m({args or ''}) * m.{shape}({args or ''})")
    ck.eq("C10.pair", f"{subject}.{thick}", a, b, facts, ck.at(cls, thick))


def solver(ck, cls, fit):
    m = Model(ck, cls, fit)
    facts = m.facts()
    dm = m.q("m.delta_m(x)")
    facts.append(T.lt(ZERO, dm))
    s = f"{cls}({fit})" if fit else cls
    pair(ck, m.q, facts, cls, s, "delta_d", "shape_d", "x")
    pair(ck, m.q, facts, cls, s, "delta_k", "shape_k", "x")


def stream_rule(r):
    """Derivatives of the components of a similarity solution."""
    def rule(t, go):
        if t.op == "index" and t.args[0].op == "call" and t.args[1].op == "num" and \
                t.args[0].args[0].op == "attr" and t.args[0].args[0].args[1] == "sol":
            y, i = t.args
            k = int(i.args[0])
            if k < 2:
                return T.mul(T.mk("index", y, num(k + 1)), go(y.args[1]))
        return None
    return rule


def similarity(ck, cls, search):
    s = Similarity(ck, cls, search)
    facts = s.facts()
    tag = cls + (" after search" if search else "")
    env = dict(m=s.s)
    q = lambda t: s.q(t, m=s.s)     # noqa
    eta_m = q("m.eta_m")
    if eta_m is not None:
        facts = facts + [T.not_(T.eq(eta_m, ZERO))]
    u_e = q("m.u_e(x)")
    for thick, shape in (("delta_d", "shape_d"), ("delta_k", "shape_k")):
        pair(ck, q, facts, cls, tag, thick, shape, "x")
    for d in "dmks":
        # a thickness is the distance at its own similarity coordinate
        ck.eq("C10.coordinate", f"{tag}.delta_{d}", q(f"m.eta(x, m.delta_{d}(x))"), q(f"m.eta_{d}"),
              facts, ck.at(cls, f"delta_{d}"))
    ck.eq("C10.fw_pp", f"{tag}.fw_pp", q("m.fw_pp"), q("m.f_pp(0.0)"), facts, ck.at(cls, "fw_pp"))
    ck.eq("C10.u", f"{tag}.u", q("m.u(x, y)"), q("m.u_e(x) * m.f_p(m.eta(x, y))"), facts, ck.at(cls, "u"))
    u, v = q("m.u(x, y)"), q("m.v(x, y)")
    if u is not None and v is not None:
        rule = stream_rule(s.r)
        div = T.add(T.diff(u, s.x, rule), T.diff(v, s.y, rule))
        ck.eq("C10.continuity", f"{tag}.v", div, ZERO, facts, ck.at(cls, "v"))
        # v is minus the stream function's streamwise derivative, zero at the wall
        rule0 = T.subst(v, {s.y: ZERO})
        f0 = q("m.f(0.0)")
        if f0 is not None:
            ck.eq("C10.wall", f"{tag}.v", T.subst(rule0, {f0: ZERO}), ZERO, facts, ck.at(cls, "v"))
        shear = T.subst(T.diff(u, s.y, rule), {s.y: ZERO})
        ck.eq("C10.wall-shear", f"{tag}.tau_w", q("m.tau_w(x, rho)"),
              T.mul(s.rho, s.nuref, shear), facts, ck.at(cls, "tau_w"))


def conditions(ck):
    r = ck.run()
    names = ("du", "nu", "d", "m", "k", "nu2", "du2")
    du, nu, d, m, k, nu2, du2 = (r.sym(n, "float") for n in names)
    r.positive(nu, nu2, m, du, du2)
    r.exec("from ibl.initial_condition import FalknerSkanStagCondition as F, ManualCondition as M\n"
           "f = F(du, nu)\nn = M(d, m, k)\n", du=du, nu=nu, d=d, m=m, k=k)
    for var, cls in (("f", "FalknerSkanStagCondition"), ("n", "ManualCondition")):
        for after in ("", f"{var}.nu = nu2", f"{var}.du_e = du2"):
            w = r.fork()
            w.exec(after or "pass", nu2=nu2, du2=du2)
            mom = w.fork().val(f"{var}.delta_m()")
            facts = list(r.st.facts) + ([T.lt(ZERO, mom)] if mom is not None else [])
            for thick, shape in (("delta_d", "shape_d"), ("delta_k", "shape_k")):
                a = w.fork().val(f"{var}.{thick}()")
                b = w.fork().val(f"{var}.delta_m() * {var}.{shape}()")
                ck.eq("C10.condition", f"{cls}.{thick}" + (f" after {after}" if after else ""), a, b,
                      facts, ck.at(cls, thick))


def station(ck, si):
    tag = "SI" if si else "US units"
    s = Station(ck, si, summary_only=True)
    cls = "StanfordOlympics1968StationData"
    facts = s.facts() + finite(s.q("s.x"))
    q = s.q
    for a, b in (("delta_d", "s.shape_d * s.delta_m"), ("delta_k", "s.shape_k * s.delta_m"),
                 ("u_star", "s.u_e * np.sqrt(0.5 * s.c_f)")):
        ck.eq("C10.station", f"{cls}.{a} from the summary ({tag})", q(f"s.{a}"), q(b), facts, ck.at(cls, a))


def xfoil(ck):
    x = c18.load(ck, (3, 2, 3, True, False))
    if x is None:
        return ck.open("C10.xfoil", "load", "no normal exit")
    r, lists = c18.opened(ck, x[0])
    for side in ("upper", "lower"):
        name, site = f"XFoilReader.delta_k_{side}", ck.at("XFoilReader", f"delta_k_{side}")
        want = f"np.array([p.shape_k * p.delta_m for p in [m.{side}(i) for i in range(m.{side}_count())]])"
        v = lambda run, t: run.fork().val(t)     # noqa
        c18.same(ck, "C10.xfoil", f"{name} (3 + 2 points)", v(x[0], f"m.delta_k_{side}()"), v(x[0], want), x[0], site)
        got = v(r, f"m.delta_k_{side}()")
        if got is not None and any(t in lists for t in T.subterms(got)):
            ck.eq("C10.xfoil", name, got, v(r, want), r.st.facts, site)


def run(ck):
    for cls in LAMINAR:
        for fit in ("custom",) + FITS:
            ck.unit(solver, cls, fit)
    ck.unit(solver, "HeadMethod", None)
    for cls in ANALYTIC:
        for search in (False, True):
            ck.unit(similarity, cls, search)
    ck.unit(conditions)
    for si in (True, False):
        ck.unit(station, si)
    ck.unit(xfoil)

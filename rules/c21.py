"""C21: every model satisfies the momentum integral equation it stands for.

The value graph of the momentum thickness reported by a model is differentiated
(derivative of the stored solution = value graph of the right-hand side that was
integrated) and compared with c_f/2 - (2 + H) delta_m u_e'/u_e built from the
model's own reported wall shear stress, shape factor and edge velocity."""

from sa import terms as T
from sa.terms import num, ZERO, ONE, mk
from .common import *
from .c09 import derivative_rules


def solution_terms(t):
    return find(t, lambda s: s.op == "index" and s.args[0].op == "call"
                and s.args[0].args[0].op == "attr" and s.args[0].args[0].args[1] == "sol")


def growth(m):
    """(d delta_m/dx, solution components)."""
    dm = m.q("m.delta_m(x)")
    if dm is None:
        return None, None
    sc = solver_call(dm)
    if len(sc) != 1:
        return None, None
    fun, y0 = kwarg(sc[0], "fun"), kwarg(sc[0], "y0")
    n = len(y0.args) if y0 is not None and y0.op == "seq" else 1
    return T.diff(dm, m.x, derivative_rules(m, fun, n)), n


def fit_range(m, sol):
    """Facts: lambda inside the declared range of a built-in fit."""
    if m.fit in (None, "custom", "custom2"):
        return []
    rng = m.q("m._model.range()")
    lam = T.mul(sol, call(m.due, m.x))
    if rng is None or rng.op not in ("tuple", "seq"):
        return []
    lo, hi = rng.args
    return [T.lt(lo, lam), T.lt(lam, hi)]


def laminar(ck, cls, fit):
    m = Model(ck, cls, fit)
    site = ck.at(cls, "_ode_impl")
    subject = f"{cls} ({fit})"
    d, n = growth(m)
    dm = m.q("m.delta_m(x)")
    if d is None:
        return ck.open("C21.momentum", subject, "no stored solution in delta_m")
    sol = solution_terms(dm)[0]
    facts = m.facts() + [T.lt(ZERO, sol)] + fit_range(m, sol)
    ue, due = call(m.ue, m.x), call(m.due, m.x)
    lam = T.mul(sol, due)
    facts.append(T.lt(ZERO, ue))
    # u_e + offset, the documented protection of the division
    den = T.add(ue, num("0.001"))
    z = T.div(T.mul(dm, d), m.nu)        # = (1/2) d(delta_m^2/nu)/dx
    if cls == "ThwaitesMethodLinear":
        want = T.div(T.mul(num("1/2"), T.sub(num("0.45"), T.mul(num(6), lam))), den)
        ck.eq("C21.linear", subject, z, want, facts, site)
    else:
        tau, H = m.q("m.tau_w(x, rho)"), m.q("m.shape_d(x)")
        cf = T.div(tau, T.mul(num("1/2"), m.rho, ue, ue))
        mom = T.sub(T.mul(num("1/2"), cf), T.div(T.mul(T.add(num(2), H), dm, due), ue))
        # (1/2) d(delta_m^2/nu)/dx * u_e, with the offset velocity in front
        want = T.div(T.mul(dm, ue, mom), T.mul(m.nu, den))
        ck.eq("C21.momentum", subject, z, want, facts, site)
    # the shear reported: tau_w = rho nu u_e S(lambda)/delta_m
    if fit == "custom":
        tau = m.q("m.tau_w(x, rho)")
        want = T.div(T.mul(m.rho, m.nu, ue, call(m.shear, lam)), dm)
        ck.eq("C21.shear", subject, tau, want, facts, ck.at(cls, "tau_w"))


def head(ck):
    cls = "HeadMethod"
    m = Model(ck, cls)
    site = ck.at(cls, "_ode_impl")
    d, n = growth(m)
    dm, H, tau = m.q("m.delta_m(x)"), m.q("m.shape_d(x)"), m.q("m.tau_w(x, rho)")
    if d is None or H is None or tau is None:
        return ck.open("C21.momentum", cls, "no stored solution")
    ue, due = call(m.ue, m.x), call(m.due, m.x)
    facts = m.facts() + [T.lt(ZERO, dm), T.lt(num("0.001"), ue), T.lt(num("1.11"), H)]
    cf = T.div(tau, T.mul(num("1/2"), m.rho, ue, ue))
    want = T.sub(T.mul(num("1/2"), cf), T.div(T.mul(T.add(num(2), H), dm, due), ue))
    ck.eq("C21.momentum", cls, d, want, facts, site)
    # the entrainment equation: d(u_e delta_m H1)/dx = u_e F(H1)
    f = m.r.fork()
    h1 = f.val("m._shape_entrainment(h)", h=H)
    f = m.r.fork()
    F = f.val("m._entrainment_velocity(h1)", h1=h1) if h1 is not None else None
    if F is not None:
        sc = solver_call(dm)
        rule = derivative_rules(m, kwarg(sc[0], "fun"), 2)
        flux = T.mul(ue, dm, h1)
        for lo, hi in (("1.11", "1.6"), ("1.6", None)):
            fx = facts + [T.lt(num(lo), H)] + ([T.lt(H, num(hi))] if hi else [])
            ck.eq("C21.entrainment", f"{cls} H>{lo}", T.diff(flux, m.x, rule), T.mul(ue, F), fx, site)


def similarity(ck, cls, search):
    s = Similarity(ck, cls, search)
    tag = cls + (" after search" if search else "")
    dm, dd, dk = s.q("s.delta_m(x)"), s.q("s.delta_d(x)"), s.q("s.delta_k(x)")
    tau, ue, diss = s.q("s.tau_w(x, rho)"), s.q("s.u_e(x)"), s.q("s.dissipation(x, rho)")
    if None in (dm, dd, dk, tau, ue, diss):
        return ck.open("C21.similarity", tag, "no value")
    due = T.diff(ue, s.x)
    facts = s.facts()
    lhs = T.add(T.diff(dm, s.x), T.div(T.mul(T.add(T.mul(num(2), dm), dd), due), ue))
    want = T.div(tau, T.mul(s.rho, ue, ue))
    ck.eq("C21.similarity", tag, lhs, want, facts, ck.at(cls, "set_solution_parameters"))
    # kinetic energy: rho/2 d(u_e^3 delta_k)/dx = dissipation
    lhs = T.mul(num("1/2"), s.rho, T.diff(T.mul(T.power(ue, num(3)), dk), s.x))
    ck.eq("C21.energy", tag, diss, lhs, facts, ck.at(cls, "dissipation"))


def run(ck):
    for cls in LAMINAR:
        for fit in ("custom",) + FITS:
            ck.unit(laminar, cls, fit)
    ck.unit(head)
    for cls in ANALYTIC:
        for search in (False, True):
            ck.unit(similarity, cls, search)

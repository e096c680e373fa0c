"""C09: reported transpiration velocity = d(u_e * delta_d)/dx.

Value graphs of v_e, u_e and delta_d are derived from the source; the product
u_e*delta_d is differentiated symbolically (derivative of the stored solution =
value graph of the right-hand side handed to the integrator) and compared with
the value graph of v_e."""

from sa import terms as T
from sa.terms import num, ZERO, ONE, mk
from .common import *


def derivative_rules(model, fun, n):
    """Derivative of the uninterpreted functions of a solver model."""
    r = model.r

    def rule(t, go):
        if t.op == "call":
            f = t.args[0]
            nxt = {model.ue: model.due, model.due: model.d2ue}
            if model.fit == "custom":
                nxt[model.shape] = model.shape_p
            if f in nxt and len(t.args) == 2:
                return T.mul(call(nxt[f], t.args[1]), go(t.args[1]))
            if len(t.args) == 2 and f.op == "call" and f.args[0].op == "ext" and \
                    "interpolate" in f.args[0].args[0]:
                q = r.fork()
                d = q.val("(f.derivative())(z)", f=f, z=t.args[1])
                return T.mul(d, go(t.args[1]))
        if t.op == "index" and t.args[0].op == "call" and t.args[0].args[0].op == "attr" \
                and t.args[0].args[0].args[1] == "sol":
            y = t.args[0]
            arg = y.args[1]
            q = r.fork()
            comp = q.val("fun(x, y)[i]", fun=fun, x=arg,
                         y=q.ev("np.array(yy)", yy=mk("seq", *[T.mk("index", y, num(i)) for i in range(n)])),
                         i=t.args[1])
            return T.mul(comp, go(arg))
        return None
    return rule


def solver(ck, cls, fit):
    m = Model(ck, cls, fit)
    site = ck.at(cls, "v_e")
    subject = f"{cls}.v_e" + (f" with fit {fit}" if fit else "")
    v, facts = m.qf("m.v_e(x)")
    dd = m.q("m.u_e(x) * m.delta_d(x)")
    if dd is None or v is None:
        return ck.eq("C09.product", subject, v, dd, facts, site)
    sc = solver_call(dd)
    if len(sc) != 1:
        return ck.open("C09.product", subject, "solution not found in delta_d")
    fun, y0 = kwarg(sc[0], "fun"), kwarg(sc[0], "y0")
    n = len(y0.args) if y0 is not None and y0.op == "seq" else 1
    # the solution is positive in its first component
    sol = find(dd, lambda s: s.op == "index" and s.args[0].op == "call"
               and s.args[0].args[0].op == "attr" and s.args[0].args[0].args[1] == "sol")
    facts = facts + [T.lt(ZERO, s) for s in sol]
    want = T.diff(dd, m.x, derivative_rules(m, fun, n))
    if fit not in (None, "custom"):
        # within the fit's declared range the limiting is the identity
        for w in find(T.mk("seq", v, dd), lambda s: s.op == "where"):
            pass
        rng = m.q("m._model.range()")
        lam = m.q("lam", lam=T.mul(sol[0], call(m.due, m.x)))
        if rng is not None and rng.op in ("tuple", "seq"):
            lo, hi = rng.args
            facts += [T.lt(lo, lam), T.lt(lam, hi)]
    ck.eq("C09.product", subject, v, want, facts, site)


def similarity(ck, cls, search):
    s = Similarity(ck, cls, search)
    v = s.q("s.v_e(x)")
    dd = s.q("s.u_e(x) * s.delta_d(x)")
    subject = f"{cls}.v_e" + (" after search" if search else "")
    if dd is None:
        return ck.open("C09.similarity", subject, "no value")
    ck.eq("C09.similarity", subject, v, T.diff(dd, s.x), s.facts(), ck.at(cls, "v_e"))


def run(ck):
    for cls in LAMINAR:
        for fit in ("custom",) + FITS:
            ck.unit(solver, cls, fit)
    ck.unit(solver, "HeadMethod", None)
    for cls in ANALYTIC:
        ck.unit(similarity, cls, False)
        ck.unit(similarity, cls, True)

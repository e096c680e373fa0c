"""C16: separation is detected on the quantity the solver reports.

The value graph of the event handed to the integrator is compared with the value
graph of the reported wall shear stress (laminar) or shape factor (turbulent) of the
same solver at the same location and state, after every kind of earlier
reconfiguration.  Constant folding at the range limit of each built-in fit decides
whether zero shear can be reached at all."""

from sa import terms as T, ident
from sa.terms import mk, num, ZERO, ONE
from .common import *
from .c01 import integrations, kws, items, IMPORT
from .c12 import value
from .c13 import spline

HISTORIES = {
    "new": "pass",
    "other viscosity": "m.nu = nu2",
    "other velocity": "m.set_velocity(ue2, due2, d2ue2)",
    "earlier solve": "m.solve(xa, xb)",
    "earlier solve with an event": "m.solve(xa, xb, e1)",
    "failed solve, then velocity": "m.solve(xa, xb)\nm.set_velocity(ue2, due2, d2ue2)",
    "other initial value": "m.initial_delta_m = dm0",
    "read before": "m.solve(xa, xb)\nm.nu = nu2",
}
LAM_HISTORIES = {
    "other fit before": "m.set_data_fits('White')\nm.set_data_fits((S, H, Hp))",
    "fit set twice": "m.set_data_fits((H, S, Hp))\nm.set_data_fits((S, H, Hp))",
    "fit set, velocity, fit": "m.set_data_fits((H, S))\nm.set_velocity(ue2, due2, d2ue2)\nm.set_data_fits((S, H, Hp))",
    "refused fit": "try:\n    m.set_data_fits('none such')\nexcept ValueError:\n    pass",
}
HEAD_HISTORIES = {
    "criterion set": "m.set_shape_d_critical(crit)",
    "criterion set twice": "m.set_shape_d_critical(crit2)\nm.set_shape_d_critical(crit)",
    "criterion between solves": "m.set_shape_d_critical(crit2)\nm.solve(xa, xb)\nm.set_shape_d_critical(crit)",
}

# distance from the critical value beyond which the sign is decided (the value
# itself is decided by identity)
EDGE = num("0.001")


class Case:
    """Event and reported quantities of a configured solver."""

    def __init__(self, ck, cls, m, hist, label, names):
        self.ck, self.cls, self.label = ck, cls, f"{cls} {label}"
        r = m.r.fork()
        self.ok = False
        r.exec(hist)
        if r.st.dead:
            return
        n = len(r.calls)
        r.exec("res = m.solve(x0, x1)")
        recs = integrations(r, n)
        if len(recs) != 1:
            ck.open("C16.event", self.label, f"{len(recs)} integrator calls")
            return
        self.run, self.rec = r, recs[0]
        ev, sym = items(kws(self.rec).get("events"))
        if sym:
            ck.open("C16.event", self.label, "event list not followed")
            return
        self.site = ck.at(cls, "solve")
        own = []
        for e in ev:
            info = r.fork().val("ev.event_info()", ev=e)
            if info is None or info.op != "tuple" or info.args[0].op != "enum":
                ck.open("C16.event", self.label, "event information not followed")
                return
            if info.args[0].args[1] == "SEPARATED":
                own.append(e)
            else:
                ck.bad("C16.event", self.label, self.site,
                       f"a built-in event reports {info.args[0].args[1]}, not separation")
        if len(own) != 1:
            ck.bad("C16.event", self.label, self.site,
                   f"{len(own)} separation events are handed to the integrator, expected the current one only")
            return
        ck.ok("C16.event", self.label)
        self.ev = own[0]
        t = r.e.type_of(self.ev, r.st)
        self.site = ck.at(t, "_call_impl") if t is not None else self.site
        self.x = r.sym("xx", "float")
        self.s = [r.sym(f"s{i}", "float") for i in range(names)]
        self.E = r.fork().val("ev(xx, st)", ev=self.ev, xx=self.x, st=mk("seq", *self.s))
        self.d = r.fork().val("getattr(ev, 'direction', 0)", ev=self.ev)
        self.R = self.rec["result"]
        r.assume(T.truthy(mk("attr", self.R, "success")))
        self.ok = self.E is not None

    def reported(self, text, **env):
        """Reported quantity with the solution replaced by the state symbols."""
        v = self.run.fork().val(text, xx=self.x, **env)
        if v is None:
            return None
        sol = call(mk("attr", self.R, "sol"), self.x)
        v = T.subst(v, {mk("index", sol, num(i)): s for i, s in enumerate(self.s)})
        return None if any(s is sol for s in T.subterms(v)) else v


def laminar(ck, cls):
    m = Model(ck, cls, "custom", solved=False)
    r = m.r
    g1 = r.sym("g1", "callable")
    r.exec(IMPORT + "e1 = Ev(g1)\n", g1=g1)
    env = {n: r.sym(n, "callable") for n in ("ue2", "due2", "d2ue2")}
    env.update({n: r.sym(n, "float") for n in ("nu2", "x0", "x1", "xa", "xb", "dm0")})
    r.positive(env["nu2"], env["dm0"])
    r.bind(**env)
    phi = None
    for label, hist in list(HISTORIES.items()) + list(LAM_HISTORIES.items()):
        c = Case(ck, cls, m, hist, label, 1)
        if not c.ok:
            continue
        tau = c.reported("m.tau_w(xx, rho)", rho=m.rho)
        if tau is None:
            ck.open("C16.zero", c.label, "wall shear stress is not a function of the state")
            continue
        calls = lambda t: find(t, lambda q: q.op == "call" and q.args[0] is m.shear)    # noqa
        ct, ce = calls(tau), calls(c.E)
        if not ct:
            ck.open("C16.zero", c.label, "wall shear stress does not use the fit")
            continue
        if not ce:
            ck.bad("C16.same", c.label, c.site, f"the event {str(c.E)[:200]} does not use the shear relation of the fit in force")
            continue
        facts = [T.lt(ZERO, c.s[0])] + list(c.run.st.facts)
        good = True
        for a in ct[1:] + ce:
            good = ck.eq("C16.same", c.label, mk("tuple", *a.args[1:]), mk("tuple", *ct[0].args[1:]), facts, c.site) and good
        if not good:
            continue
        p, q = r.sym("p", "float"), r.sym("q", "float")
        sh = r.sym("shearvalue", "float")
        E, tw = (T.subst(t, {a: sh for a in ct + ce}) for t in (c.E, tau))
        u = [s for s in find(tau, lambda t: t.op == "call" and t.args[0] in (m.ue, env["ue2"]))]
        facts += [T.lt(ZERO, p), T.lt(ZERO, q)] + [T.lt(ZERO, s) for s in u]
        for what, t in (("event", E), ("wall shear stress", tw)):
            ck.eq("C16.zero", f"{c.label}: {what} at zero shear", T.subst(t, {sh: ZERO}), ZERO, facts, c.site)
            ck.holds("C16.sign", f"{c.label}: {what} changes sign with the shear",
                     T.lt(T.mul(T.subst(t, {sh: p}), T.subst(t, {sh: T.neg(q)})), ZERO), facts, c.site)
        direction(ck, c, T.subst(E, {sh: p}), facts)
        if label == "new":
            phi = (E, sh, c.x, c.s[0])
    # built-in fits: the same function of the reported shear
    for fit in FITS:
        m2 = Model(ck, cls, fit, solved=False)
        m2.r.bind(**env)
        m2.r.positive(env["nu2"], env["dm0"])
        m2.r.exec(IMPORT + "e1 = Ev(g1)\n", g1=g1)
        for label, hist in (("", "pass"), (" after another fit", f"m.set_data_fits('White')\nm.set_data_fits({fit!r})"),
                            (" after a change of velocity", "m.set_velocity(ue2, due2, d2ue2)")):
            c = Case(ck, cls, m2, hist, f"({fit}){label}", 1)
            if not c.ok or phi is None:
                continue
            tau = c.reported("m.tau_w(xx, rho)", rho=m2.rho)
            dm = c.reported("m.delta_m(xx)")
            ue = c.reported("m.u_e(xx)")
            if None in (tau, dm, ue):
                ck.open("C16.same", c.label, "reported quantities not followed")
                continue
            shear = T.mul(tau, dm, T.div(ONE, T.mul(m2.rho, m2.nu, ue)))
            facts = [T.lt(ZERO, c.s[0]), T.lt(ZERO, ue)] + list(c.run.st.facts)
            want = T.subst(phi[0], {phi[1]: shear})
            ck.eq("C16.same", c.label, c.E, want, facts, c.site)


def direction(ck, c, positive, facts):
    """The event looks at crossings out of attached flow."""
    if c.d is None or c.d.op != "num":
        return ck.open("C16.direction", c.label, "direction not followed")
    if c.d is ZERO:
        return ck.ok("C16.direction", c.label)
    return ck.holds("C16.direction", c.label, T.lt(T.mul(positive, c.d), ZERO), facts, c.site,
                    "the event ignores the crossing from attached to separated flow")


def turbulent(ck):
    cls = "HeadMethod"
    for ctor, crit in (("HeadMethod(nu, ue, due, d2ue)", num("2.4")), ("HeadMethod(nu, ue, due, d2ue, crit)", None),
                       ("HeadMethod(nu, U_e=ue, dU_edx=due, d2U_edx2=d2ue, shape_d_crit=crit)", None)):
        m = Model(ck, cls, solved=False)
        r = m.r
        env = {n: r.sym(n, "callable") for n in ("ue2", "due2", "d2ue2")}
        env.update({n: r.sym(n, "float") for n in ("nu2", "x0", "x1", "xa", "xb", "dm0", "crit", "crit2")})
        env.update(nu=m.nu, ue=m.ue, due=m.due, d2ue=m.d2ue)
        r.positive(env["nu2"], env["dm0"], env["crit2"])
        r.assume(T.lt(num("1.2"), env["crit"]))
        g1 = r.sym("g1", "callable")
        r.exec(IMPORT + f"e1 = Ev(g1)\nm = {ctor}", g1=g1, **env)
        hs = dict(HISTORIES)
        hs.update(HEAD_HISTORIES)
        for label, hist in hs.items():
            want = env["crit"] if crit is None or label in HEAD_HISTORIES else crit
            c = Case(ck, cls, m, hist, f"{ctor[10:]} {label}", 2)
            if not c.ok:
                continue
            H = c.reported("m.shape_d(xx)")
            if H is None:
                ck.open("C16.zero", c.label, "shape factor is not a function of the state")
                continue
            facts = [T.lt(ZERO, c.s[0])] + list(c.run.st.facts)
            below, above = facts + [T.lt(H, T.sub(want, EDGE)), T.lt(ONE, H)], \
                facts + [T.lt(T.add(want, EDGE), H)]
            # whichever sign the event has in attached flow
            E = c.E
            if any(s.op == "pow" and s.args[0] is want for s in T.subterms(E)):
                E = T.canon(T.mul(E, want))
            proved = lambda k: (T.prove(T.lt(T.mul(k, E), ZERO), below, 1) is True and    # noqa
                                T.prove(T.lt(ZERO, T.mul(k, E)), above, 1) is True)
            sign = next((k for k in (ONE, num(-1)) if proved(k)), None)
            if sign is None:
                sign = num(-1) if ident.falsify(T.lt(E, ZERO), below, 40, ck.seed) else ONE
            E = T.mul(sign, E)
            ck.holds("C16.sign", f"{c.label}: below the critical value", T.lt(E, ZERO), below, c.site)
            ck.holds("C16.sign", f"{c.label}: above the critical value", T.lt(ZERO, E), above, c.site)
            if H is c.s[1]:
                ck.eq("C16.zero", c.label, T.subst(E, {H: want}), ZERO, facts, c.site)
            else:
                ck.holds("C16.zero", c.label, T.eq(E, ZERO), facts + [T.eq(H, want)], c.site)
            if c.d is None or c.d.op != "num":
                ck.open("C16.direction", c.label, "direction not followed")
            elif T.lt(T.mul(c.d, sign), ZERO) is T.TRUE:
                ck.bad("C16.direction", c.label, c.site, "the event ignores the crossing into separated flow")
            else:
                ck.ok("C16.direction", c.label)


def reach(ck, name):
    """Shear at the lower limit of the declared range is not positive."""
    for cls in LAMINAR[:1]:
        r = ck.run()
        r.exec(f"from ibl.thwaites_method import {cls}\nm = {cls}(1.0, u, d, e, data_fits={name!r})\nf = m._model",
               **{n: r.sym(n, "callable") for n in "ude"})
        rng = r.fork().val("f.range()")
        if rng is None or rng.op not in ("tuple", "seq") or len(rng.args) != 2:
            return ck.open("C16.reach", name, "range not followed")
        lo = rng.args[0]
        at0 = constant(r.fork().val("f.shear(lo)", lo=ZERO))
        end = constant(r.fork().val("f.shear(lo)", lo=lo)) if lo.op == "num" else None
        if at0 is None or end is None:
            ck.open("C16.reach", name, "shear at the limit is not a constant")
            continue
        t = r.e.type_of(r.var("f"), r.st)
        site = ck.at(t, "__init__") if t is not None else name
        if at0 <= 0:
            ck.bad("C16.reach", name, site, f"shear without velocity gradient is {float(at0)}: separated from the start")
        elif end > ident.D("1e-12"):
            ck.bad("C16.reach", name, site,
                   "shear stays positive down to the end of the fit's range: separation can never be detected",
                   {"limit": str(lo), "shear": f"{end:.6f}"})
        else:
            ck.ok("C16.reach", name)


def constant(v):
    """Number a term without inputs denotes; interpolants only at their knots."""
    if v is None:
        return None

    def knots(t):
        t = T.rebuild(t, knots)
        if t.op == "call" and len(t.args) == 2 and t.args[1].op == "num":
            xs = spline(t.args[0])
            f = t.args[0]
            if xs is not None and f.op == "call" and xs.op == "seq" and f.args[2].op == "seq":
                for a, b in zip(xs.args, f.args[2].args):
                    if a is t.args[1]:
                        return b
        return t
    return value(knots(v))


def run(ck):
    for cls in LAMINAR:
        ck.unit(laminar, cls)
    ck.unit(turbulent)
    for f in FITS:
        ck.unit(reach, f)

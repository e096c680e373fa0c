"""C11: integration starts exactly from the configured initial condition.

A client initial condition whose momentum thickness and shape factor are
uninterpreted functions of its own viscosity and velocity gradient is given to
each solver; the state handed to the integrator must be the encoding of those
functions at (solver viscosity, velocity gradient at the start), and the
solver's own queries evaluated on that state must give them back."""

from sa import terms as T
from sa.terms import mk, num, ZERO, ONE
from .common import *
from .c01 import integrations, kws, one as one_call

IC = ("from ibl.initial_condition import InitialCondition, ManualCondition, FalknerSkanStagCondition\n"
      "class Client(InitialCondition):\n"
      "    def __init__(self, F, G):\n"
      "        super().__init__(0.0, 1.0)\n"
      "        self.F = F\n"
      "        self.G = G\n"
      "    def shape_d(self):\n"
      "        return self.G(self.du_e, self.nu)\n"
      "    def shape_k(self):\n"
      "        return 1.5\n"
      "    def delta_d(self):\n"
      "        return self.shape_d()*self.delta_m()\n"
      "    def delta_m(self):\n"
      "        return self.F(self.du_e, self.nu)\n"
      "    def delta_k(self):\n"
      "        return self.shape_k()*self.delta_m()\n")


def base(ck, cls, fit):
    m = Model(ck, cls, fit, solved=False)
    r = m.r
    for n in ("x0", "x1", "xa", "xb", "d1", "m1", "k1", "d2", "m2", "k2", "nu2"):
        setattr(m, n, r.sym(n, "float"))
        r.bind(**{n: getattr(m, n)})
    for n in ("F", "G", "F2", "G2", "ue2", "due2", "d2ue2"):
        setattr(m, n, r.sym(n, "callable"))
        r.bind(**{n: getattr(m, n)})
    r.positive(m.m1, m.m2, m.nu2, m.d1, m.d2)
    r.exec(IC)
    return m


# name: (client program, F and G of the condition in force, viscosity, gradient)
CASES = {
    "client condition": ("c = Client(F, G)\nm.set_initial_condition(c)", "client", "nu", "due"),
    "client condition, then new viscosity": ("c = Client(F, G)\nm.set_initial_condition(c)\nm.nu = nu2", "client", "nu2", "due"),
    "client condition, then new velocity": ("c = Client(F, G)\nm.set_initial_condition(c)\nm.set_velocity(ue2, due2, d2ue2)",
                                            "client", "nu", "due2"),
    "new condition after a solve": ("m.set_initial_condition(Client(F2, G2))\nm.solve(xa, xb)\n"
                                    "c = Client(F, G)\nm.set_initial_condition(c)", "client", "nu", "due"),
    "all changed after a solve": ("c = Client(F, G)\nm.set_initial_condition(c)\nm.solve(xa, xb)\nm.nu = nu2\n"
                                  "m.set_velocity(ue2, due2, d2ue2)", "client", "nu2", "due2"),
    "second solve from elsewhere": ("c = Client(F, G)\nm.set_initial_condition(c)\nm.solve(xa, xb)\nm.delta_d(xa)", "client",
                                    "nu", "due"),
    "manual condition": ("c = ManualCondition(d1, m1, k1)\nm.set_initial_condition(c)", "manual", "nu", "due"),
    "manual condition, changed": ("c = ManualCondition(d2, m2, k2)\nm.set_initial_condition(c)\nm.solve(xa, xb)\n"
                                  "c.del_m = m1\nc.del_d = d1", "manual", "nu", "due"),
    "stagnation condition": ("c = FalknerSkanStagCondition(1.0, 1e-3)\nm.set_initial_condition(c)", "stag", "nu", "due"),
    "stagnation condition, then new viscosity": ("c = FalknerSkanStagCondition(1.0, 1e-3)\nm.set_initial_condition(c)\nm.nu = nu2",
                                                 "stag", "nu2", "due"),
    "initial thickness": ("m.initial_delta_m = m1", "thickness", "nu", "due"),
    "initial thickness, set twice": ("m.initial_delta_m = m2\nm.solve(xa, xb)\nm.initial_delta_m = m1", "thickness",
                                     "nu", "due"),
}
HEAD = {
    "thickness and shape factor": ("m.initial_delta_m = m1\nm.initial_shape_d = d1", "shape", "nu", "due"),
    "again after a solve": ("m.initial_delta_m = m2\nm.initial_shape_d = d2\nm.solve(xa, xb)\nm.initial_delta_m = m1\n"
                            "m.initial_shape_d = d1", "shape", "nu", "due"),
}


def expected(m, kind, nu, due):
    """(momentum thickness, shape factor or None, positivity facts)."""
    nu = getattr(m, nu)
    du = call(getattr(m, due), m.x0)
    if kind == "client":
        f, g = call(m.F, du, nu), call(m.G, du, nu)
        return f, g, [T.lt(ZERO, f)]
    if kind == "manual":
        return m.m1, T.div(m.d1, m.m1), []
    if kind == "stag":
        r = m.r.fork()
        r.exec("c = FalknerSkanStagCondition(a, b)", a=du, b=nu)
        return r.val("c.delta_m()"), r.val("c.shape_d()"), [T.lt(ZERO, du)]
    if kind == "shape":
        return m.m1, m.d1, []
    return m.m1, None, []


def unfloat(t):
    """float() of a real value is that value."""
    if t is None:
        return None
    memo = {}

    def go(s):
        r = memo.get(s)
        if r is None:
            r = T.rebuild(s, go)
            if r.op == "float" and r.args[0].op == "call" and r.args[0].args[0].op == "sym":
                r = r.args[0]
            memo[s] = r
        return r
    return go(t)


def case(ck, cls, fit, name, spec):
    text, kind, nu, due = spec
    m = base(ck, cls, fit)
    r = m.r
    subject = f"{cls}: {name}"
    site = ck.at(cls, "_ode_setup")
    r.exec(text)
    if r.st.dead:
        return ck.open("C11.start", subject, "configuration has no normal end")
    n = len(r.calls)
    r.exec("res = m.solve(x0, x1)")
    rec = one_call(ck, "C11.start", subject, r, n)
    if rec is None:
        return
    kw = kws(rec)
    want, shape, facts = expected(m, kind, nu, due)
    facts = facts + [unfloat(f) for f in list(rec["pc"])]
    nuv = getattr(m, nu)
    if kind == "client":
        facts += [T.lt(ZERO, nuv)]
    y0 = unfloat(kw.get("y0"))
    if y0 is None or y0.op != "seq":
        return ck.open("C11.start", subject, "start state not followed")
    if cls == "HeadMethod":
        if len(y0.args) != 2:
            return ck.open("C11.start", subject, f"{len(y0.args)} start values")
        ck.eq("C11.start", subject + ", thickness", y0.args[0], want, facts, site)
        if shape is not None:
            ck.eq("C11.start", subject + ", shape factor", y0.args[1], shape, facts, site)
    else:
        if len(y0.args) != 1:
            return ck.open("C11.start", subject, f"{len(y0.args)} start values")
        ck.eq("C11.start", subject, y0.args[0], T.div(T.mul(want, want), nuv), facts, site)
    span = kw.get("t_span")
    if span is not None and span.op == "tuple":
        span = mk("seq", *span.args)
    ck.eq("C11.interval", subject, span, mk("seq", m.x0, m.x1), facts, ck.at(cls, "solve"))
    # reading the start back
    s = rec["result"]
    r.assume(T.truthy(mk("attr", s, "success")))
    for q, w in (("delta_m", want), ("shape_d", shape if cls == "HeadMethod" else None)):
        if w is None:
            continue
        f = r.fork()
        v = f.val(f"m.{q}(x0)")
        if v is None:
            ck.open("C11.decode", f"{subject}, {q}", "no value")
            continue
        sol = find(v, lambda t: t.op == "index" and t.args[0].op == "call" and t.args[0].args[0].op == "attr"
                   and t.args[0].args[0].args[1] == "sol")
        v = T.subst(unfloat(v), {unfloat(t): y0.args[int(t.args[1].args[0])] for t in sol if t.args[1].op == "num"})
        ck.eq("C11.decode", f"{subject}, {q}", v, w, facts, ck.at(cls, q))
    # the condition itself sees the solver's viscosity and gradient
    for q, w in () if kind in ("thickness", "shape") else (("nu", nuv), ("du_e", call(getattr(m, due), m.x0))):
        f = r.fork()
        v = unfloat(f.val(f"c.{q}"))
        ck.eq("C11.handed", f"{subject}, {q}", v, w, facts, ck.at(cls, "solve"))


def run(ck):
    for cls, fit in [(c, "White") for c in LAMINAR] + [("HeadMethod", None)]:
        for name, spec in CASES.items():
            ck.unit(case, cls, fit, name, spec)
    for name, spec in HEAD.items():
        ck.unit(case, "HeadMethod", None, name, spec)

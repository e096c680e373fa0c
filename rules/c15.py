"""C15: reported quantities are dimensionally homogeneous and carry their dimensions.

The unknowns of a value graph (viscosity, places, velocities, stored solution, density)
are given their dimensions and rescaled by independent factors for length, time and
mass; the graph rebuilt with them must equal the original times the factors its
documented dimension requires.  The dimensions of the integrated state are those of
its initial value."""

from sa import terms as T, ident
from sa.terms import mk, num, ZERO, ONE
from .common import *
from .c01 import integrations, kws, items

BASES = ((7, 11, 13), (17, 5, 3))
L, TM, M, ONE_ = (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0)
SPEED, RATE, CURV, VISC, DENS = (1, -1, 0), (0, -1, 0), (-1, -1, 0), (2, -1, 0), (-3, 0, 1)
STRESS, POWER = (-1, -2, 1), (0, -3, 1)
# the edge velocity that protects divisions near stagnation
OFFSET = num("0.001")


class Scale:
    def __init__(self, bases, syms, funcs, facts=(), velocities=()):
        self.bases, self.syms, self.funcs, self.facts = bases, syms, funcs, list(facts)
        self.velocities = velocities
        self.memo = {}

    def factor(self, dims):
        return T.mul(*[T.power(num(b), d if isinstance(d, T.Term) else num(d)) for b, d in zip(self.bases, dims)])

    def same(self, a, b):
        return a is b or T.equal(a, b, self.facts)[0] is True

    def go(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.scaled(t)
        return r

    def scaled(self, t):
        if t in self.syms:
            return T.mul(self.factor(self.syms[t]), t)
        if t.op == "call" and t.args[0] in self.funcs:
            ins, out = self.funcs[t.args[0]]
            args = [self.go(a) for a in t.args[1:]]
            if len(args) == len(ins) and all(self.same(g, T.mul(self.factor(d), a)) for g, d, a in zip(args, ins, t.args[1:])):
                return T.mul(self.factor(out), t)
            return mk("call", t.args[0], *args)
        if t.op == "call":
            args = [g if not self.same(g, a) else a for a, g in ((a, self.go(a)) for a in t.args[1:])]
            return t if all(x is y for x, y in zip(args, t.args[1:])) else mk("call", t.args[0], *args)
        if t.op in ("lt0", "le0", "eq0"):
            e = t.args[0]
            g = self.go(e)
            d = self.dims(e, g)
            return t if d is not None else T.rebuild(t, self.go)
        if t.op == "add" and OFFSET in t.args and any(v in T.subterms(t) for v in self.velocities):
            rest = T.sub(t, OFFSET)
            if self.same(self.go(rest), T.mul(self.factor(SPEED), rest)):
                return T.mul(self.factor(SPEED), t)
        if t.op == "add":
            # a sum of terms of one dimension
            ds = {self.dims(a, self.go(a)) for a in t.args if a is not ZERO}
            if len(ds) == 1 and None not in ds:
                return T.mul(self.factor(next(iter(ds))), t)
        return T.rebuild(t, self.go)

    def dims(self, e, g):
        """Dimensions of a homogeneous term, or None."""
        if g is e:
            return ONE_
        r = T.div(g, e)
        v = None
        for seed in (1, 2, 3):
            try:
                v = ident.Point(seed, ident.signs_of(self.facts)).num(r)
                break
            except ident.Undefined:
                continue
        if v is None or not isinstance(v, ident.D) or v <= 0:
            return None
        return next((d for d in self.candidates(v) if self.same(g, T.mul(self.factor(d), e))), None)

    def candidates(self, v):
        from fractions import Fraction as F
        x = v.ln()
        bs = [ident.D(b).ln() for b in self.bases]
        step = [F(k, 2) for k in range(-16, 17)]
        out = []
        for m in (0, 1, -1):
            for t in step:
                rest = (x - bs[2] * m - bs[1] * ident.D(t.numerator) / ident.D(t.denominator)) / bs[0]
                k = round(rest * 2)
                if abs(rest * 2 - k) < ident.D("1e-12"):
                    out.append((F(k, 2), t, F(m)))
        return out


def judge(ck, scale, rule, subject, t, dims, site, facts):
    if t is None:
        return ck.open(rule, subject, "no value")
    if t is ZERO or t.op == "call" and t.args[0].op == "ext" and "zeros" in t.args[0].args[0]:
        return ck.ok(rule, subject)
    if any(s.op in ("unk", "opq", "find", "lo", "uninit", "ref", "iref") for s in T.subterms(t)):
        return ck.open(rule, subject, "not followed")
    t = T.assume(t, frozenset(list(facts) + scale.facts))
    ck.eq(rule, subject, scale.go(t), T.mul(scale.factor(dims), t), list(facts) + scale.facts, site)


QUANTITIES = {"u_e(x)": SPEED, "du_e(x)": RATE, "d2u_e(x)": CURV, "v_e(x)": SPEED, "delta_d(x)": L, "delta_m(x)": L,
              "delta_k(x)": L, "shape_d(x)": ONE_, "shape_k(x)": ONE_, "tau_w(x, rho)": STRESS, "dissipation(x, rho)": POWER}


def setup(ck, cls, fit):
    m = Model(ck, cls, fit, solved=False)
    r = m.r
    m.dm0, m.h0, m.x0, m.x1 = (r.sym(n, "float") for n in ("dm0", "h0", "x0", "x1"))
    r.positive(m.dm0, m.h0)
    r.bind(dm0=m.dm0, h0=m.h0, x0=m.x0, x1=m.x1)
    return m


def funcs(m):
    fs = {m.ue: ((L,), SPEED), m.due: ((L,), RATE), m.d2ue: ((L,), CURV)}
    if m.fit == "custom":
        fs.update({f: ((ONE_,), ONE_) for f in (m.shear, m.shape, m.shape_p)})
    return fs


def solver(ck, cls, fit, hist, label, bases):
    m = setup(ck, cls, fit)
    r = m.r
    r.exec(hist)
    subject = f"{cls}{' ' + fit if fit else ''}, {label}"
    site = ck.at(cls, "solve")
    if r.st.dead:
        return ck.open("C15.state", subject, "no normal exit")
    n0 = len(r.calls)
    r.exec("res = m.solve(x0, x1)")
    recs = integrations(r, n0)
    if len(recs) != 1:
        return ck.open("C15.state", subject, f"{len(recs)} integrator calls")
    rec, kw = recs[0], kws(recs[0])
    R, y0, fun = rec["result"], kw.get("y0"), kw.get("fun")
    if y0 is None or y0.op != "seq":
        return ck.open("C15.state", subject, "initial state not followed")
    r.assume(T.truthy(mk("attr", R, "success")))
    xx = r.sym("xx", "float")
    state = [r.sym(f"s{i}", "float") for i in range(len(y0.args))]
    syms = {m.nu: VISC, m.x: L, m.rho: DENS, m.dm0: L, m.h0: ONE_, m.x0: L, m.x1: L, xx: L}
    fs = funcs(m)
    ue = [call(m.ue, z) for z in (m.x, xx, m.x0)]
    facts = [T.lt(num("0.001"), u) for u in ue] + [T.lt(ZERO, s) for s in state] + \
            [T.lt(ZERO, call(m.due, m.x0))] + m.facts()
    sc = Scale(bases, syms, fs, facts, [m.ue])
    sdims = []
    for i, y in enumerate(y0.args):
        d = sc.dims(y, sc.go(y))
        if d is None:
            return ck.eq("C15.state", f"{subject}: initial state [{i}]", sc.go(y), y, facts, site)
        ck.ok("C15.state", f"{subject}: initial state [{i}] has dimensions L^{d[0]} T^{d[1]} M^{d[2]}")
        sdims.append(d)
    sc.syms.update(dict(zip(state, sdims)))
    sc.memo.clear()
    # the right-hand side
    for i, d in enumerate(sdims):
        f = r.fork()
        got = f.val("fun(xx, st)[i]", fun=fun, xx=xx, st=f.ev("np.array(yy)", yy=mk("seq", *state)), i=num(i))
        if len(state) > 1:
            facts_ = facts + [T.lt(num("1.11"), state[1])]
        else:
            facts_ = facts
        judge(ck, sc, "C15.rhs", f"{subject}: right-hand side [{i}]", got, (d[0] - 1, d[1], d[2]), ck.at(cls, "_ode_impl"), facts_)
    # the events: where they vanish does not depend on the units
    ev, sym = items(kw.get("events"))
    for k, e in enumerate(ev):
        v = r.fork().val("e(xx, st)", e=e, xx=xx, st=mk("seq", *state))
        if v is None:
            ck.open("C15.event", f"{subject}: event {k}", "no value")
            continue
        d = sc.dims(v, sc.go(v))
        if d is not None:
            ck.ok("C15.event", f"{subject}: event {k}")
        else:
            judge(ck, sc, "C15.event", f"{subject}: event {k}", v, ONE_, site, facts)
    # the reported quantities
    sol = call(mk("attr", R, "sol"), m.x)
    comp = {mk("index", sol, num(i)): s for i, s in enumerate(state)}
    for q, d in QUANTITIES.items():
        f = r.fork()
        v = f.val(f"m.{q}", x=m.x, rho=m.rho)
        if v is None:
            ck.open("C15.quantity", f"{subject}: {q}", "no value")
            continue
        v = T.subst(v, comp)
        if any(s is sol for s in T.subterms(v)):
            ck.open("C15.quantity", f"{subject}: {q}", "solution not followed")
            continue
        extra = [T.lt(num("1.11"), state[1])] if len(state) > 1 else []
        judge(ck, sc, "C15.quantity", f"{subject}: {q}", v, d, ck.at(cls, q.split("(")[0]), list(f.st.facts) + facts + extra)
    for q, d in (("initial_delta_m", L), ("initial_shape_d", ONE_)):
        if q == "initial_shape_d" and cls != "HeadMethod":
            continue
        judge(ck, sc, "C15.quantity", f"{subject}: {q}", r.fork().val(f"m.{q}"), d, ck.at(cls, q), facts)


IC = "from ibl.initial_condition import FalknerSkanStagCondition, ManualCondition\n"
SETUPS = {
    "initial thickness": "m.initial_delta_m = dm0",
    "manual condition": IC + "m.set_initial_condition(ManualCondition(h0*dm0, dm0, dm0))",
    "stagnation condition": IC + "m.set_initial_condition(FalknerSkanStagCondition(m.du_e(x0), m.nu))",
}
HEAD_SETUPS = {
    "thickness and shape": "m.initial_delta_m = dm0\nm.initial_shape_d = h0",
    "manual condition": SETUPS["manual condition"],
    "stagnation condition": SETUPS["stagnation condition"],
}


def conditions(ck, bases):
    r = ck.run()
    du, nu, d, dm, dk = (r.sym(n, "float") for n in ("du", "nu", "dd", "dm", "dk"))
    r.positive(du, nu, d, dm, dk)
    r.exec(IC + "a = FalknerSkanStagCondition(du, nu)\nb = ManualCondition(dd, dm, dk)", du=du, nu=nu, dd=d, dm=dm, dk=dk)
    sc = Scale(bases, {du: RATE, nu: VISC, d: L, dm: L, dk: L}, {}, r.st.facts)
    for o, cls in (("a", "FalknerSkanStagCondition"), ("b", "ManualCondition")):
        for q, dims in (("delta_d", L), ("delta_m", L), ("delta_k", L), ("shape_d", ONE_), ("shape_k", ONE_)):
            judge(ck, sc, "C15.condition", f"{cls}.{q}", r.fork().val(f"{o}.{q}()"), dims, ck.at(cls, q), list(r.st.facts))


def similarity(ck, cls, bases):
    s = Similarity(ck, cls)
    if not s.alive:
        return ck.open("C15.similarity", cls, "no normal exit")
    r = s.r
    m = r.fork().val("s.m") if cls == "FalknerSkan" else ZERO
    uref = (T.sub(ONE, m), num(-1), num(0))
    syms = {s.uref: uref, s.nuref: VISC, s.x: L, s.y: L, s.rho: DENS}
    facts = s.facts() + [T.lt(ZERO, z) for z in (s.uref, s.nuref, s.rho)]
    sc = Scale(bases, syms, {}, facts)
    for q, d in (("u_e(x)", SPEED), ("v_e(x)", SPEED), ("eta(x, y)", ONE_), ("u(x, y)", SPEED), ("v(x, y)", SPEED),
                 ("delta_d(x)", L), ("delta_m(x)", L), ("delta_k(x)", L), ("delta_s(x)", L), ("shape_d(x)", ONE_),
                 ("shape_k(x)", ONE_), ("tau_w(x, rho)", STRESS), ("dissipation(x, rho)", POWER)):
        judge(ck, sc, "C15.similarity", f"{cls}.{q}", s.q(f"s.{q}"), d, ck.at(cls, q.split("(")[0]), facts)


def run(ck):
    for bases in BASES if ck.tier != "quick" else BASES[:1]:
        for cls in LAMINAR:
            for fit in ("custom", "White") + (("Spline", "Drela", "Cebeci-Bradshaw") if ck.tier != "quick" else ()):
                for label, hist in SETUPS.items():
                    ck.unit(solver, cls, fit, hist, label, bases)
        for label, hist in HEAD_SETUPS.items():
            ck.unit(solver, "HeadMethod", None, hist, label, bases)
        ck.unit(conditions, bases)
        for cls in ANALYTIC:
            ck.unit(similarity, cls, bases)

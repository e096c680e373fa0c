"""C08: edge velocity, gradient and second derivative always belong together.

For every accepted form of the velocity the value graphs of u_e, du_e and
d2u_e are derived; the derivative of the first must be the second and the
derivative of the second the third, where the derivative of an interpolant or
of an object of the caller is the one it provides, and a difference formula
must be exact for linear (quadratic) velocities and accurate to its step."""

from sa import terms as T, ident
from sa.terms import mk, num, ZERO, ONE
from .common import *


# ------------------------------------------------------------ canonical form
def family(f):
    """(function, n): f is the n-th derivative of function."""
    if f.op == "call" and f.args[0].op == "attr" and f.args[0].args[1] in ("derivative", "antiderivative"):
        kind = f.args[0].args[1]
        n = 1
        for a in f.args[1:]:
            if a.op == "kw":
                a = a.args[1]
            if a.op != "num":
                return f, 0
            n = int(a.args[0])
        b, k = family(f.args[0].args[0])
        if kind == "derivative":
            return b, k + n
        if k <= 0:
            return b, k - n
        return mk("D", b, num(k)), -n
    if f.op == "D":
        return f.args[0], int(f.args[1].args[0])
    if f.op == "upd":
        z = mk("sym", "z0")
        v = shifted(f, z)
        if v is not None and z not in T.subterms(T.sub(v, call(f.args[0], z))):
            return mk("shift", f.args[0], T.sub(v, call(f.args[0], z))), 0
    return f, 0


def nth(b, n):
    return b if n == 0 else mk("D", b, num(n))


def shifted(f, z):
    """Value at z of an interpolant with changed coefficients, or None."""
    a, kv = f.args[0], f.args[1:]
    if len(kv) != 1 or kv[0].args[0].args[0] != "c" if kv and kv[0].args[0].op == "str" else True:
        if not (len(kv) == 1 and str(kv[0].args[0]) in ("c", "'c'")):
            return None
    new = kv[0].args[1]
    c = mk("attr", a, "c")
    if new.op != "store" or new.args[0] is not c:
        return None
    row = new.args[1]
    if row.op == "tuple":
        rest = [x for x in row.args[1:] if x.op == "num"]
        r = row.args[0]
    else:
        rest, r = [], row
    if r.op != "num":
        return None
    k = T.sub(new.args[2], mk("index", c, row))
    if rest:
        k = T.mul(k, call(T.mk("sym", "first_interval_only", "callable"), z))
    elif int(r.args[0]) != -1:
        k = T.mul(k, T.power(call(T.mk("sym", "local_coordinate", "callable"), z), num(3)))
    return T.add(call(a, z), k)


def canon_d(t):
    """Derivative chains of interpolants in one form."""
    if t is None:
        return None
    memo = {}

    def go(s):
        r = memo.get(s)
        if r is None:
            r = T.rebuild(s, go)
            if r.op == "call" and r.args[0].op == "upd":
                v = shifted(r.args[0], r.args[1])
                if v is not None:
                    r = go(v)
            if r.op == "call" and len(r.args) == 2:
                b, n = family(r.args[0])
                if b.op == "shift":
                    c, k = family(b.args[0])
                    v = call(nth(c, n + k), r.args[1])
                    r = T.add(v, b.args[1]) if n == 0 else v if n > 0 else r
                elif n:
                    r = call(nth(b, n), r.args[1])
            memo[s] = r
        return r
    return go(t)


def rule(t, go):
    if t.op == "call" and len(t.args) == 2:
        b, n = family(t.args[0])
        if b.op in ("sym", "call", "D"):
            return T.mul(call(nth(b, n + 1), t.args[1]), go(t.args[1]))
    return None


# --------------------------------------------------------------- differences
def stencil(ck, subject, site, got, fn, order, x):
    """got approximates the order-th derivative of fn by differences."""
    if got is None:
        return ck.open("C08.difference", subject, "no value")
    if not find(got, lambda s: s.op == "call" and s.args[0] is fn):
        return ck.bad("C08.difference", subject, site, f"{str(got)[:120]} does not use the velocity in force")
    for k in range(0, order + 1):
        v = subst_calls(got, fn, lambda z: T.power(z, num(k)) if k else ONE)
        want = num({0: 1, 1: 1, 2: 2}[order]) if k == order else ZERO
        ck.eq("C08.difference", f"{subject}, exact for power {k}", v, want, [], site)
    import math
    from fractions import Fraction as Q
    for k in range(order + 1, 6):
        for at in (Q(0), Q(1, 2), Q(-2)):
            v = T.subst(subst_calls(got, fn, lambda z: T.power(z, num(k))), {x: num(at)})
            want = Q(math.perm(k, order)) * at ** (k - order)
            s = f"{subject}, power {k} at {at}"
            if v.op != "num":
                ck.open("C08.difference", s, "not a number")
            elif abs(v.args[0] - want) > Q(1, 10000):
                ck.bad("C08.difference", s, site, f"gives {float(v.args[0])} instead of {float(want)}")
            else:
                ck.ok("C08.difference", s)
    # rounding of values of order one
    form, rest = T._linear(T.canon(got))
    if all(t.op == "call" and t.args[0] is fn for t in form):
        noise = float(sum(abs(c) for c in form.values())) * 2.0 ** -52
        if noise > 1e-4:
            ck.bad("C08.difference", subject + ", rounding", site, f"rounding of the velocity changes it by {noise:.1g}")
        else:
            ck.ok("C08.difference", subject + ", rounding")
    else:
        ck.open("C08.difference", subject + ", rounding", "not a sum of values of the velocity")


# --------------------------------------------------------------------- forms
class Form:
    def __init__(self, text, kind, with_deriv=None):
        self.text, self.kind, self.with_deriv = text, kind, with_deriv


FORMS = {
    "points": Form("(xs, us)", "points"),
    "list of points": Form("[xs, us]", "points"),
    "start value": Form("u0, (xs, us)", "start"),
    "start value, list": Form("u0, [xs, us]", "start"),
    "whole start value": Form("2, (xs, us)", "start2"),
    "function": Form("fe", "fd"),
    "function with derivatives": Form("fe", "own", ("fe",)),
    "function and slope": Form("fe, ge", "fd2"),
    "function and slope with derivative": Form("fe, ge", "own2", ("ge",)),
    "functions": Form("fe, ge, he", "given"),
    "functions by name": Form("u_e=fe, du_e=ge, d2u_e=he", "given"),
    "spline": Form("CubicSpline(xs, us)", "spline"),
    "function and slope spline": Form("fe, CubicSpline(xs, us)", "slopespline"),
}
NAMES = {"u_e": "U_e", "du_e": "dU_edx", "d2u_e": "d2U_edx2"}


def start(ck, cls):
    r = ck.run()
    nu = r.sym("nu", "float")
    r.positive(nu)
    env = dict(nu=nu, xs=r.sym("xs", "farray"), us=r.sym("us", "farray"), u0=r.sym("u0", "float"),
               x=r.sym("x", "float"), **{n: r.sym(n, "callable") for n in ("fe", "ge", "he")})
    r.exec(f"from {SOLVERS[cls]} import {cls} as M\nfrom scipy.interpolate import CubicSpline, PchipInterpolator\n"
           "m = M(nu)\n", **env)
    return r, env


def assume(r, env, form):
    for n in ("fe", "ge"):
        has = mk("hasattr", env[n], T.const_str("derivative"))
        if form.with_deriv and n in form.with_deriv:
            r.assume(has, mk("callable", mk("attr", env[n], "derivative")))
        else:
            r.assume(T.not_(has))


def triple(r, var="m"):
    out, facts = [], []
    for q in ("u_e", "du_e", "d2u_e"):
        f = r.fork()
        out.append(f.val(f"{var}.{q}(x)"))
        facts += list(f.st.facts)
    return out, facts


# not a velocity, and nothing the interpolation itself would refuse: must be an error, not something that fails or misleads later
INVALID = {"second derivative without the first": "fe, None, he", "a number for the first derivative": "fe, w",
           "points for the first derivative of a function": "fe, (xs, us)",
           "a number for the first of two derivatives": "fe, w, he", "points for the first of two derivatives": "fe, (xs, us), he",
           "numbers for both derivatives": "fe, w, w", "text for the first derivative": "fe, 'a'",
           "a number for the second derivative": "fe, ge, w", "points for the second derivative": "fe, ge, (xs, us)",
           "start value alone": "u0", "start value with one vector": "u0, (xs,)", "one vector": "(xs,)",
           "three vectors": "(xs, us, xs)",
           "a matrix of velocities": "([0.0, w], [[u0, u0], [u0, u0]])"}


def rejected(ck, cls, name):
    r, env = start(ck, cls)
    w = r.sym("w", "float")
    r.bind(w=w)
    site = ck.at(cls, "set_velocity")
    for text in (f"m.set_velocity({INVALID[name]})", f"m = M(nu, {INVALID[name]})"):
        f = r.fork()
        f.exec(text)
        subject = f"{cls}, {name}: {text.split('(')[0]}"
        if f.st.dead:
            ck.ok("C08.rejected", subject)
        elif ck.e.unknowns:
            ck.open("C08.rejected", subject, "unmodelled construct")
        elif ident.falsify(T.FALSE, list(f.st.facts), ck.tries, ck.seed) is None:
            ck.open("C08.rejected", subject, "a normal exit is not excluded")
        else:
            ck.bad("C08.rejected", subject, site, "accepted as an edge velocity")


def check(ck, cls, name):
    form = FORMS[name]
    r, env = start(ck, cls)
    assume(r, env, form)
    site = ck.at(cls, "set_velocity")
    r.exec(f"m.set_velocity({form.text})")
    subject = f"{cls}, velocity by {name}"
    if r.st.dead:
        return ck.bad("C08.accepted", subject, site, "this form of the velocity is rejected")
    raw, facts = triple(r)
    facts = [f for f in facts if f.op != "forall"]
    one(ck, subject, site, form, raw, facts, env)
    # the constructor means the same
    g, env = start(ck, cls)
    assume(g, env, form)
    text = form.text
    g.exec(f"m = M(nu, {text})" if "=" not in text else "m = M(nu, fe, ge, he)")
    if g.st.dead:
        ck.bad("C08.accepted", subject + " in the constructor", ck.at(cls, "__init__"), "this form of the velocity is rejected")
    else:
        new, fx = triple(g)
        for q, a, b in zip(("u_e", "du_e", "d2u_e"), new, raw):
            ck.eq("C08.constructor", f"{subject}: {q}", canon_d(a), canon_d(b), fx, ck.at(cls, "__init__"))


def one(ck, subject, site, form, raw, facts, env):
    u, du, d2 = (canon_d(v) for v in raw)
    x, fe, ge, he = (env[n] for n in ("x", "fe", "ge", "he"))
    kind = form.kind
    P = call(mk("ext", "scipy.interpolate.PchipInterpolator"), env["xs"], env["us"])
    C = call(mk("ext", "scipy.interpolate.CubicSpline"), env["xs"], env["us"])
    rule_ = "C08.velocity"
    if kind == "points":
        # monotone interpolation through exactly the points given
        b = find(u, lambda s: s.op == "call" and s.args[0].op == "ext" and "interpolate" in s.args[0].args[0]) if u is not None else []
        if len(b) == 1:
            ck.eq(rule_, subject + ", points used", mk("tuple", *b[0].args[1:3]), mk("tuple", env["xs"], env["us"]), facts, site)
            ck.eq(rule_, subject, u, call(b[0], x), facts, site)
        else:
            ck.open(rule_, subject, "no single interpolant")
    elif kind in ("start", "start2"):
        b = find(du, lambda s: s.op == "call" and s.args[0].op == "ext" and "interpolate" in s.args[0].args[0]) if du is not None else []
        u0 = env["u0"] if kind == "start" else num(2)
        if len(b) == 1:
            ck.eq(rule_, subject + ", slope points used", mk("tuple", *b[0].args[1:3]), mk("tuple", env["xs"], env["us"]), facts, site)
            ck.eq(rule_, subject + ", slope", du, call(b[0], x), facts, site)
            # the antiderivative vanishes at the first point
            ck.eq(rule_, subject + ", velocity", u, T.add(call(nth(b[0], -1), x), u0), facts, site)
        else:
            ck.open(rule_, subject, "no single interpolant of the slope")
    elif kind == "spline":
        ck.eq(rule_, subject, u, call(C, x), facts, site)
    else:
        ck.eq(rule_, subject, u, call(fe, x), facts, site)
    if kind in ("points", "start", "start2", "spline", "own"):
        ck.eq("C08.derivative", subject + ", du_e", du, None if u is None else T.diff(u, x, rule), facts, site)
        ck.eq("C08.derivative", subject + ", d2u_e", d2, None if du is None else T.diff(du, x, rule), facts, site)
    elif kind == "fd":
        du, d2 = (T.assume(v, facts) if v is not None else None for v in (du, d2))
        stencil(ck, subject + ", du_e", site, du, fe, 1, x)
        if d2 is not None and du is not None:
            stencil(ck, subject + ", d2u_e", site, d2, fe, 2, x)
    elif kind in ("fd2", "own2", "slopespline"):
        g = ge if kind != "slopespline" else C
        ck.eq("C08.given", subject + ", du_e", du, call(g, x), facts, site)
        if kind == "fd2":
            stencil(ck, subject + ", d2u_e", site, T.assume(d2, facts) if d2 is not None else None, ge, 1, x)
        else:
            ck.eq("C08.derivative", subject + ", d2u_e", d2, call(nth(g, 1), x), facts, site)
    elif kind == "given":
        ck.eq("C08.given", subject + ", du_e", du, call(ge, x), facts, site)
        ck.eq("C08.given", subject + ", d2u_e", d2, call(he, x), facts, site)


def replaced(ck, cls, first, second):
    """After a second velocity nothing of the first is left."""
    f1, f2 = FORMS[first], FORMS[second]
    subject = f"{cls}, velocity by {first} then {second}"
    r, env = start(ck, cls)
    assume(r, env, f2)
    fresh = r.fork()
    fresh.exec(f"m.set_velocity({f2.text})")
    other = {n: r.sym(n + "_old", "callable" if n in ("fe", "ge", "he") else "farray" if n in ("xs", "us") else "float")
             for n in ("fe", "ge", "he", "xs", "us", "u0")}
    h = r.fork()
    h.exec(f"m.set_velocity({f1.text})", **other)
    h.exec("m.u_e(x)\nm.du_e(x)\nm.d2u_e(x)")
    h.exec(f"m.set_velocity({f2.text})", **{n: env[n] for n in other})
    if h.st.dead or fresh.st.dead:
        return ck.open("C08.replaced", subject, "no normal end")
    a, fa = triple(h)
    b, fb = triple(fresh)
    for q, x, y in zip(("u_e", "du_e", "d2u_e"), a, b):
        ck.eq("C08.replaced", f"{subject}: {q}", x, y, [f for f in fa + fb if f.op != "forall"], ck.at(cls, "set_velocity"))


def run(ck):
    for cls in SOLVERS:
        for name in FORMS:
            ck.unit(check, cls, name)
        for name in INVALID:
            ck.unit(rejected, cls, name)
    cls = "ThwaitesMethodLinear"
    keys = ("points", "start value", "function", "function and slope", "functions", "spline")
    for a in keys:
        for b in keys:
            ck.unit(replaced, cls, a, b)

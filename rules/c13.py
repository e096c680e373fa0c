"""C13: fits and closures are only evaluated where they are defined.

A fit with symbolic range evaluates the caller's relations exactly at the argument
limited to the range, element by element; every power, quotient, logarithm and
interpolation in the value graphs of the built-in relations, the right-hand
sides and the events is shown to stay inside its domain by interval analysis
under the gates that lead to it."""

from sa import terms as T, ident
from sa.terms import mk, num, ZERO, ONE
from . import catalog
from .common import *

FITCLS = ("White", "CebeciBradshaw", "Drela", "Spline")
RELATIONS = ("shape", "shape_p", "shear", "f")


# ---------------------------------------------------------------- limiting
def limited(ck):
    """Relations of the caller with a declared range."""
    r = ck.run()
    S_, H, Hp = (r.sym(n, "callable") for n in ("S", "H", "Hp"))
    lo, hi, a, b = (r.sym(n, "float") for n in ("lo", "hi", "a", "b"))
    r.assume(T.lt(lo, hi))
    r.exec("from ibl.thwaites_method import _ThwaitesFunctions as F\nf = F('n', S, H, Hp, lo, hi)",
           S=S_, H=H, Hp=Hp, lo=lo, hi=hi)
    if r.st.dead:
        return ck.open("C13.limit", "fit by functions", "cannot be constructed")
    lim = lambda t: T.ite(T.lt(t, lo), lo, T.ite(T.lt(hi, t), hi, t))    # noqa
    facts = list(r.st.facts)
    for q, fn in (("shape", H), ("shape_p", Hp), ("shear", S_)):
        site = ck.at("_ThwaitesFunctions", q)
        ck.eq("C13.limit", f"fit by functions, {q}(scalar)", r.fork().val(f"f.{q}(a)", a=a), call(fn, lim(a)), facts, site)
        w = r.fork()
        w.exec(f"v = f.{q}(np.array([a, b]))", a=a, b=b)
        for i, t in enumerate((a, b)):
            ck.eq("C13.limit", f"fit by functions, {q}(array)[{i}]", w.fork().val(f"v[{i}]"), call(fn, lim(t)), facts, site)
        within = facts + [T.le(lo, a), T.le(a, hi)]
        ck.eq("C13.inside", f"fit by functions, {q}", r.fork().val(f"f.{q}(a)", a=a), call(fn, a), within, site)
    ck.eq("C13.range", "fit by functions", r.fork().val("f.range()"), mk("tuple", lo, hi), facts,
          ck.at("_ThwaitesFunctions", "range"))


def ranges(ck, name):
    """A built-in fit gives the same value beyond its range as at the limit."""
    cls = "_ThwaitesFunctions" + name
    r = ck.run()
    x = r.sym("x", "float")
    r.exec(f"from ibl.thwaites_method import {cls} as F\nf = F()")
    rng = r.fork().val("f.range()")
    if rng is None or rng.op not in ("tuple", "seq") or len(rng.args) != 2:
        return ck.open("C13.range", name, "range not followed")
    lo, hi = rng.args
    for q in ("shape", "shape_p", "shear"):
        v = r.fork().val(f"f.{q}(x)", x=x)
        site = ck.at(cls, q)
        for what, at, fact in (("below", lo, T.lt(x, lo)), ("above", hi, T.lt(hi, x))):
            if at.op != "num":
                continue
            ck.eq("C13.limit", f"{name}.{q} {what} the range", v, r.fork().val(f"f.{q}(x)", x=at), [fact], site)
    for q in RELATIONS:
        domain(ck, f"{name}.{q}(x)", r.fork().val(f"f.{q}(x)", x=x), [], ck.at(cls, q))


# ------------------------------------------------------------------ domain
def domain(ck, subject, term, facts, site):
    """Every operation of the term is inside its domain under the facts."""
    if term is None:
        return ck.open("C13.domain", subject, "no value")
    seen = set()
    good, undecided = 0, []

    def need(cond, facts, what, t):
        nonlocal good
        if (cond, facts) in seen:
            return
        seen.add((cond, facts))
        fs = list(facts)
        if T.prove(cond, fs, 2) is True or by_cases(cond, fs):
            good += 1
            return
        bad = ident.falsify(cond, fs, ck.tries, ck.seed)
        if bad is None:
            undecided.append(f"{what} {str(t)[:80]}")
            return
        ck.bad("C13.domain", subject, site, f"{what}: {str(t)[:200]}",
               {"point": ident.describe(bad[0], (cond,) + tuple(fs))})

    done = set()

    def go(t, facts):
        if (t, facts) in done:
            return
        done.add((t, facts))
        o = t.op
        if o in ("ite", "where"):
            c, a, b = t.args
            go(c, facts)
            for lit, x in ((c, a), (T.not_(c), b)):
                f2 = facts | (frozenset(lit.args) if lit.op == "and" else {lit})
                if T.prove(lit, list(facts), 1) is not True and \
                        (T.contradiction(f2) or T.prove(T.not_(lit), list(facts), 1) is True):
                    continue
                go(x, frozenset(f2))
            return
        for a in t.args:
            if isinstance(a, T.Term):
                go(a, facts)
        if o == "pow":
            b, e = t.args
            if e.op == "num" and e.args[0].denominator == 1:
                if e.args[0] < 0 and b.op != "num":
                    need(T.not_(T.eq(b, ZERO)), facts, "divides by zero", b)
            elif b.op == "num":
                pass
            elif e.op == "num" and e.args[0] > 0:
                need(T.le(ZERO, b), facts, "fractional power of a negative number", b)
            else:
                need(T.lt(ZERO, b), facts, "fractional power of a number that is not positive", b)
        elif o == "log":
            if t.args[0].op != "num":
                need(T.lt(ZERO, t.args[0]), facts, "logarithm of a number that is not positive", t.args[0])
        elif o == "call" and spline(t.args[0]) is not None and len(t.args) == 2:
            xs = spline(t.args[0])
            if xs.op == "seq" and xs.args and t.args[1].op != "seq":
                need(T.and_(T.le(xs.args[0], t.args[1]), T.le(t.args[1], xs.args[-1])), facts,
                     "interpolant evaluated beyond its points", t.args[1])

    go(term, frozenset(facts))
    if undecided:
        ck.open("C13.domain", subject, "; ".join(undecided[:3]))
    elif not any(v.site.startswith(subject + " [") for v in ck.violations):
        ck.ok("C13.domain", subject)


def by_cases(cond, facts):
    try:
        for asm, (c,) in T.cases((cond,), facts, 128):
            if T.prove(c, list(facts) + list(asm), 1) is not True:
                return False
    except T.TooBig:
        return False
    return True


def spline(f):
    """Points of the interpolant a callable is made of."""
    while f.op == "call" and f.args[0].op == "attr" and f.args[0].args[1] in ("derivative", "antiderivative"):
        f = f.args[0].args[0]
    if f.op == "call" and f.args[0].op == "ext" and f.args[0].args[0].split(".")[-1] in (
            "CubicSpline", "PchipInterpolator", "Akima1DInterpolator", "InterpolatedUnivariateSpline"):
        return f.args[1]
    return None


# ----------------------------------------------------------------- closures
def turbulent(ck):
    r = ck.run()
    r.exec("from ibl.head_method import HeadMethod as M")
    x = r.sym("x", "float")
    for q in ("_shape_entrainment", "_shape_entrainment_p", "_shape_d", "_entrainment_velocity"):
        v = r.fork().val(f"M.{q}(x)", x=x)
        if v is None:
            continue
        domain(ck, f"HeadMethod.{q}", v, [], ck.at("HeadMethod", q))
    r.exec("from ibl.skin_friction import ludwieg_tillman, felsch")
    re = r.sym("re", "float")
    for q in ("ludwieg_tillman", "felsch"):
        domain(ck, q, r.fork().val(f"{q}(re, x)", re=re, x=x), [T.lt(ZERO, re)], f"ibl/skin_friction.py ({q})")
    v = r.fork().val("felsch(re, x)", re=re, x=x)
    if v is not None:
        # constant beyond its limits, and zero at the upper one
        lo, hi = (r.fork().val("felsch(re, x)", re=re, x=num(c)) for c in ("0.5", "4"))
        site = "ibl/skin_friction.py (felsch)"
        ck.eq("C13.limit", "felsch below one", v, lo, [T.lt(ZERO, re), T.lt(x, ONE)], site)
        ck.eq("C13.limit", "felsch beyond separation", v, hi, [T.lt(ZERO, re), T.lt(num(3), x)], site)
    w = r.fork().val("white(re, x)", re=re, x=x) if r.fork().exec("from ibl.skin_friction import white") else None
    f = r.fork()
    f.exec("from ibl.skin_friction import white")
    domain(ck, "white", f.val("white(re, x)", re=re, x=x), [T.lt(ONE, re)], "ibl/skin_friction.py (white)")


def equations(ck, cls, fit):
    """Right-hand side and event as called by the integrator, and the queries."""
    from .c01 import integrations, kws, items
    m = Model(ck, cls, fit)
    name = f"{cls}({fit})" if fit else cls
    rec = integrations(m.r)
    if len(rec) != 1:
        return ck.open("C13.domain", name, "integration not found")
    kw = kws(rec[0])
    x, s0, s1 = m.r.sym("xx", "float"), m.r.sym("s0", "float"), m.r.sym("s1", "float")
    f = mk("seq", s0) if cls in LAMINAR else mk("seq", s0, s1)
    u = call(m.ue, x)
    facts = [T.lt(ZERO, s0), T.lt(ZERO, m.nu), T.lt(ZERO, u)]
    g = m.r.fork()
    domain(ck, f"{name}, right-hand side", component(g, "rhs(x, f)", x=x, f=f, rhs=kw.get("fun")), facts, ck.at(cls, "_ode_impl"))
    for i, e in enumerate(items(kw.get("events"))[0]):
        g = m.r.fork()
        domain(ck, f"{name}, event {i}", g.val("ev(x, f)", x=x, f=f, ev=e), facts, ck.at(cls, "solve"))
    for q in ("shape_d(x)", "tau_w(x, rho)"):
        g = m.r.fork()
        g.exec("d = m.delta_m(x)", x=x)
        v = m.r.fork().val(f"m.{q}", x=x, rho=m.rho)
        sol = find(v, lambda t: t.op == "index" and t.args[0].op == "call" and t.args[0].args[0].op == "attr"
                   and t.args[0].args[0].args[1] == "sol" and t.args[1] is ZERO) if v is not None else []
        domain(ck, f"{name}.{q}", v, [T.lt(ZERO, s) for s in sol] + facts, ck.at(cls, q.split("(")[0]))


def component(g, text, **env):
    v = g.val(text, **env)
    return v


def run(ck):
    ck.unit(limited)
    for n in FITCLS:
        ck.unit(ranges, n)
    ck.unit(turbulent)
    for cls in SOLVERS:
        for fit in (("custom",) + FITS if cls in LAMINAR else (None,)):
            ck.unit(equations, cls, fit)

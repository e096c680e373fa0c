"""C12: closure relations agree with their derivatives and inverses.

Value graphs of the shape relation are differentiated symbolically and compared
with the slope relation over the whole declared range (break points included);
the entrainment relation, its slope and its inverse are compared piece by piece
and at the break."""

from sa import terms as T, ident
from sa.terms import mk, num, ZERO, ONE
from .common import *
from .c08 import canon_d, rule, stencil

NAMES = {"White": "White", "CebeciBradshaw": "Cebeci-Bradshaw", "Drela": "Drela", "Spline": "Spline"}


def fit_rule(t, go):
    return rule(t, go)


def builtin(ck, cls_name):
    cls = "_ThwaitesFunctions" + cls_name
    r = ck.run()
    x = r.sym("x", "float")
    r.exec(f"from ibl.thwaites_method import {cls} as F\nf = F()")
    relations(ck, r, "f", cls, f"fit {cls_name}", x)


def chosen(ck, cls, name):
    """The relations a solver holds after choosing a fit by name."""
    m = Model(ck, cls, None, solved=False)
    m.r.exec(f"m.set_data_fits({name!r})\nf = m._model")
    if m.r.st.dead:
        return ck.bad("C12.chosen", f"{cls}({name})", ck.at(cls, "set_data_fits"), "the fit cannot be chosen")
    relations(ck, m.r, "f", cls, f"{cls}({name})", m.r.sym("x", "float"))


def relations(ck, r, var, cls, subject, x):
    def q(text):
        return r.fork().val(f"{var}.{text}", x=x)
    rng = q("range()")
    site = ck.at(cls, "__init__")
    if rng is None or rng.op not in ("tuple", "seq"):
        return ck.open("C12.slope", subject, "range not followed")
    lo, hi = rng.args
    facts = [T.lt(lo, x), T.lt(x, hi)]
    shape, slope, shear, f = (canon_d(q(t)) for t in ("shape(x)", "shape_p(x)", "shear(x)", "f(x)"))
    if shape is not None:
        want = T.diff(T.assume(shape, facts), x, fit_rule)
        ck.eq("C12.slope", subject, slope, want, facts, site)
    else:
        ck.open("C12.slope", subject, "no shape relation")
    if shape is not None and shear is not None:
        want = T.mul(num(2), T.sub(shear, T.mul(x, T.add(shape, num(2)))))
        ck.eq("C12.f", subject, f, want, facts, ck.at(cls, "f") if cls.startswith("_") else site)


def users(ck, cls):
    m = Model(ck, cls, "custom", solved=False)
    r, x = m.r, m.r.sym("x", "float")
    for q, fn in (("shape", m.shape), ("shape_p", m.shape_p), ("shear", m.shear)):
        v = r.fork().val(f"m._model.{q}(x)", x=x)
        ck.eq("C12.user", f"{cls} user fit, {q}", v, call(fn, x), [], ck.at(cls, "set_data_fits"))
    v = r.fork().val("m._model.f(x)", x=x)
    want = T.mul(num(2), T.sub(call(m.shear, x), T.mul(x, T.add(call(m.shape, x), num(2)))))
    ck.eq("C12.f", f"{cls} user fit", v, want, [], ck.at("_ThwaitesFunctions", "f"))
    for hist in ("", "m.set_data_fits('White')\nm.set_data_fits((S, H))"):
        m = Model(ck, cls, "custom2", solved=False)
        r, x = m.r, m.r.sym("x", "float")
        r.exec(hist, S=m.shear, H=m.shape)
        v = r.fork().val("m._model.shape_p(x)", x=x)
        stencil(ck, f"{cls} user fit without slope" + (" (again)" if hist else ""), ck.at(cls, "set_data_fits"), v, m.shape, 1, x)
        v = r.fork().val("m._model.f(x)", x=x)
        want = T.mul(num(2), T.sub(call(m.shear, x), T.mul(x, T.add(call(m.shape, x), num(2)))))
        ck.eq("C12.f", f"{cls} user fit without slope", v, want, [], ck.at("_ThwaitesFunctions", "f"))


def tables(ck):
    """The tabulated fit: F column against the shear and shape columns."""
    r = ck.run()
    r.exec("from ibl.thwaites_method import _ThwaitesFunctionsSpline as F\nf = F()")
    cols = {q: r.fork().val(f"f.{q}") for q in ("lambda_values", "shear_values", "shape_values", "f_values")}
    site = ck.at("_ThwaitesFunctionsSpline", "f_values")
    if any(v is None or v.op != "seq" or any(a.op != "num" for a in v.args) for v in cols.values()):
        return ck.open("C12.tables", "spline fit", "tables not followed")
    lam, S, H, F = ([a.args[0] for a in cols[q].args] for q in ("lambda_values", "shear_values", "shape_values", "f_values"))
    if not len(lam) == len(S) == len(H) == len(F):
        return ck.bad("C12.tables", "spline fit", site, "columns of different length")
    if any(b <= a for a, b in zip(lam, lam[1:])):
        return ck.bad("C12.tables", "spline fit", site, "parameter column is not increasing")
    for i, (l, s, h, f) in enumerate(zip(lam, S, H, F)):
        want = 2 * (s - l * (h + 2))
        # the columns are rounded to three decimals
        if abs(want - f) * 1000 > 1:
            ck.bad("C12.tables", f"spline fit, row {i}", site, f"F is {float(f)} but the row implies {float(want)}")
        else:
            ck.ok("C12.tables", f"spline fit, row {i}")
    # the splines go through the table
    m = r.sym("x", "float")
    for q, col in (("shape", "shape_values"), ("shear", "shear_values")):
        v = r.fork().val(f"f.{q}(x)", x=m)
        b = find(v, lambda t: t.op == "call" and t.args[0].op == "ext" and "interpolate" in t.args[0].args[0]) if v is not None else []
        if len(b) != 1:
            ck.open("C12.tables", f"spline fit, {q}", "no single interpolant")
            continue
        ck.eq("C12.tables", f"spline fit, {q} through the table", mk("tuple", *b[0].args[1:3]),
              mk("tuple", cols["lambda_values"], cols[col]), [], ck.at("_ThwaitesFunctionsSpline", "__init__"))


def entrainment(ck):
    cls = "HeadMethod"
    r = ck.run()
    h, g = r.sym("h", "float"), r.sym("g", "float")
    r.exec("from ibl.head_method import HeadMethod as M")
    H1 = r.fork().val("M._shape_entrainment(h)", h=h)
    inv = r.fork().val("M._shape_d(g)", g=g)
    if H1 is None or inv is None:
        return ck.open("C12.entrainment", cls, "relations not found")
    slope = None
    try:
        slope = r.fork().val("M._shape_entrainment_p(h)", h=h)
    except Exception:                                   # noqa
        pass
    low = T.lt(num("1.1"), h)
    pieces = {"low": [low, T.lt(h, num("1.6"))], "high": [T.lt(num("1.6"), h)], "at the break": None}
    site = ck.at(cls, "_shape_entrainment")
    for name, facts in pieces.items():
        if facts is None:
            continue
        v = T.assume(H1, facts)
        if slope is not None:
            ck.eq("C12.entrainment", f"slope, {name}", T.assume(slope, facts), T.diff(v, h), facts,
                  ck.at(cls, "_shape_entrainment_p"))
    # same break of relation and slope: the same conditions decide the pieces
    if slope is not None:
        ck.eq("C12.entrainment", "slope, all", slope, T.diff(H1, h, lambda t, go: None) if not steps(H1) else
              piecewise_diff(H1, h), [low], ck.at(cls, "_shape_entrainment_p"))
    # inverse of each piece
    site = ck.at(cls, "_shape_d")
    brk = value(T.subst(H1, {h: num("1.6")}))
    if brk is None:
        return ck.open("C12.inverse", cls, "no value at the break")
    B = num(str(brk.quantize(ident.D("1e-9"))))
    for name, gf, hf in (("low", [T.lt(T.add(B, num("1e-6")), g)], pieces["low"]),
                         ("high", [T.lt(num("3.33"), g), T.lt(g, T.sub(B, num("1e-6")))], pieces["high"])):
        back = decided(inv, gf)
        fwd = decided(H1, hf)
        ck.eq("C12.inverse", f"piece {name}", T.subst(back, {g: fwd}), h, hf, site)
    for at in ("1.11", "1.2", "1.4", "1.59", "1.599999", "1.6", "1.600001", "1.61", "1.8", "2.4", "3", "5"):
        v = value(T.subst(T.subst(inv, {g: H1}), {h: num(at)}))
        if v is None:
            ck.open("C12.inverse", f"at {at}", "no number")
        elif abs(v - ident.D(at)) > ident.D("1e-6"):
            ck.bad("C12.inverse", f"at {at}", site, f"inverse of the relation at {at} gives {v:.8f}")
        else:
            ck.ok("C12.inverse", f"at {at}")


def decided(t, facts):
    """t with every gate removed whose condition the facts settle."""
    def go(t):
        if not T.hasbool(t):
            return t
        t = T.rebuild(t, go)
        if t.op in ("ite", "where"):
            c, a, b = t.args
            n = numeric(c)
            if T.prove(n, facts):
                return a
            if T.prove(T.not_(n), facts):
                return b
        return t
    return go(T.assume(t, facts))


def numeric(t):
    """t with its constant subexpressions evaluated."""
    if t.op != "num" and t.op in ("add", "mul", "pow") and not any(s.op in ("sym", "call") for s in T.subterms(t)):
        v = value(t)
        return t if v is None else num(str(v.quantize(ident.D("1e-12"))))
    return T.rebuild(t, numeric)


def steps(t):
    return any(s.op in ("ite", "where", "maskset") for s in T.subterms(t))


def piecewise_diff(t, x):
    return T.diff(t, x)


def value(t):
    """Number denoted by a term without inputs."""
    try:
        p = ident.Point(1, {})
        return p.num(t)
    except Exception:                                   # noqa
        return None


def run(ck):
    for c in NAMES:
        ck.unit(builtin, c)
    for cls in LAMINAR:
        for n in NAMES.values():
            ck.unit(chosen, cls, n)
        ck.unit(users, cls)
    ck.unit(tables)
    ck.unit(entrainment)

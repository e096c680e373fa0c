"""C18: XFoil data accessors report the same consistent surfaces.

Accessors: the value of every vector accessor is compared with the records the object
gives out one by one, for loaded files and for surfaces of any length.  Loading: files of symbolic lines in
small shapes (lines before and after the stagnation point, wake, header, a point at
rest), the columns being symbols; every field of every record is compared with its own
column; records of different places are different objects."""

from sa import terms as T, seqs as S
from sa.terms import mk, num, ZERO, ONE
from .common import *
from .catalog import XF_ALL, XF_SURF

COLS = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d", "shape_k", "mom_defect", "mass_defect", "ke_defect")
WAKE = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", None, "shape_d")
FLIP = ("u_e_rel", "mass_defect", "ke_defect")
LIMITS = {"s": T.le, "delta_d": T.le, "delta_m": T.le, "c_f": T.le, "shape_d": T.lt, "shape_k": T.lt}
INTERPOLATED = ("y", "delta_d", "delta_m", "c_f", "shape_d", "shape_k", "mom_defect")
RECORD = {"u_e": "p.u_e_rel", "delta_k": "p.shape_k * p.delta_m"}
# shapes: (points on the upper side, on the lower side, wake points, header, last upper point at rest)
SHAPES = ((1, 1, 0, True, False), (2, 2, 2, True, False), (2, 3, 1, False, False), (3, 2, 3, True, False),
          (2, 2, 0, False, True), (3, 1, 2, True, True), (1, 2, 1, False, True))
MORE = tuple((a, b, w, h, z) for a in (1, 2, 3, 4) for b in (1, 2, 4) for w in (0, 1, 4) for h in (True, False)
             for z in (True, False))


def vectors():
    for side in ("upper", "lower", "wake"):
        for q in XF_ALL + (XF_SURF if side != "wake" else []):
            yield f"{q}_{side}", q, side


def opened(ck, r):
    """The same object holding surfaces of any length: every list of point records
    it holds is replaced by an open list of such records."""
    r = r.fork()
    todo, seen, lists = [r.var("m")], set(), []
    while todo:
        t = todo.pop()
        o = r.st.heap.get(t.args[0]) if t is not None and t.op == "ref" else None
        if o is None or t in seen:
            continue
        seen.add(t)
        v = o.f.get("v") if o.kind == "list" else None
        if v is not None and v.op == "seq" and v.args and all(x.op == "ref" for x in v.args):
            kinds = {getattr(r.st.heap[x.args[0]], "cls", None) for x in v.args}
            c = kinds.pop()
            if not kinds and c is not None and c.name in ("XFoilAirfoilData", "XFoilWakeData"):
                s = r.sym(f"points{len(lists)}", "list", elem=c)
                r.st.heap[t.args[0]] = o.set("v", s)
                lists.append(s)
                continue
        todo += [x for f in o.f.values() if f is not None for x in T.subterms(f) if x.op == "ref"]
    return r, lists


def accessors(ck):
    b = load(ck, (3, 2, 3, True, False))
    c = load(ck, (2, 4, 2, False, True))
    if b is None:
        return ck.open("C18.accessor", "load", "no normal exit")
    u = b[0].sym("u_ref", "float")
    b[0].positive(u)
    b[0].exec("m.u_ref = u", u=u)
    if c is not None:
        c[0].positive(u)
        c[0].exec("m.u_ref = u", u=u)
    r, lists = opened(ck, b[0])
    runs = [(r, "any number of points"), (b[0], "3 + 2 points, 3 in the wake")]
    if c is not None:
        runs.append((c[0], "2 + 4 points, 2 in the wake"))
    empty = ck.run()
    empty.exec("from ibl.reference import XFoilReader\nm = XFoilReader()")
    bare = load(ck, SHAPES[0])
    for name, q, side in vectors():
        site = ck.at("XFoilReader", name)
        for run, tag in ((b[0], ""), (empty, " without data")) + (((bare[0], " without wake"),) if bare else ()):
            array(ck, "C18.array", f"XFoilReader.{name}{tag}", site, run, f"m.{name}()")
        for run, tag in runs:
            v = lambda t: run.fork().val(t)     # noqa
            got = v(f"m.{name}()")
            subject = f"XFoilReader.{name} ({tag})"
            if got is None:
                ck.bad("C18.accessor", subject, site, "no value")
                continue
            form, scale = RECORD.get(q, "p." + q), "m.u_ref * " if q == "u_e" else ""
            want = v(f"{scale}np.array([{form} for p in [m.{side}(i) for i in range(m.{side}_count())]])")
            if run is r:
                if any(x in lists for x in T.subterms(got)):
                    ck.eq("C18.accessor", subject, got, want, list(run.st.facts), site)
            else:
                same(ck, "C18.accessor", subject, got, want, run, site)
    for side in ("upper", "lower", "wake"):
        n = dict(upper=4, lower=3, wake=3)[side]
        for run, tag in runs[:2]:
            site = ck.at("XFoilReader", f"{side}_count")
            got = run.fork().val(f"m.{side}_count()")
            if run is not r:
                ck.eq("C18.load", f"XFoilReader.{side}_count ({tag})", got, num(n), list(run.st.facts), site)
            elif not any(x in lists for x in T.subterms(got)):
                continue
            ck.eq("C18.accessor", f"XFoilReader.{side}_count ({tag})", got, run.fork().val(f"len(m.s_{side}())"),
                  list(run.st.facts), site)


def names(shape, tag=""):
    nu, nl, nw, header, rest = shape
    return ([f"H{tag}"] if header else []), [f"A{tag}{i}" for i in range(nu + nl)], [f"W{tag}{i}" for i in range(nw)]


def model(ck, r, shape, fname, tag=""):
    """Bind a file of symbolic lines; returns (airfoil columns, wake columns)."""
    nu, nl, nw, header, rest = shape
    hs, ls, ws = names(shape, tag)
    env = {n: r.sym(n, "str") for n in hs + ls + ws}
    r.bind(**env)
    fn = r.sym(fname, "str")
    r.assume(T.not_(T.eq(T.const_str(""), fn)))
    r.bind(**{fname: fn})
    hash_ = T.const_str("#")
    size = lambda t: S.length(t)     # noqa
    for n in hs + ls + ws:
        t = env[n]
        ck.e.bodies.add(t)
        wide = n not in ws
        r.assume(T.le(num(100), size(t)) if wide else T.lt(size(t), num(78)))
        r.assume(T.lt(ZERO, size(t)))
        r.assume(T.not_(T.eq(t, T.const_str(""))))
        first = T.eq(mk("index", t, ZERO), hash_)
        r.assume(first if n in hs else T.not_(first))
    col = {}
    for n, k in [(n, 12) for n in ls] + [(n, 8) for n in ws]:
        toks = r.fork().val(f"{n}.split()")
        r.assume(T.eq(S.length(toks), num(k)))
        col[n] = [r.fork().val(f"float({n}.split()[{i}])") for i in range(k)]
        for i, q in enumerate(COLS if k == 12 else WAKE):
            if q in LIMITS:
                r.assume(LIMITS[q](ZERO, col[n][i]))
    for a, b in zip(ls, ls[1:]):
        r.assume(T.lt(col[a][0], col[b][0]))
    for a, b in zip(ws, ws[1:]):
        r.assume(T.lt(col[a][0], col[b][0]))
    for i, n in enumerate(ls):
        u = col[n][3]
        if i < nu - 1 or i == nu - 1 and not rest:
            r.assume(T.lt(ZERO, u))
        elif i == nu - 1:
            r.assume(T.eq(u, ZERO))
        else:
            r.assume(T.lt(u, ZERO))
    plain(r, [col[n] for n in ls], [col[n] for n in ws], shape)
    ck.e.files[fn] = mk("seq", *[mk("fmt", env[n], T.const_str("\n")) for n in hs + ls + ws])
    return [col[n] for n in ls], [col[n] for n in ws]


def plain(r, a, w, shape):
    """Independent symbols behind the columns: what holds of the columns holds
    of every choice of positive symbols."""
    nu, nl, nw, header, rest = shape
    sub = r.plain if hasattr(r, "plain") else {}
    n0 = len(sub)
    for rows, names_ in ((a, COLS), (w, WAKE)):
        total = ZERO
        for i, c in enumerate(rows):
            for q, t in zip(names_, c):
                p = r.sym(f"{q or 'c_f'}_{n0}_{len(sub)}", "float")
                if q != "y" and q != "x":
                    r.positive(p)
                if q == "s":
                    total = T.add(total, p)
                    p = total
                elif q == "u_e_rel" and rows is a:
                    p = ZERO if i == nu - 1 and rest else T.neg(p) if i >= nu else p
                sub[t] = p
    r.plain = sub


def same(ck, rule, subject, got, want, r, site):
    """Comparison in terms of those symbols."""
    sub = r.plain
    if got is not None and any(s.op in ("unk", "opq", "find", "nextor", "rest") for s in T.subterms(got)):
        return ck.open(rule, subject, "not followed")
    fs = [T.subst(f, sub) for f in r.st.facts]
    fs = [f for f in fs if f is not T.TRUE and all(s.op not in ("split", "len", "index", "str") for s in T.subterms(f))]
    ck.eq(rule, subject, None if got is None else T.subst(got, sub), T.subst(want, sub), fs, site)


def load(ck, shape):
    r = ck.run()
    r.exec("from ibl.reference import XFoilReader")
    a, w = model(ck, r, shape, "fa")
    r.exec("m = XFoilReader(fa)")
    return None if r.st.dead else (r, a, w)


def text(shape):
    nu, nl, nw, header, rest = shape
    return f"{nu} + {nl} points{', the last upper one at rest' if rest else ''}, {nw} in the wake{', header' if header else ''}"


def loaded(ck, shape):
    r = ck.run()
    r.exec("from ibl.reference import XFoilReader")
    a, w = model(ck, r, shape, "fa")
    r.exec("m = XFoilReader(fa)")
    records(ck, r, shape, a, w, text(shape))


def reload(ck, first, shape):
    """A later load replaces everything."""
    r = ck.run()
    r.exec("from ibl.reference import XFoilReader")
    model(ck, r, first, "fb", "b")
    a, w = model(ck, r, shape, "fa")
    p, q = r.sym("p", "float"), r.sym("q", "float")
    r.positive(p, q)
    r.exec("m = XFoilReader(fb)\nm.u_ref = p\nm.c = p\nm.reynolds = p\nm.n_trans = p\nm.alpha = q\nm.name = 'n'\n"
           "m.x_trans_upper = q\nm.x_trans_lower = q", p=p, q=q)
    r.exec("m.filename = fa\nfresh = XFoilReader(fa)")
    tag = f"{text(shape)} after {text(first)}"
    if not r.st.dead:
        for n in ("name", "alpha", "u_ref", "c", "reynolds", "n_trans", "x_trans_upper", "x_trans_lower", "filename"):
            ck.eq("C18.replace", f"XFoilReader.{n}: {tag}", r.fork().val(f"m.{n}"), r.fork().val(f"fresh.{n}"),
                  list(r.st.facts), ck.at("XFoilReader", "filename"))
    records(ck, r, shape, a, w, tag)
    # nothing left after unloading
    f = r.fork()
    f.exec("m.filename = ''")
    if not f.st.dead:
        for side in ("upper", "lower", "wake"):
            ck.eq("C18.replace", f"XFoilReader.{side}_count after unloading: {tag}", f.fork().val(f"m.{side}_count()"), ZERO,
                  list(f.st.facts), ck.at("XFoilReader", "filename"))


def records(ck, r, shape, a, w, tag):
    nu, nl, nw, header, rest = shape
    site = ck.at("XFoilReader", "filename")
    if r.st.dead:
        return ck.bad("C18.load", tag, site, "a valid file cannot be loaded")
    facts = list(r.st.facts)
    v = lambda t: r.fork().val(t)     # noqa
    ck.eq("C18.load", f"filename: {tag}", v("m.filename"), v("fa"), facts, site)
    up = [a[i] for i in reversed(range(nu))]
    lo = [a[i] for i in range(nu, nu + nl)]
    sgn = lambda c, q: T.neg(c[COLS.index(q)]) if q in FLIP else c[COLS.index(q)]      # noqa
    if rest:
        stag = {q: up[0][COLS.index(q)] for q in COLS}
        s0 = up[0][0]
        upper = up
        lower = [None] + lo
    else:
        f = T.div(up[0][3], T.add(up[0][3], T.neg(lo[0][3])))
        mix = lambda p, q: T.add(T.mul(f, q), T.mul(T.sub(ONE, f), p))      # noqa
        s0 = mix(up[0][0], lo[0][0])
        stag = {q: mix(up[0][COLS.index(q)], lo[0][COLS.index(q)]) for q in INTERPOLATED}
        upper = [None] + up
        lower = [None] + lo
    stag["s"] = ZERO
    if not rest:
        stag["u_e_rel"] = ZERO
    for side, rows in (("upper", upper), ("lower", lower), ("wake", w)):
        same(ck, "C18.load", f"{side} count: {tag}", v(f"m.{side}_count()"), num(len(rows)), r, site)
    objs = {}
    for side, rows in (("upper", upper), ("lower", lower)):
        for i, c in enumerate(rows):
            for q in COLS:
                at_rest = i == 0
                if at_rest:
                    if q not in stag:
                        continue
                    want = stag[q]
                elif q == "s":
                    want = T.sub(s0, c[0]) if side == "upper" else T.sub(c[0], s0)
                else:
                    want = sgn(c, q) if side == "lower" else c[COLS.index(q)]
                same(ck, "C18.load", f"{side}({i}).{q}: {tag}", v(f"m.{side}({i}).{q}"), want, r, site)
            objs[f"{side}({i})"] = v(f"m.{side}({i})")
    for i, c in enumerate(w):
        for q in WAKE:
            if q is not None:
                want = T.sub(c[0], w[0][0]) if q == "s" else c[WAKE.index(q)]
                same(ck, "C18.load", f"wake({i}).{q}: {tag}", v(f"m.wake({i}).{q}"), want, r, site)
        objs[f"wake({i})"] = v(f"m.wake({i})")
    # sharing
    ks = list(objs)
    for i, k in enumerate(ks):
        alias = [j for j in ks[i + 1:] if objs[j] is not None and objs[j] is objs[k]]
        subject = f"{k}: {tag}"
        if objs[k] is None or objs[k].op not in ("ref", "iref"):
            ck.open("C18.shared", subject, "record not followed")
        elif alias:
            ck.bad("C18.shared", subject, site, f"{k} and {alias[0]} are one object")
        else:
            ck.ok("C18.shared", subject)


def refilled(ck):
    """Records that held other data before."""
    r = ck.run()
    r.exec("from ibl.reference import XFoilAirfoilData as A, XFoilWakeData as W")
    t = {n: r.sym(n, "str") for n in ("a", "b")}
    for x in t.values():
        r.assume(T.not_(T.eq(T.const_str(""), x)))
    for cls, c, names in (("XFoilAirfoilData", "A", COLS), ("XFoilWakeData", "W", [q for q in WAKE if q])):
        for before, old in (("data", "a"), ("nothing", "''")):
            for after, new in (("other data", "b"), ("nothing", "''")):
                ck.unit(refill, "C18.refill", f"{cls}: {before}, then {after}", ck.at(cls, "reset"), r, c, old, new, names, **t)


def run(ck):
    ck.unit(accessors)
    ck.unit(refilled)
    shapes = SHAPES if ck.tier == "quick" else tuple(dict.fromkeys(SHAPES + MORE))
    for s in shapes:
        ck.unit(loaded, s)
    for a, b in ((SHAPES[1], SHAPES[0]), (SHAPES[3], SHAPES[4]), (SHAPES[0], SHAPES[2])):
        ck.unit(reload, a, b)

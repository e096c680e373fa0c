"""Sequence terms (lists, arrays, comprehensions) in normal form."""

from . import terms as T
from .terms import mk, num, ZERO, ONE, ite, is_num

ELEMWISE = ("add", "mul", "pow", "abs", "exp", "log", "where", "lt0", "le0",
            "eq0", "eq", "ltx", "lex", "and", "or", "not", "sin", "cos", "tan",
            "sinh", "cosh", "tanh", "sign", "floor", "isnan", "isfinite")


def _depth(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = 0
        if t.op == "idx":
            r = t.args[0] + 1
        for a in t.args:
            if isinstance(a, T.Term):
                r = max(r, _depth(a))
        memo[t] = r
    return r


def idx(n):
    return mk("idx", n)


def seq(items):
    return mk("seq", *items)


EMPTY = seq(())


def smap(n, k, body):
    """[body(k) for k in range(n)], k an idx term (bound)."""
    if n is ZERO:
        return EMPTY
    if body.op == "index" and body.args[1] is k and not T.occurs(k, body.args[0]) \
            and length(body.args[0]) is n:
        return body.args[0]
    if is_num(n) and n.args[0] <= 64:
        return seq([T.subst(body, {k: num(i)}) for i in range(int(n.args[0]))])
    if n.op == "ite":
        return ite(n.args[0], smap(n.args[1], k, body), smap(n.args[2], k, body))
    c = split_at(n, k, body)
    if c:
        head = [T.subst(body, {k: num(i)}) for i in range(c)]
        return concat(seq(head), smap(T.sub(n, num(c)), k, T.subst(body, {k: T.add(k, num(c))})))
    d = 0
    # canonical binder: smallest level not free in n or body
    probe = T.subst(body, {k: mk("hole")})
    d = max(_depth(probe), _depth(n))
    kk = idx(d)
    b2 = T.subst(body, {k: kk}) if kk is not k else body
    return mk("map", n, kk, b2)


def split_at(n, k, body):
    """c when the body distinguishes the elements below c and n >= c."""
    best = 0
    if n.op != "add":
        return 0
    for t in T.subterms(body):
        if t.op in ("lt0", "le0", "eq0") and T.occurs(k, t):
            d = t.args[0]
            if d.op == "add" and len(d.args) == 2 and any(x.op == "num" for x in d.args):
                kk, b, c = T._lin(d)
                if b is k and abs(kk) == 1 and c.denominator == 1:
                    v = -c / kk
                    lim = int(v) if t.op == "lt0" and kk > 0 else int(v) + 1
                    best = max(best, lim)
            elif t.op == "eq0" and d is k:
                best = max(best, 1)
    if 0 < best <= 8 and T.natural(T.sub(n, num(best))):
        return best
    return 0


def body_at(m, i):
    return T.subst(m.args[2], {m.args[1]: i})


def length(x):
    o = x.op
    if o == "seq":
        return num(len(x.args))
    if o == "tuple":
        return num(len(x.args))
    if o == "str":
        return num(len(x.args[0]))
    if o == "map":
        return x.args[0]
    if o == "rev":
        return length(x.args[0])
    if o == "concat":
        return T.add(*[length(a) for a in x.args])
    if o == "store":
        return length(x.args[0])
    if o == "empty":
        return x.args[0]
    if o == "bc":
        return length(x.args[0])
    if o in ("ite",):
        return ite(x.args[0], length(x.args[1]), length(x.args[2]))
    if o == "range":
        return T.sub(x.args[1], x.args[0])
    if o == "slice":
        s, a, b, c = x.args
        if a is T.NONE:
            a = ZERO
        if c in (T.NONE, ONE) and is_num(a) and a.args[0] >= 0 and b is T.NONE:
            ln = length(s)
            if is_num(ln):
                return num(max(0, ln.args[0] - a.args[0]))
        return mk("len", x)
    if o == "genlist":
        return length(x.args[0])
    if o == "fmt" and all(p.op == "str" or T.is_text(p) for p in x.args):
        return T.add(*[length(p) for p in x.args])
    return mk("len", x)


def concat(*parts):
    out = []
    for p in parts:
        if p.op == "concat":
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if p is EMPTY:
            continue
        if res and res[-1].op == "seq" and p.op == "seq":
            res[-1] = seq(res[-1].args + p.args)
        else:
            res.append(p)
    if not res:
        return EMPTY
    if len(res) == 1:
        return res[0]
    return mk("concat", *res)


def rev(x):
    if x.op == "seq":
        return seq(x.args[::-1])
    if x.op == "rev":
        return x.args[0]
    if x.op == "concat":
        return concat(*[rev(a) for a in reversed(x.args)])
    return mk("rev", x)


def dense(f):
    """The dense output of an integration."""
    return f.op == "attr" and f.args[1] == "sol" and f.args[0].op == "call" and \
        f.args[0].args[0].op == "ext" and f.args[0].args[0].args[0] == "scipy.integrate.solve_ivp"


def index(x, i):
    o = x.op
    if i.op == "ite":
        return ite(i.args[0], index(x, i.args[1]), index(x, i.args[2]))
    if i.op == "slice_":
        return slice_(x, *i.args)
    if o in ("seq", "tuple"):
        if is_num(i) and i.args[0].denominator == 1:
            k = int(i.args[0])
            if -len(x.args) <= k < len(x.args):
                return x.args[k]
            return mk("indexerror", x, i)
        if x.args and all(a is x.args[0] for a in x.args):
            return x.args[0]
        return mk("index", x, i)
    if o == "map":
        if is_num(i) and i.args[0] < 0:
            return body_at(x, T.add(x.args[0], i))
        if i.op not in ("tuple", "str", "none"):
            return body_at(x, i)
    if o == "rev":
        if is_num(i) and i.args[0] < 0:
            return index(x.args[0], num(-i.args[0] - 1))
        return index(x.args[0], T.sub(T.sub(length(x.args[0]), ONE), i))
    if o == "concat" and is_num(i):
        k = int(i.args[0])
        if k >= 0:
            for p in x.args:
                ln = length(p)
                if not is_num(ln):
                    if p is x.args[-1]:
                        return index(p, num(k))
                    break
                if k < ln.args[0]:
                    return index(p, num(k))
                k -= int(ln.args[0])
        else:
            for p in reversed(x.args):
                ln = length(p)
                if not is_num(ln):
                    if p is x.args[0]:
                        return index(p, num(k))
                    break
                if -k <= ln.args[0]:
                    return index(p, num(k))
                k += int(ln.args[0])
    if o == "concat" and not is_num(i) and T.natural(i):
        p = x.args[0]
        ln = length(p)
        if is_num(ln):
            m = int(ln.args[0])
            rest = concat(*x.args[1:])
            c = T.lt(i, ln)
            tail = index(rest, T.sub(i, ln))
            if c is T.FALSE:
                return tail
            r = tail
            for j in range(m - 1, -1, -1):
                r = ite(T.lt(i, num(j + 1)), p.args[j] if p.op == "seq" else index(p, num(j)), r)
            return r
        if len(x.args) == 2 and T.natural(T.sub(i, ln)):
            return index(x.args[1], T.sub(i, ln))
    if o == "store":
        b, j, v = x.args
        if j is i:
            return v
        if is_num(i) and is_num(j) and (i.args[0] >= 0) == (j.args[0] >= 0):
            return index(b, i)
    if o == "bc":
        return x.args[1]
    if o == "call" and is_num(i) and len(x.args) == 2 and x.args[1].op in ("seq", "map", "bc") and dense(x.args[0]):
        # state component of a dense output at several locations
        return push(None, [x.args[1]], lambda z: index(mk("call", x.args[0], z), i))
    if o == "ite":
        return ite(x.args[0], index(x.args[1], i), index(x.args[2], i))
    if o == "range":
        if is_num(i) and i.args[0] < 0:
            return T.add(x.args[1], i)
        return T.add(x.args[0], i)
    if o == "dictlit":
        d = dict_get(x, i)
        if d is not None:
            return d
    if o == "slice":
        s, a, b, c = x.args
        if a is T.NONE:
            a = ZERO
        if c in (T.NONE, ONE) and is_num(a) and a.args[0] >= 0 and \
                (not is_num(i) or i.args[0] >= 0):
            return index(s, T.add(a, i))
        if c in (T.NONE, ONE) and T.natural(a) and T.natural(i):
            return index(s, T.add(a, i))
    return mk("index", x, i)


def slice_(x, a, b, c):
    if x.op in ("seq", "tuple", "str") and all(
            z is T.NONE or is_num(z) for z in (a, b, c)):
        f = [None if z is T.NONE else int(z.args[0]) for z in (a, b, c)]
        sl = slice(*f)
        if x.op == "str":
            return T.const_str(x.args[0][sl])
        r = x.args[sl]
        return seq(r) if x.op == "seq" else mk("tuple", *r)
    if x.op in ("seq", "tuple", "str"):
        for i, z in enumerate((a, b)):
            if z.op == "ite" and is_num(z.args[1]) and is_num(z.args[2]):
                one, two = (slice_(x, *((w, b) if i == 0 else (a, w)), c) for w in z.args[1:])
                return T.ite(z.args[0], one, two)
    if a is ZERO:
        a = T.NONE
    if c is ONE:
        c = T.NONE
    if a is T.NONE and b is T.NONE and c is T.NONE:
        return x
    if a is T.NONE and b is T.NONE and is_num(c) and c.args[0] == -1:
        return rev(x)
    return mk("slice", x, a, b, c)


def dict_get(d, k):
    """Entries of mk('dictlit', (k, v)...): value, MISSING or None (unknown)."""
    r = MISSING
    for e in d.args:
        kk, v = e.args
        c = T.eq(kk, k)
        if c is T.TRUE:
            r = v
        elif c is T.FALSE:
            continue
        else:
            r = ite(c, v, r)
    return None if r is MISSING else r


MISSING = mk("missing")


def isseq(t):
    return t.op in ("seq", "map")


def push(op, args, ctor):
    """Elementwise operation over maps/sequences of equal length."""
    ms = [a for a in args if isinstance(a, T.Term) and a.op in ("map", "bc", "seq")]
    if not ms:
        return None
    maps = [a for a in ms if a.op == "map"]
    if maps and all(m.args[0] is maps[0].args[0] for m in maps) and \
            not any(a.op == "seq" for a in ms):
        d = max(_depth(a) for a in args if isinstance(a, T.Term))
        k = idx(d + 1)
        new = [body_at(a, k) if a.op == "map" else
               (a.args[1] if a.op == "bc" else a) for a in args]
        return smap(maps[0].args[0], k, ctor(*new))
    seqs = [a for a in ms if a.op == "seq"]
    if seqs and not maps and all(len(s.args) == len(seqs[0].args) for s in seqs) \
            and not any(a.op == "bc" for a in ms):
        if any(x.op in ("str", "ref", "iref", "none", "seq", "func") for s in seqs for x in s.args):
            return None
        n = len(seqs[0].args)
        return seq([ctor(*[a.args[i] if a.op == "seq" else a for a in args])
                    for i in range(n)])
    bcs = [a for a in ms if a.op == "bc"]
    if bcs and len(bcs) == len(ms):
        new = [a.args[1] if a.op == "bc" else a for a in args]
        return bc(bcs[0].args[0], ctor(*new))
    return None


def bc(x, v):
    """v broadcast to the shape of x."""
    if x.op == "bc":
        return bc(x.args[0], v)
    return mk("bc", x, v)


def strip_bc(t):
    """Values only: forget broadcast shapes."""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = go(t.args[1]) if t.op == "bc" else T.rebuild(t, go)
            memo[t] = r
        return r
    return go(t)


T.REBUILD.update({
    "index": index, "len": length, "rev": rev, "concat": concat,
    "slice": slice_, "bc": bc,
    "map": lambda n, k, b: smap(n, k, b),
})

"""Identity testing of value graphs (Schwartz-Zippel).

Two terms whose normal forms differ are interpreted over random points of the
term algebra: free symbols and uninterpreted functions get pseudo-random
values (functions consistently), conditions are evaluated.  A difference is
reported only with a point that satisfies the assumptions and separates the
terms, so that a mere weakness of the normal form is never an alarm.  Only
terms are evaluated here - no code of the analysed program is executed.
"""

import hashlib
import math
from decimal import Decimal as D, getcontext, localcontext, InvalidOperation, Overflow, DivisionByZero

from . import terms as T
from .terms import TRUE, FALSE

getcontext().prec = 36
getcontext().Emax = 10**6
getcontext().Emin = -10**6


class Undefined(Exception):
    pass


class NotReal(Undefined):
    """No real number: fractional power or logarithm of a negative one."""


def key(v):
    if isinstance(v, D):
        if v == 0:
            return "0"
        return format(v, ".12e")
    return repr(v)


def h(*parts):
    b = hashlib.blake2b("\x00".join(parts).encode(), digest_size=8).digest()
    return int.from_bytes(b, "big")


def rnd(seed, *parts):
    return h(str(seed), *parts) / 2.0 ** 64


LANES = ("add", "mul", "pow", "abs", "exp", "log", "where", "lt0", "le0", "eq0",
         "ltx", "lex", "and", "or", "not", "sin", "cos", "tan", "sinh", "cosh",
         "tanh", "sign", "floor", "wrapb")

PREDS = ("truth", "callable", "hasattr", "is", "isinstance", "in", "exists",
         "issubclass", "isscalar", "isnan", "isfinite", "forall")


class SV:
    """A concrete sequence value."""
    __slots__ = ("v", "kind", "_k")

    def __init__(self, v, kind="seq"):
        self.v, self.kind, self._k = tuple(v), kind, None

    def __repr__(self):
        if self._k is None:
            self._k = self.kind[0] + "[" + ",".join(key(x) for x in self.v) + "]"
        return self._k


_FREE = {}


def free_idx(t):
    """Bound-variable terms that occur free in t."""
    r = _FREE.get(t)
    if r is None:
        if t.op == "idx":
            r = frozenset((t,))
        elif t.op == "map":
            r = free_idx(t.args[0]) | (free_idx(t.args[2]) - {t.args[1]})
        else:
            r = frozenset()
            for x in t.args:
                if isinstance(x, T.Term):
                    r |= free_idx(x)
        _FREE[t] = r
    return r


MAXLEN = 40


class Point:
    """One random interpretation."""

    def __init__(self, seed, signs, forced=None, parent=None, bound=None, table=None, log=None):
        self.seed = seed
        self.signs = signs
        # choices made elsewhere (by the repair search), log of choices used
        self.table = table if table is not None else parent.table if parent is not None else {}
        self.log = log if log is not None else parent.log if parent is not None else None
        self.memo = dict(forced or {})
        self.parent, self.bound = parent, bound

    def numeric(self, v):
        if isinstance(v, D):
            return v
        if v is True:
            return D(1)
        if v is False:
            return D(0)
        return self.hashed("num", key(v))

    def rbool(self, p, *parts):
        if self.log is not None:
            self.log[("b",) + parts] = "b"
        r = self.table.get(("b",) + parts)
        return r if r is not None else rnd(self.seed, *parts) < p

    def hashed(self, *parts, sign=None):
        if self.log is not None:
            self.log[parts] = "n"
        r = self.table.get(parts)
        if r is not None:
            return r
        r = rnd(self.seed, *parts)
        r2 = rnd(self.seed, "sg", *parts)
        r3 = rnd(self.seed, "mag", *parts)
        if r3 < 0.10 and sign is None:
            v = D(0)
        elif r3 < 0.25:
            v = D(1)
        elif r3 < 0.40:
            v = D(repr(0.001 + r / 20))
        elif r3 < 0.55:
            v = D(repr(1 + 30 * r))
        else:
            v = D(repr(0.05 + 2 * r))
        if sign == "-" or (sign is None and r2 < 0.4):
            v = -v
        return v

    def boolean(self, t, val):
        if isinstance(val, bool):
            return val
        if isinstance(val, D):
            return val != 0
        return self.rbool(0.5, "b", key(val))

    def ev(self, t):
        if self.parent is not None and self.bound not in free_idx(t):
            return self.parent.ev(t)
        m = self.memo
        r = m.get(t)
        if r is None:
            r = m[t] = self._ev(t)
        return r

    # ------------------------------------------------------------ sequences
    def at(self, k, i):
        """Child point with the bound variable k set to i."""
        return Point(self.seed, self.signs, {k: D(i)}, self, k)

    def length(self, v):
        if isinstance(v, SV):
            return len(v.v)
        if isinstance(v, tuple) and v and v[0] == "str" and len(v) == 2:
            return len(v[1])
        if self.log is not None:
            self.log[("len", key(v))] = "l"
        r = self.table.get(("len", key(v)))
        if r is not None:
            return r
        r = rnd(self.seed, "len", key(v))
        return int(r * 60) if r < 0.1 else 100 if r > 0.95 else int(r * 6)

    def item(self, v, i):
        """Element i of a sequence value."""
        n = self.length(v)
        if isinstance(i, D) and i == i.to_integral_value():
            i = int(i)
            if i < 0:
                i += n
                if i < 0:
                    raise Undefined()
            if isinstance(v, SV):
                if i >= n:
                    raise Undefined()
                return v.v[i]
            i = D(i)
        return self.hashed("index", key(v), key(i))

    def expand(self, v):
        if isinstance(v, SV):
            return v
        n = self.length(v)
        if n > MAXLEN:
            raise Undefined()
        return SV([self.item(v, D(i)) for i in range(n)])

    def lanes(self, t):
        """Elementwise operation with at least one sequence operand."""
        vals = [self.ev(x) for x in t.args]
        ns = {len(v.v) for v in vals if isinstance(v, SV)}
        if not ns:
            return None
        if len(ns) > 1:
            raise Undefined()
        out = []
        for i in range(ns.pop()):
            q = Point(self.seed, self.signs, table=self.table, log=self.log)
            for x, v in zip(t.args, vals):
                q.memo[x] = v.v[i] if isinstance(v, SV) else v
            out.append(q._ev(t))
        return SV(out)

    def cond(self, t):
        return self.boolean(t, self.ev(t))

    def num(self, t):
        return self.numeric(self.ev(t))

    def _ev(self, t):
        o, a = t.op, t.args
        try:
            if o in LANES:
                r = self.lanes(t)
                if r is not None:
                    return r
            if o == "num":
                return D(a[0].numerator) / D(a[0].denominator)
            if o == "true":
                return True
            if o == "false":
                return False
            if o == "none":
                return ("none",)
            if o == "inf":
                return D(10) ** 60
            if o == "str":
                return ("str", a[0])
            if o == "add":
                s = D(0)
                for x in a:
                    s += self.num(x)
                return s
            if o == "mul":
                s = D(1)
                for x in a:
                    s *= self.num(x)
                return s
            if o == "pow":
                return self.power(self.num(a[0]), self.num(a[1]))
            if o == "abs":
                return abs(self.num(a[0]))
            if o == "exp":
                x = self.num(a[0])
                if abs(x) > 2000:
                    raise Undefined()
                return x.exp()
            if o == "log":
                x = self.num(a[0])
                if x < 0:
                    raise NotReal()
                if x == 0:
                    raise Undefined()
                return x.ln()
            if o in ("sin", "cos", "tan", "sinh", "cosh", "tanh"):
                x = float(self.num(a[0]))
                if abs(x) > 50:
                    raise Undefined()
                return D(repr(getattr(math, o)(x)))
            if o == "sign":
                x = self.num(a[0])
                return D(0) if x == 0 else D(1) if x > 0 else D(-1)
            if o == "floor":
                return D(math.floor(self.num(a[0])))
            if o == "lt0":
                return self.num(a[0]) < 0
            if o == "le0":
                return self.num(a[0]) <= 0
            if o == "eq0":
                return abs(self.num(a[0])) < D("1e-28")
            if o in ("ltx", "lex"):
                x, y = self.num(a[0]), self.num(a[1])
                return x < y if o == "ltx" else x <= y
            if o == "eq":
                x, y = self.ev(a[0]), self.ev(a[1])
                if isinstance(x, bool) and isinstance(y, bool):
                    return x == y
                if key(x) == key(y):
                    return True
                return False
            if o == "not":
                return not self.cond(a[0])
            if o == "and":
                return all(self.cond(x) for x in a)
            if o == "or":
                return any(self.cond(x) for x in a)
            if o in ("ite", "where", "maybe"):
                return self.ev(a[1]) if self.cond(a[0]) else self.ev(a[2])
            if o == "bc":
                x = self.ev(a[0])
                v = self.ev(a[1])
                return SV([v] * len(x.v)) if isinstance(x, SV) and not isinstance(v, SV) else v
            if o == "wrapb":
                return self.cond(a[0])
            if o in ("exists", "forall", "first"):
                v = self.ev(a[0])
                if isinstance(v, SV):
                    bs = [self.boolean(None, x) for x in v.v]
                    if o == "exists":
                        return any(bs)
                    if o == "forall":
                        return all(bs)
                    if not any(bs):
                        raise Undefined()
                    return D(bs.index(True))
            if o in ("seq", "tuple"):
                return SV([self.ev(x) for x in a], o)
            if o == "concat":
                out = []
                for x in a:
                    out.extend(self.expand(self.ev(x)).v)
                return SV(out)
            if o == "rev":
                return SV(self.expand(self.ev(a[0])).v[::-1])
            if o == "store" and len(a) == 3:
                v = list(self.expand(self.ev(a[0])).v)
                i = self.ev(a[1])
                if not isinstance(i, D) or not -len(v) <= i < len(v):
                    raise Undefined()
                v[int(i)] = self.ev(a[2])
                return SV(v)
            if o == "range":
                lo, hi = self.num(a[0]), self.num(a[1])
                if not lo == lo.to_integral_value() or not hi == hi.to_integral_value() or hi - lo > MAXLEN:
                    raise Undefined()
                return SV([D(i) for i in range(int(lo), int(hi))])
            if o == "slice":
                f = []
                for x in a[1:]:
                    if x is T.NONE:
                        f.append(None)
                        continue
                    v = self.ev(x)
                    if not isinstance(v, D) or v != v.to_integral_value():
                        raise Undefined()
                    f.append(int(v))
                return SV(self.expand(self.ev(a[0])).v[slice(*f)])
            if o == "index":
                v, i = self.ev(a[0]), self.ev(a[1])
                if isinstance(i, D):
                    return self.item(v, i)
            if o in ("float", "astype") and len(a) >= 1:
                return self.ev(a[0])
            if o in ("any", "all") and isinstance(self.ev(a[0]), SV):
                bs = [self.boolean(None, x) for x in self.ev(a[0]).v]
                return any(bs) if o == "any" else all(bs)
            if o == "any":
                if self.cond(a[0]):
                    return True
                return self.rbool(0.5, "any", key(self.ev(a[0])), str(t.id))
            if o == "all":
                if not self.cond(a[0]):
                    return False
                return self.rbool(0.5, "all", str(t.id))
            if o == "len":
                return D(self.length(self.ev(a[0])))
            if o == "sym":
                ty = a[1] if len(a) > 1 else None
                if ty in ("callable", "str", "list", "tuple"):
                    return (ty, a[0])
                if ty == "int":
                    return D(int(rnd(self.seed, "sym", str(a[0])) * 7))
                return self.hashed("sym", str(a[0]), sign=self.signs.get(t))
            if o == "map":
                n, k, b = a
                c = self.num(n)
                if c != c.to_integral_value() or not 0 <= c <= MAXLEN:
                    raise Undefined()
                return SV([self.at(k, i).ev(b) for i in range(int(c))])
            parts = [o]
            for x in a:
                parts.append(key(self.ev(x)) if isinstance(x, T.Term) else repr(x))
            if o in PREDS:
                return self.rbool(0.5, *parts)
            if o in ("fmt", "func", "bound", "class", "ext", "ref",
                     "enum", "dictlit", "kv", "slice", "store"):
                return (o, *parts[1:])
            return self.hashed(*parts, sign=self.signs.get(t))
        except (InvalidOperation, Overflow, DivisionByZero, OverflowError, ValueError):
            raise Undefined()

    def power(self, b, e):
        if b == 0:
            if e > 0:
                return D(0)
            if e == 0:
                return D(1)
            raise Undefined()
        if b < 0:
            if e != e.to_integral_value():
                raise NotReal()
            r = (-b) ** abs(e)
            if int(e) % 2:
                r = -r
            return r if e > 0 else D(1) / r
        if abs(e * (abs(b.ln()))) > 4000:
            raise Undefined()
        return b ** e


def signs_of(facts):
    """Sign hints of atoms from the facts."""
    out = {}
    for f in facts:
        for g in (f.args if f.op == "and" else (f,)):
            if g.op in ("lt0", "le0"):
                k, b, c = T._lin(g.args[0])
                if k and c == 0:
                    out[b] = "-" if k > 0 else "+"
    return out


def close(x, y):
    if isinstance(x, bool) and isinstance(y, bool):
        return x == y
    if isinstance(x, (D, bool)) and isinstance(y, (D, bool)):
        x, y = D(x), D(y)
        return abs(x - y) <= D("1e-9") * max(abs(x), abs(y), D("1e-6"))
    if isinstance(x, SV) and isinstance(y, SV):
        return len(x.v) == len(y.v) and all(close(p, q) for p, q in zip(x.v, y.v))
    return key(x) == key(y)


def forced_of(facts, p):
    """Values that facts prescribe for atoms: lengths and equalities with
    constants."""
    for f in facts:
        for g in (f.args if f.op == "and" else (f,)):
            if g.op == "eq":
                for u, v in (g.args, g.args[::-1]):
                    if v.op in ("num", "str", "none") and u.op not in ("num", "str", "none", "ite"):
                        p.memo.setdefault(u, p._ev(v))
                        break
            elif g.op == "eq0":
                k, b, c = T._lin(g.args[0])
                if k and b.op != "add":
                    v = -D(c.numerator) / D(c.denominator) / (D(k.numerator) / D(k.denominator)) \
                        if hasattr(c, "numerator") else None
                    if v is not None and b.op not in ARITH:
                        p.memo.setdefault(b, v)
                    elif v is not None and b.op == "mul":
                        pin_factor(b, v, p)
            elif g.op == "truth" or g.op in PREDS:
                p.memo.setdefault(g, True)
            elif g.op == "not" and g.args[0].op in PREDS:
                p.memo.setdefault(g.args[0], False)
    p.pinned = set(p.memo)


ARITH = ("mul", "pow", "abs", "exp", "log", "sqrt", "where", "ite", "max", "min")


def pin_factor(b, v, p):
    """Choose an atom of a product so that the product has value v."""
    for x in b.args:
        if x.op in ARITH or x.op in ("add", "num") or x in p.memo:
            continue
        if any(x in T.subterms(y) for y in b.args if y is not x):
            continue
        try:
            rest = D(1)
            for y in b.args:
                if y is not x:
                    rest *= p.num(y)
        except Undefined:
            return
        if rest != 0:
            p.memo[x] = v / rest
        return


def separate(a, b, facts=(), tries=400, seed=1, partial=False):
    """A point satisfying the facts where a and b differ, or None; with
    `partial` also one where exactly one of them is no real number."""
    facts = tuple(facts)
    sg = signs_of(facts)
    ok = 0
    for i in range(tries):
        p = Point(seed * 1000003 + i, sg)
        try:
            forced_of(facts, p)
            if not all(p.cond(f) for f in facts):
                continue
            if partial:
                x, y = real(p, a), real(p, b)
                if (x == "not real") != (y == "not real"):
                    return p, x, y
                if x == "not real":
                    continue
            x, y = p.ev(a), p.ev(b)
            if isinstance(x, SV) != isinstance(y, SV) and not isinstance(x, (bool, D)) \
                    and not isinstance(y, (bool, D)):
                x, y = p.expand(x), p.expand(y)
        except Undefined:
            continue
        ok += 1
        if not close(x, y):
            if D in (type(x), type(y)) and rounding(a, b, facts, seed * 1000003 + i, sg):
                continue
            return p, x, y
    return steer(a, b, facts, tries, seed) or corners(a, b, facts, seed)


def steer(a, b, facts, tries, seed):
    """Points searched for that meet one of the conditions inside the terms
    which random points may never meet."""
    conds = [c for t in (a, b) for s in T.subterms(t) if s.op in ("ite", "where") for c in (s.args[0],)
             if c.op in ("lt0", "le0", "eq0", "not")]
    n = 0
    for c in dict.fromkeys(conds):
        for c in (c, T.not_(c)):
            n += 1
            if n > 12:
                return None
            fs = tuple(facts) + (c,)
            try:
                p = satisfy(fs, max(2, min(20, tries // 20)), seed)
                if p is None:
                    continue
                x, y = p.ev(a), p.ev(b)
            except Undefined:
                continue
            if isinstance(x, D) and isinstance(y, D) and not close(x, y) and abs(x - y) > D("1e-6") * max(abs(x), abs(y)):
                with localcontext() as lc:
                    lc.prec = 110
                    q = Point(p.seed, signs_of(fs), table=p.table)
                    try:
                        forced_of(fs, q)
                        if close(q.ev(a), q.ev(b)):
                            continue
                    except Undefined:
                        continue
                return p, x, y
    return None


def leaves(t, out):
    if t.op in LANES or t.op == "ite":
        for x in t.args:
            if isinstance(x, T.Term):
                leaves(x, out)
    elif t.op not in ("num", "true", "false", "inf", "idx") and not free_idx(t):
        out[t] = None
    return out


def corners(a, b, facts, seed):
    """Points at and between the places where the comparisons inside the terms
    change, which are met by chance only if they lie far apart."""
    conds = [s for t in (a, b) for s in T.subterms(t) if s.op in ("lt0", "le0", "eq0") and not free_idx(s)]
    conds = list(dict.fromkeys(conds))
    if not 0 < len(conds) <= 24:
        return None
    of = {c: list(leaves(c.args[0], {})) for c in conds}
    atoms = list(dict.fromkeys(u for c in conds for u in of[c]))
    if not 0 < len(atoms) <= 8:
        return None
    sg = signs_of(facts)

    def point(i, forced):
        p = Point(seed * 9000011 + i, sg, forced)
        forced_of(facts, p)
        return p
    import random
    rg = random.Random(h(str(seed), "corners"))
    for i in range(4):
        cand = {}
        for c in conds:
            for u in of[c]:
                try:
                    y = [point(i, {u: D(v)}).num(c.args[0]) for v in (0, 1, 2)]
                except Undefined:
                    continue
                k = y[1] - y[0]
                if k == 0 or abs(y[2] - 2 * y[1] + y[0]) > D("1e-20") * (abs(y[0]) + abs(y[1])):
                    continue
                cand.setdefault(u, set()).add(-y[0] / k)
        for u, v in cand.items():
            v = sorted(v)
            v += [(x + y) / 2 for x, y in zip(v, v[1:])] + [x + d for x in v for d in (D("0.01"), D("-0.01"), D(1), D(-1))]
            cand[u] = v
        if not cand:
            return None
        for j in range(60):
            forced = {u: rg.choice(v) for u, v in cand.items() if rg.random() < 0.9}
            try:
                p = point(i, forced)
                if not all(p.cond(f) for f in facts):
                    continue
                x, y = p.ev(a), p.ev(b)
                if close(x, y) or not (isinstance(x, D) and isinstance(y, D)):
                    continue
                if abs(x - y) < D("1e-7") * max(abs(x), abs(y)):
                    continue
                with localcontext() as lc:
                    lc.prec = 110
                    q = point(i, forced)
                    if close(q.ev(a), q.ev(b)):
                        continue
            except Undefined:
                continue
            return p, x, y
    return None


def rounding(a, b, facts, seed, sg):
    """The difference at this point vanishes with more digits."""
    with localcontext() as c:
        c.prec = 110
        p = Point(seed, sg)
        try:
            forced_of(facts, p)
            return close(p.ev(a), p.ev(b))
        except Undefined:
            return True


def real(p, t):
    try:
        return p.ev(t)
    except NotReal:
        return "not real"


def falsify(c, facts=(), tries=400, seed=1):
    """A point satisfying the facts where the condition is false, or None."""
    r = separate(c, TRUE, facts, tries, seed)
    if r is None:
        fs, c = simplified(facts, c)
        p = satisfy(fs + [T.not_(c)], max(20, tries // 10), seed)
        if p is not None:
            try:
                x = p.cond(c)
            except Undefined:
                return None
            if x is False:
                return p, x, True
    return r


def simplified(facts, c):
    """Facts and condition with what the equalities among the facts settle."""
    facts = list(facts)
    plain = [g for g in facts if g.op in ("eq",) or g.op == "not" and g.args[0].op == "eq"]
    if not plain:
        return facts, c
    out = list(plain)
    for g in facts:
        if g not in plain:
            g = T.assume(g, plain)
            out += g.args if g.op == "and" else (g,)
    return [g for g in out if g is not TRUE], T.assume(c, plain)


def parts_of(c, p, neg=False):
    """Failing atomic conditions of c at the point: (kind, term) pairs."""
    o = c.op
    if o == "not":
        return parts_of(c.args[0], p, not neg)
    if o == "wrapb":
        return parts_of(c.args[0], p, neg)
    if (o == "and" and not neg) or (o == "or" and neg):
        out = []
        for x in c.args:
            if holds(x, p) is neg:
                out += parts_of(x, p, neg)
        return out
    if o in ("or", "and"):
        i = int(rnd(p.seed, "pick", str(len(p.table)), str(c.id)) * len(c.args))
        return parts_of(c.args[i], p, neg)
    if o == "ite":
        try:
            b = p.cond(c.args[0])
        except Undefined:
            return []
        return parts_of(c.args[1] if b else c.args[2], p, neg)
    if o in ("forall", "all", "any", "exists"):
        m = c.args[0]
        every = (o in ("forall", "all")) is not neg
        if m.op == "map":
            try:
                n = int(p.num(m.args[0]))
            except Undefined:
                return []
            qs = [(p.at(m.args[1], i), m.args[2]) for i in range(min(n, 6))]
        elif m.op == "seq":
            qs = [(p, x) for x in m.args]
        elif m.op in ("lt0", "le0", "eq0", "not", "and", "or"):
            return parts_of(m, p, neg) or [(o, c, neg, p)]
        else:
            return [(o, c, neg, p)]
        out = []
        for q, b in qs:
            if holds(b, q) is neg:
                out += parts_of(b, q, neg)
                if not every and out:
                    break
        if not every and not out and qs:
            return parts_of(qs[0][1], qs[0][0], neg)
        return out
    return [(o, c, neg, p)]


def holds(c, p):
    try:
        return bool(p.cond(c))
    except Undefined:
        return None


def satisfy(conds, tries, seed, rounds=60):
    """Local search for a point at which all conditions hold."""
    import random
    conds = tuple(conds)
    sg = signs_of(conds)
    for i in range(tries):
        rg = random.Random(h(str(seed), "repair", str(i)))
        table = {}
        for _ in range(rounds):
            p = Point(seed * 7000003 + i, sg, table=table, log={})
            forced_of(conds, p)
            bad = [c for c in conds if not holds(c, p)]
            if not bad:
                return p
            c = bad[rg.randrange(len(bad))]
            atoms = parts_of(c, p)
            if not atoms:
                break
            o, a, neg, q = atoms[rg.randrange(len(atoms))]
            best = None
            for _ in range(4):
                t2 = dict(table)
                if not repair(o, a, neg, q, t2, rg):
                    continue
                p2 = Point(p.seed, sg, table=t2, log={})
                forced_of(conds, p2)
                score = sum(1 for c in conds if not holds(c, p2))
                if best is None or score < best[0]:
                    best = (score, t2)
                if rg.random() < 0.1:
                    break
            if best is None:
                # unlock: change one of the choices at random
                if table and rg.random() < 0.3:
                    table.pop(rg.choice(sorted(table, key=str)))
            else:
                table = best[1]
    return None


def fresh(q, table, log=None):
    """The same point with the table changed."""
    chain = []
    while q.parent is not None:
        chain.append((q.bound, q.memo[q.bound]))
        q = q.parent
    r = Point(q.seed, q.signs, table=table, log=log)
    r.memo.update({k: v for k, v in q.memo.items() if k in getattr(q, "pinned", ())})
    for k, v in reversed(chain):
        r = Point(r.seed, r.signs, {k: v}, r, k)
    return r


def repair(o, a, neg, q, table, rg):
    log = {}
    f = fresh(q, table, log)
    holds(a, f)
    names = sorted(log, key=str)
    if not names:
        return False
    rg.shuffle(names)
    if o in ("lt0", "le0", "eq0"):
        e = a.args[0]
        scale = rg.choice([D("0.01"), D("0.3"), D(1), D(3)])
        if o == "eq0":
            target = D(0) if not neg else scale
        else:
            target = D(0) - scale if not neg else scale
            if rg.random() < 0.3:
                target = D(0) if (o == "le0") is not neg else target * D("0.001")
            ab = [s for s in T.subterms(e) if s.op == "abs"]
            if ab and not neg:
                e, target = ab[0].args[0], D(0)
        for nm in names[:4]:
            if log[nm] == "b":
                continue
            if log[nm] == "l":
                table[nm] = rg.randrange(0, 15) if rg.random() < 0.3 else table.get(nm, 0)
            if newton(e, target, nm, q, table, log[nm] == "l"):
                return True
        nm = names[0]
        if log[nm] == "b":
            table[nm] = rg.random() < 0.5
        elif log[nm] == "l":
            table[nm] = rg.randrange(0, 8)
        else:
            table[nm] = D(rg.choice(["0.5", "1", "2", "0.01", "20", "-1"]))
        return True
    bools = [nm for nm in names if log[nm] == "b"]
    if bools:
        nm = rg.choice(bools)
        table[nm] = rg.random() < 0.5
        return True
    nm = names[0]
    if log[nm] == "l":
        table[nm] = rg.randrange(0, 8)
    else:
        table[nm] = D(rg.choice(["0", "1", "-1", "0.5", "2"]))
    return True


def newton(e, target, nm, q, table, integral):
    keep = table.get(nm)
    try:
        p0 = fresh(q, table, {})
        y0 = p0.num(e) - target
        if nm in table:
            u = D(table[nm])
        elif integral:
            u = D(0)
        else:
            u = p0.hashed(*nm)
        for _ in range(4 if not integral else 2):
            if abs(y0) < D("1e-24"):
                break
            step = D(1) if integral else D("1e-6") * max(abs(u), D(1))
            table[nm] = int(u + step) if integral else u + step
            y1 = fresh(q, table, {}).num(e) - target
            sl = (y1 - y0) / step
            if sl == 0:
                raise Undefined()
            u = u - y0 / sl
            if integral:
                if u < 0 or u > 60:
                    raise Undefined()
                u = u.to_integral_value()
            table[nm] = int(u) if integral else u
            y0 = fresh(q, table, {}).num(e) - target
        return True
    except (Undefined, InvalidOperation, Overflow, DivisionByZero):
        if keep is None:
            table.pop(nm, None)
        else:
            table[nm] = keep
        return False


def describe(p, terms, limit=8):
    """Readable values of the symbols that occur in the terms."""
    syms = {}
    for t in terms:
        for s in T.subterms(t):
            if s.op == "sym" and s in p.memo:
                v = p.memo[s]
                syms[str(s.args[0])] = float(v) if isinstance(v, D) else str(v)
    return dict(sorted(syms.items())[:limit])

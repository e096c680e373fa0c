"""Hash-consed value terms: the value-numbering domain of the analysis.

Every abstract value is a node of a value graph.  Nodes are built through
smart constructors that put them into a normal form, so that two expressions
that compute the same value over the reals get the same node (or are shown
equal by `equal`).  Nothing here executes any code of the analysed program.
"""

import decimal
from fractions import Fraction
import sys

sys.setrecursionlimit(20000)


class Term:
    __slots__ = ("op", "args", "id", "_free")

    def __init__(self, op, args, id_):
        self.op = op
        self.args = args
        self.id = id_
        self._free = None

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


_table = {}
_all = []


def mk(op, *args):
    key = (op, tuple((type(a).__name__, a) if not isinstance(a, Term) else a
                     for a in args))
    t = _table.get(key)
    if t is None:
        t = Term(op, args, len(_all))
        _table[key] = t
        _all.append(t)
    return t


# ---------------------------------------------------------------- constants
def num(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        if v != v:
            return NAN
        if v == float("inf"):
            return INF
        if v == float("-inf"):
            return mk("mul", num(-1), INF)
        return mk("num", Fraction(repr(v)))
    return mk("num", Fraction(v))


def const_str(s):
    return mk("str", s)


NONE = mk("none")
TRUE = mk("true")
FALSE = mk("false")
INF = mk("inf")
NAN = mk("nan")
UNDEF = mk("undef")
ELLIPSIS = mk("ellipsis")
ZERO = num(0)
ONE = num(1)
NINF = mk("mul", num(-1), INF)


def sym(name, *attrs):
    return mk("sym", name)


def is_num(t):
    return t.op == "num"


def nval(t):
    return t.args[0] if t.op == "num" else None


def is_const(t):
    return t.op in ("num", "str", "none", "true", "false", "inf", "nan", "ellipsis") or t is NINF


_ARITH = ("add", "mul", "pow", "num", "inf")
BOOL_OPS = ("lt0", "le0", "eq0", "eq", "ltx", "lex", "and", "or", "not", "is",
            "truth", "true", "false", "any", "all", "in", "callable",
            "isinstance", "hasattr", "exists", "forall")


# --------------------------------------------------------------- arithmetic
def _coef_split(t):
    """t = c * rest."""
    if t.op == "num":
        return t.args[0], ONE
    if t.op == "mul" and t.args[0].op == "num":
        rest = t.args[1:]
        if len(rest) == 1:
            return t.args[0].args[0], rest[0]
        return t.args[0].args[0], mk("mul", *rest)
    return Fraction(1), t


def add(*ts):
    acc = {}
    const = Fraction(0)
    stack = list(ts)[::-1]
    infs = []
    while stack:
        t = stack.pop()
        if t is TRUE:
            t = ONE
        elif t is FALSE:
            t = ZERO
        if t.op == "add":
            stack.extend(reversed(t.args))
            continue
        if t.op == "num":
            const += t.args[0]
            continue
        if t is NAN:
            return NAN
        if t is INF or t is NINF:
            infs.append(t)
            continue
        c, r = _coef_split(t)
        acc[r] = acc.get(r, Fraction(0)) + c
    if infs:
        if all(i is infs[0] for i in infs):
            # inf + finite unknown: keep it as inf (unknowns assumed finite)
            return infs[0]
        return NAN
    parts = []
    for r in sorted(acc):
        c = acc[r]
        if c == 0:
            continue
        parts.append(_scale(c, r))
    if const != 0 or not parts:
        parts.append(num(const))
    if len(parts) == 1:
        return parts[0]
    return mk("add", *parts)


def _scale(c, r):
    if c == 1:
        return r
    if r is ONE:
        return num(c)
    if r.op == "mul":
        return mk("mul", num(c), *r.args)
    return mk("mul", num(c), r)


def mul(*ts):
    coef = Fraction(1)
    bases = {}
    order = []
    stack = list(ts)[::-1]
    has_inf = False
    while stack:
        t = stack.pop()
        if t is TRUE:
            t = ONE
        elif t is FALSE:
            t = ZERO
        if t.op == "mul":
            stack.extend(reversed(t.args))
            continue
        if t.op == "num":
            coef *= t.args[0]
            continue
        if t is NAN:
            return NAN
        if t is INF:
            has_inf = True
        if t.op == "pow":
            b, e = t.args
        else:
            b, e = t, ONE
        if b in bases:
            bases[b] = add(bases[b], e)
        else:
            bases[b] = e
            order.append(b)
    if coef == 0:
        return NAN if has_inf else ZERO
    parts = []
    again = False
    for b in sorted(bases):
        e = bases[b]
        if e is ZERO:
            continue
        p = power(b, e) if e is not ONE else b
        if p.op in ("mul", "num") or (p.op == "pow" and p.args[0] is not b):
            again = True
        parts.append(p)
    if again:
        return mul(num(coef), *parts)
    if not parts:
        return num(coef)
    if len(parts) == 1:
        p = parts[0]
        if coef == 1:
            return p
        if p.op == "add":
            return add(*[mul(num(coef), q) for q in p.args])
        return mk("mul", num(coef), p)
    if coef != 1:
        return mk("mul", num(coef), *parts)
    return mk("mul", *parts)


def _int_root(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 10**300 else None
    if r is None:
        return None
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


_prime_memo = {}


def _primes(n):
    """Factorisation with primes below 2000 (the rest is one factor)."""
    r = _prime_memo.get(n)
    if r is None:
        r, m, p = {}, n, 2
        while p * p <= m and p < 2000:
            while m % p == 0:
                r[p] = r.get(p, 0) + 1
                m //= p
            p += 1
        if m > 1:
            r[m] = r.get(m, 0) + 1
        _prime_memo[n] = r
    return r


def _numpow(b, e):
    """Rational to a fractional power: coefficient times prime powers with
    exponents in (0, 1)."""
    fac = dict(_primes(b.numerator))
    for p, k in _primes(b.denominator).items():
        fac[p] = fac.get(p, 0) - k
    coef = Fraction(1)
    parts = []
    for p in sorted(fac):
        x = e * fac[p]
        k = x.numerator // x.denominator
        coef *= Fraction(p) ** k
        f = x - k
        if f:
            parts.append(mk("pow", num(p), num(f)))
    if not parts:
        return num(coef)
    if coef == 1 and len(parts) == 1:
        return parts[0]
    if coef != 1:
        parts.insert(0, num(coef))
    return mk("mul", *parts) if parts[0].op == "num" else mk("mul", *sorted(parts))


def power(b, e):
    if e is ZERO:
        return ONE
    if e is ONE:
        return b
    if b is ONE:
        return ONE
    if b is NAN or e is NAN:
        return NAN
    if b.op == "num" and e.op == "num":
        bv, ev = b.args[0], e.args[0]
        if ev.denominator == 1 and abs(ev) <= 64:
            if bv == 0 and ev < 0:
                return mk("pow", b, e)
            return num(bv ** int(ev))
        if bv == 0 and ev > 0:
            return ZERO
        if bv > 0 and ev.denominator <= 6:
            k = ev.denominator
            rn, rd = _int_root(bv.numerator, k), _int_root(bv.denominator, k)
            if rn is not None and rd is not None:
                return num(Fraction(rn, rd) ** ev.numerator)
        if bv > 0 and ev.denominator <= 10000 and abs(ev) < 64:
            return _numpow(bv, ev)
        return mk("pow", b, e)
    if b is INF and e.op == "num":
        return INF if e.args[0] > 0 else ZERO
    if b.op == "pow":
        # quantities raised to fractional powers are non-negative where the
        # expression is defined
        return power(b.args[0], mul(b.args[1], e))
    if b.op == "mul":
        c, r = _coef_split(b)
        if e.op == "num" and e.args[0].denominator == 1:
            return mul(*[power(x, e) for x in b.args])
        if c > 0:
            return mul(*[power(x, e) for x in b.args])
        return mk("pow", b, e)
    if b.op == "add" and e.op == "num" and e.args[0].denominator == 1:
        # pull out a common numeric content, normalise the leading sign
        g = _content(b)
        if g != 1:
            inner = add(*[mul(num(1 / g), x) for x in b.args])
            return mul(power(num(g), e), power(inner, e))
        return mk("pow", b, e)
    if b.op == "add":
        g = abs(_content(b))
        if g != 1:
            inner = add(*[mul(num(1 / g), x) for x in b.args])
            return mul(power(num(g), e), power(inner, e))
    return mk("pow", b, e)


def _content(t):
    """Signed leading coefficient of a sum (by structural order)."""
    c, _ = _coef_split(t.args[0])
    return c


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    if a is b and a not in (INF, NINF, NAN):
        return ZERO
    return add(a, neg(b))


def div(a, b):
    if b is ZERO:
        return mk("divzero", a)
    return mul(a, power(b, num(-1)))


def tabs(a):
    if a.op == "num":
        return num(abs(a.args[0]))
    if a.op == "abs":
        return a
    if a is INF or a is NINF:
        return INF
    c, r = _coef_split(a)
    if c != 1 and r is not ONE:
        return mul(num(abs(c)), tabs(r))
    if a.op == "add" and _content(a) < 0:
        a = neg(a)
    if a.op == "mul" and all(x.op == "pow" and x.args[1].op == "num" and
                             x.args[1].args[0] == 2 for x in a.args):
        return a
    return mk("abs", a)


# ------------------------------------------------------------------ boolean
def truthy(t):
    """Truth value of a term used as a condition."""
    if t.op in BOOL_OPS:
        return t
    if t is NONE:
        return FALSE
    if t.op == "num":
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == "inf" or t is NINF or t is NAN:
        return TRUE
    if t.op == "str":
        return TRUE if t.args[0] else FALSE
    if t.op in ("func", "bound", "class", "ext", "mod", "method"):
        return TRUE
    if t.op == "tuple":
        return TRUE if t.args else FALSE
    if t.op == "fmt" and any(x.op == "str" and x.args[0] for x in t.args):
        return TRUE
    if t.op in ("ite", "where"):
        c, a, b = t.args
        return ite(c, truthy(a), truthy(b))
    if is_text(t):
        return not_(eq(t, const_str("")))
    if t.op == "len" or t.op in ("add", "mul", "pow"):
        return not_(eq(t, ZERO))
    return mk("truth", t)


_not_memo = {}


def not_(c):
    r = _not_memo.get(c)
    if r is None:
        r = _not_memo[c] = _not(c)
    return r


def _not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "lt0":
        return le0(neg(c.args[0]))
    if c.op == "le0":
        return lt0(neg(c.args[0]))
    if c.op == "ltx":
        return mk("lex", c.args[1], c.args[0])
    if c.op == "lex":
        return mk("ltx", c.args[1], c.args[0])
    if c.op == "and":
        return or_(*[not_(x) for x in c.args])
    if c.op == "or":
        return and_(*[not_(x) for x in c.args])
    if c.op == "ite":
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    if c.op not in BOOL_OPS:
        c = truthy(c)
        if c in (TRUE, FALSE):
            return not_(c)
    return mk("not", c)


def and_(*cs):
    out = []
    seen = set()
    stack = list(cs)[::-1]
    while stack:
        c = stack.pop()
        if c.op == "and":
            stack.extend(reversed(c.args))
            continue
        if c is TRUE or c in seen:
            continue
        if c is FALSE or not_(c) in seen:
            return FALSE
        seen.add(c)
        out.append(c)
    # interval style contradictions: x<0 and -x<0 ; x<0 and x==0
    for c in list(out):
        if c.op == "lt0":
            d = c.args[0]
            if lt0(neg(d)) in seen or eq0(d) in seen:
                return FALSE
        # absorb or-terms
    res = []
    for c in out:
        if c.op == "or":
            if any(x in seen for x in c.args):
                continue
            rem = [x for x in c.args if not_(x) not in seen]
            if len(rem) != len(c.args):
                return and_(*([x for x in out if x is not c] + [or_(*rem)]))
        res.append(c)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return mk("and", *sorted(res))


def or_(*cs):
    out = []
    seen = set()
    stack = list(cs)[::-1]
    while stack:
        c = stack.pop()
        if c.op == "or":
            stack.extend(reversed(c.args))
            continue
        if c is FALSE or c in seen:
            continue
        if c is TRUE or not_(c) in seen:
            return TRUE
        seen.add(c)
        out.append(c)
    res = []
    for c in out:
        if c.op == "and":
            if any(x in seen for x in c.args):
                continue
            rem = [x for x in c.args if not_(x) not in seen]
            if len(rem) != len(c.args):
                return or_(*([x for x in out if x is not c] + [and_(*rem)]))
        res.append(c)
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    # factor common conjuncts:  (a&b)|(a&c) -> a&(b|c)
    if all(c.op == "and" for c in res):
        common = set(res[0].args)
        for c in res[1:]:
            common &= set(c.args)
        if common:
            rest = [and_(*[x for x in c.args if x not in common])
                    for c in res]
            return and_(*(sorted(common) + [or_(*rest)]))
    return mk("or", *sorted(res))


def _numeric_like(t):
    return t.op not in ("str", "none", "func", "class", "ext", "bound",
                        "tuple", "mod", "true", "false", "dict", "fmt")


def lt(a, b):
    if a is b:
        return FALSE
    if a.op in ("inf",) or b.op in ("inf",) or NINF in (a, b):
        if a is INF or b is NINF:
            return FALSE
        if a is NINF and (b.op == "num" or b is INF):
            return TRUE
        if b is INF and (a.op == "num"):
            return TRUE
        return mk("ltx", a, b)
    if not (_numeric_like(a) and _numeric_like(b)):
        return mk("ltx", a, b)
    return lt0(sub(a, b))


def le(a, b):
    if a is b:
        return TRUE
    if a.op in ("inf",) or b.op in ("inf",) or NINF in (a, b):
        if a is NINF or b is INF:
            return TRUE
        if a is INF and (b.op == "num" or b is NINF):
            return FALSE
        return mk("lex", a, b)
    if not (_numeric_like(a) and _numeric_like(b)):
        return mk("lex", a, b)
    return le0(sub(a, b))


def _normpos(d):
    """Scale by a positive number so that equal comparisons share a node."""
    if d.op == "add":
        c = abs(_content(d))
        if c != 1:
            d = add(*[mul(num(1 / c), x) for x in d.args])
    else:
        c, r = _coef_split(d)
        if c != 0 and abs(c) != 1:
            d = mul(num(1 if c > 0 else -1), r)
    return d


_NAT = {}


def natural(t):
    """t is structurally a non-negative integer (length or index)."""
    r = _NAT.get(t)
    if r is None:
        o = t.op
        if o == "num":
            r = t.args[0] >= 0 and t.args[0].denominator == 1
        elif o in ("idx", "len", "first"):
            r = True
        elif o == "sym":
            r = len(t.args) > 1 and t.args[1] == "nat"
        elif o in ("add", "mul"):
            r = all(natural(x) for x in t.args)
        elif o == "ite":
            r = natural(t.args[1]) and natural(t.args[2])
        else:
            r = False
        _NAT[t] = r
    return r


def lt0(d):
    if d.op == "num":
        return TRUE if d.args[0] < 0 else FALSE
    if natural(d):
        return FALSE
    if natural(neg(d)):
        return not_(eq0(d))
    if d is INF:
        return FALSE
    if d is NINF:
        return TRUE
    if d.op in ("ite", "where"):
        return mk_ite(d.op, d.args[0], lt0(d.args[1]), lt0(d.args[2]))
    c, r = _coef_split(d)
    if r.op in ("len",):
        return FALSE if c > 0 else not_(eq0(r))
    if r.op == "abs" and c > 0:
        return FALSE
    return mk("lt0", _normpos(d))


def le0(d):
    if d.op == "num":
        return TRUE if d.args[0] <= 0 else FALSE
    if natural(d):
        return eq0(d)
    if natural(neg(d)):
        return TRUE
    if d is INF:
        return FALSE
    if d is NINF:
        return TRUE
    if d.op in ("ite", "where"):
        return mk_ite(d.op, d.args[0], le0(d.args[1]), le0(d.args[2]))
    c, r = _coef_split(d)
    if r.op in ("len",):
        return TRUE if c < 0 else eq0(r)
    # 1 - len(x) <= 0  <=>  len(x) != 0 ; len(x) - 1 < 0 handled by not_
    if d.op == "add" and len(d.args) == 2:
        a, b = d.args
        if b.op == "num" and b.args[0] == 1:
            ca, ra = _coef_split(a)
            if ra.op == "len" and ca == -1:
                return not_(eq0(ra))
    return mk("le0", _normpos(d))


def eq0(d):
    if d.op == "num":
        return TRUE if d.args[0] == 0 else FALSE
    if d.op == "add":
        for e in (d, neg(d)):
            if any(x.op == "num" and x.args[0] > 0 for x in e.args) and natural(e):
                return FALSE
        if len(d.args) == 2:
            (c1, x), (c2, y) = _coef_split(d.args[0]), _coef_split(d.args[1])
            if c1 == -c2 and x is not y and (is_const(x) and is_const(y) or x.op == y.op == "enum"):
                return FALSE
    if d.op in ("ite", "where"):
        return mk_ite(d.op, d.args[0], eq0(d.args[1]), eq0(d.args[2]))
    d = _normpos(d)
    if d.op == "add":
        if _content(d) < 0:
            d = neg(d)
    else:
        c, r = _coef_split(d)
        d = r
    if d.op == "len" and is_text(d.args[0]):
        return eq(d.args[0], const_str(""))
    return mk("eq0", d)


def is_text(t):
    """A string, by the declared type of the input it stands for."""
    return t.op == "sym" and len(t.args) == 2 and t.args[1] == "str"


def is_line(t):
    """An element of file.readlines(): never empty."""
    if t.op != "index":
        return False
    t = t.args[0]
    while t.op in ("slice", "rev"):
        t = t.args[0]
    return t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "readlines"


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in ("ite", "where"):
        return mk_ite(a.op, a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op in ("ite", "where"):
        return mk_ite(b.op, b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if is_const(a) and is_const(b):
        if a.op == b.op == "num":
            return TRUE if a.args[0] == b.args[0] else FALSE
        d = {TRUE: ONE, FALSE: ZERO}
        a2, b2 = d.get(a, a), d.get(b, b)
        if (a2, b2) != (a, b):
            return eq(a2, b2)
        return FALSE
    if a.op == b.op == "enum":
        return FALSE        # distinct members have distinct values
    kinds = ("func", "class", "ref", "bound")
    if a.op in kinds and (b.op in kinds or is_const(b)):
        return FALSE
    if b.op in kinds and is_const(a):
        return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    for x, y in ((a, b), (b, a)):
        if x.op == "str" and x.args[0] == "" and (
                is_line(y) or y.op == "fmt" and any(p.op == "str" and p.args[0] for p in y.args)):
            return FALSE
    nonnum = ("str", "none", "inf", "true", "false", "tuple", "fmt")
    if a.op in nonnum or b.op in nonnum or NINF in (a, b):
        if a in (TRUE, FALSE) and b.op in BOOL_OPS:
            return b if a is TRUE else not_(b)
        if b in (TRUE, FALSE) and a.op in BOOL_OPS:
            return a if b is TRUE else not_(a)
        return mk("eq", *sorted((a, b)))
    if a.op in BOOL_OPS and b.op in BOOL_OPS:
        return mk("eq", *sorted((a, b)))
    return eq0(sub(a, b))


NOTNONE_OPS = ("num", "str", "func", "class", "ref", "bound", "tuple", "ext",
               "mod", "inf", "true", "false", "add", "mul", "pow", "abs",
               "map", "concat", "fmt", "nan", "lt0", "le0", "eq0", "eq", "not",
               "and", "or", "any", "all", "len", "elem", "dictlit")


def is_(a, b):
    if a is b:
        return TRUE
    if a.op in ("ite", "where"):
        return mk_ite(a.op, a.args[0], is_(a.args[1], b), is_(a.args[2], b))
    if b.op in ("ite", "where"):
        return is_(b, a)
    if a is NONE and b.op in NOTNONE_OPS or b is NONE and a.op in NOTNONE_OPS:
        return FALSE
    if a is NONE and b.op == "sym" and len(b.args) > 1 or \
            b is NONE and a.op == "sym" and len(a.args) > 1:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x is NONE and y.op == "call" and y.args[0].op == "ext" and \
                y.args[0].args[0].startswith("scipy.interpolate."):
            return FALSE
    if a.op == "ref" and b.op == "ref":
        return FALSE
    if (a in (TRUE, FALSE) or b in (TRUE, FALSE)):
        return eq(a, b)
    return mk("is", *sorted((a, b)))


_HASBOOL = {}


def hasbool(t):
    """t contains a condition."""
    r = _HASBOOL.get(t)
    if r is None:
        r = (t.op in BOOL_OPS and t.op not in ("true", "false")) or \
            any(hasbool(x) for x in t.args if isinstance(x, Term))
        _HASBOOL[t] = r
    return r


_ASSUME = {}


def assume(t, facts, memo=None):
    """Simplify t under the assumption that each fact in the set is true."""
    if not facts or not hasbool(t):
        return t
    if memo is not None:
        return _assume(t, facts, memo)
    key = (t, frozenset(facts))
    r = _ASSUME.get(key)
    if r is None:
        r = _ASSUME[key] = _assume(t, facts, None)
    return r


def _assume(t, facts, memo=None):
    if memo is None:
        memo = {}
    pos = facts

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not hasbool(t):
            return t
        if t.op in BOOL_OPS and t.op not in ("true", "false"):
            if t in pos:
                r = TRUE
            elif not_(t) in pos:
                r = FALSE
            elif t.op in ("lt0", "le0", "eq0") and _implied(t, pos):
                r = TRUE
            elif t.op in ("lt0", "le0", "eq0") and _implied(not_(t), pos):
                r = FALSE
        if r is None:
            r = rebuild(t, go)
            if r is not t and r.op in BOOL_OPS:
                if r in pos:
                    r = TRUE
                elif not_(r) in pos:
                    r = FALSE
        memo[t] = r
        return r
    return go(t)


def _implied(t, pos):
    d = t.args[0]
    if t.op == "le0":
        return mk("lt0", d) in pos or mk("eq0", _eqkey(d)) in pos
    if t.op == "not":
        if t.args[0].op == "eq0":
            e = t.args[0].args[0]
            return lt0(e) in pos or lt0(neg(e)) in pos
    return False


def _eqkey(d):
    t = eq0(d)
    return t.args[0] if t.op == "eq0" else d


def mk_ite(op, c, a, b):
    return where(c, a, b) if op == "where" else ite(c, a, b)


def ite(c, a, b):
    """Control flow merge (gated phi)."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "or":
        # canonical polarity of composite conditions
        n = not_(c)
        if n.op == "and":
            return ite(n, b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.op in BOOL_OPS and b.op in BOOL_OPS:
        return or_(and_(c, a), and_(not_(c), b))
    fc = set(c.args) if c.op == "and" else {c}
    a = assume(a, fc | {c})
    b = assume(b, {not_(c)})
    if a is b:
        return a
    if a.op == "seq" and b.op == "seq" and len(a.args) == len(b.args) <= 4:
        return mk("seq", *[x if x is y else ite(c, x, y) for x, y in zip(a.args, b.args)])
    # array guard erasure:  if any(m): where(m, v, x)  else x
    if c.op == "any":
        m = c.args[0]
        if a.op == "where" and a.args[0] is m and a.args[2] is b:
            return a
        if _where_mask_only(a, m, b):
            return a
    if c.op == "not" and c.args[0].op == "any":
        m = c.args[0].args[0]
        if b.op == "where" and b.args[0] is m and b.args[2] is a:
            return b
    if c.op == "all":
        # all(m) false  <=> any(not m)
        m = not_(c.args[0])
        if b.op == "where" and b.args[0] is m and b.args[2] is a:
            return b
        if b.op == "where" and not_(b.args[0]) is m and b.args[1] is a:
            return b
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    # orient comparisons: use lt0/le0 with canonical sign of the operand
    n = _flip(c)
    if n is not None:
        return mk("ite", n, b, a)
    return mk("ite", c, a, b)


def _where_mask_only(a, m, b):
    return a.op == "where" and b.op != "where" and a.args[0] is m and a.args[2] is b


def _flip(c):
    """Prefer one of c / not c, so phi nodes are canonical."""
    if c.op in ("lt0", "le0"):
        n = not_(c)
        if n.op in ("lt0", "le0") and n.args[0].id < c.args[0].id:
            return n
    if c.op in ("ltx", "lex"):
        n = not_(c)
        if n.op == "ltx" and c.op == "lex":
            return n
    return None


def where(c, a, b):
    """Elementwise selection."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return where(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.op in BOOL_OPS and b.op in BOOL_OPS:
        return or_(and_(c, a), and_(not_(c), b))
    fc = set(c.args) if c.op == "and" else {c}
    a = assume(a, fc | {c})
    b = assume(b, {not_(c)})
    if a is b:
        return a
    if a.op == "where" and a.args[0] is c:
        return where(c, a.args[1], b)
    if b.op == "where" and b.args[0] is c:
        return where(c, a, b.args[2])
    n = _flip(c)
    if n is not None:
        return mk("where", n, b, a)
    return mk("where", c, a, b)


# ------------------------------------------------------------------ rebuild
REBUILD = {}


def rebuild(t, f):
    """Apply f to the children of t and reconstruct through constructors."""
    if not t.args or not any(isinstance(a, Term) for a in t.args):
        return t
    new = tuple(f(a) if isinstance(a, Term) else a for a in t.args)
    if all(x is y for x, y in zip(new, t.args)):
        return t
    return build(t.op, new)


def build(op, args):
    b = REBUILD.get(op)
    if b is not None:
        return b(*args)
    return mk(op, *args)


REBUILD.update({
    "add": add, "mul": mul, "pow": power, "abs": tabs, "not": not_,
    "and": and_, "or": or_, "lt0": lt0, "le0": le0, "eq0": eq0, "eq": eq,
    "ltx": lt, "lex": le, "is": is_, "ite": ite, "where": where,
    "truth": lambda a: truthy(a),
})


def subst(t, mapping, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(mapping, dict):
        mapping = dict(mapping)

    def go(t):
        if t in mapping:
            return mapping[t]
        r = memo.get(t)
        if r is None:
            r = rebuild(t, go)
            memo[t] = r
        return r
    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, Term):
                stack.append(a)
    return seen


def occurs(x, t):
    return x in subterms(t)


# ------------------------------------------------------- polynomial normal form
class TooBig(Exception):
    pass


LIMIT = 6000


def _padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        n = r.get(m, 0) + c * v
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        if a in d:
            d[a] = _eadd(d[a], e)
            if d[a] == 0:
                del d[a]
        else:
            d[a] = e
    return tuple(sorted(d.items(), key=lambda kv: kv[0].id))


def _eadd(e1, e2):
    if isinstance(e1, Fraction) and isinstance(e2, Fraction):
        return e1 + e2
    t1 = num(e1) if isinstance(e1, Fraction) else e1
    t2 = num(e2) if isinstance(e2, Fraction) else e2
    r = canon(add(t1, t2))
    return r.args[0] if r.op == "num" else r


def _pmul(p, q):
    if len(p) * len(q) > LIMIT * 4:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def _ppow(p, n):
    r = {(): Fraction(1)}
    for _ in range(n):
        r = _pmul(r, p)
    return r


_PONE = {(): Fraction(1)}
_rat_memo = {}


def rat(t):
    """t as a quotient of two polynomials over atoms with real exponents."""
    r = _rat_memo.get(t)
    if r is None:
        r = _rat(t)
        r = _reduce(*r)
        _rat_memo[t] = r
    return r


def _mono_gcd(p):
    """Common monomial factor (numeric exponents only)."""
    ms = list(p)
    if not ms:
        return ()
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            e = d.get(a, Fraction(0))
            f = common[a]
            if isinstance(e, Fraction) and isinstance(f, Fraction):
                x = min(e, f)
                if x == 0:
                    del common[a]
                else:
                    common[a] = x
            elif e is f:
                pass
            else:
                del common[a]
        for a, e in d.items():
            if a not in common and a not in dict(ms[0]) and isinstance(e, Fraction) and e < 0:
                common[a] = e
        if not common:
            return ()
    # negative exponents present only in some monomials
    return tuple(sorted(common.items(), key=lambda kv: kv[0].id))


def _minv(m):
    return tuple((a, (-e if isinstance(e, Fraction) else neg(e))) for a, e in m)


def _reduce(n, d):
    if not n:
        return {}, dict(_PONE)
    if len(d) == 1:
        (m, c), = d.items()
        if m == () and c == 1:
            return n, d
        inv = {_minv(m): 1 / c}
        return _pmul(n, inv), dict(_PONE)
    g = _mono_gcd(d)
    if g:
        inv = {_minv(g): Fraction(1)}
        n, d = _pmul(n, inv), _pmul(d, inv)
    lead = d[min(d, key=_mkey)]
    if lead != 1:
        n = {m: c / lead for m, c in n.items()}
        d = {m: c / lead for m, c in d.items()}
    if n == d:
        return dict(_PONE), dict(_PONE)
    return n, d


def _mkey(m):
    return tuple((a.id, (float(e) if isinstance(e, Fraction) else 1e9 + e.id))
                 for a, e in m)


def _rat(t):
    if t.op == "num":
        return ({(): t.args[0]} if t.args[0] else {}), dict(_PONE)
    if t.op == "add":
        n, d = {}, dict(_PONE)
        for a in t.args:
            n2, d2 = rat(a)
            if d == d2:
                n = _padd(n, n2)
            else:
                n = _padd(_pmul(n, d2), _pmul(n2, d))
                d = _pmul(d, d2)
        return n, d
    if t.op == "mul":
        n, d = dict(_PONE), dict(_PONE)
        for a in t.args:
            n2, d2 = rat(a)
            n, d = _pmul(n, n2), _pmul(d, d2)
            n, d = _reduce(n, d)
        return n, d
    if t.op == "pow":
        b, e = t.args
        if e.op == "num" and e.args[0].denominator == 1 and abs(e.args[0]) <= 12:
            k = int(e.args[0])
            n, d = rat(b)
            if k >= 0:
                return _ppow(n, k), _ppow(d, k)
            if not n:
                return {((mk("pow", b, e), Fraction(1)),): Fraction(1)}, dict(_PONE)
            return _ppow(d, -k), _ppow(n, -k)
        cb = canon(b)
        ce = canon(e)
        p = power(cb, ce)
        if p.op != "pow":
            if p is t:
                return {((p, Fraction(1)),): Fraction(1)}, dict(_PONE)
            return rat(p)
        cb, ce = p.args
        if ce.op == "num":
            k = ce.args[0]
            fl = k.numerator // k.denominator
            if cb.op == "add" and fl != 0 and abs(fl) <= 6:
                # split off the integer part for sums
                frac = k - fl
                n, d = rat(cb)
                at = {((cb, frac),): Fraction(1)}
                if fl > 0:
                    return _pmul(_ppow(n, fl), at), _ppow(d, fl)
                return _pmul(_ppow(d, -fl), at), _ppow(n, -fl)
            return {((cb, k),): Fraction(1)}, dict(_PONE)
        # symbolic exponent: split off additive numeric part
        return {((cb, ce),): Fraction(1)}, dict(_PONE)
    a = canon_atom(t)
    if a.op in ("num", "add", "mul", "pow"):
        return rat(a)
    return {((a, Fraction(1)),): Fraction(1)}, dict(_PONE)


_canon_memo = {}


def canon_atom(t):
    r = _canon_memo.get(("a", t))
    if r is None:
        r = rebuild(t, canon)
        _canon_memo[("a", t)] = r
    return r


def _to_term(p):
    parts = []
    for m in sorted(p, key=_mkey):
        parts.append(mul(num(p[m]), *[power(a, e if isinstance(e, Term)
                                            else num(e)) for a, e in m]))
    return add(*parts) if parts else ZERO


def canon(t):
    """Algebraic normal form of a term (recursively)."""
    r = _canon_memo.get(t)
    if r is None:
        _canon_memo[t] = t
        if t.op in ("add", "mul", "pow"):
            try:
                n, d = rat(t)
                r = _to_term(n) if d == _PONE else div(_to_term(n), _to_term(d))
            except TooBig:
                r = t
        else:
            r = canon_atom(t)
        _canon_memo[t] = r
    return r


def equal_alg(a, b):
    """Equal as real expressions (no case analysis).  None = unknown."""
    if a is b:
        return True
    try:
        n1, d1 = rat(a)
        n2, d2 = rat(b)
        if not _padd(_pmul(n1, d2), _pmul(n2, d1), -1):
            return True
    except TooBig:
        return None
    if canon(a) is canon(b):
        return True
    return False


def gates(t, limit=64):
    """Atomic conditions of the phi nodes of t."""
    out = []
    seen = set()

    def atoms(c):
        if c.op in ("and", "or"):
            for x in c.args:
                atoms(x)
        elif c.op == "not":
            atoms(c.args[0])
        else:
            n = not_(c)
            key = min(c, n) if n.op == c.op or n.op in ("lt0", "le0") else c
            if key not in seen:
                seen.add(key)
                out.append(key)
    for s in sorted(subterms(t)):
        if s.op in ("ite", "where"):
            atoms(s.args[0])
    return out


def cases(terms, facts=(), limit=512):
    """Case split on the gates of the terms: yields (assumption, terms)."""
    facts = set(facts)
    for f in list(facts):
        if f.op == "and":
            facts |= set(f.args)
    work = [(frozenset(), tuple(assume(t, facts) for t in terms))]
    n = 0
    while work:
        asm, ts = work.pop()
        g = None
        for t in ts:
            gs = gates(t)
            if gs:
                # innermost gate first: one whose condition has no phi
                for x in gs:
                    if not any(s.op in ("ite", "where") for s in subterms(x)):
                        g = x
                        break
                if g is None:
                    g = gs[0]
                break
        if g is None:
            yield asm, ts
            n += 1
            if n > limit:
                raise TooBig()
            continue
        for lit in (g, not_(g)):
            f2 = facts | asm | {lit}
            if _contradiction(f2):
                continue
            m = {}
            work.append((asm | {lit}, tuple(assume(t, f2, m) for t in ts)))


def _contradiction(fs):
    fs = set(fs)
    for f in fs:
        if f is FALSE or not_(f) in fs:
            return True
    # bounds on linear forms  t + c < 0
    lo, hi = {}, {}
    for f in fs:
        if f.op in ("lt0", "le0"):
            d = f.args[0]
            c = Fraction(0)
            rest = []
            if d.op == "add":
                for x in d.args:
                    if x.op == "num":
                        c += x.args[0]
                    else:
                        rest.append(x)
                r = add(*rest)
            else:
                r = d
            k, base = _coef_split(r)
            if base.op == "add":
                k2 = _content(base)
                base = mul(num(1 / k2), base)
                k = k * k2
            # k*base + c <(=) 0
            if k == 0:
                continue
            b = -c / k
            strict = f.op == "lt0"
            if k > 0:
                if base not in hi or (b, not strict) < (hi[base][0], not hi[base][1]):
                    hi[base] = (b, strict)
            else:
                if base not in lo or (-b, not strict) < (-lo[base][0], not lo[base][1]):
                    lo[base] = (b, strict)
    for b in lo:
        if b in hi:
            l, ls = lo[b]
            h, hs = hi[b]
            if l > h or (l == h and (ls or hs)):
                return True
    return False


def contradiction(fs):
    out = set()
    for f in fs:
        if f.op == "and":
            out |= set(f.args)
        else:
            out.add(f)
    return _contradiction(out)


def equal(a, b, facts=()):
    """True / False / None, splitting on phi gates.

    Returns (verdict, counter-case)."""
    if a is b:
        return True, None
    try:
        for asm, (x, y) in cases((a, b), facts):
            r = equal_alg(x, y)
            if r is not True:
                if impossible(asm, facts):
                    continue
                x2, y2 = emptied(x, asm, facts), emptied(y, asm, facts)
                if (x2 is not x or y2 is not y) and (x2 is y2 or equal_alg(x2, y2) is True):
                    continue
                return r, (asm, x, y)
    except TooBig:
        return None, None
    return True, None


def emptied(t, asm, facts):
    """The term where the sequences known to be empty are gone."""
    zero = {f.args[0]: ZERO for f in set(asm) | set(facts) if f.op == "eq0" and f.args[0].op == "len"}
    if not zero:
        return t
    t = subst(t, zero)
    return subst(t, {m: mk("seq") for m in subterms(t) if m.op == "map" and m.args[0] is ZERO})


def impossible(asm, facts):
    """The assumptions contradict each other once brought to normal form."""
    facts = set(facts)
    for lit in asm:
        c = lit.args[0] if lit.op == "not" else lit
        if c.op not in ("eq0", "lt0", "le0"):
            continue
        try:
            n, d = rat(c.args[0])
        except TooBig:
            continue
        if c.op == "eq0":
            zero = None
            if not n:
                zero = True
            elif len(n) == 1 and all(isinstance(e, Fraction) and e < 0 for m in n for _, e in m):
                zero = False       # a constant over powers of atoms
            if zero is not None and zero != (lit.op != "not"):
                return True
            continue
        k = {"lt0": lt0, "le0": le0}[c.op](canon(c.args[0]))
        r = prove(k, facts | (asm - {lit}), 0)
        if r is not None and r != (lit.op != "not"):
            return True
    return infeasible(asm, facts)


def _linear(d):
    """A linear form over whatever is not a sum or a multiple: ({term: factor}, constant)."""
    out, k = {}, Fraction(0)
    for x in d.args if d.op == "add" else (d,):
        c, r = _coef_split(x)
        if r is ONE:
            k += c
        elif x.op == "num":
            k += x.args[0]
        else:
            out[r] = out.get(r, 0) + c
    return out, k


def infeasible(asm, facts):
    """The inequalities among the literals have no common solution
    (Fourier-Motzkin elimination over those connected with the assumptions)."""
    rows = []
    for lit in list(asm) + [f for f in facts if f not in asm]:
        c, neg_ = (lit.args[0], True) if lit.op == "not" else (lit, False)
        if c.op not in ("lt0", "le0", "eq0") or c.op == "eq0" and neg_:
            continue
        f, k = _linear(c.args[0])
        if neg_:
            f, k = {x: -v for x, v in f.items()}, -k
        strict = (c.op == "lt0") != neg_
        rows.append((f, k, strict))
        if c.op == "eq0":
            rows.append(({x: -v for x, v in f.items()}, -k, False))
            rows[-2] = (f, k, False)
    keep = {x for f, k, s in rows[:len(asm)] for x in f}
    for _ in range(2):
        keep |= {x for f, k, s in rows if keep & set(f) for x in f}
    rows = [r for r in rows if keep & set(r[0])]
    if len(rows) > 24:
        return False
    for _ in range(40):
        if any(not f and (k > 0 or k == 0 and s) for f, k, s in rows):
            return True
        rows = [r for r in rows if r[0]]
        xs = {x for r in rows for x in r[0]}
        if not xs:
            return False
        cost = lambda x: (sum(r[0].get(x, 0) > 0 for r in rows) * sum(r[0].get(x, 0) < 0 for r in rows), x)    # noqa
        x = min(xs, key=cost)
        up = [r for r in rows if r[0].get(x, 0) > 0]
        dn = [r for r in rows if r[0].get(x, 0) < 0]
        rows = [r for r in rows if not r[0].get(x, 0)]
        if len(up) * len(dn) + len(rows) > 120:
            return False
        for f, k, s in up:
            for g, l, t in dn:
                a, b = -g[x], f[x]
                h = {y: a * f.get(y, 0) + b * g.get(y, 0) for y in set(f) | set(g)}
                rows.append(({y: v for y, v in h.items() if v}, a * k + b * l, s or t))
    return False


# ------------------------------------------------------------- derivatives
class NoDeriv(Exception):
    pass


def diff(t, x, rules=None):
    """d t / d x.  rules: callable(term) -> derivative or None for atoms."""
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        memo[t] = r = go2(t)
        return r

    def go2(t):
        if t is x:
            return ONE
        if not occurs(x, t):
            if rules is not None:
                r = rules(t, go)
                if r is not None:
                    return r
            return ZERO
        if t.op == "add":
            return add(*[go(a) for a in t.args])
        if t.op == "mul":
            parts = []
            for i, a in enumerate(t.args):
                d = go(a)
                if d is not ZERO:
                    parts.append(mul(d, *[b for j, b in enumerate(t.args) if j != i]))
            return add(*parts) if parts else ZERO
        if t.op == "pow":
            b, e = t.args
            db, de = go(b), go(e)
            r = ZERO
            if db is not ZERO:
                r = mul(e, power(b, sub(e, ONE)), db)
            if de is not ZERO:
                r = add(r, mul(t, mk("log", b), de))
            return r
        if t.op in ("ite", "where"):
            return mk_ite(t.op, t.args[0], go(t.args[1]), go(t.args[2]))
        if t.op == "exp":
            return mul(t, go(t.args[0]))
        if t.op == "log":
            return div(go(t.args[0]), t.args[0])
        if rules is not None:
            r = rules(t, go)
            if r is not None:
                return r
        raise NoDeriv(t)
    return go(t)


# ------------------------------------------------------------------- bounds
class Iv:
    """Interval with strictness; None = unbounded."""
    __slots__ = ("lo", "los", "hi", "his")

    def __init__(self, lo=None, los=False, hi=None, his=False):
        self.lo, self.los, self.hi, self.his = lo, los, hi, his

    def __repr__(self):
        return f"{'(' if self.los else '['}{self.lo},{self.hi}{')' if self.his else ']'}"


def _meet(a, b):
    lo, los = a.lo, a.los
    if b.lo is not None and (lo is None or b.lo > lo or (b.lo == lo and b.los)):
        lo, los = b.lo, b.los
    hi, his = a.hi, a.his
    if b.hi is not None and (hi is None or b.hi < hi or (b.hi == hi and b.his)):
        hi, his = b.hi, b.his
    return Iv(lo, los, hi, his)


def _join(a, b):
    if a.lo is None or b.lo is None:
        lo, los = None, False
    elif a.lo < b.lo:
        lo, los = a.lo, a.los
    elif b.lo < a.lo:
        lo, los = b.lo, b.los
    else:
        lo, los = a.lo, a.los and b.los
    if a.hi is None or b.hi is None:
        hi, his = None, False
    elif a.hi > b.hi:
        hi, his = a.hi, a.his
    elif b.hi > a.hi:
        hi, his = b.hi, b.his
    else:
        hi, his = a.hi, a.his and b.his
    return Iv(lo, los, hi, his)


def _ivadd(a, b):
    lo = None if a.lo is None or b.lo is None else a.lo + b.lo
    hi = None if a.hi is None or b.hi is None else a.hi + b.hi
    return Iv(lo, a.los or b.los, hi, a.his or b.his)


def _ivscale(a, c):
    if c == 0:
        return Iv(Fraction(0), False, Fraction(0), False)
    lo = None if a.lo is None else a.lo * c
    hi = None if a.hi is None else a.hi * c
    if c > 0:
        return Iv(lo, a.los, hi, a.his)
    return Iv(hi, a.his, lo, a.los)


def _ivmul(a, b):
    # sign based plus full product where bounded
    if None not in (a.lo, a.hi, b.lo, b.hi):
        ps = []
        for x, xs in ((a.lo, a.los), (a.hi, a.his)):
            for y, ys in ((b.lo, b.los), (b.hi, b.his)):
                ps.append((x * y, (xs and y != 0) or (ys and x != 0) or (xs and ys)))
        lo = min(p[0] for p in ps)
        hi = max(p[0] for p in ps)
        return Iv(lo, all(s for v, s in ps if v == lo), hi,
                  all(s for v, s in ps if v == hi))

    def sg(i):
        if i.lo is not None and (i.lo > 0 or (i.lo == 0 and i.los)):
            return "+"
        if i.lo is not None and i.lo >= 0:
            return "0+"
        if i.hi is not None and (i.hi < 0 or (i.hi == 0 and i.his)):
            return "-"
        if i.hi is not None and i.hi <= 0:
            return "0-"
        return "?"
    s, t = sg(a), sg(b)
    if "?" in (s, t):
        return Iv()
    strict = len(s) == 1 and len(t) == 1
    z = Fraction(0)
    if (s[-1] == "+") == (t[-1] == "+"):
        lo = None
        if a.lo is not None and b.lo is not None and s[-1] == "+":
            lo = a.lo * b.lo
        return Iv(lo if lo is not None else z, strict if not lo else (a.los or b.los))
    return Iv(None, False, z, strict)


def bounds(t, facts, depth=0, memo=None):
    """Interval of t implied by the facts (set of boolean terms)."""
    if memo is None:
        memo = {}
        flat = set()
        for f in facts:
            if f.op == "and":
                flat |= set(f.args)
            else:
                flat.add(f)
        facts = flat
    if t in memo:
        return memo[t]
    memo[t] = Iv()      # recursion guard
    r = _bounds(t, facts, depth, memo)
    r = _meet(r, _fact_bounds(t, facts))
    memo[t] = r
    return r


def _lin(d):
    """d = k*base + c."""
    c = Fraction(0)
    if d.op == "add":
        rest = []
        for x in d.args:
            if x.op == "num":
                c += x.args[0]
            else:
                rest.append(x)
        r = add(*rest)
    elif d.op == "num":
        return Fraction(0), ONE, d.args[0]
    else:
        r = d
    k, base = _coef_split(r)
    if base.op == "add":
        k2 = _content(base)
        base = mul(num(1 / k2), base)
        k = k * k2
    return k, base, c


def _fact_bounds(t, facts):
    r = Iv()
    kt, bt, ct = _lin(t)
    for f in facts:
        if f.op in ("lt0", "le0"):
            k, b, c = _lin(f.args[0])
            if b is bt and k != 0 and kt != 0:
                # k*b + c <(=) 0 ; t = kt*b + ct
                lim = -c / k
                s = f.op == "lt0"
                iv = Iv(None, False, lim, s) if k > 0 else Iv(lim, s)
                iv = _ivscale(iv, kt)
                iv = _ivadd(iv, Iv(ct, False, ct, False))
                r = _meet(r, iv)
        elif f.op == "eq0":
            k, b, c = _lin(f.args[0])
            if b is bt and k != 0:
                v = -c / k * kt + ct
                r = _meet(r, Iv(v, False, v, False))
        elif f.op == "ltx" or f.op == "lex":
            a, b = f.args
            if a is NINF or b is INF:
                continue
    return r


_CTX = decimal.Context(prec=40)


def _outward(d):
    """Rational interval around a decimal correct to 38 digits."""
    f = Fraction(d)
    e = abs(f) / 10 ** 36
    return f - e, f + e


def _dec(q):
    return _CTX.divide(decimal.Decimal(q.numerator), decimal.Decimal(q.denominator))


def _flog(q):
    if q == 1:
        return Fraction(0), Fraction(0)
    return _outward(_CTX.ln(_dec(q)))


def _fpow(b, k):
    """Enclosure of b**k for b >= 0, or None where it is not finite."""
    if b == 0:
        return (Fraction(0), Fraction(0)) if k > 0 else None
    if b == 1:
        return Fraction(1), Fraction(1)
    l = _CTX.multiply(_CTX.ln(_dec(b)), _dec(k))
    if abs(l) > 500:
        return None
    lo, hi = _outward(_CTX.exp(l))
    e = abs(hi) / 10 ** 30
    return lo - e, hi + e


def _bounds(t, facts, depth, memo):
    if depth > 60:
        return Iv()
    if t.op == "num":
        v = t.args[0]
        return Iv(v, False, v, False)
    if t.op == "add":
        r = Iv(Fraction(0), False, Fraction(0), False)
        for a in t.args:
            r = _ivadd(r, bounds(a, facts, depth + 1, memo))
        return r
    if t.op == "mul":
        r = Iv(Fraction(1), False, Fraction(1), False)
        for a in t.args:
            r = _ivmul(r, bounds(a, facts, depth + 1, memo))
        return r
    if t.op == "pow":
        b, e = t.args
        ib = bounds(b, facts, depth + 1, memo)
        if e.op == "num":
            k = e.args[0]
            if ib.lo is not None and ib.lo >= 0:
                z = Fraction(0)
                pos = ib.lo > 0 or ib.los
                if k.denominator == 1 and abs(k) <= 8:
                    if k > 0:
                        return Iv(ib.lo ** int(k), ib.los,
                                  None if ib.hi is None else ib.hi ** int(k), ib.his)
                    lo = z if ib.hi is None else (ib.hi ** int(k) if ib.hi else None)
                    hi = None if ib.lo == 0 else ib.lo ** int(k)
                    return Iv(lo, ib.his if ib.hi is not None else True, hi, ib.los)
                at_lo = _fpow(ib.lo, k)
                at_hi = None if ib.hi is None else _fpow(ib.hi, k)
                if k > 0:
                    return Iv(at_lo[0] if at_lo else z, pos, at_hi[1] if at_hi else None, False)
                return Iv(at_hi[0] if at_hi else z, not at_hi, at_lo[1] if at_lo and ib.lo > 0 else None, False)
            if k.denominator == 1 and k % 2 == 0:
                nz = (ib.hi is not None and (ib.hi < 0 or (ib.hi == 0 and ib.his)))
                return Iv(Fraction(0), nz)
            if k.denominator == 1 and k < 0 and ib.hi is not None and (ib.hi < 0 or (ib.hi == 0 and ib.his)):
                return Iv(None, False, Fraction(0), True)
            if k.denominator != 1:
                return Iv(Fraction(0))
        else:
            if ib.lo is not None and (ib.lo > 0 or (ib.lo == 0 and ib.los)):
                return Iv(Fraction(0), True)
        return Iv()
    if t.op == "abs":
        ib = bounds(t.args[0], facts, depth + 1, memo)
        hi = None
        if ib.lo is not None and ib.hi is not None:
            hi = max(abs(ib.lo), abs(ib.hi))
        return Iv(Fraction(0), False, hi, False)
    if t.op == "exp":
        return Iv(Fraction(0), True)
    if t.op == "log":
        ib = bounds(t.args[0], facts, depth + 1, memo)
        lo = _flog(ib.lo)[0] if ib.lo is not None and ib.lo > 0 else None
        hi = _flog(ib.hi)[1] if ib.hi is not None and ib.hi > 0 else None
        return Iv(lo, ib.los and lo == 0, hi, ib.his and hi == 0)
    if t.op == "len":
        return Iv(Fraction(0))
    if t.op in ("ite", "where"):
        c, a, b = t.args
        fa = facts | (set(c.args) if c.op == "and" else {c})
        n = not_(c)
        fb = facts | (set(n.args) if n.op == "and" else {n})
        ra = None if _contradiction(fa) else bounds(assume(a, fa), fa, depth + 1, {})
        rb = None if _contradiction(fb) else bounds(assume(b, fb), fb, depth + 1, {})
        if ra is None:
            return rb if rb is not None else Iv()
        if rb is None:
            return ra
        return _join(ra, rb)
    return Iv()


def prove(c, facts, split=1):
    """True if the condition follows from the facts, False if refuted, None
    if undecided (sound, incomplete)."""
    flat = set()
    for f in facts:
        if f.op == "and":
            flat |= set(f.args)
        else:
            flat.add(f)
    c = assume(c, flat)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.op == "and":
        rs = [prove(x, flat, split) for x in c.args]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return False if _chain(c.args, flat, split) else None
    if c.op == "or":
        rs = [prove(x, flat, split) for x in c.args]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        if _chain([not_(x) for x in c.args], flat, split):
            return True
    # split on disjunctive facts
    for f in sorted(flat) if split > 0 else ():
        if f.op == "or":
            rest = flat - {f}
            rs = []
            for x in f.args:
                fx = rest | (set(x.args) if x.op == "and" else {x})
                if _contradiction(fx):
                    continue
                rs.append(prove(c, fx, split - 1))
            if rs and all(r is True for r in rs):
                return True
            if rs and all(r is False for r in rs):
                return False
    if c.op in ("lt0", "le0"):
        iv = bounds(c.args[0], flat)
        if iv.hi is not None:
            if c.op == "lt0" and (iv.hi < 0 or (iv.hi == 0 and iv.his)):
                return True
            if c.op == "le0" and iv.hi <= 0:
                return True
        if iv.lo is not None:
            if c.op == "lt0" and iv.lo >= 0:
                return False
            if c.op == "le0" and (iv.lo > 0 or (iv.lo == 0 and iv.los)):
                return False
    if c.op == "not" and c.args[0].op == "eq0":
        iv = bounds(c.args[0].args[0], flat)
        if iv.lo is not None and (iv.lo > 0 or (iv.lo == 0 and iv.los)):
            return True
        if iv.hi is not None and (iv.hi < 0 or (iv.hi == 0 and iv.his)):
            return True
    return None


def _chain(args, flat, split):
    """The conditions exclude each other under the disjunctions known."""
    if split < 1 or not any(f.op == "or" for f in flat):
        return False
    known = set(flat)
    for x in args[:6]:
        if x.op not in ("lt0", "le0", "eq0", "not"):
            continue
        if prove(x, known, split) is False:
            return True
        known.add(x)
    return False


# --------------------------------------------------------------------- show
def show(t, depth=7):
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.args
    if o == "num":
        v = a[0]
        if v.denominator == 1:
            return str(v.numerator)
        f = float(v)
        return repr(f) if Fraction(repr(f)) == v else f"{v.numerator}/{v.denominator}"
    if o == "str":
        return repr(a[0])
    if o in ("none", "true", "false", "inf", "nan", "undef"):
        return {"none": "None", "true": "True", "false": "False"}.get(o, o)
    if o == "sym":
        return str(a[0])
    if o == "add":
        return "(" + " + ".join(show(x, d) for x in a) + ")"
    if o == "mul":
        return "*".join(show(x, d) for x in a)
    if o == "pow":
        return f"{show(a[0], d)}**{show(a[1], d)}"
    if o == "lt0":
        return f"{show(a[0], d)}<0"
    if o == "le0":
        return f"{show(a[0], d)}<=0"
    if o == "eq0":
        return f"{show(a[0], d)}==0"
    if o == "call":
        return f"{show(a[0], d)}({', '.join(show(x, d) for x in a[1:])})"
    if o == "index":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    return f"{o}({', '.join(show(x, d) for x in a)})"

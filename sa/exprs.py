"""Expression transfer functions."""

import ast
from fractions import Fraction

from . import terms as T
from . import seqs as S
from .terms import mk, num, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, ite, is_num, const_str
from .engine import Dead, Obj, Frame, AnchorMissing

NUMERIC_BOOL = T.BOOL_OPS


def leaves(v):
    return [y for x in v.args[1:] for y in leaves(x)] if v.op == "ite" else [v]


def elem(ctor, *args):
    """Elementwise operator."""
    r = S.push(None, args, ctor)
    return r if r is not None else ctor(*args)


def fmt(*parts):
    """String formatting in normal form."""
    out = []
    for p in parts:
        if p.op == "fmt":
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == "str":
            if not p.args[0]:
                continue
            if res and res[-1].op == "str":
                res[-1] = const_str(res[-1].args[0] + p.args[0])
                continue
        elif is_num(p) and p.args[0].denominator == 1 and False:
            pass
        res.append(p)
    if not res:
        return const_str("")
    if len(res) == 1 and res[0].op == "str":
        return res[0]
    return mk("fmt", *res)


class Exprs:
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown(e, f"expression {type(e).__name__}")
        return m(e, st, fr)

    # ----------------------------------------------------------- conditions
    def cond(self, e, st, fr):
        """Truth term of a test, simplified by the path facts."""
        if isinstance(e, ast.BoolOp):
            return self.boolop(e, st, fr, True)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return T.not_(self.cond(e.operand, st, fr))
        v = self.ev(e, st, fr)
        return self.decide(self.truth(v, st, fr, e), st)

    def truth(self, v, st, fr, node):
        if v.op in ("ref", "iref"):
            o = st.heap.get(v.args[0])
            if o is not None and o.kind in ("list", "dict"):
                return T.not_(T.eq0(S.length(self.deref(v, st))))
            if o is not None and o.kind == "arr":
                d = self.deref(v, st)
                return T.truthy(d)
            if o is not None and o.kind == "inst":
                for nm in ("__bool__", "__len__"):
                    f, _ = self.lookup(o.cls, nm, st)
                    if f is not None:
                        return T.truthy(self.call(mk("bound", f, v), [], {}, st, fr, node))
                return TRUE
        if v.op in ("ite", "where"):
            return T.ite(v.args[0], self.truth(v.args[1], st, fr, node),
                         self.truth(v.args[2], st, fr, node))
        if v.op in ("seq", "map", "concat", "slice", "filt", "split", "rev"):
            return T.not_(T.eq(S.length(v), ZERO))
        if self.pytype(v) == "list":
            return T.not_(T.eq0(S.length(v)))
        if v.op == "fmt" and len(v.args) == 1 and v.args[0] in self.bodies or v in self.bodies:
            return TRUE
        if v.op == "enum":
            x = self.enum_value(v)
            return T.truthy(x) if x is not None else TRUE
        return T.truthy(v)

    def decide(self, c, st):
        if c in (TRUE, FALSE) or not st.pc:
            return c
        c2 = T.assume(c, st.facts)
        if c2 in (TRUE, FALSE):
            return c2
        r = T.prove(c2, st.facts)
        if r is True:
            return TRUE
        if r is False:
            return FALSE
        return c2

    def boolop(self, e, st, fr, want_truth):
        isand = isinstance(e.op, ast.And)
        acc = None      # accumulated result so far (truth or value)
        gate = TRUE     # condition under which evaluation continues
        cur = st
        result = None
        vals = []
        states = []
        for i, x in enumerate(e.values):
            if want_truth:
                c = self.cond(x, cur, fr)
                v = c
            else:
                v = self.ev(x, cur, fr)
                c = self.decide(self.truth(v, cur, fr, x), cur)
            vals.append((c, v))
            stop = FALSE if isand else TRUE
            if c is stop or i == len(e.values) - 1:
                break
            if c is TRUE or c is FALSE:
                continue
            nxt = cur.copy()
            nxt.assume(c if isand else T.not_(c))
            states.append((cur, nxt, c))
            cur = nxt
            if cur.dead:
                break
        # join back
        for (before, after, c) in reversed(states):
            gate = c if isand else T.not_(c)
            if after.dead:
                before.assume(T.not_(gate))
                continue
            if any(before.heap.get(k) is not o for k, o in after.heap.items()):
                skip = before.copy()
                skip.assume(T.not_(gate))
                before.become(self.merge(after, skip, gate))
        if want_truth:
            cs = [c for c, _ in vals]
            r = T.and_(*cs) if isand else T.or_(*cs)
            return self.decide(r, st)
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = ite(c, r, v) if isand else ite(c, v, r)
        return r

    def e_BoolOp(self, e, st, fr):
        return self.boolop(e, st, fr, False)

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            out.append(self.compare(op, left, right, st, fr, e))
            left = right
        return out[0] if len(out) == 1 else T.and_(*out)

    def compare(self, op, a, b, st, fr, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = T.is_(a, b)
            return T.not_(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st, fr, node)
            return T.not_(r) if isinstance(op, ast.NotIn) else r
        a, b = self.val(a, st), self.val(b, st)
        a, b = self.enum_num(a, b), self.enum_num(b, a)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if a.op == "ref" and b.op in ("str", "none", "num") or \
                    b.op == "ref" and a.op in ("str", "none", "num"):
                r = FALSE
            else:
                r = elem(T.eq, a, b)
            return elem(T.not_, r) if isinstance(op, ast.NotEq) else r
        ctor = {ast.Lt: T.lt, ast.LtE: T.le, ast.Gt: lambda x, y: T.lt(y, x),
                ast.GtE: lambda x, y: T.le(y, x)}[type(op)]
        return elem(ctor, a, b)

    def enum_num(self, a, b):
        if a.op == "enum" and (b.op == "num" or b.op not in ("enum", "ite", "str", "none")):
            v = self.enum_value(a)
            if v is not None and b.op == "num":
                return v
        return a

    def contains(self, a, b, st, fr, node):
        if b.op != "str":
            b = self.seq_value(b, st)
        if b.op == "dictlit":
            return T.or_(*[T.eq(a, x.args[0]) for x in b.args])
        if b.op in ("seq", "tuple"):
            return T.or_(*[T.eq(a, x) for x in b.args])
        if b.op == "str" and a.op == "str":
            return TRUE if a.args[0] in b.args[0] else FALSE
        if a.op == "str" and "#" in a.args[0] and self.bodies:
            parts = b.args if b.op == "fmt" else (b,)
            if all(p.op == "str" or p in self.bodies for p in parts):
                return TRUE if any(p.op == "str" and a.args[0] in p.args[0] for p in parts) else FALSE
        return mk("in", self.deep(a, st), self.deep(b, st))

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        return self.branch(c, st, lambda s: self.ev(e.body, s, fr),
                           lambda s: self.ev(e.orelse, s, fr))

    def branch(self, c, st, fa, fb):
        """Evaluate two alternatives and join."""
        c = self.decide(c, st)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(T.not_(c))
        va = vb = None
        try:
            if not a.dead:
                va = fa(a)
        except Dead:
            a.dead = True
        try:
            if not b.dead:
                vb = fb(b)
        except Dead:
            b.dead = True
        if a.dead and b.dead:
            raise Dead()
        if a.dead:
            st.become(b)
            return vb
        if b.dead:
            st.become(a)
            return va
        st.become(self.merge(a, b, c))
        return ite(c, va, vb)

    # ------------------------------------------------------------- literals
    def e_Constant(self, e, st, fr):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, float):
            # decimal value as written
            return num(v)
        if isinstance(v, int):
            return num(v)
        if isinstance(v, str):
            return const_str(v)
        if v is Ellipsis:
            return T.ELLIPSIS
        return mk("const", repr(v))

    def e_Name(self, e, st, fr):
        return self.name(e.id, st, fr, e)

    def name(self, n, st, fr, node):
        fn = fr.fn
        sc = st.heap[fr.scope].f
        if n in sc and sc[n] is not UNDEF:
            if fn is None or n not in fn.globals:
                v = sc[n]
                if v.op == "maybe":
                    v = v.args[1] if v.args[2] is UNDEF else v.args[2]
                return v
        elif fn is not None and n in fn.locals and not getattr(fr, "classbody", False):
            # unbound local
            self.add_raise(st, "UnboundLocalError", node, implicit=True)
            if n in sc:
                raise Dead()
            return mk("unk", self.site(node), f"unbound {n}")
        for o in getattr(fr, "outer_scopes", ()) or ():
            f = st.heap[o].f if o in st.heap else {}
            if n in f and f[n] is not UNDEF:
                return f[n]
        g = st.heap[fr.module.oid].f
        if n in g:
            return g[n]
        return self.ext_const("builtins." + n)

    def e_Tuple(self, e, st, fr):
        items = self.ev_items(e.elts, st, fr)
        return mk("tuple", *items)

    def e_List(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.new_list(st, self.ev_star(e.elts, st, fr), e)
        return self.new_list(st, S.seq(self.ev_items(e.elts, st, fr)), e)

    e_Set = e_List

    def ev_items(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.seq_value(self.ev(x.value, st, fr), st)
                if v.op in ("seq", "tuple"):
                    out.extend(v.args)
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(x, st, fr))
        return out

    def ev_star(self, elts, st, fr):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.seq_value(self.ev(x.value, st, fr), st)
                parts.append(S.seq(v.args) if v.op == "tuple" else v)
            else:
                parts.append(S.seq([self.ev(x, st, fr)]))
        return S.concat(*parts)

    def e_Dict(self, e, st, fr):
        ents = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.deref(self.ev(v, st, fr), st)
                if d.op == "dictlit":
                    ents.extend(d.args)
                    continue
                return self.unknown(e, "dict unpacking")
            ents.append(mk("kv", self.ev(k, st, fr), self.ev(v, st, fr)))
        return self.alloc(st, Obj("dict", None, {"v": mk("dictlit", *ents)}), e)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const_str(v.value))
            else:
                parts.append(self.ev(v, st, fr))
        return fmt(*parts)

    def e_FormattedValue(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        if e.conversion == ord("s") or e.conversion == -1 and e.format_spec is None and any(x.op == "enum" for x in leaves(v)):
            v = self.to_str(v, st, fr, e)
        v = self.deep(v, st)
        if e.format_spec is not None:
            sp = self.ev(e.format_spec, st, fr)
            return mk("fmt", mk("spec", v, sp))
        if v.op in ("str", "fmt"):
            return v
        if v.op == "ite" and any(x.op in ("str", "fmt") for x in v.args[1:]):
            return v
        return mk("fmt", v)

    def e_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr, "<lambda>")

    def e_Starred(self, e, st, fr):
        return mk("star", self.seq_value(self.ev(e.value, st, fr), st))

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.bind_name(e.target.id, v, st, fr)
        return v

    def e_Await(self, e, st, fr):
        return self.unknown(e, "await")

    e_Yield = e_YieldFrom = e_Await

    # ------------------------------------------------------------ operators
    def val(self, t, st):
        """Value of arrays and lists, others unchanged."""
        return self.deref(t, st)

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return T.not_(self.cond(e.operand, st, fr))
        v = self.val(self.ev(e.operand, st, fr), st)
        if isinstance(e.op, ast.USub):
            return self.floating(elem(T.neg, v), (v,), st)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return elem(T.not_, v)
        return self.unknown(e, "unary")

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        r = self.binop(e.op, a, b, st, e)
        if r.op in ("sym", "index", "idx", "param") and not self.floaty(r, st) and \
                any(isinstance(x, ast.Constant) and isinstance(x.value, float) for x in (e.left, e.right)):
            # times 1.0 or plus 0.0: a copy of floating type
            return self.new_arr(st, r, mk("dt", "float"), e)
        return r

    def is_list(self, t, st):
        if t.op in ("ref", "iref"):
            o = st.heap.get(t.args[0])
            return o is not None and o.kind == "list"
        return False

    def binop(self, op, a, b, st, node):
        if isinstance(op, ast.Add):
            if self.is_list(a, st) and (self.is_list(b, st) or self.pytype(b) == "list"
                                        or b.op in ("slice", "concat", "map")) or \
                    self.is_list(b, st) and self.pytype(a) == "list":
                return self.new_list(st, S.concat(self.seq_value(a, st), self.seq_value(b, st)), node)
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *a.args, *b.args)
            if self.stringy(a) or self.stringy(b):
                return fmt(self.deep(a, st), self.deep(b, st))
        if isinstance(op, ast.Mod) and self.stringy(a):
            return mk("fmt", a, self.deep(b, st))
        if isinstance(op, ast.Mult):
            for x, n in ((a, b), (b, a)):
                if self.is_list(x, st):
                    v = self.deref(x, st)
                    if v.op == "seq" and is_num(n) and 0 <= n.args[0] <= 64:
                        return self.new_list(st, S.seq(v.args * int(n.args[0])), node)
                    if v.op == "seq" and len(v.args) == 1:
                        k = self.fresh("k")
                        return self.new_list(st, S.smap(n, k, v.args[0]), node)
                    return self.new_list(st, mk("repeat", v, n), node)
        return self.floating(self.arith(op, self.val(a, st), self.val(b, st), st, node), (a, b), st)

    def floating(self, r, operands, st):
        """Note that a computed value takes the float type of an operand."""
        if r.op in ("add", "mul", "pow", "abs", "where", "map", "seq", "bc") and r not in self.floats and \
                any(self.floaty(x, st) for x in operands):
            self.floats.add(r)
        return r

    def arith(self, op, a, b, st, node):
        t = type(op)
        if t is ast.Add:
            return elem(T.add, a, b)
        if t is ast.Sub:
            return elem(T.sub, a, b)
        if t is ast.Mult:
            return elem(T.mul, a, b)
        if t is ast.Div:
            if b is ZERO:
                self.add_raise(st, "ZeroDivisionError", node, implicit=True)
            return elem(T.div, a, b)
        if t is ast.Pow:
            return elem(T.power, a, b)
        if t is ast.BitAnd:
            return elem(T.and_, T.truthy(a), T.truthy(b)) if self.booly(a, b) else mk("bitand", a, b)
        if t is ast.BitOr:
            return elem(T.or_, T.truthy(a), T.truthy(b)) if self.booly(a, b) else mk("bitor", a, b)
        if t is ast.FloorDiv and is_num(a) and is_num(b) and b is not ZERO:
            return num(a.args[0] // b.args[0])
        if t is ast.Mod and is_num(a) and is_num(b) and b is not ZERO:
            return num(a.args[0] % b.args[0])
        return mk(t.__name__.lower(), a, b)

    def booly(self, *ts):
        return all(t.op in T.BOOL_OPS or t.op in ("map", "where") for t in ts)

    # -------------------------------------------------------- type knowledge
    def pytype(self, t):
        v = self.symtype.get(t)
        if isinstance(v, str):
            return v
        if isinstance(t, tuple):
            return None
        if t.op == "ite":
            a = self.pytype(t.args[1])
            return a if a is not None and a == self.pytype(t.args[2]) else None
        return None

    def stringy(self, t):
        if t.op in ("str", "fmt", "strip", "joined"):
            return True
        if t.op == "index":
            return t.args[0].op in ("split", "lines") or self.pytype(("elem", t.args[0])) == "str" \
                if not isinstance(t.args[0], tuple) else False
        if t.op == "ite":
            return self.stringy(t.args[1]) or self.stringy(t.args[2])
        return self.pytype(t) == "str"

    # ------------------------------------------------------------ subscripts
    def ev_index(self, e, st, fr):
        if isinstance(e, ast.Slice):
            f = [NONE if x is None else self.val(self.ev(x, st, fr), st)
                 for x in (e.lower, e.upper, e.step)]
            return mk("slice_", *f)
        if isinstance(e, ast.Tuple):
            return mk("tuple", *[self.ev_index(x, st, fr) for x in e.elts])
        return self.val(self.ev(e, st, fr), st)

    def e_Subscript(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        if base.op in ("ext", "class"):
            # generic alias / enum lookup
            if base.op == "class" and self.classes[base.args[0]].is_enum:
                i = self.ev(e.slice, st, fr)
                if i.op == "str":
                    return mk("enum", base.args[0], i.args[0])
                return mk("enumof", base, i)
            return base
        i = self.ev_index(e.slice, st, fr)
        return self.get_item(base, i, st, fr, e)

    def get_item(self, base, i, st, fr, node):
        if base.op == "ite":
            return self.branch(base.args[0], st,
                               lambda s: self.get_item(base.args[1], i, s, fr, node),
                               lambda s: self.get_item(base.args[2], i, s, fr, node))
        if base.op in ("ref", "iref"):
            o = st.heap.get(base.args[0])
            if o is not None and o.kind == "inst":
                f, _ = self.lookup(o.cls, "__getitem__", st)
                if f is not None:
                    return self.call(mk("bound", f, base), [i], {}, st, fr, node)
                return mk("index", base, i)
            v = self.deref(base, st)
            if o is not None and o.kind == "dict":
                return self.dict_item(v, i, st, fr, node)
            if o is not None and o.kind == "list" and i.op == "slice_":
                return self.new_list(st, S.index(self.spread(v, st), i), node)
            base = v
        if base.op == "dictlit":
            return self.dict_item(base, i, st, fr, node)
        if i.op in T.BOOL_OPS or i.op == "map" and S.body_at(i, ZERO).op in T.BOOL_OPS:
            if i is TRUE:
                return base
            return mk("masked", base, i)
        if i is T.ELLIPSIS or i.op == "tuple" and not i.args:
            return base
        if i.op == "tuple":
            return self.index_tuple(base, i)
        if base.op == "attr" and base.args[1] == "shape":
            if i is ZERO:
                return S.length(base.args[0])
        if base.op == "str" and is_num(i):
            k = int(i.args[0])
            s = base.args[0]
            if -len(s) <= k < len(s):
                return const_str(s[k])
        if base.op == "fmt" and i is ZERO:
            p = base.args[0]
            if p.op == "str" and p.args[0]:
                return const_str(p.args[0][0])
            if p in self.bodies:
                base = p
        if i.op == "slice_" or is_num(i) and i.args[0] < 0:
            base = self.spread(base, st)
        r = S.index(base, i)
        if r.op == "indexerror":
            self.add_raise(st, "IndexError", node, implicit=True)
            raise Dead()
        if is_num(i) and r.op == "index" and self.seqlike(base):
            # may be out of range
            k = i.args[0]
            ln = S.length(base)
            need = k + 1 if k >= 0 else -k
            c = T.lt(ln, num(need))
            c = self.decide(c, st)
            if c is not FALSE:
                b = st.copy()
                b.assume(c)
                if not b.dead:
                    self.add_raise(b, "IndexError", node, implicit=True)
                st.assume(T.not_(c))
        return r

    def seqlike(self, t):
        return t.op in ("split", "filt", "slice", "concat", "rev", "lines") or \
            self.pytype(t) == "list"

    def index_tuple(self, base, i):
        full = [x.op == "slice_" and all(a is NONE for a in x.args) for x in i.args]
        if all(full):
            return base
        if i.args and not full[0] and i.args[0].op != "slice_" and all(full[1:]):
            return S.index(base, i.args[0])
        if base.op in ("seq", "map", "rev", "concat") and len(i.args) == 2 and \
                i.args[0].op != "slice_":
            return S.index(S.index(base, i.args[0]), i.args[1])
        return mk("index", base, i)

    def dict_item(self, d, k, st, fr, node):
        if d.op != "dictlit":
            return mk("index", d, k)
        hit, missing = UNDEF, TRUE
        for e in d.args:
            kk, v = e.args
            c = T.eq(kk, k)
            if c is FALSE:
                continue
            hit = v if hit is UNDEF else ite(c, v, hit)
            missing = T.and_(missing, T.not_(c))
        missing = self.decide(missing, st)
        if hit is UNDEF or missing is TRUE:
            self.add_raise(st, "KeyError", node, implicit=True)
            raise Dead()
        if missing is not FALSE:
            b = st.copy()
            b.assume(missing)
            if not b.dead:
                self.add_raise(b, "KeyError", node, implicit=True)
            st.assume(T.not_(missing))
        return hit

    def unmask(self, v, m):
        """v computed from elements selected by m: elementwise expression."""
        sub = {x: x.args[0] for x in T.subterms(v) if x.op == "masked" and x.args[1] is m}
        return T.subst(v, sub) if sub else v

    def put(self, cur, i, v, st, node):
        """Value of a container after element i is assigned."""
        if i.op in T.BOOL_OPS:
            if v.op == "bc":
                v = v.args[1]
            return elem(T.where, i, self.unmask(v, i), cur)
        if i.op == "map" and i.args[2].op in T.BOOL_OPS:
            return elem(T.where, i, self.unmask(v, i), cur)
        if i.op == "seq" and i.args and all(x.op in T.BOOL_OPS for x in i.args):
            return elem(T.where, i, self.unmask(v, i), cur)
        if i is T.ELLIPSIS or i.op == "slice_" and all(a is NONE for a in i.args) or \
                i.op == "tuple" and all(x.op == "slice_" and all(a is NONE for a in x.args) for x in i.args):
            if v.op in ("map", "seq", "bc", "concat"):
                return v
            return S.bc(cur, v)
        if cur.op == "seq" and is_num(i) and -len(cur.args) <= i.args[0] < len(cur.args):
            a = list(cur.args)
            a[int(i.args[0])] = v
            return S.seq(a)
        if cur.op == "dictlit":
            out, done = [], False
            for e in cur.args:
                c = T.eq(e.args[0], i)
                if c is TRUE:
                    out.append(mk("kv", i, v))
                    done = True
                elif c is FALSE:
                    out.append(e)
                else:
                    return mk("dictset", cur, i, v)
            if not done:
                out.append(mk("kv", i, v))
            return mk("dictlit", *out)
        if i.op == "tuple" and i.args and i.args[0].op != "slice_" and all(
                x.op == "slice_" and all(a is NONE for a in x.args) for x in i.args[1:]):
            i = i.args[0]
        if cur.op == "store" and cur.args[1] is i:
            cur = cur.args[0]
        elif cur.op == "store" and is_num(i) and is_num(cur.args[1]) and \
                (i.args[0] >= 0) == (cur.args[1].args[0] >= 0) and i.args[0] < cur.args[1].args[0]:
            # canonical order of independent constant stores
            return mk("store", self.put(cur.args[0], i, v, st, node), cur.args[1], cur.args[2])
        return mk("store", cur, i, v)

    def set_item(self, base, i, v, st, fr, node, quiet=False):
        """Element store.  Returns the new value term when the base is not a
        heap object (the caller rebinds it), else None."""
        if base.op == "ite":
            self.branch(base.args[0], st,
                        lambda s: self._set1(base.args[1], i, v, s, fr, node, quiet),
                        lambda s: self._set1(base.args[2], i, v, s, fr, node, quiet))
            if any(x.op != "ref" for x in base.args[1:]):
                return ite(base.args[0], *[x if x.op == "ref" else
                                           self.put(x, i, self.val(v, st), st, node)
                                           for x in base.args[1:]])
            return None
        return self._set1(base, i, v, st, fr, node, quiet)

    def _set1(self, base, i, v, st, fr, node, quiet):
        if base.op in ("ref", "iref"):
            o = st.heap.get(base.args[0])
            if o is not None and o.kind == "inst":
                f, _ = self.lookup(o.cls, "__setitem__", st)
                if f is not None:
                    self.call(mk("bound", f, base), [i, v], {}, st, fr, node)
                return NONE and None
            if not quiet:
                self.event("mutate", base, node, "item store", st)
            cur = self.deref(base, st)
            if o.kind == "arr":
                self.narrow_check(base, v, st, node)
                v = self.val(v, st)
            nv = self.put(cur, i, v, st, node)
            if base.op == "ref" and o.idx is None:
                st.heap[base.args[0]] = o.set("v", nv)
            else:
                self.family_store(o, base, "v", nv, st)
            return None
        if not quiet:
            self.event("mutate", base, node, "item store", st)
            self.narrow_check(base, v, st, node)
        return self.put(base, i, self.val(v, st), st, node)

    def narrow_check(self, base, v, st, node):
        """A store of a fractional value into an array whose element type is
        that of an argument truncates when the argument is integral."""
        if base.op == "ref":
            o = st.heap.get(base.args[0])
            dt = o.f.get("dt", NONE)
            if dt is not NONE and dt.op == "like" and not self.floaty(dt.args[0], st):
                if not self.integral(self.val(v, st), dt.args[0]):
                    self.event("narrow", dt.args[0], node, "store into array of the argument's element type", st)

    def floaty(self, t, st):
        """Is the value certainly of floating type?"""
        if t in self.floats:
            return True
        if t.op in ("ref", "iref"):
            o = st.heap.get(t.args[0])
            if o is not None and o.kind == "arr":
                dt = o.f.get("dt", NONE)
                if dt is not NONE and dt.op == "like":
                    return self.floaty(dt.args[0], st)
                return dt is not NONE
            t = self.deref(t, st)
            if t.op == "ref":
                return True
        pt = self.pytype(t)
        if pt in ("float", "farray"):
            return True
        if t.op == "num":
            return t.args[0].denominator != 1
        if t.op in ("exp", "log", "inf", "nan", "float"):
            return True
        if t.op == "pow":
            return not (is_num(t.args[1]) and t.args[1].args[0].denominator == 1
                        and t.args[1].args[0] > 0) or self.floaty(t.args[0], st)
        if t.op in ("add", "mul", "abs"):
            return any(self.floaty(a, st) for a in t.args)
        if t.op in ("where", "ite"):
            return self.floaty(t.args[1], st) and self.floaty(t.args[2], st)
        if t.op in ("bc",):
            return self.floaty(t.args[1], st)
        if t.op in ("call", "attr"):
            return True
        if t.op == "index":
            return self.floaty(t.args[0], st)
        if t.op in ("seq", "tuple"):
            return bool(t.args) and any(self.floaty(a, st) for a in t.args)
        if t.op in ("map",):
            return self.floaty(t.args[2], st)
        return False

    def integral(self, v, like):
        if v.op == "num":
            return v.args[0].denominator == 1
        if v.op in ("true", "false"):
            return True
        return v is like

    def family_store(self, o, base, f, v, st):
        """Store into member i of a family of per-iteration objects."""
        i = base.args[1] if base.op == "iref" else o.idx
        old = o.f.get(f, UNDEF)
        if i is o.idx:
            nv = v
        else:
            nv = ite(T.eq0(T.sub(o.idx, i)), v, old)
        st.heap[base.args[0]] = o.set(f, nv)

    def havoc_container(self, b, st):
        if b.op == "ref":
            o = st.heap.get(b.args[0])
            if o is not None and "v" in o.f:
                st.heap[b.args[0]] = o.set("v", self.fresh("unkv"))

    def seq_value(self, t, st):
        """The sequence of elements an iteration over t yields."""
        return self.spread(self._seq_value(t, st), st)

    def spread(self, v, st):
        """The elements one by one where a fact gives their number."""
        if v.op not in ("map", "split", "slice", "rev", "concat"):
            return v
        n = S.length(v)
        if n.op != "len":
            return v
        for f in st.facts:
            if f.op == "eq0" and f.args[0].op == "add" and n in f.args[0].args and len(f.args[0].args) == 2:
                c = T.subst(f.args[0], {n: ZERO})
                if is_num(c) and c.args[0].denominator == 1 and 0 <= -c.args[0] <= 64:
                    return S.seq([S.index(v, num(k)) for k in range(int(-c.args[0]))])
        return v

    def _seq_value(self, t, st):
        if t.op in ("ref", "iref"):
            o = st.heap.get(t.args[0])
            if o is not None and o.kind in ("list", "arr"):
                return self.deref(t, st)
            if o is not None and o.kind == "dict":
                d = self.deref(t, st)
                if d.op == "dictlit":
                    return S.seq([e.args[0] for e in d.args])
                return mk("keys", d)
            return t
        if t.op == "dictlit":
            return S.seq([e.args[0] for e in t.args])
        if t.op == "ite":
            return ite(t.args[0], self.seq_value(t.args[1], st), self.seq_value(t.args[2], st))
        if t.op == "class" and self.classes[t.args[0]].is_enum:
            return S.seq([mk("enum", t.args[0], k) for k, _ in self.enums[t.args[0]]])
        if t.op == "str":
            return S.seq([const_str(c) for c in t.args[0]])
        if t.op == "call" and self.files:
            lines = self.file_lines(t)
            if lines is not None:
                return lines
        return t

    # ---------------------------------------------------------- comprehension
    def e_ListComp(self, e, st, fr):
        tmp = self.new_list(st, S.EMPTY, e)
        self.comp(e.generators, 0, lambda s: self.append_to(tmp, self.ev(e.elt, s, fr), s), st, fr, e)
        if st.dead:
            raise Dead()
        return tmp

    e_SetComp = e_ListComp
    def e_GeneratorExp(self, e, st, fr):
        r = self.e_ListComp(e, st, fr)
        if r.op == "ref":
            o = st.heap[r.args[0]]
            st.heap[r.args[0]] = type(o)(o.kind, o.cls, o.f, o.idx, "iter")
        return r

    def append_to(self, tmp, v, st):
        o = st.heap[tmp.args[0]]
        st.heap[tmp.args[0]] = o.set("v", S.concat(o.f["v"], S.seq([v])))

    def e_DictComp(self, e, st, fr):
        tmp = self.alloc(st, Obj("dict", None, {"v": mk("dictlit")}), e)

        def leaf(s):
            k = self.ev(e.key, s, fr)
            v = self.ev(e.value, s, fr)
            o = s.heap[tmp.args[0]]
            s.heap[tmp.args[0]] = o.set("v", self.put(o.f["v"], k, v, s, e))
        self.comp(e.generators, 0, leaf, st, fr, e)
        if st.dead:
            raise Dead()
        return tmp

    def comp(self, gens, i, leaf, st, fr, node):
        if i == len(gens):
            leaf(st)
            return
        g = gens[i]
        it = self.ev(g.iter, st, fr)
        names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        saved = {n: st.heap[fr.scope].f.get(n) for n in names}

        def bind(s, v):
            was = getattr(fr, "classbody", False)
            if isinstance(g.target, ast.Name):
                sc = s.heap[fr.scope]
                s.heap[fr.scope] = sc.set(g.target.id, v)
            else:
                self.assign(g.target, v, s, fr, node)

        def body(s, j=0):
            if j == len(g.ifs):
                self.comp(gens, i + 1, leaf, s, fr, node)
                return
            cv = self.cond(g.ifs[j], s, fr)
            if cv is FALSE:
                return
            if cv is TRUE:
                body(s, j + 1)
                return
            a, b = s.copy(), s.copy()
            a.assume(cv)
            b.assume(T.not_(cv))
            if not a.dead:
                try:
                    body(a, j + 1)
                except Dead:
                    a.dead = True
            if a.dead and b.dead:
                raise Dead()
            s.become(self.merge(a, b, cv))
        self.iterate(it, bind, body, st, fr, node)
        if st.dead:
            raise Dead()
        sc = st.heap[fr.scope]
        f = dict(sc.f)
        for n, v in saved.items():
            if v is None:
                f.pop(n, None)
            else:
                f[n] = v
        st.heap[fr.scope] = Obj(sc.kind, sc.cls, f, sc.idx, sc.meta)

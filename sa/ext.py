"""Models of the external functions the package uses (numpy, scipy, builtins)."""

import ast

from . import terms as T
from . import seqs as S
from .terms import mk, num, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, INF, ite, is_num, const_str
from .engine import Dead, Obj, BUILTIN_EXC
from .exprs import elem, fmt

HALF = T.power(num(2), num(-1))
NONDET = ("random", "time", "datetime", "uuid", "secrets", "os.environ", "os.getenv",
          "os.getpid", "builtins.id", "builtins.hash", "os.urandom", "platform", "socket",
          "builtins.input", "locale", "os.getcwd")

# external callables whose failure is part of their contract
RAISES = {
    "scipy.integrate.solve_ivp": "ValueError",
    "scipy.integrate.quad": None,
    "scipy.optimize.root_scalar": "ValueError",
    "scipy.optimize.brentq": "ValueError",
    "scipy.interpolate.PchipInterpolator": "ValueError",
    "scipy.interpolate.CubicSpline": "ValueError",
    "scipy.interpolate.UnivariateSpline": "ValueError",
    "builtins.open": "OSError",
    "importlib.resources.files": None,
}

# interpolators: callable objects that provide derivatives
SPLINES = ("PchipInterpolator", "CubicSpline", "Akima1DInterpolator", "PPoly", "BSpline",
           "make_interp_spline", "UnivariateSpline", "InterpolatedUnivariateSpline")


def canon_log(x):
    if x is ONE:
        return ZERO
    if x.op == "exp":
        return x.args[0]
    return mk("log", x)


def canon_exp(x):
    if x is ZERO:
        return ONE
    if x.op == "log":
        return x.args[0]
    if x.op == "mul":
        for i, a in enumerate(x.args):
            if a.op == "log":
                return T.power(a.args[0], T.mul(*[b for j, b in enumerate(x.args) if j != i]))
    return mk("exp", x)


T.REBUILD["exp"] = canon_exp
T.REBUILD["log"] = canon_log


def maximum(a, b):
    return T.where(T.lt(a, b), b, a)


def minimum(a, b):
    return T.where(T.lt(b, a), b, a)


class Ext:
    def ext_const(self, name):
        last = name.split(".")[-1]
        root = name.split(".")[0]
        if root in ("numpy", "math"):
            if last in ("inf", "Inf", "infty", "PINF") and name.count(".") == 1:
                return INF
            if last == "nan":
                return T.NAN
            if last == "newaxis":
                return NONE
            if last == "pi":
                return mk("sym", "pi")
            if last == "e" and name.count(".") == 1:
                return mk("exp", ONE)
        if name == "builtins.__debug__":
            return TRUE
        return mk("ext", name)

    def is_floatdt(self, t):
        if t.op == "ext":
            return t.args[0].split(".")[-1] in ("float", "float64", "double", "float_", "floating",
                                                "longdouble", "float32")
        return t.op == "str" and t.args[0] in ("float", "float64", "d", "f8", "double")

    def dt_of(self, t, st):
        """Element type note of an array made like t."""
        if t.op == "ref":
            o = st.heap.get(t.args[0])
            if o is not None and o.kind == "arr":
                d = o.f.get("dt", NONE)
                return None if d is NONE else d
        d = self.deref(t, st)
        if d.op in ("sym", "index", "k", "idx", "param"):
            return mk("like", d)
        if self.floaty(t, st):
            return mk("dt", "float")
        return mk("like", d)

    def call_ext(self, name, args, kwargs, st, fr, node):
        for nd in NONDET:
            if name == nd or name.startswith(nd + ".") or name.startswith("numpy." + nd + "."):
                self.event("nondet", mk("ext", name), node, "non-deterministic external", st)
        last = name.split(".")[-1]
        root = name.split(".")[0]
        h = None
        if root == "builtins":
            h = getattr(self, "b_" + last, None)
            if h is None and last in BUILTIN_EXC:
                return mk("excinst", last)
        elif root in ("numpy", "math"):
            h = getattr(self, "n_" + last, None)
        elif root in ("copy", "functools", "typing", "typing_extensions", "itertools", "operator",
                      "dataclasses", "enum", "warnings", "abc"):
            h = getattr(self, "m_" + last, None)
        elif last == "cast":
            h = self.m_cast
        if h is not None:
            r = h(args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        raises = RAISES.get(name, "?")
        if root in ("numpy", "math", "builtins", "warnings"):
            raises = None
        if name in RAISES:
            raises = RAISES[name]
        kwargs, args = self.normalise(name, args, kwargs)
        return self.opaque(mk("ext", name), args, kwargs, st, node, raises=raises)

    SIGS = {
        "scipy.integrate.solve_ivp": ["fun", "t_span", "y0", "method", "t_eval", "dense_output",
                                      "events", "vectorized", "args"],
        "scipy.integrate.quad": ["func", "a", "b", "args"],
        "scipy.optimize.root_scalar": ["f", "args", "method", "bracket"],
    }

    def normalise(self, name, args, kwargs):
        """Positional arguments to keywords; defaults given explicitly dropped."""
        sig = self.SIGS.get(name)
        if sig and not any(a.op == "star" for a in args):
            kw = dict(kwargs)
            for p, a in zip(sig, args):
                kw[p] = a
            for p, d in (("method", const_str("RK45")), ("events", NONE), ("dense_output", FALSE),
                         ("t_eval", NONE), ("args", NONE)):
                if name.endswith("solve_ivp") and kw.get(p) is d:
                    del kw[p]
            return kw, []
        return kwargs, args

    # ------------------------------------------------------------- builtins
    def b_float(self, args, kw, st, fr, node):
        if not args:
            return ZERO
        x = self.val(args[0], st)
        if x.op == "str":
            try:
                return num(float(x.args[0]))
            except ValueError:
                self.add_raise(st, "ValueError", node, implicit=True)
                raise Dead()
        if x is TRUE:
            return ONE
        if x is FALSE:
            return ZERO
        if x.op in ("strip", "fmt"):      # surrounding blanks do not matter
            y = self.str_method(x, "strip", [], {}, st, fr, node)
            x = y.args[0] if y.op == "strip" else y
        if self.stringy(x) or x.op in ("strip", "call") and self.stringy(x):
            self.add_raise(st, "ValueError", node, implicit=True)
            return mk("float", x)
        return x

    def b_int(self, args, kw, st, fr, node):
        if not args:
            return ZERO
        x = self.val(args[0], st)
        if is_num(x):
            return num(int(x.args[0]))
        if x.op == "enum":
            v = self.enum_value(x)
            if v is not None:
                return v
        if self.stringy(x):
            self.add_raise(st, "ValueError", node, implicit=True)
        if x.op == "len" or self.pytype(x) == "int":
            return x
        if x in (TRUE, FALSE) or x.op in T.BOOL_OPS or self.pytype(x) == "bool":
            return self.branch(T.truthy(x), st, lambda s: ONE, lambda s: ZERO)
        return mk("int", x)

    def b_bool(self, args, kw, st, fr, node):
        return self.truth(args[0], st, fr, node) if args else FALSE

    def b_str(self, args, kw, st, fr, node):
        return self.to_str(args[0], st, fr, node) if args else const_str("")

    def b_repr(self, args, kw, st, fr, node):
        return mk("repr", self.deep(args[0], st))

    def b_format(self, args, kw, st, fr, node):
        return fmt(mk("spec", self.deep(args[0], st), args[1])) if len(args) > 1 else \
            self.to_str(args[0], st, fr, node)

    def b_len(self, args, kw, st, fr, node):
        x = args[0]
        if x.op in ("ref", "iref"):
            o = st.heap.get(x.args[0])
            if o is not None and o.kind == "inst":
                f, _ = self.lookup(o.cls, "__len__", st)
                if f is not None:
                    return self.call(mk("bound", f, x), [], {}, st, fr, node)
        d = self.deref(x, st)
        if d.op == "dictlit":
            return num(len(d.args))
        if d.op == "class":
            return num(len(self.enums.get(d.args[0], ())))
        return S.length(d)

    def b_abs(self, args, kw, st, fr, node):
        return elem(T.tabs, self.val(args[0], st))

    def b_pow(self, args, kw, st, fr, node):
        return elem(T.power, self.val(args[0], st), self.val(args[1], st))

    def _extremum(self, args, kw, st, fr, node, ismax):
        if len(args) == 1 and not kw:
            v = self.seq_value(args[0], st)
            if v.op in ("seq", "tuple") and v.args:
                xs = [self.val(a, st) for a in v.args]
                if all(is_num(x) for x in xs):
                    f = max if ismax else min
                    return num(f(x.args[0] for x in xs))
                args = xs
            else:
                return mk("agg", "max" if ismax else "min", v)
        if kw:
            return NotImplemented
        r = self.val(args[0], st)
        for a in args[1:]:
            a = self.val(a, st)
            c = T.lt(r, a) if ismax else T.lt(a, r)
            r = ite(c, a, r)
        return r

    def b_max(self, args, kw, st, fr, node):
        return self._extremum(args, kw, st, fr, node, True)

    def b_min(self, args, kw, st, fr, node):
        return self._extremum(args, kw, st, fr, node, False)

    def b_sum(self, args, kw, st, fr, node):
        v = self.seq_value(args[0], st)
        s0 = args[1] if len(args) > 1 else ZERO
        if v.op == "seq" and len(v.args) <= 64:
            r = s0
            for x in v.args:
                r = self.binop(ast.Add(), r, x, st, node)
            return r
        return T.add(s0, self.agg("sum", v))

    def b_any(self, args, kw, st, fr, node):
        return self._quant(args, st, "any")

    def b_all(self, args, kw, st, fr, node):
        return self._quant(args, st, "all")

    def _quant(self, args, st, q):
        v = self.seq_value(args[0], st)
        if v.op in ("seq", "tuple"):
            ts = [T.truthy(x) for x in v.args]
            return T.or_(*ts) if q == "any" else T.and_(*ts)
        if v.op == "map":
            k = v.args[1]
            b = T.truthy(v.args[2])
            if q == "any":
                return self.exists_first(v.args[0], k, b)[0]
            return T.not_(self.exists_first(v.args[0], k, T.not_(b))[0])
        return self.agg(q, v)

    def b_range(self, args, kw, st, fr, node):
        a = [self.val(x, st) for x in args]
        lo, hi, step = ZERO, NONE, ONE
        if len(a) == 1:
            hi = a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            lo, hi, step = a
        if all(is_num(x) for x in (lo, hi, step)):
            r = range(int(lo.args[0]), int(hi.args[0]), int(step.args[0]))
            if len(r) <= 64:
                return S.seq([num(i) for i in r])
        if step is ONE:
            k = self.fresh("k")
            return S.smap(T.sub(hi, lo), k, T.add(lo, k))
        if is_num(step) and step.args[0] == -1:
            k = self.fresh("k")
            return S.smap(T.sub(lo, hi), k, T.sub(lo, k))
        return mk("rangestep", lo, hi, step)

    def b_enumerate(self, args, kw, st, fr, node):
        v = self.seq_value(args[0], st)
        off = args[1] if len(args) > 1 else kw.get("start", ZERO)
        parts = v.args if v.op == "concat" else (v,)
        out = []
        for p in parts:
            if p.op in ("seq", "tuple"):
                out.append(S.seq([mk("tuple", T.add(off, num(i)), x) for i, x in enumerate(p.args)]))
                off = T.add(off, num(len(p.args)))
            else:
                k = self.fresh("k")
                n = S.length(p)
                out.append(S.smap(n, k, mk("tuple", T.add(off, k), S.index(p, k))))
                off = T.add(off, n)
        return S.concat(*out)

    def b_zip(self, args, kw, st, fr, node):
        vs = [self.seq_value(a, st) for a in args]
        if not vs:
            return S.EMPTY
        if all(v.op in ("seq", "tuple") for v in vs):
            return S.seq([mk("tuple", *xs) for xs in zip(*[v.args for v in vs])])
        fixed = [len(v.args) for v in vs if v.op in ("seq", "tuple")]
        if fixed:
            k = num(min(fixed))
            if all(v.op in ("seq", "tuple") or T.prove(T.le(k, T.assume(S.length(v), frozenset(st.facts))), st.facts) is True
                   for v in vs):
                cols = [v.args[:min(fixed)] if v.op in ("seq", "tuple") else
                        [S.index(v, num(i)) for i in range(min(fixed))] for v in vs]
                return S.seq([mk("tuple", *xs) for xs in zip(*cols)])
        endless = [v for v in vs if S.length(v) is INF]
        n = S.length(next((v for v in vs if v not in endless), vs[0]))
        for v in vs:
            m = S.length(v)
            if v in endless:
                continue
            if m is not n:
                n = ite(T.lt(m, n), m, n)
        k = self.fresh("k")
        return S.smap(n, k, mk("tuple", *[S.index(v, k) for v in vs]))

    def m_repeat(self, args, kw, st, fr, node):
        times = args[1] if len(args) > 1 else kw.get("times", INF)
        return S.smap(times, self.fresh("k"), args[0])

    def b_reversed(self, args, kw, st, fr, node):
        v = self.seq_value(args[0], st)
        return S.rev(S.seq(v.args) if v.op == "tuple" else v)

    def b_sorted(self, args, kw, st, fr, node):
        return self.new_list(st, mk("sorted", self.seq_value(args[0], st)), node)

    def b_iter(self, args, kw, st, fr, node):
        if self.is_iter(args[0], st):
            return args[0]
        return self.alloc(st, Obj("list", None, {"v": self.seq_value(args[0], st)}, None, "iter"), node)

    def is_iter(self, t, st):
        o = st.heap.get(t.args[0]) if t.op == "ref" else None
        return o is not None and o.kind == "list" and o.meta == "iter"

    def b_next(self, args, kw, st, fr, node):
        v = self.seq_value(args[0], st)
        r = self.next_of(v, args, st, fr, node)
        if self.is_iter(args[0], st):
            # the elements up to that one are used up
            if v.op == "seq":
                rest = mk("seq", *v.args[1:])
            elif S.length(v) is ZERO:
                rest = v
            else:
                rest = mk("rest", v)
            o = st.heap[args[0].args[0]]
            st.heap[args[0].args[0]] = Obj(o.kind, o.cls, {**o.f, "v": rest}, o.idx, o.meta)
        return r

    def first_or(self, v, default):
        """First element of a sequence of known pieces, or None."""
        if v.op == "ite":
            a, b = self.first_or(v.args[1], default), self.first_or(v.args[2], default)
            return None if a is None or b is None else ite(v.args[0], a, b)
        if v.op == "concat":
            r = default
            for p in reversed(v.args):
                r = self.first_or(p, r)
                if r is None:
                    return None
            return r
        if v.op == "seq":
            return v.args[0] if v.args else default
        return None

    def next_of(self, v, args, st, fr, node):
        if v.op == "seq" and v.args:
            return v.args[0]
        if v.op == "filt":
            m = v.args[0]
            # first element satisfying the condition
            if m.op == "map" and m.args[2].op == "pair":
                n, k, p = m.args
                ex, first = self.exists_first(n, k, p.args[0])
                val = T.subst(p.args[1], {k: first})
                if len(args) > 1:
                    return ite(ex, val, args[1])
                b = st.copy()
                b.assume(T.not_(ex))
                if not b.dead:
                    self.add_raise(b, "StopIteration", node, implicit=True)
                st.assume(ex)
                return val
        if len(args) > 1:
            r = self.first_or(v, args[1])
            return mk("nextor", v, args[1]) if r is None else r
        self.add_raise(st, "StopIteration", node, implicit=True)
        return S.index(v, ZERO)

    def b_map(self, args, kw, st, fr, node):
        f = args[0]
        vs = [self.seq_value(a, st) for a in args[1:]]
        src = vs[0] if len(vs) == 1 else self.b_zip(args[1:], {}, st, fr, node)
        tmp = self.new_list(st, S.EMPTY, node)
        holder = {}

        def bind(s, v):
            holder["v"] = v

        def body(s):
            v = holder["v"]
            a = list(v.args) if len(vs) > 1 and v.op == "tuple" else [v]
            self.append_to(tmp, self.call(f, a, {}, s, fr, node), s)
        self.iterate(src, bind, body, st, fr, node)
        if st.dead:
            raise Dead()
        return tmp

    def b_filter(self, args, kw, st, fr, node):
        f = args[0]
        src = self.seq_value(args[1], st)
        tmp = self.new_list(st, S.EMPTY, node)
        holder = {}

        def bind(s, v):
            holder["v"] = v

        def body(s):
            v = holder["v"]
            c = self.truth(v, s, fr, node) if f is NONE or f.op == "ext" and f.args[0] == "builtins.bool" else \
                self.truth(self.call(f, [v], {}, s, fr, node), s, fr, node)
            c = self.decide(c, s)
            if c is FALSE:
                return
            if c is TRUE:
                self.append_to(tmp, v, s)
                return
            a, b = s.copy(), s.copy()
            a.assume(c)
            b.assume(T.not_(c))
            self.append_to(tmp, v, a)
            s.become(self.merge(a, b, c))
        self.iterate(src, bind, body, st, fr, node)
        if st.dead:
            raise Dead()
        return tmp

    def b_list(self, args, kw, st, fr, node):
        if not args:
            return self.new_list(st, S.EMPTY, node)
        v = self.seq_value(args[0], st)
        if v.op == "tuple":
            v = S.seq(v.args)
        return self.new_list(st, v, node)

    b_set = b_frozenset = b_list

    def b_tuple(self, args, kw, st, fr, node):
        if not args:
            return mk("tuple")
        v = self.seq_value(args[0], st)
        return mk("tuple", *v.args) if v.op == "seq" else v

    def b_dict(self, args, kw, st, fr, node):
        ents = []
        if args:
            v = self.deref(args[0], st)
            if v.op == "dictlit":
                ents = list(v.args)
            elif v.op in ("seq", "tuple") and all(x.op == "tuple" and len(x.args) == 2 for x in v.args):
                ents = [mk("kv", *x.args) for x in v.args]
            else:
                return self.alloc(st, Obj("dict", None, {"v": mk("dictof", self.deep(v, st))}), node)
        for k, v in kw.items():
            ents.append(mk("kv", const_str(k), v))
        return self.alloc(st, Obj("dict", None, {"v": mk("dictlit", *ents)}), node)

    def b_slice(self, args, kw, st, fr, node):
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return mk("slice_", *a)

    TYPEMAP = {"int": ("int",), "float": ("float",), "str": ("str",), "list": ("list",),
               "tuple": ("tuple",), "dict": ("dict",), "bool": ("bool",)}

    def isinst1(self, x, c, st):
        if c.op == "class":
            cls = self.classes[c.args[0]]
            xc = self.type_of(x, st)
            if xc is not None:
                if cls in self.mro(xc):
                    return TRUE
                if x.op in ("ref", "iref", "enum"):
                    return FALSE
                return mk("isinstance", x, c)
            if x.op in ("ref", "num", "str", "none", "tuple", "func", "bound", "true", "false"):
                return FALSE
            pt = self.pytype(x)
            if pt in ("float", "str", "list", "int", "farray", "tuple"):
                return FALSE
            return mk("isinstance", x, c)
        n = c.args[0].split(".")[-1] if c.op == "ext" else None
        if n is None:
            return mk("isinstance", x, c)
        if n == "Callable":
            return self.is_callable(x, st)
        if x.op in ("ref", "iref"):
            o = st.heap.get(x.args[0])
            if o is not None and o.kind in ("list", "dict", "arr"):
                if n in ("list", "dict"):
                    return TRUE if o.kind == n else FALSE
                if n == "ndarray":
                    return TRUE if o.kind == "arr" else FALSE
                if n in ("str", "int", "float", "tuple", "bool", "set"):
                    return FALSE
                if n in ("Sequence", "Iterable", "Sized") and o.kind == "list":
                    return TRUE
            elif o is not None and o.kind == "inst" and n in ("str", "int", "float", "list", "tuple", "dict", "ndarray", "bool"):
                return FALSE
            return mk("isinstance", x, c)
        simple = ("int", "float", "str", "list", "tuple", "dict", "bool", "ndarray", "set",
                  "floating", "integer", "Number", "Real", "complex", "bytes", "Sequence", "NoneType")
        if n in simple:
            if x.op == "num":
                if n in ("Number", "Real"):
                    return TRUE
                if n in ("int", "float"):
                    if x.args[0].denominator != 1:
                        return TRUE if n == "float" else FALSE
                    return mk("isinstance", x, c)
                return FALSE
            if x.op in ("str", "fmt"):
                return TRUE if n in ("str", "Sequence") else FALSE
            if x.op == "tuple":
                return TRUE if n in ("tuple", "Sequence") else FALSE
            if x.op in ("none", "func", "bound", "class", "ext"):
                return FALSE
            if x.op in ("true", "false"):
                return TRUE if n in ("bool", "int", "Number") else FALSE
            pt = self.pytype(x)
            if pt is not None:
                if pt == n:
                    return TRUE
                if pt == "float" and n in ("Number", "Real"):
                    return TRUE
                if pt == "number":
                    return TRUE if n in ("Number", "Real") else (
                        mk("isinstance", x, c) if n in ("int", "float", "floating") else FALSE)
                if pt == "farray":
                    return TRUE if n == "ndarray" else FALSE
                if pt == "tuple" and n == "Sequence" or pt == "list" and n == "Sequence":
                    return TRUE
                if pt in ("float", "str", "list", "tuple", "callable", "int"):
                    return FALSE
            if self.type_of(x, st) is not None:
                return FALSE
        return mk("isinstance", x, c)

    def b_isinstance(self, args, kw, st, fr, node):
        x, c = args
        if x.op == "ite":
            return ite(x.args[0], self.b_isinstance([x.args[1], c], kw, st, fr, node),
                       self.b_isinstance([x.args[2], c], kw, st, fr, node))
        cs = c.args if c.op in ("tuple", "bitor") else (c,)
        rs = [self.isinst1(x, k, st) for k in cs]
        # a number is an int or a float
        names = {k.args[0].split(".")[-1] for k in cs if k.op == "ext"}
        if {"int", "float"} <= names and (x.op == "num" or self.pytype(x) == "number"):
            return TRUE
        return T.or_(*rs)

    def b_issubclass(self, args, kw, st, fr, node):
        a, b = args
        if a.op == "class" and b.op == "class":
            return TRUE if self.classes[b.args[0]] in self.mro(self.classes[a.args[0]]) else FALSE
        return mk("truth", mk("issubclass", a, b))

    def is_callable(self, x, st):
        if x.op in ("func", "bound", "class", "ext", "partial", "attrgetter", "itemgetter"):
            return TRUE
        if T.is_const(x) or x.op in ("tuple", "fmt", "seq", "map"):
            return FALSE
        if x.op == "ite":
            return ite(x.args[0], self.is_callable(x.args[1], st), self.is_callable(x.args[2], st))
        if x.op in ("ref", "iref"):
            o = st.heap.get(x.args[0])
            if o is not None and o.kind != "inst":
                return FALSE
        cls = self.type_of(x, st)
        if cls is not None:
            f, _ = self.lookup(cls, "__call__", st)
            return TRUE if f is not None else FALSE
        pt = self.pytype(x)
        if pt == "callable":
            return TRUE
        if pt in ("float", "int", "number", "str", "list", "tuple", "farray"):
            return FALSE
        if self.is_spline(x) or x.op == "upd" and self.is_spline(x.args[0]):
            return TRUE
        if x.op == "attr" and self.is_spline(x.args[0]) and x.args[1] in ("derivative", "antiderivative", "integrate"):
            return TRUE
        return mk("callable", x)

    def is_spline(self, x):
        if x.op == "call":
            f = x.args[0]
            if f.op == "ext" and f.args[0].split(".")[-1] in SPLINES:
                return True
            if f.op == "attr" and f.args[1] in ("derivative", "antiderivative"):
                b = f.args[0]
                if b.op == "upd":
                    b = b.args[0]
                return self.is_spline(b)
        return False

    def b_callable(self, args, kw, st, fr, node):
        return self.is_callable(args[0], st)

    def b_hasattr(self, args, kw, st, fr, node):
        x, n = args
        if n.op == "str":
            nm = n.args[0]
            if x.op in ("ref", "iref"):
                o = st.heap.get(x.args[0])
                if o is not None and o.kind == "inst":
                    if nm in o.f and o.f[nm].op != "maybe" or self.lookup(o.cls, nm, st)[0] is not None:
                        return TRUE
                    if nm not in o.f:
                        return FALSE
            if x.op in ("func", "bound") and not nm.startswith("__"):
                return FALSE
            if x.op in ("num", "str", "none", "tuple") and not nm.startswith("__"):
                return FALSE
            if self.is_spline(x) and nm in ("derivative", "antiderivative", "__call__", "integrate"):
                return TRUE
            if nm == "__call__":
                return self.is_callable(x, st)
        return mk("hasattr", x, n)

    def b_getattr(self, args, kw, st, fr, node):
        x, n = args[0], args[1]
        if n.op == "ite":
            return self.branch(n.args[0], st,
                               lambda s: self.b_getattr([x, n.args[1]] + list(args[2:]), kw, s, fr, node),
                               lambda s: self.b_getattr([x, n.args[2]] + list(args[2:]), kw, s, fr, node))
        if n.op == "str":
            if len(args) > 2:
                h = self.b_hasattr([x, n], {}, st, fr, node)
                if h is FALSE:
                    return args[2]
                if h is not TRUE:
                    return ite(h, mk("attr", x, n.args[0]), args[2])
            return self.get_attr(x, n.args[0], st, fr, node)
        return mk("getattr", x, n)

    def b_setattr(self, args, kw, st, fr, node):
        if args[1].op == "str":
            self.set_attr(args[0], args[1].args[0], args[2], st, fr, node)
        else:
            self.unknown(node, "setattr with computed name")
            self.event("setfield", args[0], node, "?", st)
        return NONE

    def b_delattr(self, args, kw, st, fr, node):
        if args[1].op == "str":
            self.set_attr(args[0], args[1].args[0], UNDEF, st, fr, node)
        return NONE

    def b_vars(self, args, kw, st, fr, node):
        return self.unknown(node, "vars")

    def b_type(self, args, kw, st, fr, node):
        if len(args) == 1:
            c = self.type_of(args[0], st)
            if c is not None:
                return mk("class", c.qual)
            return mk("typeof", args[0])
        return NotImplemented

    def b_print(self, args, kw, st, fr, node):
        return NONE

    def b_round(self, args, kw, st, fr, node):
        return mk("round", *[self.val(a, st) for a in args])

    def b_divmod(self, args, kw, st, fr, node):
        return NotImplemented

    def b_object(self, args, kw, st, fr, node):
        return mk("sentinel", self.site(node))

    # ------------------------------------------------------- misc libraries
    def m_cast(self, args, kw, st, fr, node):
        return args[1] if len(args) > 1 else NotImplemented

    def m_auto(self, args, kw, st, fr, node):
        return mk("autoenum", self.site(node))

    def m_copy(self, args, kw, st, fr, node):
        return self.copy_of(args[0], st, node, False)

    def m_deepcopy(self, args, kw, st, fr, node):
        return self.copy_of(args[0], st, node, True)

    def copy_of(self, x, st, node, deep):
        if x.op in ("ref", "iref"):
            o = st.heap.get(x.args[0])
            if o is not None:
                f = dict(o.f)
                if x.op == "iref" and o.idx is not None:
                    f = {k: T.subst(v, {o.idx: x.args[1]}) for k, v in f.items()}
                r = self.alloc(st, Obj(o.kind, o.cls, f, None, o.meta), node)
                if deep:
                    f2 = {k: (self.copy_of(v, st, node, True) if v.op in ("ref", "iref") else v)
                          for k, v in f.items()}
                    st.heap[r.args[0]] = Obj(o.kind, o.cls, f2, None, o.meta)
                return r
        if x.op == "ite":
            return ite(x.args[0], self.copy_of(x.args[1], st, node, deep),
                       self.copy_of(x.args[2], st, node, deep))
        if T.is_const(x) or x.op in ("tuple", "func"):
            return x
        if self.type_of(x, st) is not None:
            # an object of the same class with the same fields
            cls = self.type_of(x, st)
            r = self.alloc(st, Obj("foreign_copy", cls, {}, None, x), node)
            st.heap[r.args[0]] = Obj("inst", cls, {k: v for k, v in (
                st.heap[x].f if x in st.heap else {}).items()}, None, "open")
            return mk("copyof", self.overrides(x, st))
        return mk("copyof", self.overrides(x, st))

    def m_partial(self, args, kw, st, fr, node):
        return mk("partial", *args, *[mk("kw", k, v) for k, v in sorted(kw.items())])

    def m_reduce(self, args, kw, st, fr, node):
        v = self.seq_value(args[1], st)
        if v.op in ("seq", "tuple"):
            xs = list(v.args)
            acc = args[2] if len(args) > 2 else xs.pop(0)
            for x in xs:
                acc = self.call(args[0], [acc, x], {}, st, fr, node)
            return acc
        return NotImplemented

    def m_field(self, args, kw, st, fr, node):
        return mk("dcfield", kw.get("default_factory", NONE), kw.get("default", NONE))

    def m_warn(self, args, kw, st, fr, node):
        return NONE

    def m_chain(self, args, kw, st, fr, node):
        return S.concat(*[self.seq_value(a, st) for a in args])

    def m_mul(self, args, kw, st, fr, node):
        return elem(T.mul, *[self.val(a, st) for a in args])

    def m_attrgetter(self, args, kw, st, fr, node):
        return mk("attrgetter", *args)

    def m_itemgetter(self, args, kw, st, fr, node):
        return mk("itemgetter", *args)

    def m_islice(self, args, kw, st, fr, node):
        v = self.seq_value(args[0], st)
        a = list(args[1:])
        if len(a) == 1:
            a = [NONE, a[0]]
        while len(a) < 3:
            a.append(NONE)
        return S.slice_(v, *a)

    # ---------------------------------------------------------------- numpy
    def n_array(self, args, kw, st, fr, node):
        x = args[0] if args else kw.get("object", NONE)
        dt = kw.get("dtype", args[1] if len(args) > 1 else NONE)
        if self.is_floatdt(dt):
            d = mk("dt", "float")
        elif dt is not NONE:
            d = mk("like", dt)
        else:
            d = None
        if kw.get("copy", TRUE) is FALSE and not self.is_list(x, st):
            # no copy is made when none is needed
            return x
        v = self.nested(x, st)
        if d is None:
            d = self.dt_of(x, st) if not self.is_list(x, st) else (
                mk("dt", "float") if self.floaty(v, st) else mk("like", v))
        return self.new_arr(st, v, d, node)

    def nested(self, x, st):
        v = self.deref(x, st)
        if v.op == "tuple":
            v = S.seq(v.args)
        if v.op == "seq":
            v = S.seq([self.nested(a, st) if a.op in ("ref", "tuple") else a for a in v.args])
        return v

    def n_asarray(self, args, kw, st, fr, node):
        x = args[0] if args else kw.get("a", NONE)
        if self.is_list(x, st) or x.op == "tuple":
            return self.n_array(args, kw, st, fr, node)
        dt = kw.get("dtype", args[1] if len(args) > 1 else NONE)
        if dt is not NONE and not self.floaty(x, st) and x.op != "ref":
            # copies unless the element type already matches: may alias
            return x
        return x

    n_asanyarray = n_ascontiguousarray = n_atleast_1d = n_asfarray = n_asarray

    def n_float64(self, args, kw, st, fr, node):
        return self.b_float(args, kw, st, fr, node)

    def n_squeeze(self, args, kw, st, fr, node):
        return args[0]

    n_ravel = n_real = n_squeeze

    def n_copy(self, args, kw, st, fr, node):
        return self.new_arr(st, self.val(args[0], st), self.dt_of(args[0], st), node)

    def n_fromiter(self, args, kw, st, fr, node):
        return self.new_arr(st, self.seq_value(args[0], st), mk("dt", "float"), node)

    def _like(self, args, kw, st, fr, node, v):
        x = args[0] if args else kw.get("a", NONE)
        d = kw.get("dtype", NONE)
        dt = mk("dt", "float") if self.is_floatdt(d) else self.dt_of(x, st)
        xv = self.nested(x, st)
        if xv.op in ("seq", "map"):
            n = S.length(xv)
            k = self.fresh("k")
            return self.new_arr(st, S.smap(n, k, v), dt, node)
        return self.new_arr(st, S.bc(xv, v), dt, node)

    def n_zeros_like(self, args, kw, st, fr, node):
        return self._like(args, kw, st, fr, node, ZERO)

    def n_ones_like(self, args, kw, st, fr, node):
        return self._like(args, kw, st, fr, node, ONE)

    def n_empty_like(self, args, kw, st, fr, node):
        return self._like(args, kw, st, fr, node, mk("uninit"))

    def n_full_like(self, args, kw, st, fr, node):
        v = self.val(args[1] if len(args) > 1 else kw.get("fill_value", NONE), st)
        r = self._like(args, kw, st, fr, node, v)
        self.narrow_check(r, v, st, node)
        return r

    def _filled(self, args, kw, st, node, v):
        n = args[0] if args else kw.get("shape", NONE)
        n = self.val(n, st)
        if n.op in ("tuple", "seq"):
            if len(n.args) == 1:
                n = n.args[0]
            elif not n.args:
                return self.new_arr(st, v, mk("dt", "float"), node)
            else:
                inner = n.args[1]
                if all(is_num(x) for x in n.args) and len(n.args) == 2:
                    row = S.seq([v] * int(inner.args[0]))
                    return self.new_arr(st, S.seq([row] * int(n.args[0].args[0])), mk("dt", "float"), node)
                return self.new_arr(st, S.bc(mk("shaped", n), v), mk("dt", "float"), node)
        if n.op == "attr" and n.args[1] == "shape":
            return self.new_arr(st, S.bc(n.args[0], v), mk("dt", "float"), node)
        k = self.fresh("k")
        return self.new_arr(st, S.smap(n, k, v), mk("dt", "float"), node)

    def n_zeros(self, args, kw, st, fr, node):
        return self._filled(args, kw, st, node, ZERO)

    def n_ones(self, args, kw, st, fr, node):
        return self._filled(args, kw, st, node, ONE)

    def n_empty(self, args, kw, st, fr, node):
        return self._filled(args, kw, st, node, mk("uninit"))

    def n_full(self, args, kw, st, fr, node):
        return self._filled(args[:1], kw, st, node, self.val(
            args[1] if len(args) > 1 else kw.get("fill_value", NONE), st))

    def n_arange(self, args, kw, st, fr, node):
        r = self.b_range(args, kw, st, fr, node)
        return self.new_arr(st, r, mk("like", r), node)

    def _out(self, r, kw, st, fr, node):
        o = kw.get("out")
        if o is not None and o is not NONE:
            if o.op == "tuple":
                o = o.args[0]
            self.event("mutate", o, node, "out=", st)
            if o.op == "ref" and st.heap.get(o.args[0]) is not None:
                st.heap[o.args[0]] = st.heap[o.args[0]].set("v", r)
                return o
            self.rebind_equal(o, r, st, fr)
        w = kw.get("where")
        if w is not None and w is not TRUE:
            return mk("wherearg", w, r)
        return r

    def _ew(self, ctor, args, kw, st, fr, node):
        r = elem(ctor, *[self.nested(a, st) if self.is_list(a, st) else self.val(a, st) for a in args])
        return self._out(self.floating(r, args, st), kw, st, fr, node)

    def n_maximum(self, a, kw, st, fr, node):
        return self._ew(maximum, a[:2], kw, st, fr, node)

    def n_minimum(self, a, kw, st, fr, node):
        return self._ew(minimum, a[:2], kw, st, fr, node)

    n_fmax, n_fmin = n_maximum, n_minimum

    def n_clip(self, a, kw, st, fr, node):
        a = list(a)
        x = a[0]
        lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min", NONE))
        hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max", NONE))
        r = self.nested(x, st) if self.is_list(x, st) else self.val(x, st)
        if lo is not NONE:
            r = elem(maximum, r, self.val(lo, st))
        if hi is not NONE:
            r = elem(minimum, r, self.val(hi, st))
        return self._out(self.floating(r, a[:3], st), kw, st, fr, node)

    def n_sqrt(self, a, kw, st, fr, node):
        return self._ew(lambda x: T.power(x, HALF), a[:1], kw, st, fr, node)

    def n_cbrt(self, a, kw, st, fr, node):
        return self._ew(lambda x: T.power(x, T.power(num(3), num(-1))), a[:1], kw, st, fr, node)

    def n_square(self, a, kw, st, fr, node):
        return self._ew(lambda x: T.power(x, num(2)), a[:1], kw, st, fr, node)

    def n_power(self, a, kw, st, fr, node):
        return self._ew(T.power, a[:2], kw, st, fr, node)

    n_pow = n_float_power = n_power

    def n_exp(self, a, kw, st, fr, node):
        return self._ew(canon_exp, a[:1], kw, st, fr, node)

    def n_log(self, a, kw, st, fr, node):
        return self._ew(canon_log, a[:1], kw, st, fr, node)

    def n_log10(self, a, kw, st, fr, node):
        return self._ew(lambda x: T.div(canon_log(x), mk("log", num(10))), a[:1], kw, st, fr, node)

    def n_log2(self, a, kw, st, fr, node):
        return self._ew(lambda x: T.div(canon_log(x), mk("log", num(2))), a[:1], kw, st, fr, node)

    def n_abs(self, a, kw, st, fr, node):
        return self._ew(T.tabs, a[:1], kw, st, fr, node)

    n_absolute = n_fabs = n_abs

    def n_sign(self, a, kw, st, fr, node):
        return self._ew(lambda x: mk("sign", x), a[:1], kw, st, fr, node)

    def n_negative(self, a, kw, st, fr, node):
        return self._ew(T.neg, a[:1], kw, st, fr, node)

    def n_reciprocal(self, a, kw, st, fr, node):
        return self._ew(lambda x: T.div(ONE, x), a[:1], kw, st, fr, node)

    def n_add(self, a, kw, st, fr, node):
        return self._ew(T.add, a[:2], kw, st, fr, node)

    def n_subtract(self, a, kw, st, fr, node):
        return self._ew(T.sub, a[:2], kw, st, fr, node)

    def n_multiply(self, a, kw, st, fr, node):
        return self._ew(T.mul, a[:2], kw, st, fr, node)

    def n_divide(self, a, kw, st, fr, node):
        return self._ew(T.div, a[:2], kw, st, fr, node)

    n_true_divide = n_divide

    def n_less(self, a, kw, st, fr, node):
        return self._ew(T.lt, a[:2], kw, st, fr, node)

    def n_less_equal(self, a, kw, st, fr, node):
        return self._ew(T.le, a[:2], kw, st, fr, node)

    def n_greater(self, a, kw, st, fr, node):
        return self._ew(lambda x, y: T.lt(y, x), a[:2], kw, st, fr, node)

    def n_greater_equal(self, a, kw, st, fr, node):
        return self._ew(lambda x, y: T.le(y, x), a[:2], kw, st, fr, node)

    def n_equal(self, a, kw, st, fr, node):
        return self._ew(T.eq, a[:2], kw, st, fr, node)

    def n_logical_not(self, a, kw, st, fr, node):
        return self._ew(lambda x: T.not_(T.truthy(x)), a[:1], kw, st, fr, node)

    def n_logical_and(self, a, kw, st, fr, node):
        return self._ew(T.and_, a[:2], kw, st, fr, node)

    def n_logical_or(self, a, kw, st, fr, node):
        return self._ew(T.or_, a[:2], kw, st, fr, node)

    def n_isclose(self, a, kw, st, fr, node):
        at = kw.get("atol", a[3] if len(a) > 3 else num(1e-8))
        rt = kw.get("rtol", a[2] if len(a) > 2 else num(1e-5))
        return self._ew(lambda x, y: T.le(T.tabs(T.sub(x, y)),
                                          T.add(at, T.mul(rt, T.tabs(y)))), a[:2], {}, st, fr, node)

    def n_allclose(self, a, kw, st, fr, node):
        return self.agg("all", self.n_isclose(a, kw, st, fr, node))

    def n_isnan(self, a, kw, st, fr, node):
        return self._ew(lambda x: FALSE if is_num(x) or x.op == "inf" else mk("truth", mk("isnan", x)), a[:1], {}, st, fr, node)

    def n_isfinite(self, a, kw, st, fr, node):
        return self._ew(lambda x: TRUE if is_num(x) else (FALSE if x is INF else mk("truth", mk("isfinite", x))), a[:1], {}, st, fr, node)

    def n_isinf(self, a, kw, st, fr, node):
        return self._ew(lambda x: FALSE if is_num(x) else T.eq(x, INF), a[:1], {}, st, fr, node)

    def n_isscalar(self, a, kw, st, fr, node):
        x = a[0]
        if x.op == "num":
            return TRUE
        return mk("truth", mk("isscalar", self.val(x, st)))

    def n_ndim(self, a, kw, st, fr, node):
        x = a[0]
        return self.arr_attr(x, self.val(x, st), "ndim", st)

    def n_shape(self, a, kw, st, fr, node):
        return self.arr_attr(a[0], self.val(a[0], st), "shape", st)

    def n_size(self, a, kw, st, fr, node):
        return self.arr_attr(a[0], self.val(a[0], st), "size", st)

    def n_where(self, a, kw, st, fr, node):
        if len(a) == 1:
            return NotImplemented
        c, x, y = [self.nested(v, st) if self.is_list(v, st) else self.val(v, st) for v in a[:3]]
        if c.op not in T.BOOL_OPS and c.op not in ("map", "seq", "bc"):
            c = T.truthy(c)
        return self.floating(elem(T.where, c, x, y), a[1:3], st)

    def n_select(self, a, kw, st, fr, node):
        conds = self.seq_value(a[0], st)
        vals = self.seq_value(a[1], st)
        d = a[2] if len(a) > 2 else kw.get("default", ZERO)
        if conds.op not in ("seq", "tuple") or vals.op not in ("seq", "tuple"):
            return NotImplemented
        r = self.val(d, st)
        for c, v in reversed(list(zip(conds.args, vals.args))):
            r = elem(T.where, self.val(c, st), self.val(v, st), r)
        return r

    def n_piecewise(self, a, kw, st, fr, node):
        x, conds, funs = a[:3]
        conds = self.seq_value(conds, st)
        funs = self.seq_value(funs, st)
        if conds.op not in ("seq", "tuple"):
            if conds.op in T.BOOL_OPS:
                conds = S.seq([conds])
            else:
                return NotImplemented
        if funs.op not in ("seq", "tuple"):
            return NotImplemented
        if not self.floaty(x, st) and self.pytype(x) not in ("float", "farray"):
            self.event("narrow", self.val(x, st), node, "piecewise result has the argument's element type", st)
        xv = self.val(x, st)
        cs = [self.val(c, st) for c in conds.args]
        extra = list(a[3:])

        def value(f):
            if self.is_callable(f, st) is TRUE:
                r = self.val(self.call(f, [mk("masked", xv, mk("pw"))] if False else [xv] + extra, kw, st, fr, node), st)
                return r
            return self.val(f, st)
        vals = [value(f) for f in funs.args]
        r = vals[len(cs)] if len(vals) > len(cs) else ZERO
        # later conditions override earlier ones
        for c, v in zip(cs, vals):
            r = elem(T.where, c, v, r)
        # shape of the argument
        return self.new_arr(st, r, self.dt_of(x, st), node)

    def n_any(self, a, kw, st, fr, node):
        return self.agg("any", self.val(a[0], st))

    def n_all(self, a, kw, st, fr, node):
        return self.agg("all", self.val(a[0], st))

    def _agg(self, name):
        def h(a, kw, st, fr, node):
            return self.agg(name, self.nested(a[0], st))
        return h

    def n_min(self, a, kw, st, fr, node):
        return self.agg("min", self.nested(a[0], st))

    def n_max(self, a, kw, st, fr, node):
        return self.agg("max", self.nested(a[0], st))

    n_amin, n_amax = n_min, n_max

    def n_sum(self, a, kw, st, fr, node):
        return self.agg("sum", self.nested(a[0], st))

    def n_mean(self, a, kw, st, fr, node):
        return self.agg("mean", self.nested(a[0], st))

    def n_concatenate(self, a, kw, st, fr, node):
        v = self.seq_value(a[0], st)
        if v.op not in ("seq", "tuple"):
            return NotImplemented
        return self.new_arr(st, S.concat(*[self.nested(x, st) for x in v.args]), None, node)

    n_hstack = n_concatenate

    def n_append(self, a, kw, st, fr, node):
        x = self.nested(a[1], st)
        if x.op not in ("seq", "map", "concat", "rev"):
            x = S.seq([x])
        return self.new_arr(st, S.concat(self.nested(a[0], st), x), None, node)

    def n_flip(self, a, kw, st, fr, node):
        return S.rev(self.nested(a[0], st))

    n_flipud = n_flip

    def n_copyto(self, a, kw, st, fr, node):
        o = a[0]
        v = self.val(a[1], st)
        w = kw.get("where", TRUE)
        self.event("mutate", o, node, "copyto", st)
        self.narrow_check(o, v, st, node)
        cur = self.val(o, st)
        nv = S.bc(cur, v) if w is TRUE else elem(T.where, w, v, cur)
        if o.op == "ref" and st.heap.get(o.args[0]) is not None:
            st.heap[o.args[0]] = st.heap[o.args[0]].set("v", nv)
        else:
            self.rebind_equal(o, nv, st, fr)
        return NONE

    def n_putmask(self, a, kw, st, fr, node):
        return self.n_copyto([a[0], a[2]], {"where": self.val(a[1], st)}, st, fr, node)

    def n_polyval(self, a, kw, st, fr, node):
        p = self.nested(a[0], st)
        if p.op != "seq":
            return NotImplemented
        x = self.val(a[1], st)
        r = ZERO
        for c in p.args:
            r = elem(lambda u, v: T.add(T.mul(u, x), v), r, c) if x.op not in ("map", "seq") else \
                elem(T.add, elem(T.mul, r, x), c)
        return r

    def n_vectorize(self, a, kw, st, fr, node):
        return a[0]

    def n_errstate(self, a, kw, st, fr, node):
        return NONE

    n_seterr = n_errstate

    def n_broadcast_to(self, a, kw, st, fr, node):
        n = self.val(a[1], st)
        v = self.val(a[0], st)
        if n.op == "attr" and n.args[1] == "shape":
            return S.bc(n.args[0], v)
        return NotImplemented

    def n_hypot(self, a, kw, st, fr, node):
        return self._ew(lambda x, y: T.power(T.add(T.power(x, num(2)), T.power(y, num(2))), HALF), a[:2], kw, st, fr, node)

    def n_dot(self, a, kw, st, fr, node):
        return NotImplemented

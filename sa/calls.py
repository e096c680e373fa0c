"""Calls: inlining of package functions, methods of built-in types."""

import ast

from . import terms as T
from . import seqs as S
from .terms import mk, num, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, ite, is_num, const_str
from .engine import Dead, Obj, Frame, MAXDEPTH, BUILTIN_EXC
from .exprs import elem, fmt


class Calls:
    def e_Call(self, e, st, fr):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and \
                "super" not in (fr.fn.locals if fr.fn else ()):
            return self.ev_super(e, st, fr)
        f = self.ev(e.func, st, fr)
        args = self.ev_items(e.args, st, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                d = self.deref(v, st)
                if d.op == "dictlit" and all(x.args[0].op == "str" for x in d.args):
                    for x in d.args:
                        kwargs[x.args[0].args[0]] = x.args[1]
                else:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, st, fr, e)

    def ev_super(self, e, st, fr):
        if e.args:
            a = self.ev_items(e.args, st, fr)
            if a[0].op == "class":
                return mk("super", a[0].args[0], a[1])
        f = fr
        owner = fr.fn.owner if fr.fn else None
        selfterm = None
        if fr.fn is not None and fr.fn.params:
            selfterm = st.heap[fr.scope].f.get(fr.fn.params[0])
        if owner is None or selfterm is None:
            return self.unknown(e, "super")
        return mk("super", owner.qual, selfterm)

    def call(self, f, args, kwargs, st, fr, node):
        o = f.op
        self.sites += 1
        if o == "func":
            return self.call_func(f, args, kwargs, st, fr, node)
        if o == "bound":
            g, me = f.args
            fn = self.funcs.get(g.args[0]) if g.op == "func" else None
            if fn is not None and fn.abstract:
                return self.opaque(mk("attr", self.overrides(me, st), fn.name),
                                   args, kwargs, st, node)
            if g.op == "func":
                return self.call_func(g, [me] + list(args), kwargs, st, fr, node)
            return self.call(g, [me] + list(args), kwargs, st, fr, node)
        if o == "class":
            return self.instantiate(f, args, kwargs, st, fr, node)
        if o in ("static", "clsmeth"):
            return self.call(f.args[0], args, kwargs, st, fr, node)
        if o == "attrgetter" and len(args) == 1 and not kwargs:
            xs = [self.b_getattr([args[0], n], {}, st, fr, node) for n in f.args]
            return xs[0] if len(xs) == 1 else mk("tuple", *xs)
        if o == "itemgetter" and len(args) == 1 and not kwargs:
            xs = [self.get_item(args[0], n, st, fr, node) for n in f.args]
            return xs[0] if len(xs) == 1 else mk("tuple", *xs)
        if o == "partial":
            kw = dict(kwargs)
            pa = []
            for a in f.args[1:]:
                if a.op == "kw":
                    kw.setdefault(a.args[0], a.args[1])
                else:
                    pa.append(a)
            return self.call(f.args[0], pa + list(args), kw, st, fr, node)
        if o == "ext":
            return self.call_ext(f.args[0], args, kwargs, st, fr, node)
        if o in ("ite", "where"):
            return self.branch(f.args[0], st,
                               lambda s: self.call(f.args[1], args, kwargs, s, fr, node),
                               lambda s: self.call(f.args[2], args, kwargs, s, fr, node))
        if o == "attr":
            r = self.call_method(f.args[0], f.args[1], args, kwargs, st, fr, node)
            if r is not None:
                return r
            base = f.args[0]
            return self.opaque(mk("attr", self.overrides(base, st), f.args[1]),
                               args, kwargs, st, node)
        if o in ("none", "num", "str", "undef"):
            self.add_raise(st, "TypeError", node, implicit=True)
            raise Dead()
        cls = self.type_of(f, st)
        if cls is not None:
            m, _ = self.lookup(cls, "__call__", st)
            if m is not None:
                return self.call(mk("bound", m, f), args, kwargs, st, fr, node)
        return self.opaque(self.overrides(f, st), args, kwargs, st, node)

    # -------------------------------------------------------------- opaque
    def opaque(self, f, args, kwargs, st, node, raises="?", value=True):
        a = [self.deep(x, st) for x in args]
        kw = [mk("kw", k, self.deep(v, st)) for k, v in sorted(kwargs.items())]
        r = None
        if len(a) == 1 and not kw and a[0].op in ("seq", "map", "bc") and \
                (self.pytype(f) == "callable" or self.is_spline(f) or f.op == "upd" and self.is_spline(f.args[0])
                 or f.op == "call" and f.args[0].op == "attr" and f.args[0].args[1] in ("derivative", "antiderivative")
                 and self.pytype(f.args[0].args[0]) == "callable"):
            # a function of the caller / an interpolant acts elementwise
            r = S.push(None, a, lambda z: mk("call", f, z))
        if r is None:
            r = mk("call", f, *a, *kw)
        self.calls.append(dict(f=f, args=args, kwargs=kwargs, site=self.site(node),
                               func=self.cur_func(), pc=st.pc, result=r,
                               state=st.copy(), node=node))
        if raises == "?" and self.settled(f):
            raises = None
        if raises:
            self.add_raise(st, raises, node, implicit=True)
        if "*" in self.files and (f.op == "attr" and f.args[1] in ("is_file", "exists") or
                                  f.op == "ext" and f.args[0] in ("os.path.isfile", "os.path.exists")):
            return TRUE
        if f.op == "attr" and f.args[1] in ("readlines", "read", "read_text") and not (a and f.args[1] != "read_text"):
            lines = self.file_lines(f.args[0]) if f.args[1] != "read_text" else self.files.get("*")
            if lines is not None:
                return self.new_list(st, lines, node) if f.args[1] == "readlines" else mk("joined", const_str(""), lines)
        return r

    def file_lines(self, t):
        """Modelled contents of an opened file."""
        if self.files and t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.open", "io.open"):
            return self.files.get(t.args[1], self.files.get("*"))
        if self.files and t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "open":
            return self.files.get("*")
        return None

    def settled(self, f):
        """A dense output or interpolant of scipy: evaluating it does not fail."""
        while f.op == "attr" and f.args[0].op == "call":
            if f.args[0].args[0].op == "ext" and f.args[0].args[0].args[0] == "scipy.integrate.solve_ivp":
                return f.args[1] == "sol"
            if self.is_spline(f.args[0]):
                return True
            f = f.args[0].args[0]
        return self.is_spline(f)

    # ------------------------------------------------------------ functions
    def bind_args(self, fn, args, kwargs, st, node):
        vals = {}
        args = list(args)
        if any(a.op == "star" for a in args):
            flat = []
            for a in args:
                if a.op == "star" and a.args[0].op in ("seq", "tuple"):
                    flat.extend(a.args[0].args)
                elif a.op == "star":
                    # unknown length: spread over the remaining parameters
                    need = len(fn.params) - len(flat)
                    flat.extend(S.index(a.args[0], num(i)) for i in range(max(0, need)))
                else:
                    flat.append(a)
            args = flat
        n = len(fn.params)
        for p, v in zip(fn.params, args):
            vals[p] = v
        extra = args[n:]
        if extra and not fn.vararg:
            self.add_raise(st, "TypeError", node, implicit=True)
            raise Dead()
        if fn.vararg:
            vals[fn.vararg] = mk("tuple", *extra)
        rest = []
        for k, v in kwargs.items():
            if k in vals and k in fn.params:
                self.add_raise(st, "TypeError", node, implicit=True)
                raise Dead()
            if k in fn.params or k in fn.kwonly:
                vals[k] = v
            elif fn.kwarg:
                rest.append(mk("kv", const_str(k), v))
            else:
                self.add_raise(st, "TypeError", node, implicit=True)
                raise Dead()
        if fn.kwarg:
            vals[fn.kwarg] = mk("dictlit", *rest)
        for p, d in zip(fn.params[len(fn.params) - len(fn.defaults):], fn.defaults):
            vals.setdefault(p, d)
        for p in fn.kwonly:
            if p not in vals and p in fn.kwdefaults:
                vals[p] = fn.kwdefaults[p]
        for p in fn.params + fn.kwonly:
            if p not in vals:
                self.add_raise(st, "TypeError", node, implicit=True)
                raise Dead()
        return vals

    def call_func(self, f, args, kwargs, st, fr, node):
        fn = self.funcs[f.args[0]]
        if fn.is_gen:
            return self.call_gen(f, fn, args, kwargs, st, fr, node)
        depth = len(self.frames)
        self.ncalls += 1
        same = sum(1 for x in self.frames if x.fn is fn)
        if depth > MAXDEPTH or same > 3:
            self.unknown(node, f"recursion in {fn.qual}")
            return self.opaque(f, args, kwargs, st, node)
        vals = self.bind_args(fn, args, kwargs, st, node)
        self.analysed.add(f"{fn.module.name}.{fn.qual}")
        ref = self.alloc(st, Obj("scope", None, vals))
        oid = ref.args[0]
        nf = Frame(fn, oid, fn.module, depth)
        nf.outer_scopes = fn.scopes
        if fn.owner is not None and False:
            nf.cls = fn.owner
        self.frames.append(nf)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, st, nf)
                outs = [(st.copy(), v)]
            else:
                self.exec_block(fn.node.body, st, nf)
                outs = list(nf.returns)
                if not st.dead:
                    outs.append((st.copy(), NONE))
        finally:
            self.frames.pop()
        outs = [(s, v) for s, v in outs if not s.dead]
        if not outs:
            st.dead = True
            raise Dead()
        m, v = self.merge_many(outs)
        st.become(m)
        st.dead = False
        if oid not in self.captured:
            st.heap.pop(oid, None)
        return v

    def call_gen(self, f, fn, args, kwargs, st, fr, node):
        """Generator functions: the list of yielded values."""
        vals = self.bind_args(fn, args, kwargs, st, node)
        self.analysed.add(f"{fn.module.name}.{fn.qual}")
        out = self.new_list(st, S.EMPTY, node)
        ref = self.alloc(st, Obj("scope", None, vals))
        nf = Frame(fn, ref.args[0], fn.module, len(self.frames))
        nf.outer_scopes = fn.scopes
        nf.yields = out
        self.frames.append(nf)
        try:
            self.exec_block(fn.node.body, st, nf)
            outs = list(nf.returns)
            if not st.dead:
                outs.append((st.copy(), NONE))
        finally:
            self.frames.pop()
        outs = [(s, v) for s, v in outs if not s.dead]
        if not outs:
            raise Dead()
        m, _ = self.merge_many(outs)
        st.become(m)
        st.dead = False
        return out

    def e_Yield(self, e, st, fr):
        v = NONE if e.value is None else self.ev(e.value, st, fr)
        y = getattr(fr, "yields", None)
        if y is None:
            return self.unknown(e, "yield")
        self.append_to(y, v, st)
        return NONE

    # -------------------------------------------------------------- classes
    def instantiate(self, f, args, kwargs, st, fr, node):
        cls = self.classes[f.args[0]]
        if cls.is_enum:
            return self.enum_call(f, cls, args, st, node)
        if self.is_exception(cls):
            return mk("excinst", cls.name)
        ref = self.alloc(st, Obj("inst", cls, {}), node)
        init, _ = self.lookup(cls, "__init__", st)
        if init is not None:
            self.call(mk("bound", init, ref), args, kwargs, st, fr, node)
            return ref
        if getattr(cls, "dataclass", False) or self.is_namedtuple(cls):
            self.dataclass_init(cls, ref, args, kwargs, st, fr, node)
            return ref
        if args or kwargs:
            if not self.has_ext_base(cls):
                self.add_raise(st, "TypeError", node, implicit=True)
                raise Dead()
        return ref

    def is_namedtuple(self, cls):
        return any(b.op == "ext" and b.args[0].endswith("NamedTuple") for c in self.mro(cls) for b in c.bases)

    def dataclass_init(self, cls, ref, args, kwargs, st, fr, node):
        names = []
        defaults = {}
        for c in reversed(self.mro(cls)):
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    nm = n.target.id
                    if nm not in names:
                        names.append(nm)
                    d = st.heap[c.oid].f.get(nm)
                    if d is not None:
                        defaults[nm] = d
        vals = dict(zip(names, args))
        for k, v in kwargs.items():
            vals[k] = v
        for nm in names:
            if nm in vals:
                v = vals[nm]
            elif nm in defaults:
                v = defaults[nm]
                if v.op == "dcfield":
                    v = self.call(v.args[0], [], {}, st, fr, node) if v.args[0] is not NONE else v.args[1]
            else:
                self.add_raise(st, "TypeError", node, implicit=True)
                raise Dead()
            o = st.heap[ref.args[0]]
            st.heap[ref.args[0]] = o.set(nm, v)
        pi, _ = self.lookup(cls, "__post_init__", st)
        if pi is not None:
            self.call(mk("bound", pi, ref), [], {}, st, fr, node)

    def is_exception(self, cls):
        for c in self.mro(cls):
            for b in c.bases:
                if b.op == "ext" and b.args[0].split(".")[-1] in BUILTIN_EXC:
                    BUILTIN_EXC.setdefault(cls.name, b.args[0].split(".")[-1])
                    return True
        return False

    def enum_call(self, f, cls, args, st, node):
        x = args[0] if args else NONE
        q = f.args[0]
        if x.op == "enum":
            return x
        if self.type_of(x, st) is cls:
            return x
        if x.op == "attr" and x.args[1] == "value" and self.type_of(x.args[0], st) is cls:
            return x.args[0]
        if x.op == "ite":
            return ite(x.args[0], self.enum_call(f, cls, [x.args[1]], st, node),
                       self.enum_call(f, cls, [x.args[2]], st, node))
        for k, v in self.enums[q]:
            if v is x:
                return mk("enum", q, k)
        if T.is_const(x):
            self.add_raise(st, "ValueError", node, implicit=True)
            raise Dead()
        r = mk("enumof", f, x)
        self.symtype.setdefault(r, cls)
        self.add_raise(st, "ValueError", node, implicit=True)
        return r

    # -------------------------------------------------------------- methods
    def call_method(self, base, name, args, kwargs, st, fr, node):
        """Methods of lists, dictionaries, arrays and strings; None = unknown."""
        if base.op in ("ref", "iref"):
            o = st.heap.get(base.args[0])
            if o is None:
                return None
            if o.kind == "list":
                return self.list_method(base, o, name, args, kwargs, st, fr, node)
            if o.kind == "dict":
                return self.dict_method(base, o, name, args, kwargs, st, fr, node)
            if o.kind == "arr":
                r = self.arr_method(base, self.deref(base, st), name, args, kwargs, st, fr, node)
                if r is not None:
                    return r
                if name in ("fill", "sort", "put", "itemset", "resize", "partition"):
                    self.event("mutate", base, node, "." + name, st)
                    if name == "fill":
                        st.heap[base.args[0]] = o.set("v", S.bc(o.f["v"], self.val(args[0], st)))
                    else:
                        self.havoc_container(base, st)
                    return NONE
                return None
            if o.kind == "inst":
                return None
        if base.op in ("seq", "map", "concat", "filt", "rev", "slice"):
            r = self.arr_method(base, base, name, args, kwargs, st, fr, node)
            if r is not None:
                return r
        if base.op == "dictlit":
            tmp = Obj("dict", None, {"v": base})
            return self.dict_method(base, tmp, name, args, kwargs, st, fr, node)
        if name in MUTATORS:
            # in-place methods of foreign objects
            if self.type_of(base, st) is None and not self.stringy(base) and base.op not in ("ext", "super"):
                self.event("mutate", base, node, "." + name, st)
                if name in ("append", "extend", "insert") and self.pytype(base) == "list":
                    if name == "append":
                        nv = S.concat(base, S.seq([args[0]]))
                    elif name == "extend":
                        nv = S.concat(base, self.seq_value(args[0], st))
                    else:
                        nv = mk("inserted", base, *args)
                    self.rebind_equal(base, nv, st, fr)
                    return NONE
        if base.op == "super":
            if name == "__init__":
                return NONE
            if name == "__setattr__" and len(args) == 2 and args[0].op == "str":
                me = base.args[1]
                if me.op == "ref":
                    ob = st.heap[me.args[0]]
                    self.event("setfield", me, node, args[0].args[0], st)
                    st.heap[me.args[0]] = ob.set(args[0].args[0], args[1])
                    return NONE
            return None
        r = self.str_method(base, name, args, kwargs, st, fr, node)
        if r is not None:
            return r
        if base.op in T.BOOL_OPS or name in ("any", "all", "copy", "astype", "item", "ravel",
                                             "flatten", "squeeze", "sum", "min", "max", "mean",
                                             "tolist", "clip", "reshape", "cumsum", "prod"):
            if self.type_of(base, st) is None:
                return self.arr_method(base, base, name, args, kwargs, st, fr, node)
        return None

    def list_method(self, base, o, name, args, kwargs, st, fr, node):
        v = self.deref(base, st)

        def put(nv):
            self.event("mutate", base, node, "." + name, st)
            if base.op == "ref" and o.idx is None:
                st.heap[base.args[0]] = o.set("v", nv)
            else:
                self.family_store(o, base, "v", nv, st)
        if name == "append":
            put(S.concat(v, S.seq([args[0]])))
            return NONE
        if name == "extend":
            put(S.concat(v, self.seq_value(args[0], st)))
            return NONE
        if name == "insert":
            i = args[0]
            if i is ZERO:
                put(S.concat(S.seq([args[1]]), v))
            elif i is S.length(v):
                put(S.concat(v, S.seq([args[1]])))
            elif v.op == "seq" and is_num(i):
                a = list(v.args)
                a.insert(int(i.args[0]), args[1])
                put(S.seq(a))
            else:
                put(mk("inserted", v, i, args[1]))
            return NONE
        if name == "clear":
            put(S.EMPTY)
            return NONE
        if name == "reverse":
            put(S.rev(v))
            return NONE
        if name == "sort":
            put(mk("sorted", v))
            return NONE
        if name == "pop":
            i = args[0] if args else num(-1)
            if v is S.EMPTY:
                self.add_raise(st, "IndexError", node, implicit=True)
                raise Dead()
            x = S.index(v, i)
            if v.op == "seq" and is_num(i):
                a = list(v.args)
                a.pop(int(i.args[0]))
                put(S.seq(a))
            elif i is ZERO:
                put(S.slice_(v, ONE, NONE, NONE))
            elif is_num(i) and i.args[0] == -1:
                if v.op == "concat" and v.args[-1].op == "seq":
                    put(S.concat(*v.args[:-1], S.seq(v.args[-1].args[:-1])))
                else:
                    put(S.slice_(v, NONE, num(-1), NONE))
            else:
                put(mk("popped", v, i))
            return x
        if name == "remove":
            put(mk("removed", v, args[0]))
            return NONE
        if name == "copy":
            return self.new_list(st, v, node)
        if name == "index":
            self.add_raise(st, "ValueError", node, implicit=True)
            return mk("indexof", v, self.deep(args[0], st))
        if name == "count":
            return mk("count", v, self.deep(args[0], st))
        return None

    def dict_method(self, base, o, name, args, kwargs, st, fr, node):
        d = self.deref(base, st) if base.op in ("ref", "iref") else base
        if name == "get":
            dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            if d.op != "dictlit":
                return mk("dictget", d, args[0], dflt)
            r = dflt
            for e in d.args:
                r = ite(T.eq(e.args[0], args[0]), e.args[1], r)
            return r
        if name == "items" and d.op == "dictlit":
            return S.seq([mk("tuple", *e.args) for e in d.args])
        if name == "keys" and d.op == "dictlit":
            return S.seq([e.args[0] for e in d.args])
        if name == "values" and d.op == "dictlit":
            return S.seq([e.args[1] for e in d.args])
        if name == "copy":
            return self.alloc(st, Obj("dict", None, {"v": d}), node)
        if name in ("update", "setdefault", "pop", "clear", "popitem"):
            self.event("mutate", base, node, "." + name, st)
            if name == "update" and d.op == "dictlit" and not kwargs and args:
                x = self.deref(args[0], st)
                if x.op == "dictlit":
                    nv = d
                    for e in x.args:
                        nv = self.put(nv, e.args[0], e.args[1], st, node)
                    st.heap[base.args[0]] = o.set("v", nv)
                    return NONE
            if name == "setdefault" and d.op == "dictlit":
                hit = [e for e in d.args if T.eq(e.args[0], args[0]) is TRUE]
                if hit:
                    return hit[0].args[1]
                if all(T.eq(e.args[0], args[0]) is FALSE for e in d.args):
                    v = args[1] if len(args) > 1 else NONE
                    st.heap[base.args[0]] = o.set("v", self.put(d, args[0], v, st, node))
                    return v
            if name == "clear":
                st.heap[base.args[0]] = o.set("v", mk("dictlit"))
                return NONE
            self.havoc_container(base, st)
            return mk("dictpop", d, *args)
        return None

    def arr_method(self, base, v, name, args, kwargs, st, fr, node):
        if name in ("any", "all"):
            return self.agg(name, v)
        if name in ("copy",):
            return self.new_arr(st, v, self.dt_of(base, st), node)
        if name == "astype":
            if self.is_floatdt(args[0] if args else NONE):
                return self.new_arr(st, v, mk("dt", "float"), node)
            return self.new_arr(st, mk("astype", v, *[self.deep(a, st) for a in args]), None, node)
        if name in ("item", "ravel", "squeeze", "view", "flatten") and not args:
            return v if base is not v or True else base
        if name == "tolist":
            return self.new_list(st, v, node)
        if name == "clip":
            return self.call_ext("numpy.clip", [base] + list(args), kwargs, st, fr, node)
        if name in ("sum", "min", "max", "mean", "std", "prod", "argmin", "argmax", "ptp"):
            return self.agg(name, v)
        if name in ("reshape", "dot", "cumsum", "argsort", "nonzero", "round", "repeat",
                    "searchsorted", "take", "transpose", "var"):
            return mk("call", mk("attr", v, name), *[self.deep(a, st) for a in args])
        return None

    def agg(self, name, v):
        if name in ("any", "all"):
            v = T.truthy(v) if v.op not in ("map", "seq", "bc", "where") else v
            if v.op == "seq":
                ts = [T.truthy(x) for x in v.args]
                return T.or_(*ts) if name == "any" else T.and_(*ts)
            if v in (TRUE, FALSE):
                return v
            if v.op == "bc":
                return T.truthy(v.args[1])
            if scalar_valued(v):
                return v
            return mk(name, v)
        if v.op == "seq" and v.args and all(is_num(x) for x in v.args):
            xs = [x.args[0] for x in v.args]
            if name == "min":
                return num(min(xs))
            if name == "max":
                return num(max(xs))
            if name == "sum":
                return num(sum(xs))
        if name == "sum" and v.op == "map":
            return mk("sum", v)
        if name == "sum" and v.op == "seq":
            return T.add(*v.args) if v.args else ZERO
        return mk("agg", name, v)

    def str_method(self, base, name, args, kwargs, st, fr, node):
        if base.op == "str" and all(a.op == "str" or is_num(a) for a in args) and not kwargs:
            s = base.args[0]
            av = [a.args[0] if a.op == "str" else int(a.args[0]) for a in args]
            try:
                if name in ("lower", "upper", "strip", "lstrip", "rstrip", "replace",
                            "startswith", "endswith", "title", "find", "capitalize"):
                    r = getattr(s, name)(*av)
                    return const_str(r) if isinstance(r, str) else num(r)
                if name == "split":
                    return self.new_list(st, S.seq([const_str(x) for x in s.split(*av)]), node)
            except (TypeError, ValueError):
                return None
        if name in ("strip", "lstrip", "rstrip") and len(args) == 1 and args[0].op == "str" and self.bodies and \
                not args[0].args[0].strip() and base.op in ("fmt", "sym"):
            # blanks at the ends only (bodies have none)
            parts = list(base.args) if base.op == "fmt" else [base]
            if all(p.op == "str" or p in self.bodies for p in parts):
                if name != "lstrip" and parts[-1].op == "str":
                    parts[-1] = const_str(parts[-1].args[0].rstrip(args[0].args[0]))
                if name != "rstrip" and parts[0].op == "str":
                    parts[0] = const_str(parts[0].args[0].lstrip(args[0].args[0]))
                return self.fmt(*parts)
        if name in ("strip", "lstrip", "rstrip") and not args:
            m = {"strip": "b", "lstrip": "l", "rstrip": "r"}[name]
            if base.op == "fmt" and base.args[-1].op == "str" and m != "l":
                cut = base.args[-1].args[0].rstrip()
                if not cut and len(base.args) > 1:
                    return self.str_method(self.fmt(*base.args[:-1]), name, args, kwargs, st, fr, node)
            if base.op == "fmt" and base.args[0].op == "str" and m != "r":
                cut = base.args[0].args[0].lstrip()
                if not cut and len(base.args) > 1:
                    return self.str_method(self.fmt(*base.args[1:]), name, args, kwargs, st, fr, node)
            if base in self.bodies or base.op == "fmt" and base.args[-1 if m == "r" else 0] in self.bodies and m != "b":
                return base
            if base.op == "strip":
                p = base.args[1]
                if p == m or p == "b":
                    return base
                return self.str_method(base.args[0], "strip", args, kwargs, st, fr, node)
            r = mk("strip", base, m)
            return r
        if name == "split" and not (args and args[0] is not NONE):
            while base.op == "strip":      # surrounding blanks do not matter
                base = base.args[0]
            if base.op == "fmt":
                parts = [x for x in base.args if not (x.op == "str" and not x.args[0].strip())]
                if len(parts) == 1 and parts[0] in self.bodies:
                    base = parts[0]
        if name in ("split", "splitlines") and self.bodies and not (name == "splitlines" and (args or kwargs)):
            r = self.split_lines(base, name, args)
            if r is not None:
                return self.new_list(st, S.seq(r), node)
        if name == "split":
            return mk("split", base, *[self.deep(a, st) for a in args]) if args and args[0] is not NONE \
                else mk("split", base)
        if name == "splitlines":
            keep = args[0] if args else kwargs.get("keepends", FALSE)
            if T.truthy(keep) is TRUE:
                if base.op == "joined" and base.args[0] is const_str("") and base.args[1].op == "seq":
                    return self.new_list(st, base.args[1], node)
                return mk("split", base, const_str("\n"), TRUE)
            return mk("split", base, const_str("\n"))
        if name == "join" and self.stringy(base):
            return mk("joined", base, self.deep(self.seq_value(args[0], st), st))
        if name in ("format",) and self.stringy(base):
            return mk("fmt", base, *[self.deep(a, st) for a in args],
                      *[mk("kw", k, self.deep(v, st)) for k, v in sorted(kwargs.items())])
        if name in ("startswith", "endswith") and len(args) == 1:
            if name == "startswith" and args[0].op == "str" and len(args[0].args[0]) == 1:
                # first character test
                return T.eq(self.get_item(base, ZERO, st, fr, node) if base.op == "fmt" else S.index(base, ZERO), args[0])
            return mk("truth", mk("call", mk("attr", base, name), *[self.deep(a, st) for a in args]))
        if name in ("lower", "upper", "replace", "title", "isdigit", "isspace", "find", "count",
                    "partition", "encode") and self.stringy(base):
            r = mk("call", mk("attr", base, name), *[self.deep(a, st) for a in args])
            if name in ("lower", "upper", "replace", "title"):
                self.symtype.setdefault(r, "str")
            return r
        return None

    def fmt(self, *parts):
        from .exprs import fmt
        r = fmt(*parts)
        return r.args[0] if r.op == "fmt" and len(r.args) == 1 and r.args[0] in self.bodies else r

    def split_lines(self, base, name, args):
        """Pieces of a text made of constants and of bodies of modelled lines
        (which contain no line break and no '=')."""
        if name == "splitlines":
            sep = "\n"
        elif len(args) == 1 and args[0].op == "str" and args[0].args[0] in ("\n", "="):
            sep = args[0].args[0]
        else:
            return None
        if base.op == "joined":
            if base.args[1].op != "seq":
                return None
            xs = base.args[1].args
            parts = [p for i, x in enumerate(xs) for p in ([base.args[0]] if i else []) + [x]]
            base = self.fmt(*parts)
        parts = base.args if base.op == "fmt" else (base,)
        if not all(p.op == "str" or p in self.bodies for p in parts):
            return None
        out = [[]]
        for p in parts:
            if p.op != "str":
                out[-1].append(p)
                continue
            first, *rest = p.args[0].split(sep)
            out[-1].append(const_str(first))
            out += [[const_str(x)] for x in rest]
        r = [self.fmt(*ps) for ps in out]
        if name == "splitlines" and r and r[-1].op == "str" and not r[-1].args[0]:
            r = r[:-1]
        return r

    def to_str(self, v, st, fr, node):
        if v.op == "ite":
            return self.branch(v.args[0], st, lambda s: self.to_str(v.args[1], s, fr, node),
                               lambda s: self.to_str(v.args[2], s, fr, node))
        if v.op in ("str", "fmt") or self.stringy(v):
            return v
        if v.op == "enum":
            cls = self.classes[v.args[0]]
        else:
            cls = self.type_of(v, st)
        if cls is not None:
            f, _ = self.lookup(cls, "__str__", st)
            if f is not None:
                return self.call(mk("bound", f, v), [], {}, st, fr, node)
        return mk("fmt", self.deep(v, st))


MUTATORS = {"setflags", "append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse",
            "update", "setdefault", "popitem", "fill", "put", "resize", "itemset",
            "partition", "add", "discard"}


def scalar_valued(t, depth=0):
    """t is certainly a single number or truth value (not an array)."""
    if depth > 40:
        return False
    o = t.op
    if o in ("num", "true", "false", "float", "int", "len", "inf", "eq", "cmp"):
        return True
    if o in ("ite", "where"):
        return all(scalar_valued(a, depth + 1) for a in t.args[o == "ite":])
    if o == "call" and t.args[0].op in ("sym", "upd", "call") and len(t.args) > 1:
        # functions of the caller and interpolants act elementwise
        return all(scalar_valued(a, depth + 1) for a in t.args[1:])
    if o == "index" and t.args[1].op == "num" and t.args[0].op == "call" and S.dense(t.args[0].args[0]):
        return all(scalar_valued(a, depth + 1) for a in t.args[0].args[1:])
    if o == "sym":
        return len(t.args) > 1 and t.args[1] in ("float", "int", "nat", "bool")
    if o in ("add", "mul", "pow", "abs", "lt0", "le0", "eq0", "not", "and", "or", "sqrt", "exp", "log"):
        return all(scalar_valued(a, depth + 1) if hasattr(a, "op") else True for a in t.args)
    return False

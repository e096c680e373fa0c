"""Attribute access: fields, properties, methods, foreign objects."""

from . import terms as T
from . import seqs as S
from .terms import mk, num, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, ite, is_num, const_str
from .engine import Dead, Obj


class Attrs:
    def enum_value(self, t):
        for k, v in self.enums.get(t.args[0], ()):
            if k == t.args[1]:
                return v
        return None

    def get_attr(self, base, name, st, fr, node):
        if base.op in ("ite", "where"):
            return self.branch(base.args[0], st,
                               lambda s: self.get_attr(base.args[1], name, s, fr, node),
                               lambda s: self.get_attr(base.args[2], name, s, fr, node))
        o = base.op
        if o in ("ref", "iref"):
            ob = st.heap.get(base.args[0])
            if ob is None:
                return mk("attr", base, name)
            if ob.kind == "inst":
                return self.inst_attr(base, ob, name, st, fr, node)
            if ob.kind == "arr":
                return self.arr_attr(base, self.deref(base, st), name, st)
            return mk("attr", base, name)
        if o == "mod":
            return self.mod_attr(base.args[0], name, st, node)
        if o == "ext":
            return self.ext_const(base.args[0] + "." + name)
        if o == "class":
            return self.class_attr(base, name, st, node)
        if o == "enum":
            if name == "name":
                return const_str(base.args[1])
            if name in ("value", "_value_"):
                v = self.enum_value(base)
                return v if v is not None else mk("attr", base, name)
            return self.bind_class_attr(base, self.classes[base.args[0]], name, st, fr, node)
        if o == "super":
            cls = self.classes[base.args[0]]
            v, owner = self.lookup(self.type_of(base.args[1], st) or cls, name, st, skip_to=cls) \
                if base.args[1].op != "class" else \
                self.lookup(self.cls_of(base.args[1]), name, st, skip_to=cls)
            if v is None:
                return mk("attr", base, name)
            return self.descriptor(v, base.args[1], st, fr, node, name)
        if o == "func" or o == "bound":
            if name == "__name__":
                return const_str(self.funcs[base.args[0] if o == "func" else base.args[0].args[0]].name)
            return mk("attr", base, name)
        if o == "property" and name in ("fget", "fset"):
            return base.args[0] if name == "fget" else base.args[1]
        # objects from outside the analysed program
        ov = st.heap.get(base)
        cls = self.type_of(base, st)
        if cls is not None:
            if cls.is_enum and name in ("value", "name"):
                return mk("attr", base, name)
            v, owner = self.lookup(cls, name, st)
            if v is not None and v.op in ("property", "func", "static", "clsmeth"):
                return self.descriptor(v, base, st, fr, node, name)
            if ov is not None and name in ov.f:
                return ov.f[name]
            if v is not None:
                return v
            return mk("attr", base, name)
        if ov is not None and name in ov.f:
            return ov.f[name]
        if name == "shape" or name in ("size", "ndim", "T", "dtype"):
            return self.arr_attr(base, base, name, st)
        if name in ("t_events", "y_events") and base.op == "call" and base.args[0].op == "ext" and \
                base.args[0].args[0] == "scipy.integrate.solve_ivp":
            # one entry per event handed over
            ev = [a.args[1] for a in base.args[1:] if a.op == "kw" and a.args[0] == "events"]
            if not ev:
                return NONE
            if ev[0].op == "seq":
                return mk("seq", *[mk("index", mk("attr", base, name), num(i))
                                   for i in range(len(ev[0].args))])
            if ev[0].op == "ref" or self.type_of(ev[0], st) is not None:
                return mk("seq", mk("index", mk("attr", base, name), ZERO))
        return mk("attr", base, name)

    def arr_attr(self, base, v, name, st):
        known = v.op in ("seq", "map", "concat", "rev", "filt", "slice")
        if name == "shape":
            if known and not (v.op == "seq" and v.args and v.args[0].op == "seq"):
                return mk("tuple", S.length(v))
            return mk("attr", v, "shape")
        if name == "size" and known:
            return S.length(v)
        if name == "ndim":
            if known:
                return num(2 if v.op == "seq" and v.args and v.args[0].op == "seq" else 1)
            if v.op == "num":
                return ZERO
            return mk("attr", v, "ndim")
        if name == "T" and known:
            return v
        if name == "dtype":
            return mk("attr", v, "dtype")
        return mk("attr", base, name)

    def mod_attr(self, modname, name, st, node):
        m = self.load_module(modname, st)
        if m is not None and m.oid in st.heap:
            v = st.heap[m.oid].f.get(name)
            if v is not None:
                return v
            sub = modname + "." + name
            if sub in self.prog.modules:
                self.load_module(sub, st)
                return mk("mod", sub)
        return self.unknown(node, f"module attribute {name}")

    def class_attr(self, base, name, st, node):
        cls = self.classes[base.args[0]]
        if name in ("__name__", "__qualname__"):
            return const_str(cls.name)
        if name == "__doc__":
            return mk("attr", base, name)
        if name == "__members__" and cls.is_enum:
            return mk("dictlit", *[mk("kv", const_str(k), mk("enum", base.args[0], k))
                                   for k, _ in self.enums[base.args[0]]])
        v, owner = self.lookup(cls, name, st)
        if v is None:
            return mk("attr", base, name)
        if v.op == "static":
            return v.args[0]
        if v.op == "clsmeth":
            return mk("bound", v.args[0], base)
        return v

    def descriptor(self, v, selfterm, st, fr, node, name):
        if v.op == "property":
            return self.call(v.args[0], [selfterm], {}, st, fr, node)
        if v.op == "func":
            return mk("bound", v, selfterm)
        if v.op == "static":
            return v.args[0]
        if v.op == "clsmeth":
            c = self.type_of(selfterm, st)
            return mk("bound", v.args[0], mk("class", c.qual) if c else selfterm)
        return v

    def bind_class_attr(self, base, cls, name, st, fr, node):
        v, owner = self.lookup(cls, name, st)
        if v is None:
            return mk("attr", base, name)
        return self.descriptor(v, base, st, fr, node, name)

    def inst_attr(self, base, ob, name, st, fr, node):
        cls = ob.cls
        v, owner = self.lookup(cls, name, st)
        if v is not None and v.op == "property":
            return self.call(v.args[0], [base], {}, st, fr, node)
        if name in ob.f and ob.f[name] is not UNDEF:
            x = ob.f[name]
            if base.op == "iref" and ob.idx is not None and base.args[1] is not ob.idx:
                x = T.subst(x, {ob.idx: base.args[1]})
            if x.op == "maybe":
                c, a, b = x.args
                x = a if b is UNDEF else b
            elif x.op == "lv" and ob.idx is None and base.op == "iref":
                pass
            return x
        if v is not None:
            return self.descriptor(v, base, st, fr, node, name)
        if name == "__class__":
            return mk("class", cls.qual)
        if name == "__dict__":
            return mk("attr", base, "__dict__")
        ga, _ = self.lookup(cls, "__getattr__", st)
        if ga is not None:
            return self.call(mk("bound", ga, base), [const_str(name)], {}, st, fr, node)
        if self.has_ext_base(cls):
            return mk("attr", base, name)
        if ob.meta is not None and ob.meta == "open":
            return mk("attr", base, name)
        self.add_raise(st, "AttributeError", node, implicit=True)
        raise Dead()

    def has_ext_base(self, cls):
        ok = ("ABC", "object", "Generic", "Protocol")
        for c in self.mro(cls):
            for b in c.bases:
                if b.op == "ext" and b.args[0].split(".")[-1] not in ok:
                    return True
                if b.op not in ("ext", "class"):
                    return True
        return False

    def set_attr(self, base, name, v, st, fr, node):
        if base.op in ("ite", "where"):
            self.branch(base.args[0], st,
                        lambda s: self.set_attr(base.args[1], name, v, s, fr, node) or NONE,
                        lambda s: self.set_attr(base.args[2], name, v, s, fr, node) or NONE)
            return
        cls = self.type_of(base, st)
        if cls is not None and base.op != "super":
            d, _ = self.lookup(cls, name, st)
            if d is not None and d.op == "property":
                if d.args[1] is NONE:
                    self.add_raise(st, "AttributeError", node, implicit=True)
                    raise Dead()
                self.call(d.args[1], [base, v], {}, st, fr, node)
                return
            sa_, _ = self.lookup(cls, "__setattr__", st)
            if sa_ is not None:
                self.call(mk("bound", sa_, base), [const_str(name), v], {}, st, fr, node)
                return
        if base.op == "ref":
            ob = st.heap.get(base.args[0])
            if ob is not None and ob.kind == "inst":
                self.event("setfield", base, node, name, st)
                if ob.idx is not None:
                    self.family_store(ob, base, name, v, st)
                else:
                    st.heap[base.args[0]] = ob.set(name, v)
                return
            self.event("mutate", base, node, "." + name, st)
            return
        if base.op == "iref":
            ob = st.heap.get(base.args[0])
            if ob is not None and ob.kind == "inst":
                self.event("setfield", base, node, name, st)
                self.family_store(ob, base, name, v, st)
            return
        if base.op == "class":
            c = self.classes[base.args[0]]
            self.event("mutate", base, node, "." + name, st)
            st.heap[c.oid] = st.heap[c.oid].set(name, v)
            return
        if base.op == "mod":
            m = self.prog.modules[base.args[0]]
            self.event("global", mk("global", base.args[0], name), node, "module attribute", st)
            st.heap[m.oid] = st.heap[m.oid].set(name, v)
            return
        self.event("mutate", base, node, "." + name, st)
        if base.op in ("ext", "func", "bound", "super"):
            return
        self.store_override(base, name, v, st)

    def e_Attribute(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        return self.get_attr(base, e.attr, st, fr, e)

    def overrides(self, t, st):
        """Foreign object together with the changes made to it."""
        ov = st.heap.get(t)
        if ov is None or not ov.f:
            return t
        return mk("upd", t, *[mk("kv", const_str(k), self.deep(v, st))
                              for k, v in sorted(ov.f.items())])

"""Statement transfer functions."""

import ast

from . import terms as T
from . import seqs as S
from .terms import mk, num, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, ite, is_num
from .engine import (Dead, Obj, State, Func, Class, Frame, LoopFrame, Raised,
                     exc_is, UNROLL)


class Stmts:
    def exec_block(self, body, st, fr):
        for s in body:
            if st.dead:
                return
            try:
                self.exec_stmt(s, st, fr)
            except Dead:
                st.dead = True
                return

    def exec_stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown(s, f"statement {type(s).__name__}")
            return
        m(s, st, fr)

    # ------------------------------------------------------------- simple
    def s_Pass(self, s, st, fr):
        pass

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def s_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if c is TRUE:
            return
        b = st.copy()
        b.assume(T.not_(c))
        self.add_raise(b, "AssertionError", s)
        st.assume(c)
        if st.dead:
            raise Dead()

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.bind_name(t.id, UNDEF, st, fr)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                self.event("mutate", b, s, "del item", st)
                self.havoc_container(b, st)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                self.set_attr(b, t.attr, UNDEF, st, fr, s)

    def s_Global(self, s, st, fr):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s, st, fr):
        for al in s.names:
            top = al.name.split(".")[0]
            if al.name in self.prog.modules or top in self.prog.modules:
                self.load_module(al.name, st)
                t = mk("mod", al.name if al.asname else top)
            else:
                t = mk("ext", al.name if al.asname else top)
            self.bind_name(al.asname or top, t, st, fr)

    def s_ImportFrom(self, s, st, fr):
        mod = s.module or ""
        if s.level:
            parts = fr.module.name.split(".")
            if not getattr(fr.module, "is_pkg", False):
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        m = self.load_module(mod, st)
        for al in s.names:
            if m is not None:
                v = st.heap[m.oid].f.get(al.name)
                if v is None:
                    sub = mod + "." + al.name
                    if sub in self.prog.modules:
                        self.load_module(sub, st)
                        v = mk("mod", sub)
                    else:
                        v = self.unknown(s, f"import {al.name}")
            else:
                v = self.ext_const(mod + "." + al.name)
            self.bind_name(al.asname or al.name, v, st, fr)

    def s_FunctionDef(self, s, st, fr):
        f = self.make_func(s, st, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, fr, s)
        self.bind_name(s.name, v, st, fr)

    def decorate(self, d, v, st, fr, s):
        if isinstance(d, ast.Name):
            n = d.id
        elif isinstance(d, ast.Attribute):
            n = d.attr
            if n in ("setter", "getter", "deleter"):
                base = self.ev(d.value, st, fr)
                if base.op == "property":
                    g, se = base.args
                    if n == "setter":
                        return mk("property", g, v)
                    if n == "getter":
                        return mk("property", v, se)
                    return base
        else:
            n = None
        if n in ("property", "cached_property", "abstractproperty"):
            return mk("property", v, NONE)
        if n == "staticmethod":
            return mk("static", v)
        if n == "classmethod":
            return mk("clsmeth", v)
        if n == "abstractmethod":
            if v.op == "func":
                self.funcs[v.args[0]].abstract = True
            return v
        if n in ("override", "final", "overload", "no_type_check"):
            return v
        dv = self.ev(d, st, fr)
        if dv.op == "func":
            return self.call(dv, [v], {}, st, fr, s)
        self.unknown(s, "decorator")
        return v

    def make_func(self, node, st, fr, name=None):
        a = node.args
        defaults = tuple(self.ev(d, st, fr) for d in a.defaults)
        kwd = tuple((x.arg, self.ev(d, st, fr)) for x, d in
                    zip(a.kwonlyargs, a.kw_defaults) if d is not None)
        scopes = fr.fn_scopes if hasattr(fr, "fn_scopes") else ()
        if fr.fn is not None or getattr(fr, "comp", False):
            scopes = self.frame_scopes(fr)
        else:
            scopes = ()
        nm = name or getattr(node, "name", "<lambda>")
        owner = getattr(fr, "cls", None)
        key = (id(node), scopes, tuple(x.id for x in defaults),
               tuple((k, v.id) for k, v in kwd))
        fid = self._funckeys.get(key)
        if fid is None:
            prefix = fr.fn.qual + "." if fr.fn else ""
            if owner is not None:
                prefix = owner.name + "."
            fid = f"{fr.module.name}:{prefix}{nm}:{getattr(node, 'lineno', 0)}"
            if fid in self.funcs:
                fid += f"#{len(self.funcs)}"
            f = Func(node, fr.module, scopes, owner, nm, defaults, dict(kwd),
                     prefix + nm)
            self.funcs[fid] = f
            self._funckeys[key] = fid
        return mk("func", fid)

    def frame_scopes(self, fr):
        """Enclosing scope objects, innermost first."""
        out = [fr.scope]
        if getattr(fr, "outer_scopes", None):
            out.extend(fr.outer_scopes)
        self.captured.update(out)
        return tuple(out)

    def s_ClassDef(self, s, st, fr):
        bases = []
        for b in s.bases:
            bases.append(self.ev(b, st, fr))
        qual = fr.module.name + "." + s.name
        if fr.fn is not None:
            qual += f"@{s.lineno}"
        ref = self.alloc(st, Obj("scope", None, {}), s)
        cls = Class(s.name, qual, bases, ref.args[0], s, fr.module)
        self.classes[qual] = cls
        for b in bases:
            if b.op == "ext" and b.args[0].split(".")[-1] in (
                    "Enum", "IntEnum", "Flag", "IntFlag", "StrEnum"):
                cls.is_enum = True
            bc = self.cls_of(b)
            if bc is not None and bc.is_enum:
                cls.is_enum = True
        sub = Frame(fr.fn, ref.args[0], fr.module, fr.depth)
        sub.cls = cls
        sub.outer_scopes = self.frame_scopes(fr) if fr.fn is not None else ()
        sub.classbody = True
        self.frames.append(sub)
        try:
            self.exec_block(s.body, st, sub)
        finally:
            self.frames.pop()
        # dataclass style / annotated fields
        for n in ast.walk(s):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
                cls.fieldann.setdefault(n.target.attr, n.annotation)
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                cls.fieldann.setdefault(n.target.id, n.annotation)
        if cls.is_enum:
            ns = st.heap[ref.args[0]]
            auto = 0
            members = []
            nf = dict(ns.f)
            for n in s.body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    k = n.targets[0].id
                    v = nf.get(k)
                    if v is None:
                        continue
                    if v.op == "autoenum":
                        v = num(auto + 1)
                    if is_num(v):
                        auto = int(v.args[0])
                    members.append((k, v))
                    nf[k] = mk("enum", qual, k)
            self.enums[qual] = members
            st.heap[ref.args[0]] = Obj("scope", None, nf)
        v = mk("class", qual)
        for d in s.decorator_list:
            dv = self.ev(d, st, fr)
            if dv.op != "ext":
                self.unknown(s, "class decorator")
            elif "dataclass" in dv.args[0]:
                cls.dataclass = True
        self.bind_name(s.name, v, st, fr)

    # --------------------------------------------------------- assignment
    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return
        v = self.ev(s.value, st, fr)
        self.assign(s.target, v, st, fr, s)

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st, fr, t)
            nv = self.augop(s, cur, st, fr, name=t.id)
            if nv is not None:
                self.bind_name(t.id, nv, st, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            cur = self.get_attr(base, t.attr, st, fr, t)
            nv = self.augop(s, cur, st, fr)
            self.set_attr(base, t.attr, nv if nv is not None else cur, st, fr, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            cur = self.get_item(base, i, st, fr, t)
            rhs = self.ev(s.value, st, fr)
            nv = self.binop(s.op, cur, rhs, st, s)
            nb = self.set_item(base, i, nv, st, fr, s)
            self.rebind_base(t.value, base, nb, st, fr, s)

    def augop(self, s, cur, st, fr, name=None):
        """In-place operator: new value, or None when the target object was
        updated in place."""
        rhs = self.ev(s.value, st, fr)
        if cur.op == "ref":
            o = st.heap.get(cur.args[0])
            if o is not None and o.kind == "list" and isinstance(s.op, ast.Add):
                self.event("mutate", cur, s, "+=", st)
                add = self.seq_value(rhs, st)
                st.heap[cur.args[0]] = o.set("v", S.concat(o.f["v"], add))
                return None
            if o is not None and o.kind == "arr":
                self.event("mutate", cur, s, "augmented assignment", st)
                nv = self.binop(s.op, cur, rhs, st, s)
                st.heap[cur.args[0]] = o.set("v", nv)
                return None
        nv = self.binop(s.op, cur, rhs, st, s)
        # an array-valued foreign object is changed in place
        if self.may_be_array(cur, fr, name, st):
            self.event("mutate", cur, s, "augmented assignment", st)
            if name is not None:
                self.rebind_equal(cur, nv, st, fr)
        return nv

    def may_be_array(self, t, fr, name, st):
        """Could the term be an array object owned by somebody else?"""
        if t.op in ("num", "str", "inf", "none", "true", "false", "fmt", "len",
                    "add", "mul", "pow", "abs", "lv", "lo", "enum", "idx", "k",
                    "where", "exp", "log", "float", "tuple", "int"):
            return False
        if t.op == "ite":
            return self.may_be_array(t.args[1], fr, name, st) or \
                self.may_be_array(t.args[2], fr, name, st)
        if name is not None and fr.fn is not None:
            ann = fr.fn.ann.get(name)
            if ann is not None and ast.unparse(ann) in ("float", "int", "str", "bool"):
                return False
        return t.op in ("sym", "call", "index", "attr", "upd", "elem")

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            self.set_attr(base, t.attr, v, st, fr, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            nb = self.set_item(base, i, v, st, fr, node)
            self.rebind_base(t.value, base, nb, st, fr, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts, st, fr, node)
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, st, fr, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)
        else:
            self.unknown(node, "assignment target")

    def unpack(self, v, elts, st, fr, node):
        n = len(elts)
        x = self.seq_value(v, st)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if x.op == "ite":
            return [ite(x.args[0], a, b) for a, b in
                    zip(self.unpack(x.args[1], elts, st, fr, node),
                        self.unpack(x.args[2], elts, st, fr, node))]
        ln = S.length(x)
        if star:
            i = star[0]
            after = n - i - 1
            out = [S.index(x, num(j)) for j in range(i)]
            hi = NONE if after == 0 else num(-after)
            out.append(self.new_list(st, S.slice_(x, num(i), hi, NONE), node))
            out += [S.index(x, num(-(after - j))) for j in range(after)]
            return out
        if is_num(ln):
            if ln.args[0] != n:
                self.add_raise(st, "ValueError", node, implicit=True)
                raise Dead()
        else:
            c = T.eq(ln, num(n))
            if c not in st.facts:
                b = st.copy()
                b.assume(T.not_(c))
                if x.op not in ("call", "index") or x.op == "map" or \
                        self.stringish(x):
                    self.add_raise(b, "ValueError", node, implicit=True)
                    st.assume(c)
        return [S.index(x, num(j)) for j in range(n)]

    def stringish(self, t):
        return t.op in ("split", "map", "slice", "filt")

    def rebind_base(self, expr, base, nb, st, fr, node):
        """After a store through a non-reference value: update its holders."""
        if nb is None or nb is base:
            return
        if isinstance(expr, ast.Name):
            self.rebind_equal(base, nb, st, fr)
        elif isinstance(expr, ast.Attribute):
            ob = self.ev(expr.value, st, fr)
            # the container object itself was changed in place
            self.store_override(ob, expr.attr, nb, st)
        elif isinstance(expr, ast.Subscript):
            b2 = self.ev(expr.value, st, fr)
            i2 = self.ev_index(expr.slice, st, fr)
            nb2 = self.set_item(b2, i2, nb, st, fr, node, quiet=True)
            self.rebind_base(expr.value, b2, nb2, st, fr, node)

    def rebind_equal(self, old, new, st, fr):
        sc = st.heap[fr.scope]
        f = dict(sc.f)
        for k, v in f.items():
            if v is old:
                f[k] = new
        st.heap[fr.scope] = Obj(sc.kind, sc.cls, f, sc.idx, sc.meta)

    def store_override(self, ob, name, v, st):
        if ob.op == "ref":
            o = st.heap.get(ob.args[0])
            if o is not None and o.kind == "inst":
                st.heap[ob.args[0]] = o.set(name, v)
                return
        if ob.op in ("class", "mod", "ext"):
            return
        o = st.heap.get(ob)
        if o is None:
            o = Obj("foreign", None, {}, None, ob)
        st.heap[ob] = o.set(name, v)

    def bind_name(self, name, v, st, fr):
        oid = fr.scope
        fn = fr.fn
        if fn is not None and not getattr(fr, "classbody", False):
            if name in fn.globals:
                oid = fr.module.oid
                self.event("global", mk("global", fr.module.name, name), fn.node,
                           "global assignment", st)
            elif name in fn.nonlocals:
                for o in getattr(fr, "outer_scopes", ()):
                    if name in st.heap[o].f:
                        oid = o
                        break
        sc = st.heap[oid]
        st.heap[oid] = sc.set(name, v)

    # -------------------------------------------------------- control flow
    def s_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ev(s.value, st, fr)
        fr.returns.append((st.copy(), v))
        raise Dead()

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            cur = getattr(self, "_handling", None)
            exc = cur[-1] if cur else "Exception"
            self.add_raise(st, exc, s)
            raise Dead()
        name = self.exc_name(s.exc, st, fr)
        self.add_raise(st, name, s)
        raise Dead()

    def exc_name(self, e, st, fr):
        if isinstance(e, ast.Call):
            f = e.func
            for a in e.args:
                try:
                    self.ev(a, st, fr)
                except Dead:
                    raise
        else:
            f = e
        v = self.ev(f, st, fr)
        if v.op == "excinst":
            return v.args[0]
        if v.op == "ext":
            return v.args[0].split(".")[-1]
        if v.op == "class":
            c = self.cls_of(v)
            for b in self.mro(c):
                for x in b.bases:
                    if x.op == "ext":
                        from .engine import BUILTIN_EXC
                        n = x.args[0].split(".")[-1]
                        BUILTIN_EXC.setdefault(c.name, n)
            return c.name
        return "Exception"

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if c is TRUE:
            self.exec_block(s.body, st, fr)
            return
        if c is FALSE:
            self.exec_block(s.orelse, st, fr)
            return
        a = st.copy()
        b = st
        a.assume(c)
        bs = st.copy()
        bs.assume(T.not_(c))
        if not a.dead:
            self.exec_block(s.body, a, fr)
        if not bs.dead:
            self.exec_block(s.orelse, bs, fr)
        if a.dead and bs.dead:
            st.dead = True
            return
        st.become(self.merge(a, bs, c))

    def s_Break(self, s, st, fr):
        if not fr.loops:
            raise Dead()
        fr.loops[-1].breaks.append(st.copy())
        raise Dead()

    def s_Continue(self, s, st, fr):
        fr.loops[-1].continues.append(st.copy())
        raise Dead()

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr, s)
        self.exec_block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        outer = self.raises
        nret = len(fr.returns)
        loop = fr.loops[-1] if fr.loops else None
        nbrk = len(loop.breaks) if loop else 0
        ncnt = len(loop.continues) if loop else 0
        self.raises = []
        self.exec_block(s.body, st, fr)
        caught = self.raises
        # returns/breaks inside the body are not affected by handlers
        inner = []
        self.raises = inner
        if not st.dead and s.orelse:
            self.exec_block(s.orelse, st, fr)
        ends = [st]
        pending = caught
        for h in s.handlers:
            names = self.handler_names(h, st if not st.dead else
                                       (caught[0].state if caught else st), fr)
            mine, rest = [], []
            for r in pending:
                if names is None or any(exc_is(r.exc, n) for n in names):
                    mine.append(r)
                else:
                    rest.append(r)
                    if r.exc == "?" or any(exc_is(n, r.exc) for n in names):
                        mine.append(r)
            pending = rest
            if not mine:
                continue
            hs, _ = self.merge_many([(r.state, None) for r in mine])
            if hs is None:
                continue
            hs = hs.copy()
            if h.name:
                self.bind_name(h.name, mk("excinst", mine[0].exc), hs, fr)
            if not hasattr(self, "_handling"):
                self._handling = []
            excs = {r.exc for r in mine}
            if len(excs) == 1:
                hx = excs.pop()
            elif names and len(names) == 1:
                hx = names[0]
            else:
                hx = "Exception"
            self._handling.append(hx)
            try:
                self.exec_block(h.body, hs, fr)
            finally:
                self._handling.pop()
            ends.append(hs)
        self.raises = outer
        out_raises = pending + inner
        if s.finalbody:
            # exceptional exits run the finally block
            for r in out_raises:
                fs = r.state.copy()
                self.exec_block(s.finalbody, fs, fr)
                if not fs.dead:
                    outer.append(Raised(fs, r.exc, r.site, r.node, r.implicit,
                                        r.func))
            # and so do returns, breaks and continues out of the statement
            left = fr.returns[nret:]
            del fr.returns[nret:]
            for rs, v in left:
                self.exec_block(s.finalbody, rs, fr)
                if not rs.dead:
                    fr.returns.append((rs, v))
            if loop:
                for states, n in ((loop.breaks, nbrk), (loop.continues, ncnt)):
                    left = states[n:]
                    del states[n:]
                    for rs in left:
                        self.exec_block(s.finalbody, rs, fr)
                        if not rs.dead:
                            states.append(rs)
        else:
            outer.extend(out_raises)
        live = [e for e in ends if not e.dead]
        if not live:
            st.dead = True
        else:
            m, _ = self.merge_many([(e, None) for e in live])
            st.become(m)
            if s.finalbody:
                self.exec_block(s.finalbody, st, fr)

    def handler_names(self, h, st, fr):
        if h.type is None:
            return None
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in elts:
            v = self.ev(e, st.copy(), fr)
            if v.op == "ext":
                out.append(v.args[0].split(".")[-1])
            elif v.op == "class":
                out.append(v.args[0].split(".")[-1])
            else:
                out.append("Exception")
        return out

    def s_Match(self, s, st, fr):
        v = self.ev(s.subject, st, fr)
        ends = []
        cur = st.copy()
        for case in s.cases:
            if cur.dead:
                break
            c = self.pattern(case.pattern, v, cur, fr)
            if c is None:
                self.unknown(s, "match pattern")
                return
            if case.guard is not None:
                c = T.and_(c, self.cond(case.guard, cur, fr))
            a = cur.copy()
            a.assume(c)
            if not a.dead:
                self.exec_block(case.body, a, fr)
                ends.append(a)
            cur.assume(T.not_(c))
        ends.append(cur)
        live = [(e, None) for e in ends if not e.dead]
        if not live:
            st.dead = True
            return
        m, _ = self.merge_many(live)
        st.become(m)

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            return T.eq(v, self.ev(p.value, st, fr))
        if isinstance(p, ast.MatchSingleton):
            c = {None: NONE, True: TRUE, False: FALSE}[p.value]
            return T.is_(v, c)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.bind_name(p.name, v, st, fr)
                return TRUE
            c = self.pattern(p.pattern, v, st, fr)
            if p.name:
                self.bind_name(p.name, v, st, fr)
            return c
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(q, v, st, fr) for q in p.patterns]
            return None if None in cs else T.or_(*cs)
        return None

"""Flow-sensitive interprocedural value-numbering over the syntax trees.

One pass per function call context; control-flow joins merge the two states
with gated phi terms (`ite`).  Nothing is enumerated path by path, nothing of
the analysed package is imported or executed, and no solver is used.
"""

import ast
from fractions import Fraction

from . import terms as T
from . import seqs as S
from .terms import (mk, num, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, INF, ite,
                    is_num, const_str)
from .prog import Program


class Dead(Exception):
    """The current control path has no normal continuation."""


class AnchorMissing(Exception):
    """A public name the rules need has vanished."""


class Obj:
    """Immutable heap object."""
    __slots__ = ("kind", "cls", "f", "idx", "meta")

    def __init__(self, kind, cls, f, idx=None, meta=None):
        self.kind, self.cls, self.f, self.idx, self.meta = kind, cls, f, idx, meta

    def set(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Obj(self.kind, self.cls, f, self.idx, self.meta)

    def delete(self, k):
        f = dict(self.f)
        f.pop(k, None)
        return Obj(self.kind, self.cls, f, self.idx, self.meta)


class State:
    __slots__ = ("heap", "pc", "_facts", "dead")

    def __init__(self, heap=None, pc=()):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self._facts = None
        self.dead = False

    def copy(self):
        s = State(dict(self.heap), self.pc)
        s._facts = self._facts
        s.dead = self.dead
        return s

    def become(self, o):
        self.heap, self.pc, self._facts, self.dead = o.heap, o.pc, o._facts, o.dead

    @property
    def facts(self):
        if self._facts is None:
            fs = set()
            for c in self.pc:
                fs.add(c)
                if c.op == "and":
                    fs |= set(c.args)
            self._facts = frozenset(fs)
        return self._facts

    def assume(self, c):
        if c is TRUE or c in self.facts:
            return
        if c is FALSE:
            self.dead = True
            return
        self.pc = self.pc + (c,)
        self._facts = None


class Func:
    def __init__(self, node, module, scopes, owner, name, defaults, kwdefaults,
                 qual):
        self.node, self.module, self.scopes = node, module, scopes
        self.owner, self.name = owner, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qual = qual
        self.kind = None          # staticmethod / classmethod
        self.abstract = False
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ann = {x.arg: x.annotation
                    for x in a.posonlyargs + a.args + a.kwonlyargs}
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        self.locals = set(self.params + self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        self.globals, self.nonlocals = set(), set()
        self.is_gen = False
        _collect(body, self)
        self.locals -= self.globals | self.nonlocals


def _collect(body, fn):
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn.locals.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            stack.append(n.generators[0].iter)
            # walrus targets are rare; ignored
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            fn.is_gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            fn.locals.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            fn.locals.add(n.name)
        if isinstance(n, ast.Global):
            fn.globals |= set(n.names)
        if isinstance(n, ast.Nonlocal):
            fn.nonlocals |= set(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                fn.locals.add((al.asname or al.name).split(".")[0])
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, name, qual, bases, oid, node, module):
        self.name, self.qual, self.bases = name, qual, bases
        self.oid, self.node, self.module = oid, node, module
        self.is_enum = False
        self.fieldann = {}


class Frame:
    def __init__(self, fn, scope, module, depth):
        self.fn, self.scope, self.module, self.depth = fn, scope, module, depth
        self.returns = []     # (state, value)
        self.loops = []       # break/continue collectors
        self.self_term = None


class LoopFrame:
    def __init__(self):
        self.breaks = []
        self.continues = []


class Raised:
    """One exceptional exit."""
    __slots__ = ("state", "exc", "site", "node", "implicit", "func")

    def __init__(self, state, exc, site, node=None, implicit=False, func=None):
        self.state, self.exc, self.site = state, exc, site
        self.node, self.implicit, self.func = node, implicit, func

    def __repr__(self):
        return f"<raise {self.exc} at {self.site}>"


class Event:
    """A may-effect seen by the analysis."""
    __slots__ = ("kind", "target", "site", "func", "detail", "pc")

    def __init__(self, kind, target, site, func, detail=None, pc=()):
        self.kind, self.target, self.site = kind, target, site
        self.func, self.detail, self.pc = func, detail, pc

    def __repr__(self):
        return f"<{self.kind} {self.target} {self.detail} @{self.site}>"


BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException",
    "ValueError": "Exception", "TypeError": "Exception",
    "RuntimeError": "Exception", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "FloatingPointError": "ArithmeticError", "LookupError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError",
    "AttributeError": "Exception", "NotImplementedError": "RuntimeError",
    "OSError": "Exception", "IOError": "OSError", "FileNotFoundError": "OSError",
    "UnicodeError": "ValueError", "StopIteration": "Exception",
    "AssertionError": "Exception", "KeyboardInterrupt": "BaseException",
    "NameError": "Exception", "ImportError": "Exception", "Warning": "Exception",
    "UserWarning": "Warning", "DeprecationWarning": "Warning",
    "RuntimeWarning": "Warning", "UnicodeDecodeError": "UnicodeError",
}

MAXDEPTH = 40
UNROLL = 40


def exc_is(name, base):
    while name is not None:
        if name == base:
            return True
        name = BUILTIN_EXC.get(name, "Exception" if name != "BaseException" else None)
    return False


class EngineBase:
    def __init__(self, root):
        self.prog = Program(root)
        self.funcs = {}
        self._funckeys = {}
        self.classes = {}
        self.next_oid = 1
        self.events = []
        self._evkeys = set()
        self.raises = []
        self.unknowns = {}
        self.frames = []
        self.symtype = {}
        self.loops = {}
        self.bodies = set()  # bodies of modelled lines: not empty, without line break, '=' or surrounding blanks
        self.files = {}       # name -> sequence of lines (models of files)
        self.nloop = 0
        self.nfresh = 0
        self.floats = set()      # values known to be of floating type
        self.calls = []          # external calls seen
        self.analysed = set()    # function qualnames interpreted
        self.sites = 0
        self.ncalls = 0
        self.st0 = State()
        self.enums = {}
        self.alloc_site = {}
        self.entry_oid = None
        self.suppress = 0
        self.captured = set()
        for m in list(self.prog.modules.values()):
            self.load_module(m.name, self.st0)
        self.st0.pc = ()
        self.st0._facts = None
        self.base_oid = self.next_oid
        self.module_raises = self.raises
        self.raises = []

    # ------------------------------------------------------------- utilities
    def fresh(self, kind="k"):
        self.nfresh += 1
        return mk(kind, self.nfresh)

    def alloc(self, st, obj, node=None):
        oid = self.next_oid
        self.next_oid += 1
        st.heap[oid] = obj
        if node is not None:
            self.alloc_site[oid] = self.site(node)
        return mk("ref", oid)

    def new_list(self, st, value, node=None):
        return self.alloc(st, Obj("list", None, {"v": value}), node)

    def new_arr(self, st, value, dt=None, node=None):
        return self.alloc(st, Obj("arr", None, {"v": value, "dt": dt or NONE}), node)

    def site(self, node):
        fr = self.frames[-1] if self.frames else None
        m = fr.module.path if fr else "?"
        q = fr.fn.qual if fr and fr.fn else "<module>"
        return f"{m}:{getattr(node, 'lineno', 0)} ({q})"

    def cur_func(self):
        fr = self.frames[-1] if self.frames else None
        return fr.fn.qual if fr and fr.fn else "<module>"

    def event(self, kind, target, node, detail=None, st=None):
        s = self.site(node) if node is not None else "?"
        key = (kind, target, s, str(detail))
        if key in self._evkeys or self.suppress:
            return
        self._evkeys.add(key)
        self.events.append(Event(kind, target, s, self.cur_func(), detail,
                                 st.pc if st is not None else ()))

    def unknown(self, node, why):
        s = self.site(node)
        self.unknowns.setdefault(s, why)
        return mk("unk", s, why)

    def add_raise(self, st, exc, node, implicit=False):
        if st.dead:
            return
        self.raises.append(Raised(st.copy(), exc, self.site(node), node,
                                  implicit, self.cur_func()))

    # --------------------------------------------------------------- modules
    def load_module(self, name, st):
        m = self.prog.modules.get(name)
        if m is None:
            return None
        if m.state != "new":
            return m
        m.state = "loading"
        ref = self.alloc(st, Obj("scope", None, {"__name__": const_str(name)}))
        m.oid = ref.args[0]
        fr = Frame(None, m.oid, m, 0)
        self.frames.append(fr)
        try:
            self.exec_block(m.tree.body, st, fr)
        finally:
            self.frames.pop()
        m.state = "done"
        return m

    def global_of(self, modname, name, st=None):
        m = self.prog.modules.get(modname)
        if m is None:
            raise AnchorMissing(f"module {modname}")
        v = (st or self.st0).heap[m.oid].f.get(name)
        if v is None:
            raise AnchorMissing(f"{modname}.{name}")
        return v

    # ------------------------------------------------------------ state merge
    def merge(self, a, b, c=None):
        """Join of two states; c selects a."""
        if a.dead:
            return b
        if b.dead:
            return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        ca = T.and_(*a.pc[n:])
        cb = T.and_(*b.pc[n:])
        if c is None:
            c = ca
            if c is TRUE:
                c = T.not_(cb)
        st = State({}, a.pc[:n])
        common = T.or_(ca, cb)
        if common is not TRUE:
            st.pc = st.pc + (common,)
        ha, hb = a.heap, b.heap
        h = dict(ha)
        for oid, ob in hb.items():
            oa = ha.get(oid)
            if oa is None:
                h[oid] = ob
            elif oa is not ob:
                h[oid] = self.merge_obj(oa, ob, c)
        st.heap = h
        return st

    def merge_obj(self, oa, ob, c):
        if oa.kind != ob.kind:
            return oa
        f = {}
        for k in list(oa.f) + [k for k in ob.f if k not in oa.f]:
            va, vb = oa.f.get(k, UNDEF), ob.f.get(k, UNDEF)
            if va is vb:
                f[k] = va
            elif va is UNDEF or vb is UNDEF:
                if oa.kind == "foreign":
                    base = T.mk("attr", oa.meta, k)
                    f[k] = ite(c, base if va is UNDEF else va,
                               base if vb is UNDEF else vb)
                else:
                    f[k] = mk("maybe", c, va, vb) if oa.kind == "inst" \
                        else ite(c, va, vb)
            else:
                f[k] = ite(c, va, vb)
        return Obj(oa.kind, oa.cls, f, oa.idx, oa.meta)

    def merge_many(self, pairs):
        """Join [(state, value)...] in order; value may be None."""
        pairs = [(s, v) for s, v in pairs if not s.dead]
        if not pairs:
            return None, None
        st, val = pairs[-1]
        for s, v in reversed(pairs[:-1]):
            n = 0
            while n < len(s.pc) and n < len(st.pc) and s.pc[n] is st.pc[n]:
                n += 1
            c = T.and_(*s.pc[n:])
            if c is TRUE:
                c = T.not_(T.and_(*st.pc[n:]))
                if c is FALSE:
                    c = TRUE
            if val is not None and v is not None:
                val = v if v is val else ite(c, v, val)
            st = self.merge(s, st, c)
        return st, val

    # --------------------------------------------------------------- classes
    def cls_of(self, term):
        return self.classes.get(term.args[0]) if term.op == "class" else None

    def mro(self, cls):
        out = []

        def go(c):
            if c in out:
                return
            out.append(c)
            for b in c.bases:
                bc = self.cls_of(b)
                if bc:
                    go(bc)
        go(cls)
        # a diamond keeps the base last
        for c in list(out):
            for b in c.bases:
                bc = self.cls_of(b)
                if bc and out.index(bc) < out.index(c):
                    out.remove(bc)
                    out.append(bc)
        return out

    def lookup(self, cls, name, st, skip_to=None):
        """Class attribute via the MRO: (term, class)."""
        seen = skip_to is None
        for c in self.mro(cls):
            if not seen:
                if c is skip_to:
                    seen = True
                continue
            v = st.heap[c.oid].f.get(name)
            if v is not None:
                return v, c
        return None, None

    def is_subclass(self, cls, base_qual):
        return any(c.qual == base_qual for c in self.mro(cls))

    def class_named(self, name):
        for c in self.classes.values():
            if c.name == name:
                return c
        raise AnchorMissing(f"class {name}")

    def type_of(self, t, st):
        """Class of a term if it is a package class."""
        if t.op == "ref":
            o = st.heap.get(t.args[0])
            return o.cls if o is not None and o.kind == "inst" else None
        if t.op == "iref":
            o = st.heap.get(t.args[0])
            return o.cls if o is not None and o.kind == "inst" else None
        if t.op == "enum":
            return self.classes.get(t.args[0])
        c = self.symtype.get(t)
        if isinstance(c, Class):
            return c
        if t.op == "index":
            e = self.symtype.get(("elem", t.args[0]))
            if isinstance(e, Class):
                return e
        if t.op in ("upd",):
            return self.type_of(t.args[0], st)
        return None

    def deref(self, t, st):
        """Value of list/array references (others unchanged)."""
        if t.op == "ref":
            o = st.heap.get(t.args[0])
            if o is not None and o.kind in ("list", "arr", "dict"):
                return o.f["v"]
        elif t.op == "iref":
            o = st.heap.get(t.args[0])
            if o is not None and o.kind in ("list", "arr", "dict"):
                return T.subst(o.f["v"], {o.idx: t.args[1]}) if o.idx is not None else o.f["v"]
        elif t.op in ("ite", "where"):
            a, b = self.deref(t.args[1], st), self.deref(t.args[2], st)
            if a is not t.args[1] or b is not t.args[2]:
                return T.mk_ite(t.op, t.args[0], a, b)
        return t

    def deep(self, t, st, memo=None):
        """Value snapshot: all list/array/dict references inside replaced."""
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ("ref", "iref"):
            v = self.deref(t, st)
            r = t if v is t else self.deep(v, st, memo)
        elif t.op in ("func", "bound"):
            r = t
        else:
            r = T.rebuild(t, lambda x: self.deep(x, st, memo))
        memo[t] = r
        return r

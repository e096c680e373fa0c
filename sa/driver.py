"""Analysis drivers: abstract evaluation of a client program.

A client program is Python text over the public API of the analysed package.
It is interpreted abstractly by the engine on symbolic inputs; nothing runs.
"""

import ast

from . import terms as T
from . import seqs as S
from .terms import mk, num, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, INF, ite, is_num, const_str
from .core import Engine
from .engine import AnchorMissing, Dead, State, Obj, Frame
from .prog import Module


class Run:
    def __init__(self, eng, base=None):
        self.e = eng
        self.st = (base.st if base is not None else eng.st0).copy()
        eng.raises = []
        eng.events = []
        eng._evkeys = set()
        eng.calls = []
        eng.frames = []
        self.calls = eng.calls
        self.raises = eng.raises
        self.events = eng.events
        if base is not None:
            self.mod = base.mod
            self.fr = base.fr
        else:
            self.mod = Module("spec", "<spec>", None, "")
            ref = eng.alloc(self.st, Obj("scope", None, {"__name__": const_str("spec"),
                                                             "np": mk("ext", "numpy")}))
            self.mod.oid = ref.args[0]
            self.fr = Frame(None, self.mod.oid, self.mod, 0)

    def fork(self):
        """A second continuation from the present state."""
        return Run(self.e, self)

    def activate(self):
        self.e.raises, self.e.events, self.e.calls = self.raises, self.events, self.calls
        self.e._evkeys = set()

    # ---------------------------------------------------------------- input
    def sym(self, name, ty=None, elem=None):
        if ty is None:
            t = T.sym(name)
        else:
            t = mk("sym", name, ty if isinstance(ty, str) else ty.qual)
            self.e.symtype[t] = ty
        if elem is not None:
            self.e.symtype[("elem", t)] = elem
        return t

    def bind(self, **kw):
        for k, v in kw.items():
            sc = self.st.heap[self.mod.oid]
            self.st.heap[self.mod.oid] = sc.set(k, v)
        return self

    def assume(self, *cs):
        for c in cs:
            self.st.assume(c)
        return self

    def positive(self, *ts):
        for t in ts:
            self.st.assume(T.lt(ZERO, t))
        return self

    # ------------------------------------------------------------------ run
    def exec(self, text, **env):
        """Interpret statements; returns False when no path continues."""
        self.bind(**env)
        tree = ast.parse(text)
        self.activate()
        self.e.frames = [self.fr]
        try:
            self.e.exec_block(tree.body, self.st, self.fr)
        finally:
            self.e.frames = []
        return not self.st.dead

    def ev(self, text, **env):
        """Value of an expression, or None when no path continues."""
        self.bind(**env)
        node = ast.parse(text, mode="eval").body
        self.activate()
        self.e.frames = [self.fr]
        try:
            return self.e.ev(node, self.st, self.fr)
        except Dead:
            self.st.dead = True
            return None
        finally:
            self.e.frames = []

    def val(self, text, **env):
        v = self.ev(text, **env)
        return None if v is None else self.deep(v)

    def deep(self, v):
        return self.e.deep(v, self.st)

    def var(self, name):
        return self.st.heap[self.mod.oid].f.get(name)

    def obj(self, t):
        return self.st.heap.get(t.args[0])

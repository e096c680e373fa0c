"""The assembled analysis engine."""
from .engine import EngineBase, AnchorMissing, Dead, State, Obj, Frame, Raised, Event
from .stmts import Stmts
from .loops import Loops
from .exprs import Exprs
from .attrs import Attrs
from .calls import Calls
from .ext import Ext


class Engine(Stmts, Loops, Exprs, Attrs, Calls, Ext, EngineBase):
    pass

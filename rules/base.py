"""Obligations, verdicts and reports shared by all rules."""

import time
import traceback

from sa import terms as T, seqs as S, ident
from sa.terms import mk, num, NONE, TRUE, FALSE, ZERO, ONE
from sa.driver import Run, Engine
from sa.engine import AnchorMissing
import sa.exprs   # registers constructors


class OutOfTime(BaseException):
    """Raised into the analysis by the watchdog of check.py."""


class Violation:
    def __init__(self, rule, site, text, data=None):
        self.rule, self.site, self.text, self.data = rule, site, text, data or {}

    def ident(self):
        return f"{self.rule} @ {self.site}"


# externals whose meaning is fixed and distinct: their appearance is a change
MEANINGFUL = ("numpy.round", "numpy.around", "numpy.floor", "numpy.ceil", "random",
              "time", "datetime", "os", "scipy", "numpy.sort", "numpy.cumsum")


def instantiate(facts, goal, rounds=2):
    """Facts about every element of a sequence, stated for the elements the
    goal (and what follows from it) looks at."""
    facts = list(facts)
    seen = set(facts)
    terms = [goal]
    for _ in range(rounds):
        at = set()
        for t in terms:
            for s in T.subterms(t):
                if s.op == "index" and (s.args[1].op == "num" or T.natural(s.args[1])):
                    at.add(s.args[1])
        new = []
        for f in facts:
            m = None
            if f.op == "forall":
                m, neg = f.args[0], False
            elif f.op == "all":
                m, neg = f.args[0], False
            elif f.op == "not" and f.args[0].op in ("any", "exists"):
                m, neg = f.args[0].args[0], True
            if m is None:
                continue
            if m.op == "seq":
                cs = [(T.TRUE, x) for x in m.args]
            elif m.op == "map":
                cs = [(T.lt(j, m.args[0]), S.body_at(m, j)) for j in sorted(at)]
            else:
                continue
            for inside, c in cs:
                if inside is not T.TRUE and T.prove(inside, facts, 1) is not True:
                    continue
                if c.op == "wrapb":
                    c = c.args[0]
                c = T.truthy(c)
                if neg:
                    c = T.not_(c)
                for x in (c.args if c.op == "and" else (c,)):
                    if x not in seen:
                        seen.add(x)
                        new.append(x)
        if not new:
            break
        facts += new
        terms += new
    return facts


CONSTANT = ("num", "str", "none", "inf", "true", "false", "ext", "func", "class", "global", "mod", "idx", "undef",
            "enum", "nan")


def leaves(t):
    """The unknowns of a term."""
    return {s for s in T.subterms(t) if s.op not in CONSTANT and not any(isinstance(a, T.Term) for a in s.args)}


def relevant(facts, *terms):
    """The facts that constrain the unknowns of the terms, directly or
    through each other.  The rest belong to a reachable state of their own."""
    todo = [(f, leaves(f)) for f in facts]
    live = set().union(*[leaves(t) for t in terms])
    out = []
    while True:
        hit = [p for p in todo if p[1] & live or not p[1]]
        if not hit:
            return out
        todo = [p for p in todo if p not in hit]
        for f, ls in hit:
            out.append(f)
            live |= ls


def splits(facts, limit=96):
    """Cases of the disjunctions among the facts: lists of plain facts."""
    out = [[]]
    for f in facts:
        if not any(x.op in ("forall", "lt0", "le0", "any", "all") for x in T.subterms(f)):
            out = [o + [f] for o in out]
            continue
        alts = disjuncts(f)
        if len(alts) * len(out) > limit:
            alts = [[f]]
        out = [o + a for o in out for a in alts]
    return out


def disjuncts(f):
    if f.op == "or":
        return [a for x in f.args for a in disjuncts(x)]
    if f.op == "and":
        out = [[]]
        for x in f.args:
            ds = disjuncts(x)
            if len(ds) * len(out) > 48:
                ds = [[x]]
            out = [o + d for o in out for d in ds]
        return out
    return [[f]]


class Ck:
    def __init__(self, prop, eng, tier, seed=1):
        self.prop, self.e, self.tier, self.seed = prop, eng, tier, seed
        self.violations = []
        self.obligations = []      # (rule, subject, verdict)
        self.inconclusives = []
        self.errors = []
        self.functions = set()
        self.most = 600 if tier == "quick" else 6000
        self.start = time.monotonic()
        self.until = None          # when the running group is given up

    @property
    def tries(self):
        """Points tried per refutation; fewer once the check runs long, so
        that it always answers."""
        t = time.monotonic() - self.start
        return self.most if t < 240 else min(self.most, 100) if t < 420 else min(self.most, 20)

    # ------------------------------------------------------------- verdicts
    def ok(self, rule, subject):
        self.obligations.append((rule, subject, "holds"))
        return True

    def open(self, rule, subject, why):
        self.obligations.append((rule, subject, "undecided"))
        self.inconclusives.append(f"{rule}: {subject}: {why}"[:600])
        return None

    def bad(self, rule, subject, site, text, data=None):
        self.obligations.append((rule, subject, "violated"))
        if not any(v.rule == rule and v.site == site and v.text == text for v in self.violations):
            self.violations.append(Violation(rule, f"{subject} [{site}]", text, data))
        return False

    def unit(self, fn, *args, **kw):
        """One independent group of obligations; an internal failure leaves
        only this group undecided."""
        if time.monotonic() - self.start > 700:
            return self.open(fn.__name__, str(args), "out of time")
        self.until = time.monotonic() + 250
        try:
            fn(self, *args, **kw)
        except AnchorMissing as ex:
            raise
        except OutOfTime:
            self.open(fn.__name__, str(args), "out of time")
        except Exception as ex:       # noqa
            self.errors.append(f"{fn.__name__}{args}: {type(ex).__name__}: {ex}\n"
                               + traceback.format_exc()[-1500:])
            self.open(fn.__name__, str(args), f"internal: {type(ex).__name__}: {ex}")
        finally:
            self.until = None

    # ------------------------------------------------------------- equality
    def eq(self, rule, subject, got, want, facts=(), site="?", partial=False):
        """got must equal want under the facts."""
        if got is None or want is None:
            if got is None and want is not None:
                if self.e.unknowns:
                    return self.open(rule, subject, "no value; unknown constructs")
                return self.bad(rule, subject, site, "no normal result (always raises)")
            return self.open(rule, subject, "reference value not available")
        got, want = S.strip_bc(got), S.strip_bc(want)
        if got is want:
            return self.ok(rule, subject)
        for side in (got, want):
            u = self.unmodelled(side)
            if u:
                return self.open(rule, subject, f"unmodelled {u}")
        facts = list(facts)
        r, case = T.equal(got, want, facts)
        if r is True:
            return self.ok(rule, subject)
        new = self.new_externals(got, want)
        if new:
            return self.open(rule, subject, f"externals without a model: {sorted(new)}")
        sep = ident.separate(got, want, facts, self.tries, self.seed, partial)
        if sep is None and case is not None:
            asm, x, y = case
            sep = ident.separate(x, y, list(facts) + list(asm), self.tries, self.seed, partial)
        if sep is None:
            few = relevant(facts, got, want)
            if len(few) < len(facts):
                sep = ident.separate(got, want, few, self.tries, self.seed, partial)
        if sep is None:
            return self.open(rule, subject, "normal forms differ but no separating point found")
        p, x, y = sep
        return self.bad(rule, subject, site,
                        f"value is {str(got)[:300]} but must equal {str(want)[:300]}",
                        {"point": ident.describe(p, (got, want)),
                         "got": str(x)[:60], "expected": str(y)[:60],
                         "got_term": T.show(got, 12)[:2000], "expected_term": T.show(want, 12)[:2000]})

    def holds(self, rule, subject, cond, facts=(), site="?", text=None):
        """cond must follow from the facts."""
        if cond is None:
            return self.open(rule, subject, "condition not available")
        u = self.unmodelled(cond)
        if u:
            return self.open(rule, subject, f"unmodelled {u}")
        facts = instantiate(facts, cond)
        r = T.prove(cond, facts, 2)
        if r is True:
            return self.ok(rule, subject)
        if any(f.op in ("or", "and") for f in facts):
            cs = splits(facts)
            if all(self.by_case(cond, c) for c in cs):
                return self.ok(rule, subject)
        try:
            allp = True
            for asm, (c,) in T.cases((cond,), facts):
                if T.prove(c, list(facts) + list(asm), 1) is not True:
                    allp = False
                    break
            if allp:
                return self.ok(rule, subject)
        except T.TooBig:
            pass
        sep = ident.falsify(cond, facts, self.tries, self.seed)
        if sep is None:
            few = relevant(facts, cond)
            if len(few) < len(facts):
                sep = ident.falsify(cond, few, self.tries, self.seed)
        if sep is None:
            return self.open(rule, subject, "not proved, no counter-point found")
        p, _, _ = sep
        return self.bad(rule, subject, site, (text or "condition fails") + f": {str(cond)[:300]}",
                        {"point": ident.describe(p, (cond,) + tuple(facts))})

    def by_case(self, cond, facts):
        if T.prove(T.FALSE, facts, 0) is True:
            return True
        small = [f for f in facts if f.op not in ("forall",)]
        for _ in range(2):
            facts = [T.assume(f, [g for g in small if g is not f]) if f.op not in ("lt0", "le0") or
                     any(s.op == "ite" for s in T.subterms(f)) else f for f in facts]
            if T.FALSE in facts:
                return True
            facts = [g for f in facts for g in (f.args if f.op == "and" else (f,)) if g is not T.TRUE]
            small = [f for f in facts if f.op not in ("forall",)]
        c = T.assume(cond, facts)
        facts = instantiate(facts, c)
        return T.prove(c, facts, 2) is True

    def unmodelled(self, t):
        for s in T.subterms(t):
            if s.op in ("unk", "opq", "nextor", "rest"):
                return f"{s.op} {s.args[0] if s.args else ''}"
        return None

    def externals(self, t):
        out = set()
        for s in T.subterms(t):
            if s.op == "ext":
                out.add(s.args[0])
        return out

    def new_externals(self, got, want):
        new = self.externals(got) ^ self.externals(want)
        return {n for n in new if not n.startswith(MEANINGFUL)}

    # ---------------------------------------------------------------- sites
    def at(self, cls, name):
        """file:line (function) of a method as resolved for a class."""
        c = cls if not isinstance(cls, str) else self.e.class_named(cls)
        try:
            f, owner = self.e.lookup(c, name, self.e.st0)
        except KeyError:          # class of a client program
            return f"{c.name}.{name}"
        if f is None:
            return f"{c.module.path} ({c.name}.{name})"
        for t in ([f] + list(f.args)):
            if getattr(t, "op", None) == "func":
                fn = self.e.funcs.get(t.args[0])
                if fn is not None:
                    return f"{fn.module.path}:{fn.node.lineno} ({fn.qual})"
        return f"{owner.module.path} ({owner.name}.{name})"

    def run(self, base=None):
        return Run(self.e, base)

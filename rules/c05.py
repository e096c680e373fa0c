"""C05: reading results never changes the object and is repeatable.

Effect analysis: every query of every class is interpreted in a symbolic state
of the whole program heap; after it (at its normal and exceptional exits) the
heap - objects, module globals, class attributes - must be unchanged, and no
clock, random source or environment may be consulted on the way."""

from sa import terms as T
from . import heapdiff, catalog
from .common import *


def site_of(ck, en, q):
    name = q.split("(")[0]
    try:
        return ck.at(en.cls, name)
    except Exception:   # noqa
        return f"{en.cls}.{name}"


def check(ck, en):
    for q, text in en.texts():
        f = en.run.fork()
        f.bind(**en.env)
        before = heapdiff.snapshot(f)
        nev, nr = len(f.events), len(f.raises)
        f.val(text, **en.env)
        subject = f"{en.name}.{q}"
        site = site_of(ck, en, q)
        exits = [(f.st.heap, f.st.facts)] if not f.st.dead else []
        exits += [(x.state.heap, x.state.facts) for x in f.raises[nr:]]
        if not exits:
            ck.open("C05.unchanged", subject, "no exit seen")
            continue
        diffs = []
        facts = ()
        for heap, fs in exits:
            d = heapdiff.changes(ck, before, heap, fs, {f.mod.oid})
            if d:
                diffs, facts = d, fs
                break
        heapdiff.settle(ck, "C05.unchanged", subject, site, diffs, facts)
        nd = [e for e in f.events[nev:] if e.kind == "nondet"]
        if nd:
            ck.bad("C05.repeatable", subject, nd[0].site, f"depends on {nd[0].target}")
        else:
            ck.ok("C05.repeatable", subject)
        # a store that the heap comparison cannot see (object of unknown origin)
        st = [e for e in f.events[nev:] if e.kind in ("global",) or
              e.kind in ("mutate", "setfield") and e.target.op == "ref" and e.target.args[0] in before
              and e.target.args[0] != f.mod.oid and not same(before, exits, e.target.args[0])]
        if st:
            ck.bad("C05.unchanged", subject, st[0].site, f"{st[0].kind} of {st[0].target} ({st[0].detail})")


def same(before, exits, oid):
    return all(h.get(oid) is before[oid] for h, _ in exits) or \
        all(h.get(oid) is not None and h[oid].f == before[oid].f for h, _ in exits)


def run(ck):
    for en in catalog.entries(ck):
        ck.unit(check, en)

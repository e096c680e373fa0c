"""Comparison of two heaps: what changed between two program points."""

from sa import terms as T
from sa.terms import mk, NONE


def snapshot(run):
    """(heap, facts) of a run's present state."""
    return dict(run.st.heap)


def changes(ck, before, after, facts=(), skip=()):
    """Fields of objects of `before` that differ in `after`: list of
    (oid, kind/class label, field, old, new, certain)."""
    out = []
    e = ck.e
    for oid, ob in before.items():
        if oid in skip:
            continue
        oa = after.get(oid)
        if oa is ob or oa is None:
            continue
        for k in list(ob.f) + [k for k in oa.f if k not in ob.f]:
            a, b = ob.f.get(k), oa.f.get(k)
            if a is b:
                continue
            label = ob.cls.name if ob.cls is not None else ob.kind
            if a is None or b is None:
                out.append((oid, label, k, a, b, True))
                continue
            sa, sb = _St(before), _St(after)
            da, db = e.deep(a, sa), e.deep(b, sb)
            if da is db:
                continue
            r, _ = T.equal(da, db, list(facts))
            if r is True:
                continue
            out.append((oid, label, k, da, db, False))
    for oid, oa in after.items():
        if oid not in before and oa.kind == "foreign" and oa.f:
            for k, v in oa.f.items():
                base = mk("attr", oid, k) if not isinstance(oid, int) else None
                if v is not base:
                    out.append((oid, "foreign", k, base, v, base is None))
    return out


def settle(ck, rule, subject, site, diffs, facts):
    """One obligation: no field of the listed changes really differs."""
    from sa import ident
    openly = []
    for oid, label, k, a, b, certain in diffs:
        if not certain and a is not None and b is not None:
            if ident.separate(a, b, list(facts), 200, ck.seed) is None and not structural(a, b):
                openly.append(f"{label}.{k}")
                continue
        return ck.bad(rule, subject, site, f"{label}.{k} changes from {str(a)[:120]} to {str(b)[:160]}")
    if openly:
        return ck.open(rule, subject, "may change " + ", ".join(openly))
    return ck.ok(rule, subject)


def structural(a, b):
    """Terms that denote different objects whatever the inputs."""
    const = ("ref", "none", "str", "num", "func", "class", "enum")
    return a.op in const and b.op in const and a is not b


class _St:
    def __init__(self, heap):
        self.heap = heap

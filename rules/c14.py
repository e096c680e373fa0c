"""C14: evaluating at many locations equals evaluating at each one.

Every query and relation taking a location is evaluated abstractly on an array of
two symbolic locations and on each location alone; the value graphs must agree
element by element, so no element may depend on another one."""

from sa import terms as T
from sa.terms import mk, num, ZERO, ONE
from . import catalog
from .common import *

ARGS = ("x", "y", "h")


def elements(ck, e):
    for q, text in e.texts():
        used = [a for a in ARGS if a in e.env and uses(text, a)]
        if not used or any(f"{f}(" in text for f in ("rhs", "fn")) or text.startswith("ev"):
            continue
        integral(ck, e, q, text, used)
        for arrays in ([used] if len(used) == 1 else [used, used[:1]]):
            subject = f"{e.name}.{q}" + ("" if arrays == used else f" array {arrays[0]} only")
            one(ck, e, q, text, arrays, used, subject)


def uses(text, a):
    import re
    return re.search(r"[(,] ?%s[,)]" % a, text) is not None


def one(ck, e, q, text, arrays, used, subject):
    import re
    site = where(ck, e, q)
    r = e.run.fork()
    env = dict(e.env)
    parts = {}
    for a in used:
        if a in arrays:
            parts[a] = [r.sym(f"{a}_{i}", "float") for i in (0, 1)]
            env[f"{a}0"], env[f"{a}1"] = parts[a]
        else:
            s = r.sym(f"{a}_s", "float")
            parts[a] = [s, s]
            env[a] = s
    sub = text
    pre = ""
    for a in arrays:
        pre += f"{a} = np.array([{a}0, {a}1])\n"
    base = r.fork()
    whole = base.fork()
    whole.exec(pre, **env)
    whole.exec(f"out = {text}", **{k: v for k, v in env.items() if k not in arrays})
    if whole.st.dead:
        alone = base.fork()
        if alone.val(text, **dict(env, **{a: parts[a][0] for a in used})) is None:
            return ck.ok("C14.elements", subject)        # answers neither
        return ck.bad("C14.elements", subject, site, "always raises for an array")
    for i in (0, 1):
        got = whole.fork().val(f"out[{i}]")
        alone = base.fork()
        want = alone.val(text, **dict(env, **{a: parts[a][i] for a in used}))
        if want is not None and got is not None:
            ck.eq("C14.elements", f"{subject} element {i}", got, want,
                  list(whole.st.facts) + list(alone.st.facts), site, partial=True)
        else:
            ck.open("C14.elements", f"{subject} element {i}", "no value")


def integral(ck, e, q, text, used):
    """Integral locations give the values of the same real locations: nothing is
    stored into an array that takes its element type from the argument."""
    r = e.run.fork()
    ck.e.floats.clear()
    r.val(text, **dict(e.env, **{a: r.sym(f"{a}_n") for a in used}))
    site = where(ck, e, q)
    hits = [ev for ev in r.events if ev.kind == "narrow"]
    if hits:
        ev = hits[0]
        return ck.bad("C14.integral", f"{e.name}.{q}", site,
                      f"fraction lost for integral argument at {ev.site} ({ev.func}): {ev.detail}")
    ck.ok("C14.integral", f"{e.name}.{q}")


def where(ck, e, q):
    return ck.at(e.cls, q.split("(")[0]) if e.cls[0].isupper() or e.cls.startswith("_T") else "ibl/skin_friction.py"


def run(ck):
    for e in catalog.entries(ck, (catalog.solvers, catalog.velocities, catalog.similarity, catalog.fits,
                                  catalog.closures)):
        ck.unit(elements, e)

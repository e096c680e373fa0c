"""C01: a solve depends only on the current configuration and its own arguments.

The integrator call a solve makes is compared, argument by argument, between a
solver with a history (earlier solves with events, reconfigurations) and one
without; the heap before and after a solve is compared object by object."""

from sa import terms as T, seqs as S
from sa.terms import num, ZERO, mk, NONE
from . import heapdiff
from .common import *

IMPORT = ("from ibl.ibl_method import TermEvent, TermReason\n"
          "class Ev(TermEvent):\n"
          "    def __init__(self, g):\n"
          "        super().__init__()\n"
          "        self.g = g\n"
          "    def _call_impl(self, x, f):\n"
          "        return self.g(x, f[0])\n"
          "    def event_info(self):\n"
          "        return TermReason.TRANSITIONED, 'user'\n")
CLASSES = [(c, "White") for c in LAMINAR] + [("HeadMethod", None)]


def integrations(run, start=0):
    return [c for c in run.calls[start:]
            if c["f"].op == "ext" and c["f"].args[0] == "scipy.integrate.solve_ivp"]


def kws(rec):
    return {a.args[0]: a.args[1] for a in rec["result"].args[1:] if a.op == "kw"}


def one(ck, rule, subject, run, start=0):
    """The single integrator call made since start."""
    cs = integrations(run, start)
    if len(cs) == 1:
        return cs[0]
    if not cs:
        ck.open(rule, subject, "no integrator call seen")
    else:
        ck.open(rule, subject, f"{len(cs)} integrator calls on different paths")
    return None


def base(ck, cls, fit):
    m = Model(ck, cls, fit, solved=False)
    r = m.r
    g1, g2 = r.sym("g1", "callable"), r.sym("g2", "callable")
    r.exec(IMPORT + "e1 = Ev(g1)\ne2 = Ev(g2)\n", g1=g1, g2=g2)
    for v in ("x0", "x1", "xa", "xb", "c0", "dm0"):
        setattr(m, v, r.sym(v, "float"))
    r.positive(m.dm0, m.c0)
    r.bind(x0=m.x0, x1=m.x1, xa=m.xa, xb=m.xb, c0=m.c0, dm0=m.dm0)
    r.exec("m.initial_delta_m = dm0\n")
    m.g1, m.g2 = r.var("e1"), r.var("e2")
    return m


def items(seq):
    """(concrete elements, symbolic parts) of an event list."""
    if seq is None or seq is NONE:
        return [], []
    if seq.op == "seq":
        return list(seq.args), []
    if seq.op == "concat":
        con, sym = [], []
        for a in seq.args:
            c, s = items(a)
            con += c
            sym += s
        return con, sym
    return [], [seq]


def probe(m, run, ev):
    """Observable behaviour of an event: value and information."""
    x, f = m.x, m.r.sym("fstate")
    r = run.fork()
    val = r.val("ev(xx, ff)", ev=ev, xx=x, ff=f)
    r = run.fork()
    info = r.val("ev.event_info()", ev=ev)
    return val, info


def own_events(ck, m, run):
    """Events a plain solve hands over."""
    f = run.fork()
    n = len(f.calls)
    f.exec("m.solve(x0, x1)")
    rec = one(ck, "C01.events", m.cls, f, n)
    return (f, rec, items(kws(rec).get("events"))) if rec else (f, None, ([], []))


def events(ck, cls, fit):
    """Own events plus exactly the events of this call."""
    m = base(ck, cls, fit)
    site = ck.at(cls, "solve")
    _, rec, (own, osym) = own_events(ck, m, m.r)
    if rec is None:
        return
    # the solver's own criterion is in force
    reasons = [probe(m, m.r, x)[1] for x in own]
    sep = [x for x in reasons if x is not None and x.op == "tuple" and x.args[0].op == "enum"
           and x.args[0].args[1] == "SEPARATED"]
    if sep:
        ck.ok("C01.criterion", cls)
    elif osym or any(x is None or x.op != "tuple" for x in reasons):
        ck.open("C01.criterion", cls, "event list not followed")
    else:
        ck.bad("C01.criterion", cls, site, "no separation event is handed to the integrator")
    L = m.r.sym("L", "list")
    forms = {"none": ("None", [], []), "one": ("e1", [m.g1], []), "list": ("[e1, e2]", [m.g1, m.g2], []),
             "empty list": ("[]", [], []), "any list": ("L", [], [L])}
    for name, (text, con, sym) in forms.items():
        f = m.r.fork()
        n = len(f.calls)
        f.exec(f"lst = {text}\nres = m.solve(x0, x1, lst)", L=L)
        if f.st.dead and not integrations(f, n):
            ck.bad("C01.events", f"{cls} {name}", site, "solve with these events always fails")
            continue
        rec = one(ck, "C01.events", f"{cls} {name}", f, n)
        if rec is None:
            continue
        c, s = items(kws(rec).get("events"))
        same = sorted(map(str, c)) == sorted(map(str, own + con)) and \
            sorted(map(str, s)) == sorted(map(str, osym + sym))
        nested = [x for x in c if x.op in ("seq", "tuple") or x is L or x.op == "none"]
        if nested:
            ck.bad("C01.events", f"{cls} {name}", site, f"the integrator gets {str(nested[0])[:80]} as an event")
            continue
        known = all(x.op == "ref" for x in c) and not (s and any(x is not L for x in s))
        if same:
            ck.ok("C01.events", f"{cls} {name}")
        elif known:
            ck.bad("C01.events", f"{cls} {name}", site,
                   f"the integrator gets {len(c)} events and {len(s)} lists "
                   f"instead of {len(own) + len(con)} and {len(sym)}")
        else:
            ck.open("C01.events", f"{cls} {name}", "event list not followed: " + str(kws(rec).get("events"))[:200])


CONTEXTS = {
    "solve with an event": "m.solve(xa, xb, e1)",
    "solve with a list": "m.solve(xa, xb, [e1, e2])",
    "two solves": "m.solve(xa, xb, [e1])\nm.solve(x1, xb, e2)",
    "a plain solve": "m.solve(xa, xb)",
    "solve and queries": "m.solve(xa, xb)\nm.delta_d(x0)\nm.v_e(x0)\nm.tau_w(x0, 1.0)",
}


def history(ck, cls, fit):
    """What the integrator gets after a history equals what it gets without."""
    m = base(ck, cls, fit)
    site = ck.at(cls, "solve")
    r = m.r
    for args in ("x0, x1", "x0, x1, e1"):
        fresh = r.fork()
        n = len(fresh.calls)
        fresh.exec(f"res = m.solve({args})")
        ref = one(ck, "C01.history", cls, fresh, n)
        if ref is None:
            return
        for name, hist in CONTEXTS.items():
            subject = f"{cls} after {name}: solve({args})"
            f = r.fork()
            f.exec(hist)
            if f.st.dead:
                ck.open("C01.history", subject, "history has no normal end")
                continue
            n = len(f.calls)
            f.exec(f"res = m.solve({args})")
            got = one(ck, "C01.history", subject, f, n)
            if got is None:
                continue
            compare(ck, m, subject, site, fresh, ref, f, got)


def compare(ck, m, subject, site, fa, ra, fb, rb):
    a, b = kws(ra), kws(rb)
    facts = list(rb["pc"]) + list(ra["pc"])
    for k in sorted(set(a) | set(b)):
        if k == "events":
            ca, sa = items(a.get(k))
            cb, sb = items(b.get(k))
            if len(ca) != len(cb) or len(sa) != len(sb):
                ck.bad("C01.history", f"{subject}, events", site,
                       f"{len(cb) + len(sb)} events instead of {len(ca) + len(sa)}")
                continue
            ok = True
            for x, y in zip(ca, cb):
                if x is y:
                    continue
                va, ia = probe(m, fa, x)
                vb, ib = probe(m, fb, y)
                ok &= bool(ck.eq("C01.history", f"{subject}, event value", vb, va, facts, site))
                ok &= bool(ck.eq("C01.history", f"{subject}, event info", ib, ia, facts, site))
            if ok:
                ck.ok("C01.history", f"{subject}, events")
            continue
        if k not in a or k not in b:
            ck.bad("C01.history", f"{subject}, {k}", site, "argument given only in one of the two solves")
            continue
        ck.eq("C01.history", f"{subject}, {k}", b[k], a[k], facts, site)
    # the equations themselves, evaluated in the state at the call
    fs = [mk("index", m.r.sym("fstate"), num(i)) for i in range(2)]
    fv = mk("seq", *fs[:1]) if m.cls != "HeadMethod" else mk("seq", *fs)
    out = []
    for f, rec in ((fa, ra), (fb, rb)):
        g = f.fork()
        g.st = rec["state"].copy()
        out.append(g.val("ff(xx, vv)", ff=kws(rec).get("fun"), xx=m.x, vv=fv))
    ck.eq("C01.history", f"{subject}, equations", out[1], out[0], facts, site)


def heap(ck, cls, fit):
    """What a solve changes."""
    m = base(ck, cls, fit)
    site = ck.at(cls, "solve")
    r = m.r
    r.exec("lst = [e1, e2]")
    L = r.sym("L", "list")
    for args in ("x0, x1", "x0, x1, e1", "x0, x1, lst", "x0, x1, L"):
        for hist in ("", "m.solve(xa, xb, e2)"):
            f = r.fork()
            if hist:
                f.exec(hist)
            before = heapdiff.snapshot(f)
            nev = len(f.events)
            f.exec(f"res = m.solve({args})", L=L)
            if f.st.dead:
                ck.open("C01.effects", f"{cls}({args})", "no normal exit")
                continue
            d = heapdiff.changes(ck, before, f.st.heap, f.st.facts, {f.mod.oid})
            ic = ic_oid(m, f)
            rest = []
            for x in d:
                oid, label, k, a, b, certain = x
                if oid == ic and value_is(b, m, f, ("nu", "due")):
                    continue
                if oid == m.m.args[0] and b is not None and solver_call(b):
                    continue
                rest.append(x)
            heapdiff.settle(ck, "C01.effects", f"{cls}.solve({args})" + (" again" if hist else ""),
                            site, rest, f.st.facts)
            bad = [e for e in f.events[nev:] if e.kind == "mutate" and (e.target is L)]
            if bad:
                ck.bad("C01.effects", f"{cls}.solve({args}) list of the caller", bad[0].site,
                       f"the caller's event list is changed ({bad[0].detail})")


def ic_oid(m, run):
    for k, v in run.st.heap[m.m.args[0]].f.items():
        if v.op == "ref":
            c = run.e.type_of(v, run.st)
            if c is not None and any(x.name == "InitialCondition" for x in run.e.mro(c)):
                return v.args[0]
    return None


def value_is(b, m, f, names):
    """The viscosity or the velocity gradient at the start."""
    return b is m.nu or b is call(m.due, m.x0) or (b is not None and b.op == "float")


def replaced(ck):
    """A new separation criterion or data fit replaces the previous one."""
    for cls in LAMINAR:
        for old, new in (("White", "Cebeci-Bradshaw"), ("Spline", "Drela"), ("Drela", "White")):
            replaced_one(ck, cls, new, f"m.set_data_fits({old!r})\nm.set_data_fits({new!r})", f"{old} then {new}")
    replaced_one(ck, "HeadMethod", None, "m.set_shape_d_critical(2.9)\nm.set_shape_d_critical(c0)", "2.9 then c0")


def replaced_one(ck, cls, fit, text, label):
    subject = f"{cls} {label}"
    m = base(ck, cls, fit)
    site = ck.at(cls, "set_data_fits" if cls != "HeadMethod" else "set_shape_d_critical")
    if cls == "HeadMethod":
        m.r.exec("m.set_shape_d_critical(c0)")
    f0, ref, (own, osym) = own_events(ck, m, m.r)
    fresh_model = None
    if cls == "HeadMethod":
        g = m.r.fork()
        g.exec("from ibl.head_method import HeadMethod\nm = HeadMethod(nu, ue, due, d2ue, c0)\nm.initial_delta_m = dm0",
               nu=m.nu, ue=m.ue, due=m.due, d2ue=m.d2ue)
        f0, ref, (own, osym) = own_events(ck, m, g)
    if ref is None:
        return
    f = m.r.fork()
    f.exec(text + "\nm.solve(xa, xb, e1)\n" + text)
    if f.st.dead:
        return ck.open("C01.replace", subject, "reconfiguration has no normal end")
    fn, rec, (c, s) = own_events(ck, m, f)
    if rec is None:
        return
    if len(c) != len(own) or s or osym:
        if s or osym:
            return ck.open("C01.replace", subject, "event list not followed")
        return ck.bad("C01.replace", subject, site, f"{len(c)} built-in events in force instead of {len(own)}")
    facts = list(rec["pc"])
    for a, b in zip(own, c):
        va, ia = probe(m, f0, a)
        vb, ib = probe(m, fn, b)
        ck.eq("C01.replace", subject + ", criterion", vb, va, facts, site)
        ck.eq("C01.replace", subject + ", reason", ib, ia, facts, site)
    if cls != "HeadMethod":
        for q in ("m.shape_d(x)", "m.tau_w(x, 1.0)", "m.v_e(x)"):
            a, b = (z.fork() for z in (f0, fn))
            ta, tb = canon(a.val(q, x=m.x)), canon(b.val(q, x=m.x))
            ck.eq("C01.replace", subject + ", " + q, tb, ta,
                  [canon(z) for z in list(b.st.facts) + list(a.st.facts)], site)


def run(ck):
    for cls, fit in CLASSES:
        ck.unit(events, cls, fit)
        ck.unit(history, cls, fit)
        ck.unit(heap, cls, fit)
    ck.unit(replaced)

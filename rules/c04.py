"""C04: data owned by the caller is never modified.

May-mutate analysis: every store, in-place operator and mutating method that the
interpretation of a client program reaches is recorded with the object it acts
on; the object must be one the package allocated itself.  Roots owned by
somebody else are the caller's arguments, what the caller's functions return,
the state the integrator hands to the equations and events, and the tables at
class and module level."""

from sa import terms as T
from sa.terms import mk, num, ZERO, ONE
from . import catalog, heapdiff
from .common import *
from .c01 import IMPORT, CLASSES, integrations, kws, items, ic_oid

VIEW = ("index", "slice", "attr", "put", "upd", "maskset", "rev", "row", "col", "asarray", "T", "ravel")


def roots(t, e, depth=0):
    """Terms a store into t may reach without a copy."""
    if depth > 40:
        return [t]
    if t.op in ("ite", "where"):
        return [r for a in t.args[1:] for r in roots(a, e, depth + 1)]
    if t.op in VIEW and t.args and isinstance(t.args[0], T.Term):
        b = t.args[0]
        if t.op in ("slice", "rev") and e.pytype(b) == "list":
            return [t]
        return roots(b, e, depth + 1)
    if t.op == "map" or t.op == "seq":
        return [t]
    return [t]


def foreign(ck, r, owned):
    """Why the root belongs to somebody else, or None."""
    e = ck.e
    if r.op == "sym":
        return f"argument {r.args[0]}"
    if r.op == "call":
        f = r.args[0]
        while f.op in ("attr", "bound") and isinstance(f.args[0], T.Term):
            f = f.args[0]
        if f.op == "sym":
            return f"value returned by the caller's {f.args[0]}"
        if f.op == "call":
            return foreign(ck, f, owned)
    if r.op in ("ref", "iref"):
        if r.args[0] in owned:
            return "object of the caller"
        if r.args[0] in e.st0.heap:
            o = e.st0.heap[r.args[0]]
            return f"module or class level {o.kind}"
    if r.op in ("class", "global", "mod"):
        return f"{r.op} {r.args[0]}"
    return None


def reach(run, names):
    """Objects reachable from the client's variables."""
    out, todo = set(), [run.var(n) for n in names]
    while todo:
        t = todo.pop()
        if t is None or not isinstance(t, T.Term):
            continue
        for s in T.subterms(t):
            if s.op == "ref" and s.args[0] not in out:
                out.add(s.args[0])
                o = run.st.heap.get(s.args[0])
                if o is not None:
                    todo += [v for v in o.f.values()]
    return out


def judge(ck, subject, run, start, owned=(), skip=()):
    """No event since start acts on foreign data."""
    seen = run.events[start:]
    for ev in seen:
        if ev.kind not in ("mutate", "setfield", "global"):
            continue
        for r in roots(ev.target, ck.e):
            if r.op in ("ref", "iref") and r.args[0] in skip:
                continue
            if "<spec>" in str(ev.site):
                continue
            why = foreign(ck, r, owned)
            if why:
                return ck.bad("C04.mutate", subject, f"{ev.site} ({ev.func})", f"{ev.detail} on {why}")
    if run.st.dead and not run.raises:
        return ck.open("C04.mutate", subject, "no exit seen")
    return ck.ok("C04.mutate", subject)


def query(ck, en):
    """Queries with array arguments."""
    env = {}
    sub = {}
    for k, v in en.env.items():
        if v is not None and v.op == "sym" and k in ("x", "y", "h", "xx"):
            nv = en.run.sym(k + "_arr", "farray")
            sub[v] = nv
            env[k] = nv
        else:
            env[k] = v
    for q, text in en.texts():
        f = en.run.fork()
        n = len(f.events)
        f.val(text, **env)
        judge(ck, f"{en.name}.{q}", f, n)


def caller_array(ck, en):
    """The same with arrays that client code built (aliases by reference)."""
    ks = [k for k, v in en.env.items() if v is not None and v.op == "sym" and k in ("x", "y", "h")]
    if not ks:
        return
    for q, text in en.texts():
        f = en.run.fork()
        f.bind(**en.env)
        f.exec("import numpy as np\n" + "\n".join(f"{k} = np.array([a_{k}, b_{k}])" for k in ks),
               **{f"{p}_{k}": f.sym(f"{p}_{k}", "float") for p in "ab" for k in ks})
        own = reach(f, ks)
        n = len(f.events)
        f.val(text)
        judge(ck, f"{en.name}.{q} of an array", f, n, own)


VELOCITY = {
    "points": "m.set_velocity((xs, us))",
    "list of points": "m.set_velocity([xs, us])",
    "points, constructor": "M(nu, (xs, us))",
    "start value": "m.set_velocity(2.0, (xs, us))",
    "start value, list": "m.set_velocity(2, [xs, us])",
    "function": "m.set_velocity(ue)",
    "function and slope": "m.set_velocity(ue, due)",
    "functions": "m.set_velocity(ue, due, d2ue)",
    "spline": "m.set_velocity(sp)",
    "slope spline": "m.set_velocity(ue, sp)",
}


def velocity(ck, name, own_arrays):
    text = VELOCITY[name]
    r = ck.run()
    nu = r.sym("nu", "float")
    r.positive(nu)
    ue, due, d2ue = (r.sym(n, "callable") for n in ("ue", "due", "d2ue"))
    r.exec("from ibl.thwaites_method import ThwaitesMethodLinear as M\nimport numpy as np\nm = M(nu)\n",
           nu=nu, ue=ue, due=due, d2ue=d2ue, sp=r.sym("sp", "callable"))
    if own_arrays:
        r.exec("xs = np.array([a, b, c])\nus = np.array([d, e, f])",
               **{k: r.sym(k + "_", "float") for k in "abcdef"})
    else:
        r.bind(xs=r.sym("xs", "farray"), us=r.sym("us", "farray"))
    # keep the client's containers reachable under their own names
    own = reach(r, ["xs", "us"])
    n = len(r.events)
    if text.startswith("M("):
        r.exec("arg = (xs, us)\nm = " + text.replace("(xs, us)", "arg"))
    else:
        r.exec(text)
    r.exec("m.u_e(x)\nm.du_e(x)\nm.d2u_e(x)", x=r.sym("x", "farray"))
    judge(ck, f"velocity by {name}" + (" (array objects)" if own_arrays else ""), r, n, own)


def returned(ck, cls, fit):
    """Arrays returned by the caller's velocity and fit functions; the state of
    the integrator."""
    m = Model(ck, cls, fit)
    x = m.r.sym("xarr", "farray")
    for q in catalog.SOLVER_Q:
        f = m.r.fork()
        n = len(f.events)
        f.val("m." + q, m=m.m, x=x, rho=m.rho)
        judge(ck, f"{cls}({fit}).{q} with the caller's functions", f, n)
    rec = integrations(m.r)
    if len(rec) != 1:
        return ck.open("C04.mutate", f"{cls} equations", "integration not found")
    kw = kws(rec[0])
    for shape in ("farray", "rows"):
        f = m.r.fork()
        if shape == "farray":
            st = m.r.sym("state", "farray")
            f.bind(ff=st)
            own = ()
        else:
            f.exec("import numpy as np\nff = np.array([s0, s1])", s0=m.r.sym("s0", "farray"), s1=m.r.sym("s1", "farray"))
            own = reach(f, ["ff"])
        n = len(f.events)
        g = f.fork()
        g.val("rhs(xx, ff)", rhs=kw.get("fun"), xx=m.r.sym("xx", "float"))
        judge(ck, f"equations of {cls}({fit}), {shape}", g, n, own)
        for i, ev in enumerate(items(kw.get("events"))[0]):
            g = f.fork()
            g.val("ev(xx, ff)", ev=ev, xx=m.r.sym("xx", "float"))
            judge(ck, f"event {i} of {cls}({fit}), {shape}", g, n, own)


def solve(ck, cls, fit):
    m = Model(ck, cls, fit, solved=False)
    r = m.r
    r.exec(IMPORT + "e1 = Ev(g1)\ne2 = Ev(g2)\nm.initial_delta_m = dm0\n",
           g1=r.sym("g1", "callable"), g2=r.sym("g2", "callable"), dm0=r.sym("dm0", "float"),
           x0=r.sym("x0", "float"), x1=r.sym("x1", "float"), L=r.sym("L", "list"))
    r.exec("lst = [e1, e2]")
    for text in ("m.solve(x0, x1, lst)", "m.solve(x0, x1, L)", "m.solve(x0, x1, e1)", "m.solve(x0, x1)",
                 "m.solve(x0, x1, lst)\nm.solve(x0, x1, lst)\nm.solve(x0, x1, e2)\nm.solve(x0, x1)"):
        f = r.fork()
        own = reach(f, ["lst", "e1", "e2"])
        n = len(f.events)
        f.exec(text)
        judge(ck, f"{cls}.{text.splitlines()[0]}" + (" repeated" if "\n" in text else ""), f, n, own)
    # lists given to the configuration
    f = r.fork()
    own = reach(f, ["lst"])
    n = len(f.events)
    f.exec("m._set_kill_event(lst)\nm._add_kill_event(e1)\nm._add_kill_event(lst)\nm.solve(x0, x1, e2)")
    if not f.st.dead or f.raises:
        judge(ck, f"{cls} built-in event list", f, n, own)


def fit_functions(ck):
    for text in ("m.set_data_fits((S, H, Hp))", "m.set_data_fits((S, H))"):
        r = ck.run()
        m = Model(ck, "ThwaitesMethodNonlinear", "White", solved=False)
        r = m.r
        r.bind(S=r.sym("S", "callable"), H=r.sym("H", "callable"), Hp=r.sym("Hp", "callable"))
        r.exec("fits = " + text[len("m.set_data_fits("):-1])
        n = len(r.events)
        r.exec("m.set_data_fits(fits)\nm._model.shape(x)\nm._model.shape_p(x)\nm._model.shear(x)\nm._model.f(x)",
               x=r.sym("xarr", "farray"))
        judge(ck, text, r, n)


def conditions(ck):
    """The condition object is synchronised with the solver; nothing else is."""
    for cls, fit in CLASSES:
        m = Model(ck, cls, fit, solved=False)
        r = m.r
        r.exec("from ibl.initial_condition import ManualCondition, FalknerSkanStagCondition\n"
               "ic = ManualCondition(d, th, k)\n", d=r.sym("d", "float"), th=r.sym("th", "float"), k=r.sym("k", "float"))
        r.positive(r.sym("th", "float"), r.sym("d", "float"))
        for text in ("m.set_initial_condition(ic)", "m.set_initial_condition(ic)\nm.solve(x0, x1)\nm.delta_d(x0)"):
            f = r.fork()
            before = heapdiff.snapshot(f)
            own = reach(f, ["ic"])
            f.exec(text, x0=r.sym("x0", "float"), x1=r.sym("x1", "float"))
            if f.st.dead:
                ck.open("C04.condition", f"{cls} {text[:30]}", "no normal exit")
                continue
            d = [x for x in heapdiff.changes(ck, before, f.st.heap, f.st.facts, {f.mod.oid})
                 if x[0] in own and x[4] is not m.nu and not synced(x, m)]
            heapdiff.settle(ck, "C04.condition", f"{cls}: {text.splitlines()[-1]}", ck.at(cls, "solve"), d, f.st.facts)


def synced(x, m):
    """Viscosity or velocity gradient handed over by solve."""
    b = x[4]
    return b is not None and (b is m.nu or any(s.op == "call" and s.args[0] is m.due for s in T.subterms(b)))


def loaders(ck):
    for si in (True, False):
        r = ck.run()
        n = len(r.events)
        r.exec("from ibl.reference import StanfordOlympics1968StationData as S, StanfordOlympics1968SmoothVel as V\n"
               f"s = S({si}, a, b, rows)\ns.reset({si}, a, b, rows)\nv = V({si}, rows)\nv.reset({si}, rows)",
               a=r.sym("a", "str"), b=r.sym("b", "str"), rows=r.sym("rows", "list"))
        judge(ck, f"station data si={si}", r, n)
        r = ck.run()
        r.exec("rows = [ra, rb]", ra=r.sym("ra", "str"), rb=r.sym("rb", "str"))
        own = reach(r, ["rows"])
        n = len(r.events)
        r.exec("from ibl.reference import StanfordOlympics1968StationData as S, StanfordOlympics1968SmoothVel as V\n"
               f"s = S({si}, a, b, rows)\nv = V({si}, rows)\n", a=r.sym("a", "str"), b=r.sym("b", "str"))
        judge(ck, f"station data si={si}, list object", r, n, own)
    r = ck.run()
    n = len(r.events)
    arrs = {k: r.sym("arr_" + k, "farray") for k in ("y", "y_plus", "y_c", "u", "u_plus", "u_defect")}
    r.exec("from ibl.reference import StanfordOlympics1968StationData as S\n"
           "s = S(True, a, '', [])\n" + "\n".join(f"s.{k} = {k}" for k in arrs) + "\ns.reset(True, a, '', [])",
           a=r.sym("a", "str"), **arrs)
    judge(ck, "profile arrays of a station", r, n)
    for text in ("from ibl.reference import StanfordOlympics1968 as A\ne = A(c)\ne.case = c",
                 "from ibl.reference import XFoilReader as A\ne = A(c)\ne.filename = c"):
        r = ck.run()
        n = len(r.events)
        r.exec(text, c=r.sym("c", "str"))
        judge(ck, text.split()[3] + " loading", r, n)


def run(ck):
    for en in catalog.entries(ck, (catalog.solvers, catalog.velocities, catalog.similarity, catalog.fits,
                                   catalog.closures, catalog.stations, catalog.stanford, catalog.xfoil)):
        ck.unit(query, en)
        if en.env:
            ck.unit(caller_array, en)
    for name in VELOCITY:
        ck.unit(velocity, name, False)
        if "xs" in VELOCITY[name]:
            ck.unit(velocity, name, True)
    for cls, fit in [(c, f) for c in LAMINAR for f in ("custom", "White")] + [("HeadMethod", None)]:
        ck.unit(returned, cls, fit)
    for cls, fit in CLASSES:
        ck.unit(solve, cls, fit)
    ck.unit(fit_functions)
    ck.unit(conditions)
    ck.unit(loaders)

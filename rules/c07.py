"""C07: a rejected configuration or failed load leaves no mixed state.

Every exceptional exit of every configuration call is enumerated by the
interpretation of the call on an object with a complete earlier configuration;
the heap at the exit is compared, object by object, with the heap at the call.
For the readers every query is evaluated in the state at the exceptional exit
and compared with the answer of a reader that never loaded anything."""

from sa import terms as T
from sa.terms import mk, num, ZERO, ONE
from . import catalog, heapdiff
from .common import *
from .c04 import reach

VEL = {
    "points": "m.set_velocity((xs, us))",
    "points list": "m.set_velocity([xs, us])",
    "points and extra": "m.set_velocity((xs, us, xs))",
    "anything": "m.set_velocity(v)",
    "a list": "m.set_velocity(lst)",
    "start value": "m.set_velocity(u0, (xs, us))",
    "start value, any slope": "m.set_velocity(u0, v)",
    "start value alone": "m.set_velocity(u0)",
    "start value with d2u_e": "m.set_velocity(u0, (xs, us), fe)",
    "function": "m.set_velocity(fe)",
    "function, slope": "m.set_velocity(fe, ge)",
    "function, any slope": "m.set_velocity(fe, v)",
    "functions": "m.set_velocity(fe, ge, he)",
    "function, no slope, second": "m.set_velocity(fe, None, he)",
    "functions, any second": "m.set_velocity(fe, ge, v)",
    "function, number": "m.set_velocity(fe, 1.0)",
    "functions, number": "m.set_velocity(fe, ge, 1.0)",
    "function, points": "m.set_velocity(fe, (xs, us))",
}


def atomic(ck, rule, subject, site, run, text, names, **env):
    """No exceptional exit of text changes an object reachable from names."""
    f = run.fork()
    f.bind(**env)
    before = heapdiff.snapshot(f)
    own = reach(f, names)
    vals = {n: f.var(n) for n in names}
    k = len(f.raises)
    f.exec(text)
    exits = f.raises[k:]
    if not exits:
        if f.st.dead:
            return ck.open(rule, subject, "no exit seen")
        return ck.ok(rule, subject + " (never rejected)")
    for x in exits:
        if x.state is None:
            ck.open(rule, subject, "exit without a state")
            continue
        if T.prove(T.FALSE, list(x.state.facts), 1) is True:
            continue
        d = [c for c in heapdiff.changes(ck, before, x.state.heap, x.state.facts) if c[0] in own]
        heapdiff.settle(ck, rule, f"{subject}, rejected at {where(x)}", site, d, list(x.state.facts))
    return None


def where(x):
    """The exit without its line number."""
    return f"{x.func} ({x.exc})" if x.func else str(x.exc)


def solver(ck, cls, fit):
    m = Model(ck, cls, fit, solved=True, asm=False)
    r = m.r
    r.exec("m.initial_delta_m = d0", d0=r.sym("d0", "float"))
    r.positive(r.sym("d0", "float"))
    env = dict(xs=r.sym("xs", "farray"), us=r.sym("us", "farray"), v=r.sym("v"), u0=r.sym("u0", "float"),
               lst=r.sym("lst", "list"), **{n: r.sym(n, "callable") for n in ("fe", "ge", "he")})
    r.bind(**env)
    num_ = r.sym("w", "float")
    r.bind(w=num_)
    for name, text in VEL.items():
        ck.unit(atomic, "C07.solver", f"{cls}.set_velocity by {name}", ck.at(cls, "set_velocity"), r, text, ["m"])
    for text in ("m.nu = w", "m.initial_delta_m = w"):
        p = text.split(".")[1].split()[0]
        ck.unit(atomic, "C07.solver", f"{cls}.{p}", ck.at(cls, p), r, text, ["m"])
    if cls == "HeadMethod":
        ck.unit(atomic, "C07.solver", f"{cls}.initial_shape_d", ck.at(cls, "initial_shape_d"), r,
                "m.initial_shape_d = w", ["m"])
        ck.unit(atomic, "C07.solver", f"{cls}.set_shape_d_critical", ck.at(cls, "set_shape_d_critical"), r,
                "m.set_shape_d_critical(w)", ["m"])
    else:
        site = ck.at(cls, "set_data_fits")
        for name, arg in {"name": "s", "unknown name": "'none'", "function": "fe", "one": "(fe,)", "two": "(fe, ge)",
                          "three": "(fe, ge, he)", "four": "(fe, ge, he, he)", "numbers": "(1.0, 2.0, 3.0)",
                          "function and number": "(fe, 1.0)", "functions and number": "(fe, ge, 1.0)",
                          "number and function": "(1.0, fe)",
                          "sequence": "lst", "anything": "v", "None": "None"}.items():
            ck.unit(atomic, "C07.solver", f"{cls}.set_data_fits by {name}", site, r, f"m.set_data_fits({arg})", ["m"],
                    s=r.sym("s", "str"))


def condition(ck):
    r = ck.run()
    a, b, c, w = (r.sym(n, "float") for n in ("a", "b", "c", "w"))
    r.positive(a, b, c)
    r.exec("from ibl.initial_condition import FalknerSkanStagCondition as F, ManualCondition as M\nf = F(a, b)\n"
           "m = M(a, b, c)", a=a, b=b, c=c, w=w)
    for var, cls in (("f", "FalknerSkanStagCondition"), ("m", "ManualCondition")):
        for p in ("nu", "du_e") + (("del_d", "del_m", "del_k") if var == "m" else ()):
            ck.unit(atomic, "C07.condition", f"{cls}.{p}", ck.at(cls, p), r, f"{var}.{p} = w", [var])


def similarity(ck, cls, search):
    s = Similarity(ck, cls, search)
    if not s.alive:
        return ck.open("C07.similarity", cls, "no instance")
    r = s.r
    w, v = r.sym("w", "float"), r.sym("v2", "float")
    z = r.sym("z", "float")
    r.bind(w=w, v=v, z=z, s=s.s)
    tag = cls + (" after search" if search else "")
    texts = {"u_ref": ["s.u_ref = w"], "nu_ref": ["s.nu_ref = w"],
             "set_solution_parameters": ["s.set_solution_parameters()", "s.set_solution_parameters(w)",
                                         "s.set_solution_parameters(w, v)", "s.set_solution_parameters(fw_pp=w)"]}
    if cls == "FalknerSkan":
        texts["reset_beta"] = ["s.reset_beta(w)", "s.reset_beta(w, v)", "s.reset_beta(w, v, z)", "s.reset_beta(w, fw_pp=v)"]
        texts["reset_m"] = ["s.reset_m(w)", "s.reset_m(w, v)", "s.reset_m(w, v, z)", "s.reset_m(w, fw_pp=v)"]
    for name, ts in texts.items():
        for t in ts:
            ck.unit(atomic, "C07.similarity", f"{tag}: {t[2:]}", ck.at(cls, name), r, t, ["s"])


READER = ("alpha", "u_ref", "c", "reynolds", "n_trans", "x_trans_upper", "x_trans_lower", "name")
STANFORD = ["nu_ref", "case", "station_count()", "x_smooth()", "u_e_smooth()", "du_e_smooth()"] + \
    [p + "()" for p in catalog.STATION_P]
XFOIL = ["name", "alpha", "u_ref", "c", "reynolds", "n_trans", "x_trans_upper", "x_trans_lower", "filename"] + \
    [f"{s}_count()" for s in ("upper", "lower", "wake")] + \
    [f"{q}_{s}()" for s in ("upper", "lower", "wake") for q in catalog.XF_ALL] + \
    [f"{q}_{s}()" for s in ("upper", "lower") for q in catalog.XF_SURF]


def reader(ck, cls, attr, queries, keep):
    """A load that fails leaves the reader as if nothing had been loaded."""
    r = ck.run()
    a, b = r.sym("first", "str"), r.sym("second", "str")
    r.assume(T.not_(T.eq(T.const_str(""), a)), T.not_(T.eq(T.const_str(""), b)))
    r.exec(f"from ibl.reference import {cls} as C\nfresh = C()\ne = C()", a=a, b=b)
    site = ck.at(cls, attr)
    histories = {"empty": "", "loaded": f"e.{attr} = a"}
    if cls == "XFoilReader":
        w = r.sym("w", "float")
        r.positive(w)
        r.bind(w=w)
        histories["loaded"] += "".join(f"\ne.{p} = w" for p in READER)
    for hist, text in histories.items():
        h = r.fork()
        if text:
            h.exec(text)
        if h.st.dead:
            ck.open("C07.reader", f"{cls} {hist}", "loading has no normal end")
            continue
        f = h.fork()
        n = len(f.raises)
        f.exec(f"e.{attr} = b")
        seen = {}
        exits = f.raises[n:]
        if not exits:
            ck.open("C07.reader", f"{cls} {hist}", "no failing load seen")
        for x in exits:
            key = tuple(sorted((k, v) for k, v in fields(x.state, h.var("e"))))
            seen.setdefault(key, []).append(x)
        for key, xs in seen.items():
            x = xs[0]
            subject = f"{cls} {hist}, load failing at " + ", ".join(sorted({where(y) for y in xs}))[:160]
            good = True
            for q in queries:
                g, w = f.fork(), f.fork()
                g.st, w.st = x.state.copy(), x.state.copy()
                g.st.dead = w.st.dead = False
                got, want = g.val("e." + q), w.val("fresh." + q)
                if got is want and got is not None:
                    continue
                if got is None and want is None:
                    continue
                if want is None:
                    good = ck.open("C07.reader", f"{subject}: {q}", "no value in a fresh reader")
                    continue
                if got is None:
                    good = ck.bad("C07.reader", f"{subject}: {q}", site, "does not answer after the failed load")
                    continue
                if T.equal(got, want, list(x.state.facts))[0] is True:
                    continue
                u = ck.unmodelled(got)
                if u:
                    good = ck.open("C07.reader", f"{subject}: {q}", f"unmodelled {u}")
                elif q in keep:
                    good = ck.open("C07.reader", f"{subject}: {q}", f"is {str(got)[:80]}")
                else:
                    good = ck.bad("C07.reader", f"{subject}: {q}", site,
                                  f"still holds {str(got)[:160]} after the failed load")
            if good is True:
                ck.ok("C07.reader", subject)


def fields(st, ref):
    o = st.heap.get(ref.args[0])
    return [(k, str(id(v))) for k, v in o.f.items()] if o else []


def run(ck):
    for cls, fit in (("ThwaitesMethodLinear", "White"), ("ThwaitesMethodNonlinear", "custom"), ("HeadMethod", None)):
        ck.unit(solver, cls, fit)
    ck.unit(condition)
    for cls in ANALYTIC:
        for search in (False, True):
            ck.unit(similarity, cls, search)
    ck.unit(reader, "StanfordOlympics1968", "case", STANFORD, ())
    ck.unit(reader, "XFoilReader", "filename", XFOIL, ())

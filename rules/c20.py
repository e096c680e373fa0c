"""C20: a parameter reads back as set, and setting it changes nothing else.

Every settable parameter (all properties with a setter, discovered in the
source, plus the setting methods) is assigned a symbolic value on an object
whose other parameters hold symbolic values.  The getter must return that value
on every path, and every other parameter's getter must return what it returned
before (frame).  Pairs of settings are run in both orders and compared."""

from sa import terms as T
from sa.terms import mk, num, NONE, ZERO
from .common import *
from .c11 import unfloat
from .c01 import integrations, kws, items


def readback(ck, subject, run, text, getters, site, env=None):
    """Run text; each getter must then give its value."""
    f = run.fork()
    f.exec(text, **(env or {}))
    if f.st.dead:
        ck.open("C20.read", subject, "no normal exit")
        return None
    for q, want in getters:
        ck.eq("C20.read", f"{subject}: {q}", unfloat(f.fork().val(q)), want, f.st.facts, site)
    return f


def frame(ck, subject, run, after, getters, site):
    """No getter's value differs from before."""
    for q in getters:
        a = before_after(run, q)
        b = before_after(after, q)
        if a is None:
            # not readable before (no value yet): it must stay so
            (ck.ok if b is None else ck.open)("C20.frame", f"{subject}: {q}",
                                              *(() if b is None else ("becomes readable",)))
            continue
        ck.eq("C20.frame", f"{subject}: {q}", unfloat(b), unfloat(a), after.st.facts, site)


def before_after(run, q):
    if callable(q):
        return q(run)
    return canon(run.fork().val(q))


class P:
    """One independently settable parameter of a client object."""

    def __init__(self, name, text, reads, group=None, on=None):
        self.name, self.text, self.reads = name, text, reads     # reads(which) -> [(getter, value)]
        self.group = group or name
        self.on = on


def study(ck, tag, run, params, site, extra=(), pairs=True):
    """Read-back, frame and order for a set of parameters."""
    for p in params:
        f = readback(ck, f"{tag}.{p.name}", run, p.text(1), p.reads(1), site(p))
        if f is None:
            continue
        others = [q for o in params if o.group != p.group for q, _ in o.reads(1)]
        frame(ck, f"setting {tag}.{p.name}", run, f, [q for q in dict.fromkeys(others)] + list(extra), site(p))
        # overwriting
        readback(ck, f"{tag}.{p.name} set twice", f, p.text(2), p.reads(2), site(p))
    if not pairs:
        return
    for i, p in enumerate(params):
        for o in params[i + 1:]:
            if p.group == o.group:
                continue
            a, b = run.fork(), run.fork()
            a.exec(p.text(1) + "\n" + o.text(1))
            b.exec(o.text(1) + "\n" + p.text(1))
            subject = f"{tag}: {p.name} and {o.name} in either order"
            if a.st.dead or b.st.dead:
                ck.open("C20.order", subject, "no normal exit")
                continue
            for q, _ in p.reads(1) + o.reads(1):
                ck.eq("C20.order", f"{subject}: {q}", unfloat(before_after(a, q)), unfloat(before_after(b, q)),
                      list(a.st.facts) + list(b.st.facts), site(p))


# ------------------------------------------------------------------ solvers
def solver(ck, cls, fit, state):
    m = Model(ck, cls, "custom" if fit else None, solved=False)
    r = m.r
    for n in ("x0", "x1", "xx", "dm1", "dm2", "sd1", "sd2", "nu1", "nu2", "hc1", "hc2", "ma", "da", "ka", "mb", "db", "kb"):
        v = r.sym(n, "float")
        setattr(m, n, v)
        r.bind(**{n: v})
        if n[:2] in ("dm", "sd", "nu", "hc", "ma", "mb", "da", "db", "ka", "kb"):
            r.positive(v)
    for n in ("ue1", "due1", "d2ue1", "ue2", "due2", "d2ue2", "S1", "H1", "G1", "S2", "H2", "G2"):
        v = r.sym(n, "callable")
        setattr(m, n, v)
        r.bind(**{n: v})
    st = r.sym("st", "farray")
    r.bind(st=st, x=m.x, rho=m.rho)
    m.m0, m.d0 = r.sym("m0", "float"), r.sym("d0", "float")
    r.positive(m.m0, m.d0)
    start = {"default": "pass", "fresh": "m.initial_delta_m = m0" + ("\nm.initial_shape_d = d0" if cls == "HeadMethod" else ""),
             "after a solve": "m.initial_delta_m = m0" + ("\nm.initial_shape_d = d0" if cls == "HeadMethod" else "")
             + "\nm.solve(x0, x1)",
             "with a manual condition": "from ibl.initial_condition import ManualCondition\n"
             "m.set_initial_condition(ManualCondition(da, ma, ka))",
             "with a stagnation condition": "from ibl.initial_condition import FalknerSkanStagCondition\n"
             "m.set_initial_condition(FalknerSkanStagCondition(da, ma))"}[state]
    r.exec("from ibl.initial_condition import ManualCondition\n" + start, m0=m.m0, d0=m.d0)
    if r.st.dead:
        return ck.open("C20.read", f"{cls} {state}", "no object")

    def event(run):
        """Value of the built-in event of the next solve."""
        g = run.fork()
        n = len(g.calls)
        g.exec("m.solve(x0, x1)")
        rec = integrations(g, n)
        if len(rec) != 1:
            return None
        evs = items(kws(rec[0]).get("events"))[0]
        if not evs:
            return None
        return g.val("ev(xx, st)", ev=evs[0])

    def with_event(run):
        return event(run)

    g = lambda k, n: getattr(m, f"{n}{k}")     # noqa
    if state == "default" and cls != "HeadMethod":
        return
    params = [
        P("nu", lambda k: f"m.nu = nu{k}", lambda k: [("m.nu", g(k, "nu"))]),
        P("velocity", lambda k: f"m.set_velocity(ue{k}, due{k}, d2ue{k})",
          lambda k: [("m.u_e(x)", call(g(k, "ue"), m.x)), ("m.du_e(x)", call(g(k, "due"), m.x)),
                     ("m.d2u_e(x)", call(g(k, "d2ue"), m.x))]),
        P("initial_delta_m", lambda k: f"m.initial_delta_m = dm{k}", lambda k: [("m.initial_delta_m", g(k, "dm"))]),
    ]
    if cls == "HeadMethod":
        params.append(P("initial_shape_d", lambda k: f"m.initial_shape_d = sd{k}",
                        lambda k: [("m.initial_shape_d", g(k, "sd"))]))
        params.append(P("set_shape_d_critical", lambda k: f"m.set_shape_d_critical(hc{k})", lambda k: []))
    else:
        params.append(P("set_data_fits", lambda k: f"m.set_data_fits((S{k}, H{k}, G{k}))", lambda k: []))
    site = lambda p: ck.at(cls, p.name if p.name != "velocity" else "set_velocity")    # noqa
    tag = f"{cls} {state}"
    study(ck, tag, r, params, site)
    # the event carries the critical shape factor or the fit; the other
    # parameters leave it alone (the laminar one depends on the velocity)
    ev0 = event(r)
    for p in params:
        f = r.fork()
        f.exec(p.text(1))
        if f.st.dead:
            continue
        ev = event(f)
        if p.name in ("set_shape_d_critical", "set_data_fits"):
            continue
        if p.name == "velocity" and cls != "HeadMethod":
            continue
        if ev0 is not None:
            ck.eq("C20.frame", f"setting {tag}.{p.name}: event", ev, ev0, f.st.facts, site(p))
    for k in (1, 2):
        p = params[-1]
        f = r.fork()
        f.exec(p.text(1) if k == 1 else p.text(1) + "\n" + p.text(2))
        if f.st.dead:
            ck.open("C20.read", f"{tag}.{p.name}", "no normal exit")
            continue
        ev = event(f)
        if cls == "HeadMethod":
            # zero exactly at the value that was set
            if ev is None:
                ck.open("C20.read", f"{tag}.{p.name}", "event not found")
            else:
                ck.eq("C20.read", f"{tag}.{p.name} {k}: event at the critical value",
                      T.subst(ev, {mk("index", st, num(1)): g(k, "hc")}), ZERO, f.st.facts, site(p))
        else:
            lam = T.mul(mk("index", st, ZERO), call(m.due, r.var("xx")))
            if ev is None:
                ck.open("C20.read", f"{tag}.{p.name}", "event not found")
            else:
                ck.eq("C20.read", f"{tag}.{p.name} {k}: event", ev, call(g(k, "S"), lam), f.st.facts, site(p))
            h = f.fork()
            h.exec("res = m.solve(x0, x1)")
            for c in integrations(h, 0):
                h.assume(T.truthy(mk("attr", c["result"], "success")))
            v = h.val("m.shape_d(x)")
            if v is None:
                ck.open("C20.read", f"{tag}.{p.name} {k}: shape_d", "no value")
                continue
            used = {t.args[0] for t in T.subterms(v) if t.op == "call" and t.args[0].op == "sym"}
            want = g(k, "H")
            if want in used and not used & {m.shape, m.H1 if k == 2 else m.H2}:
                ck.ok("C20.read", f"{tag}.{p.name} {k}: shape_d")
            else:
                ck.bad("C20.read", f"{tag}.{p.name} {k}: shape_d", site(p), f"shape factor {v} does not use {want}")
    # a new initial condition changes the initial values only
    f = r.fork()
    f.exec("m.set_initial_condition(ManualCondition(db, mb, kb))")
    if not f.st.dead:
        frame(ck, f"setting {tag}.initial condition", r, f,
              ["m.nu", "m.u_e(x)", "m.du_e(x)", "m.d2u_e(x)", with_event], ck.at(cls, "set_initial_condition"))
        ck.eq("C20.read", f"{tag}.initial condition: thickness", f.fork().val("m.initial_delta_m"), m.mb, f.st.facts,
              ck.at(cls, "set_initial_condition"))
    else:
        ck.open("C20.frame", f"{tag}.initial condition", "no normal exit")


def constructor(ck, cls):
    """Constructor arguments of the solvers."""
    r = ck.run()
    nu, x, st, hc = r.sym("nu", "float"), r.sym("x"), r.sym("st", "farray"), r.sym("hc", "float")
    r.positive(nu, hc)
    ue, due, d2ue, S_, H, G = (r.sym(n, "callable") for n in ("ue", "due", "d2ue", "S", "H", "G"))
    r.bind(nu=nu, x=x, st=st, hc=hc, ue=ue, due=due, d2ue=d2ue, S=S_, H=H, G=G,
           x0=r.sym("x0", "float"), x1=r.sym("x1", "float"))
    last = "shape_d_crit=hc" if cls == "HeadMethod" else "data_fits=(S, H, G)"
    site = ck.at(cls, "__init__")
    r.exec(f"from {SOLVERS[cls]} import {cls}\nm = {cls}(nu, ue, due, d2ue, {last})\nm.solve(x0, x1)")
    if r.st.dead:
        return ck.open("C20.constructor", cls, "no normal exit")
    for q, w in (("nu", nu), ("u_e(x)", call(ue, x)), ("du_e(x)", call(due, x)), ("d2u_e(x)", call(d2ue, x))):
        ck.eq("C20.constructor", f"{cls}.{q}", r.fork().val("m." + q), w, r.st.facts, site)
    rec = integrations(r, 0)
    evs = items(kws(rec[-1]).get("events"))[0] if rec else []
    if not evs:
        return ck.open("C20.constructor", f"{cls} event", "not found")
    ev = r.fork().val("ev(x, st)", ev=evs[0])
    if cls == "HeadMethod":
        ck.eq("C20.constructor", f"{cls} critical shape factor",
              None if ev is None else T.subst(ev, {mk("index", st, num(1)): hc}), ZERO, r.st.facts, site)
    else:
        ck.eq("C20.constructor", f"{cls} data fits", ev, call(S_, T.mul(mk("index", st, ZERO), call(due, x))),
              r.st.facts, site)


# ------------------------------------------------------- similarity solutions
def similarity(ck, cls, search):
    s = Similarity(ck, cls, search)
    r = s.r
    r.bind(s=s.s, x=s.x, y=s.y)
    names = ("u1", "u2", "n1", "n2", "e1", "e2", "w1", "w2")
    vs = {n: r.sym(n, "float") for n in names}
    r.positive(*vs.values())
    r.bind(**vs)
    tag = cls + (" after search" if search else "")
    site = lambda p: ck.at(cls, p.name)      # noqa
    sol = ["s.eta_inf", "s.eta_d", "s.eta_m", "s.eta_k", "s.eta_s", "s.fw_pp", "s.f(x)", "s.f_p(x)", "s.f_pp(x)"]
    beta = ["s.beta", "s.m"] if cls == "FalknerSkan" else []
    params = [P("u_ref", lambda k: f"s.u_ref = u{k}", lambda k: [("s.u_ref", vs[f"u{k}"])]),
              P("nu_ref", lambda k: f"s.nu_ref = n{k}", lambda k: [("s.nu_ref", vs[f"n{k}"])])]
    study(ck, tag, r, params, site, extra=sol + beta)
    site2 = ck.at(cls, "set_solution_parameters")
    for text, reads in (("s.set_solution_parameters(e1, w1)", [("s.eta_inf", vs["e1"])]),
                        ("s.set_solution_parameters(eta_inf=e1)", [("s.eta_inf", vs["e1"])]),
                        ("s.set_solution_parameters(eta_inf=e2, fw_pp=w1)", [("s.eta_inf", vs["e2"])])):
        f = readback(ck, f"{tag}: {text[2:]}", r, text, reads, site2)
        if f is not None:
            frame(ck, f"{tag}: {text[2:]}", r, f, ["s.u_ref", "s.nu_ref"] + beta + ["s.u_e(x)"], site2)
            if "w1" in text:
                final(ck, f"{tag}: {text[2:]}", f, 0, vs["w1"], site2)
    # the wall value alone
    f = r.fork()
    f.exec("s.set_solution_parameters(fw_pp=w1)")
    if f.st.dead:
        ck.open("C20.read", f"{tag}: fw_pp alone", "no normal exit")
    else:
        final(ck, f"{tag}: fw_pp alone", f, 0, vs["w1"], site2)
    # constructor
    ctor = "Blasius(u1, n1, w1, e1)" if cls == "Blasius" else "FalknerSkan(b1, u1, n1, w1, e1)"
    b1 = r.sym("b1", "float")
    r2 = ck.run()
    r2.positive(*vs.values())
    reads = [("t.u_ref", vs["u1"]), ("t.nu_ref", vs["n1"]), ("t.eta_inf", vs["e1"])] + \
        ([("t.beta", b1)] if beta else [])
    f = readback(ck, f"{tag} constructor", r2, f"from ibl.analytic import {cls}\nt = {ctor}", reads,
                 ck.at(cls, "__init__"), dict(b1=b1, **vs))
    if f is not None:
        final(ck, f"{tag} constructor", f, 0, vs["w1"], ck.at(cls, "__init__"))
    if cls != "FalknerSkan":
        return
    # wedge parameter by angle and by exponent
    c1, m1 = r.sym("c1", "float"), r.sym("m1", "float")
    r.positive(c1)
    b = T.sub(num(2), c1)
    for form in ("", ", e1, w1", ", eta_inf=e1, fw_pp=w1"):
        reads = [("s.beta", b), ("s.m", T.div(b, c1))] + ([("s.eta_inf", vs["e1"])] if form else [])
        f = readback(ck, f"{tag}: reset_beta(b{form})", r, f"s.reset_beta(b{form})", reads, ck.at(cls, "reset_beta"),
                     dict(b=b))
        if f is not None:
            frame(ck, f"{tag}: reset_beta(b{form})", r, f, ["s.u_ref", "s.nu_ref"], ck.at(cls, "reset_beta"))
            if form:
                final(ck, f"{tag}: reset_beta(b{form})", f, 0, vs["w1"], ck.at(cls, "reset_beta"))
        # m = exponent, 1 + m positive
        g = r.fork()
        q1 = g.sym("q1", "float")
        g.positive(q1)
        mm = T.sub(q1, num(1))
        g.assume(*finite(q1, mm))
        reads = [("s.m", mm), ("s.beta", T.div(T.mul(num(2), mm), q1))] + ([("s.eta_inf", vs["e1"])] if form else [])
        f = readback(ck, f"{tag}: reset_m(m{form})", g, f"s.reset_m(mm{form})", reads, ck.at(cls, "reset_m"),
                     dict(mm=mm))
        if f is not None:
            frame(ck, f"{tag}: reset_m(m{form})", g, f, ["s.u_ref", "s.nu_ref"], ck.at(cls, "reset_m"))
            if form:
                final(ck, f"{tag}: reset_m(m{form})", f, 0, vs["w1"], ck.at(cls, "reset_m"))
    readback(ck, f"{tag}: reset_m(inf)", r, "s.reset_m(np.inf)", [("s.beta", num(2)), ("s.m", T.INF)],
             ck.at(cls, "reset_m"))
    readback(ck, f"{tag}: reset_beta(2)", r, "s.reset_beta(2)", [("s.beta", num(2)), ("s.m", T.INF)],
             ck.at(cls, "reset_beta"))


def final(ck, subject, run, n, want, site):
    """The wall value the final integration starts from."""
    rec = integrations(run, n)
    if not rec:
        return ck.open("C20.read", subject + ": fw_pp", "integration not found")
    y0 = kws(rec[-1]).get("y0")
    if y0 is None or y0.op != "seq" or len(y0.args) != 3:
        return ck.open("C20.read", subject + ": fw_pp", "start state not followed")
    if any(t.op == "lo" for t in T.subterms(y0.args[2])):
        return ck.open("C20.read", subject + ": fw_pp", "value after a search loop")
    ck.eq("C20.read", subject + ": fw_pp", y0.args[2], want, list(run.st.facts), site)


# ------------------------------------------------- conditions and data records
def setters(ck, cls):
    """Properties of a class that can be set."""
    e = ck.e
    c = e.class_named(cls)
    out = []
    for k in e.mro(c):
        for name, v in e.st0.heap[k.oid].f.items():
            if v.op == "property" and v.args[1] is not NONE and name not in out and not name.startswith("_"):
                out.append(name)
    return out


STRINGS = ("name", "case", "filename")
ARRAYS = ("y", "y_plus", "y_c", "u", "u_plus", "u_defect")
LOADS = ("case", "filename")


def record(ck, tag, cls, run, var, names, arrays=()):
    vals = {}
    for n in names:
        for k in (0, 1, 2):
            ty = "str" if n in STRINGS else "farray" if n in arrays else "float"
            v = run.sym(f"{n}_{k}", ty)
            vals[n, k] = v
            run.bind(**{f"v_{n}_{k}": v})
            if ty == "float" and n not in ("du_e", "beta_eq", "alpha"):
                run.positive(v)
            if ty == "farray":
                j = T.sym("j#c20")
                run.assume(mk("forall", S_map(run, v)))
    # every parameter set, then all read back
    f = run.fork()
    f.exec("\n".join(f"{var}.{n} = v_{n}_0" for n in names))
    if f.st.dead:
        return ck.open("C20.read", tag, "no normal exit")
    base = f
    for n in names:
        ck.eq("C20.read", f"{tag}.{n}, all set", base.fork().val(f"{var}.{n}"), vals[n, 0], base.st.facts, ck.at(cls, n))
    g = run.fork()
    g.exec("\n".join(f"{var}.{n} = v_{n}_0" for n in reversed(names)))
    if g.st.dead:
        return ck.open("C20.order", tag, "no normal exit")
    for n in names:
        ck.eq("C20.order", f"{tag}.{n}, all set in reverse", g.fork().val(f"{var}.{n}"), vals[n, 0], g.st.facts,
              ck.at(cls, n))
    params = [P(n, (lambda k, n=n: f"{var}.{n} = v_{n}_{k}"), (lambda k, n=n: [(f"{var}.{n}", vals[n, k])]))
              for n in names]
    study(ck, tag, base, params, lambda p: ck.at(cls, p.name), pairs=False)


def S_map(run, v):
    """All elements of a caller's array are positive."""
    f = run.fork()
    c = f.val("(v > 0).all()", v=v)
    return c.args[0] if c is not None and c.op in ("all", "forall") else c


def conditions(ck):
    r = ck.run()
    names = ("a", "b", "c")
    a, b, c = (r.sym(n, "float") for n in names)
    r.positive(a, b, c)
    r.exec("from ibl.initial_condition import FalknerSkanStagCondition as F, ManualCondition as M\n"
           "f = F(a, b)\nm = M(a, b, c)", a=a, b=b, c=c)
    for q, w in (("f.du_e", a), ("f.nu", b), ("m.delta_d()", a), ("m.delta_m()", b), ("m.delta_k()", c)):
        ck.eq("C20.constructor", q, r.fork().val(q), w, r.st.facts,
              ck.at("FalknerSkanStagCondition" if q[0] == "f" else "ManualCondition", "__init__"))
    record(ck, "FalknerSkanStagCondition", "FalknerSkanStagCondition", r, "f", setters(ck, "FalknerSkanStagCondition"))
    record(ck, "ManualCondition", "ManualCondition", r, "m", setters(ck, "ManualCondition"))
    # the manual condition's thicknesses are plain parameters
    v = {n: r.sym("w_" + n, "float") for n in ("d", "m", "k")}
    r.positive(*v.values())
    r.bind(**{"w" + k: t for k, t in v.items()})
    params = [P("del_" + n, (lambda k, n=n: f"m.del_{n} = w{n}" if k == 1 else f"m.del_{n} = 2*w{n}"),
                (lambda k, n=n: [(f"m.delta_{n}()", v[n] if k == 1 else T.mul(num(2), v[n]))])) for n in "dmk"]
    study(ck, "ManualCondition", r, params, lambda p: ck.at("ManualCondition", "__init__"),
          extra=("m.nu", "m.du_e"))


def records(ck):
    for si in (True, False):
        st = Station(ck, si, summary_only=True)
        record(ck, f"station ({'SI' if si else 'US'})", "StanfordOlympics1968StationData", st.r, "s",
               setters(ck, "StanfordOlympics1968StationData"), ARRAYS)
    for cls in ("XFoilAirfoilData", "XFoilWakeData"):
        for empty in (True, False):
            r = ck.run()
            line = r.sym("line", "str")
            if empty:
                r.exec(f"from ibl.reference import {cls}\np = {cls}('')")
            else:
                r.assume(T.not_(T.eq(T.const_str(""), line)))
                r.exec(f"from ibl.reference import {cls}\np = {cls}(line)", line=line)
            record(ck, cls + (" (empty)" if empty else ""), cls, r, "p", setters(ck, cls))
    r = ck.run()
    r.exec("from ibl.reference import XFoilReader\np = XFoilReader()")
    record(ck, "XFoilReader", "XFoilReader", r, "p", [n for n in setters(ck, "XFoilReader") if n not in LOADS])


def loads(ck):
    """The name of what was loaded reads back."""
    for cls, prop in (("StanfordOlympics1968", "case"), ("XFoilReader", "filename")):
        for text in (f"o = {cls}(c)", f"o = {cls}()\no.{prop} = c", f"o = {cls}(b)\no.{prop} = c"):
            r = ck.run()
            c, b = r.sym("c", "str"), r.sym("b", "str")
            r.assume(*[T.not_(T.eq(T.const_str(""), v)) for v in (b, c)])
            r.exec(f"from ibl.reference import {cls}\n" + text, c=c, b=b)
            subject = f"{cls}: {text.splitlines()[-1]}" + (" again" if "(b)" in text else "")
            if r.st.dead:
                ck.open("C20.read", subject, "no normal exit")
                continue
            ck.eq("C20.read", subject, r.fork().val(f"o.{prop}"), c, r.st.facts, ck.at(cls, prop))


def result(ck):
    r = ck.run()
    names = ("x_end", "f_end", "status", "message", "success")
    vs = {n: r.sym(n + "0") for n in names}
    for form in (", ".join(names), ", ".join(f"{n}={n}" for n in reversed(names))):
        f = r.fork()
        f.exec(f"from ibl.ibl_method import IntegrationResult\no = IntegrationResult({form})", **vs)
        for n in names:
            ck.eq("C20.constructor", f"IntegrationResult.{n}", None if f.st.dead else f.fork().val(f"o.{n}"), vs[n], (),
                  ck.at("IntegrationResult", "__init__"))


def run(ck):
    states = ("default", "fresh", "after a solve", "with a manual condition", "with a stagnation condition")
    for cls in SOLVERS:
        for st in states:
            ck.unit(solver, cls, cls in LAMINAR, st)
        ck.unit(constructor, cls)
    for cls in ANALYTIC:
        for search in (False, True):
            ck.unit(similarity, cls, search)
    ck.unit(conditions)
    ck.unit(records)
    ck.unit(loads)
    ck.unit(result)

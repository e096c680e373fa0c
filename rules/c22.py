"""C22: all solvers, initial conditions and similarity solutions can be used
interchangeably.

The interface is read off the base class in the source: its public methods and
properties with their parameter names and order.  Every concrete class is then
used through it by client programs, once by position and once with the base
class's argument names; both must be answered and be the same value.  Common
constructor arguments are compared by what can be read back."""

from sa import terms as T
from sa.terms import mk, num, NONE
from .common import *

SOLVER_NAMES = tuple(SOLVERS)
BASES = {"IBLMethod": SOLVER_NAMES,
         "InitialCondition": ("FalknerSkanStagCondition", "ManualCondition"),
         "Analytic2dSimilarityIncompressible": tuple(ANALYTIC)}


def functions(t):
    """Function terms inside a class attribute."""
    return [s for s in T.subterms(t) if s.op == "func"] if t is not None else []


def interface(ck, base):
    """Public members of a base class: (name, kind, parameters)."""
    e = ck.e
    c = e.class_named(base)
    out = []
    for k in e.mro(c):
        for name, v in e.st0.heap[k.oid].f.items():
            if name.startswith("_") or any(n == name for n, _, _, _ in out):
                continue
            if v.op == "property":
                out.append((name, "property", (), ()))
            elif v.op in ("func", "static", "clsmeth"):
                fn = e.funcs.get(functions(v)[0].args[0])
                if fn is None or fn.vararg or fn.kwarg:
                    continue
                params = fn.params[0 if v.op == "static" else 1:]
                out.append((name, "method", tuple(params), tuple(fn.kwonly)))
    return out


def complete(ck, base, cls):
    """No member of the interface is left abstract."""
    e = ck.e
    c = e.class_named(cls)
    left = []
    for k in e.mro(c):
        for name in e.st0.heap[k.oid].f:
            v, owner = e.lookup(c, name, e.st0)
            if any(e.funcs[f.args[0]].abstract for f in functions(v) if f.args[0] in e.funcs):
                left.append(f"{owner.name}.{name}")
    subject = f"{cls} implements {base}"
    if e.class_named(base) not in e.mro(c):
        return ck.bad("C22.complete", subject, f"{c.module.path}:{c.node.lineno} ({cls})",
                      f"{cls} does not derive from {base}")
    if left:
        return ck.bad("C22.complete", subject, f"{c.module.path}:{c.node.lineno} ({cls})",
                      "abstract: " + ", ".join(sorted(set(left))))
    ck.ok("C22.complete", subject)


def objects(ck, base, cls):
    """(run, variable) for one usable object of each class."""
    if base == "IBLMethod":
        m = Model(ck, cls, "White" if cls in LAMINAR else None)
        m.r.bind(o=m.m)
        return m.r
    if base == "InitialCondition":
        r = ck.run()
        a, b, c = (r.sym(n, "float") for n in ("a", "b", "c"))
        r.positive(a, b, c)
        args = "a, b" if cls == "FalknerSkanStagCondition" else "a, b, c"
        r.exec(f"from ibl.initial_condition import {cls}\no = {cls}({args})", a=a, b=b, c=c)
        return r
    s = Similarity(ck, cls)
    s.r.bind(o=s.s)
    return s.r


# values for arguments that are not plain numbers
SPECIAL = {"set_velocity": ("callable",) * 3, "set_initial_condition": ("ic",), "solve": ("float", "float", "event")}
AFTER = {"IBLMethod": ("o.u_e(x)", "o.du_e(x)", "o.d2u_e(x)", "o.initial_delta_m", "o.delta_d(x)"),
         "InitialCondition": ("o.nu", "o.du_e", "o.delta_m()"),
         "Analytic2dSimilarityIncompressible": ("o.eta_inf", "o.fw_pp", "o.eta_d", "o.u_e(x)")}
COMMANDS = ("set_velocity", "set_initial_condition", "solve", "set_solution_parameters")


def arguments(r, name, params):
    """Symbolic arguments of a call, as text by position and by name."""
    kinds = SPECIAL.get(name, ())
    env = {}
    for i, p in enumerate(params):
        k = kinds[i] if i < len(kinds) else "float"
        v = f"arg{i}"
        if k == "ic":
            r.exec("from ibl.initial_condition import ManualCondition as MC\nmc = MC(q1, q2, q3)",
                   **{n: r.sym(n, "float") for n in ("q1", "q2", "q3")})
            env[v] = r.var("mc")
        elif k == "event":
            r.exec("from ibl.ibl_method import TermEvent, TermReason\nclass Ev(TermEvent):\n"
                   "    def _call_impl(self, x, f):\n        return x - 1.0\n"
                   "    def event_info(self):\n        return TermReason.TRANSITIONED, 'tr'\nev = Ev()")
            env[v] = r.var("ev")
        else:
            env[v] = r.sym(f"arg{i}", None if i == 0 and name not in COMMANDS else k)
            if k == "float" and name not in COMMANDS and i > 0:
                r.positive(env[v])
    return env


def wrong_use(g, n):
    """The call itself is rejected as malformed."""
    return [x for x in g.raises[n:] if x.exc in ("TypeError", "AttributeError")]


def member(ck, base, cls, mem):
    name, kind, params, kwonly = mem
    r = objects(ck, base, cls)
    subject = f"{cls}.{name}"
    site = ck.at(cls, name)
    if r.st.dead:
        return ck.open("C22.answers", subject, "no object")
    r.bind(x=r.sym("x"))
    if kind == "property":
        f = r.fork()
        n = len(f.raises)
        v = f.val(f"o.{name}")
        if f.st.dead:
            if ck.e.unknowns and not wrong_use(f, n):
                return ck.open("C22.answers", subject, "no normal exit")
            return ck.bad("C22.answers", subject, site, "not answered by any path")
        if v is None or v is NONE or v.op in ("func", "bound", "class"):
            return ck.bad("C22.answers", subject, site, f"is {v} and not a value")
        return ck.ok("C22.answers", subject)
    env = arguments(r, name, params)
    pos = [f"arg{i}" for i in range(len(params))]
    kws = [f"{p}=arg{i}" for i, p in enumerate(params)]
    if name in COMMANDS:
        forms = [", ".join(pos), ", ".join(kws)]
        if len(params) > 1:
            forms.append(", ".join(pos[:1] + kws[1:]))
        runs = []
        for form in forms:
            f = r.fork()
            n = len(f.raises)
            f.exec(f"o.{name}({form})", **env)
            if f.st.dead:
                if wrong_use(f, n):
                    return ck.bad("C22.answers", subject, site, f"call with arguments ({form}) is rejected: "
                                  f"{wrong_use(f, n)[0].exc}")
                return ck.open("C22.answers", subject, "no normal exit")
            for c in f.calls:
                if c["f"].op == "ext" and c["f"].args[0] == "scipy.integrate.solve_ivp":
                    f.assume(T.truthy(mk("attr", c["result"], "success")))
            runs.append(f)
        ck.ok("C22.answers", subject)
        for q in AFTER[base]:
            vals = [f.fork().val(q) for f in runs]
            for form, v in zip(forms[1:], vals[1:]):
                ck.eq("C22.names", f"{subject}({form}) then {q}", strip(v), strip(vals[0]), runs[0].st.facts, site)
        return
    vals = []
    forms = [", ".join(pos)]
    if params:
        forms += [", ".join(kws), ", ".join(reversed(kws))]
        if len(params) > 1:
            forms.append(", ".join(pos[:1] + kws[1:]))
    for form in forms:
        f = r.fork()
        n = len(f.raises)
        v = f.val(f"o.{name}({form})", **env)
        if f.st.dead:
            if wrong_use(f, n) or not ck.e.unknowns:
                what = wrong_use(f, n)[0].exc if wrong_use(f, n) else "no path returns"
                return ck.bad("C22.answers", subject, site, f"call with arguments ({form}) is not answered: {what}")
            return ck.open("C22.answers", subject, "no normal exit")
        if v is NONE:
            return ck.bad("C22.answers", subject, site, "answers None")
        vals.append(v)
    ck.ok("C22.answers", subject)
    for form, v in zip(forms[1:], vals[1:]):
        ck.eq("C22.names", f"{subject}({form})", strip(v), strip(vals[0]), r.st.facts, site)


def strip(t):
    """Object identities (closures, events) are not part of the value."""
    return canon(t)


CTOR = {"by position": "{c}(nu, ue, due, d2ue)",
        "by name": "{c}(nu=nu, U_e=ue, dU_edx=due, d2U_edx2=d2ue)",
        "by name, other order": "{c}(d2U_edx2=d2ue, U_e=ue, dU_edx=due, nu=nu)",
        "mixed": "{c}(nu, ue, dU_edx=due, d2U_edx2=d2ue)"}
SHORT = {"viscosity only": ("{c}(nu)", ("nu",)), "viscosity by name": ("{c}(nu=nu)", ("nu",)),
         "velocity without viscosity": ("{c}(U_e=ue, dU_edx=due, d2U_edx2=d2ue)", ("u_e(x)", "du_e(x)", "d2u_e(x)")),
         "nothing": ("{c}()", ())}


def solver_ctor(ck, cls):
    r = ck.run()
    nu, x = r.sym("nu", "float"), r.sym("x")
    r.positive(nu)
    ue, due, d2ue = (r.sym(n, "callable") for n in ("ue", "due", "d2ue"))
    r.bind(nu=nu, x=x, ue=ue, due=due, d2ue=d2ue)
    r.exec(f"from {SOLVERS[cls]} import {cls}")
    want = {"nu": nu, "u_e(x)": call(ue, x), "du_e(x)": call(due, x), "d2u_e(x)": call(d2ue, x)}
    site = ck.at(cls, "__init__")
    forms = {k: (v, tuple(want)) for k, v in CTOR.items()}
    forms.update(SHORT)
    for name, (text, queries) in forms.items():
        f = r.fork()
        n = len(f.raises)
        f.exec("o = " + text.format(c=cls))
        if f.st.dead:
            bad = wrong_use(f, n)
            if bad or not ck.e.unknowns:
                ck.bad("C22.constructor", f"{cls}, {name}", site, "construction is rejected"
                       + (f": {bad[0].exc}" if bad else ""))
            else:
                ck.open("C22.constructor", f"{cls}, {name}", "no normal exit")
            continue
        ck.ok("C22.constructor", f"{cls}, {name}")
        for q in queries:
            ck.eq("C22.constructor", f"{cls}, {name}: {q}", f.fork().val("o." + q), want[q], f.st.facts, site)
    # the same default viscosity everywhere
    f = r.fork()
    f.exec(f"from ibl.thwaites_method import ThwaitesMethodLinear as Z\na = {cls}()\nb = Z()")
    ck.eq("C22.default", f"{cls}: viscosity", f.fork().val("a.nu"), f.fork().val("b.nu"), (), site)
    # a velocity means the same to the constructor and to set_velocity
    xs, us = r.sym("xs", "farray"), r.sym("us", "farray")
    for arg in ("(xs, us)", "1.5, (xs, us)", "ue, due"):
        f = r.fork()
        f.exec(f"a = {cls}(nu, {arg})\nb = {cls}(nu)\nb.set_velocity({arg})", xs=xs, us=us)
        if f.st.dead:
            ck.open("C22.velocity", f"{cls}({arg})", "no normal exit")
            continue
        for q in ("u_e(x)", "du_e(x)", "d2u_e(x)"):
            ck.eq("C22.velocity", f"{cls}({arg}): {q}", f.fork().val("a." + q), f.fork().val("b." + q),
                  f.st.facts, site)


def condition_in_solver(ck, cls, ic):
    """Every condition works in every solver."""
    m = Model(ck, cls, "White" if cls in LAMINAR else None, solved=False)
    r = m.r
    a, b, c = (r.sym(n, "float") for n in ("a", "b", "c"))
    r.positive(a, b, c)
    args = "a, b" if ic == "FalknerSkanStagCondition" else "a, b, c"
    subject = f"{ic} in {cls}"
    site = ck.at(cls, "set_initial_condition")
    r.exec(f"from ibl.initial_condition import {ic}\nc0 = {ic}({args})\nm.set_initial_condition(c0)", a=a, b=b, c=c)
    if r.st.dead:
        return ck.bad("C22.condition", subject, site, "rejected") if not ck.e.unknowns else \
            ck.open("C22.condition", subject, "no normal exit")
    ck.eq("C22.condition", subject + ": initial_delta_m", r.fork().val("m.initial_delta_m"),
          r.fork().val("c0.delta_m()"), r.st.facts, site)
    if cls == "HeadMethod":
        ck.eq("C22.condition", subject + ": initial_shape_d", r.fork().val("m.initial_shape_d"),
              r.fork().val("c0.shape_d()"), r.st.facts, site)
    f = r.fork()
    n = len(f.raises)
    f.exec("res = m.solve(x0, x1)", x0=r.sym("x0", "float"), x1=r.sym("x1", "float"))
    if f.st.dead:
        return ck.bad("C22.condition", subject + ": solve", ck.at(cls, "solve"), "no normal exit") \
            if not ck.e.unknowns else ck.open("C22.condition", subject + ": solve", "no normal exit")
    bad = [x for x in wrong_use(f, n) if not x.implicit]
    if bad:
        return ck.bad("C22.condition", subject + ": solve", bad[0].site, f"may raise {bad[0].exc}")
    ck.ok("C22.condition", subject + ": solve")


def condition_ctor(ck):
    r = ck.run()
    a, b, c = (r.sym(n, "float") for n in ("a", "b", "c"))
    r.positive(a, b, c)
    for cls, forms, want in (
            ("FalknerSkanStagCondition", ("a, b", "du_e=a, nu=b", "nu=b, du_e=a"), {"du_e": a, "nu": b}),
            ("ManualCondition", ("a, b, c", "delta_d=a, delta_m=b, delta_k=c", "delta_k=c, delta_m=b, delta_d=a"),
             {"delta_d()": a, "delta_m()": b, "delta_k()": c})):
        for form in forms:
            f = r.fork()
            f.exec(f"from ibl.initial_condition import {cls}\no = {cls}({form})", a=a, b=b, c=c)
            for q, w in want.items():
                ck.eq("C22.constructor", f"{cls}({form}).{q}", None if f.st.dead else f.fork().val("o." + q), w,
                      f.st.facts, ck.at(cls, "__init__"))


def similarity_ctor(ck, cls):
    r = ck.run()
    u, n, fw, ei, beta = (r.sym(k, "float") for k in ("u", "n", "fw", "ei", "beta"))
    names = (["beta"] if cls == "FalknerSkan" else []) + ["u_ref", "nu_ref", "fw_pp", "eta_inf"]
    vals = (["beta"] if cls == "FalknerSkan" else []) + ["u", "n", "fw", "ei"]
    kw = [f"{a}={b}" for a, b in zip(names, vals)]
    want = {"u_ref": u, "nu_ref": n, "eta_inf": ei}
    if cls == "FalknerSkan":
        want["beta"] = beta
    start = []
    for form in (", ".join(vals), ", ".join(kw), ", ".join(reversed(kw))):
        f = r.fork()
        f.exec(f"from ibl.analytic import {cls}\no = {cls}({form})", u=u, n=n, fw=fw, ei=ei, beta=beta)
        for q, w in want.items():
            ck.eq("C22.constructor", f"{cls}({form}).{q}", None if f.st.dead else f.fork().val("o." + q), w,
                  f.st.facts, ck.at(cls, "__init__"))
        calls = [c for c in f.calls if c["f"].op == "ext" and c["f"].args[0] == "scipy.integrate.solve_ivp"]
        start.append(kwarg(calls[-1]["result"], "y0") if calls else None)
    for form, s in zip(("position", "name", "name, reversed"), start):
        if s is not None and s.op == "seq":
            ck.eq("C22.constructor", f"{cls} by {form}: start", s.args[-1], fw, (), ck.at(cls, "__init__"))


def run(ck):
    for base, classes in BASES.items():
        mem = interface(ck, base)
        for cls in classes:
            ck.unit(complete, base, cls)
            for m in mem:
                ck.unit(member, base, cls, m)
    for cls in SOLVER_NAMES:
        ck.unit(solver_ctor, cls)
        for ic in BASES["InitialCondition"]:
            ck.unit(condition_in_solver, cls, ic)
    ck.unit(condition_ctor)
    for cls in ANALYTIC:
        ck.unit(similarity_ctor, cls)

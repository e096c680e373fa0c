"""C19: similarity solutions are complete, converged and consistent.

After every accepted way of (re)computing a solution, the value graphs of the
reported quantities are compared with what the integration record they come from
requires (equation, interval, start values, thicknesses).  The search integrates the
same right-hand side in rescaled coordinates.  Facts at every normal exit, with the last
pass of each search loop written out, must bound the residuals of the search."""

from sa import terms as T, seqs as S
from sa.terms import mk, num, ZERO, ONE, TRUE, FALSE
from .common import *
from .c01 import integrations, kws
from .c10 import stream_rule

MODES = {"search": "", "fw_pp given": ", fw_pp=fw", "eta_inf given": ", eta_inf=einf",
         "both given": ", fw_pp=fw, eta_inf=einf"}
TOL = num("1e-6")


def base(ck, cls):
    r = ck.run()
    names = ("u_ref", "nu_ref", "fw", "einf", "fw2", "einf2", "h", "h2", "eta", "x", "y", "rho", "u2", "n2")
    env = {n: r.sym(n, "float") for n in names}
    r.positive(*(env[n] for n in ("u_ref", "nu_ref", "fw", "einf", "fw2", "einf2", "x", "rho", "u2", "n2")))
    # beta = 2 - 1/h = 2 m/(1 + m) with m = 2 h - 1: all exponents are linear in h
    for b, h in (("beta", "h"), ("beta2", "h2")):
        r.assume(T.lt(num("0.46"), env[h]))
        env[b] = T.sub(num(2), T.div(ONE, env[h]))
    env["m2"] = T.sub(T.mul(num(2), env["h"]), ONE)
    r.assume(T.not_(T.eq(T.INF, env["m2"])))
    r.bind(**env)
    r.exec(f"from ibl.analytic import {cls}")
    return r, env


def programs(cls):
    """name: ((earlier program, program), parameters given)."""
    head = "beta, " if cls == "FalknerSkan" else ""
    out = {}
    for n, a in MODES.items():
        out[n] = (("pass", f"s = {cls}({head}u_ref, nu_ref{a})"), a)
    first = f"s = {cls}({head}u_ref, nu_ref, fw_pp=fw2, eta_inf=einf2)\n"
    for n, a in MODES.items():
        out[f"set_solution_parameters, {n}"] = ((first, f"s.set_solution_parameters({a[2:]})"), a)
    out["reference values changed"] = ((first, "s.u_ref = u2\ns.nu_ref = n2"), ", fw_pp=fw2, eta_inf=einf2")
    if cls == "FalknerSkan":
        first = first.replace("beta", "beta2")
        for n, a in MODES.items():
            out[f"reset_beta, {n}"] = ((first, f"s.reset_beta(beta{a})"), a)
            out[f"reset_m, {n}"] = ((first, f"s.reset_m(m2{a})"), a)
        out["reset_beta refused, then new parameters"] = (
            (first, "try:\n    s.reset_beta(3.0)\nexcept ValueError:\n    pass\ns.set_solution_parameters(einf, fw)"),
            MODES["both given"])
    return out


def as_seq(t):
    return mk("seq", *t.args) if t is not None and t.op == "tuple" else t


def records(t):
    return t.op == "attr" and t.args[1] == "sol"


def solution(ck, cls, label, program, given):
    r, env = base(ck, cls)
    r.exec(program[0])
    n0 = len(r.calls)
    r.exec(program[1])
    tag = f"{cls} {label}"
    site = ck.at(cls, "set_solution_parameters")
    calc = ck.at(cls, "_calculate_solution")
    if r.st.dead:
        return ck.open("C19.complete", tag, "no normal exit")
    judge(ck, r, env, cls, label, tag, given, n0, site, calc)


def judge(ck, r, env, cls, label, tag, given, n0, site, calc, depth=2):
    facts = list(r.st.facts)
    known = frozenset(facts)
    if T.contradiction(known):
        return

    def v(t):
        x = r.fork().val(t)
        return x if x is None else T.assume(x, known)
    f = v("s.f(eta)")
    # a result that depends on the path taken is judged path by path
    gates = find(f, lambda t: t.op == "ite" and len(set(find(t.args[1], records)) ^ set(find(t.args[2], records))) > 0) \
        if f is not None and depth else []
    if gates:
        c = min(gates, key=lambda t: t.size if hasattr(t, "size") else len(list(T.subterms(t)))).args[0]
        for i, k in enumerate((c, T.not_(c))):
            g = r.fork()
            g.calls[:0] = r.calls
            g.assume(k)
            judge(ck, g, env, cls, label, f"{tag}, path {i + 1}", given, n0, site, calc, depth - 1)
        return
    sols = find(f, lambda t: t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "sol") if f is not None else []
    if len(sols) != 1:
        return ck.open("C19.complete", tag, "the stream function is not read from one integration record")
    sol = sols[0].args[0]
    R = sol.args[0]
    recs = [c for c in integrations(r) if c["result"] is R]
    if not recs:
        return ck.open("C19.complete", tag, "integration record not found")
    kw = kws(recs[-1])
    at = lambda e: call(sol, e)      # noqa
    for i, q in enumerate(("f", "f_p", "f_pp")):
        ck.eq("C19.complete", f"{tag}: {q}", v(f"s.{q}(eta)"), mk("index", at(env["eta"]), num(i)), facts, ck.at(cls, q))
    E = v("s.eta_inf")
    # what was asked for
    name = "fw2" if "fw_pp=fw2" in given else "fw" if "fw_pp" in given else None
    ename = "einf2" if "eta_inf=einf2" in given else "einf" if "eta_inf" in given else None
    y0 = as_seq(kw.get("y0"))
    if y0 is None or y0.op != "seq" or len(y0.args) != 3:
        return ck.open("C19.equation", tag, "start values not followed")
    if ename:
        ck.eq("C19.asked", f"{tag}: eta_inf", E, env[ename], facts, calc)
    if name:
        ck.eq("C19.asked", f"{tag}: fw_pp", y0.args[2], env[name], facts, calc)
    # the integration the record comes from
    for i in (0, 1):
        ck.eq("C19.equation", f"{tag}: start value {i}", y0.args[i], ZERO, facts, calc)
    span = as_seq(kw.get("t_span"))
    ck.eq("C19.equation", f"{tag}: interval", span, mk("seq", ZERO, E) if E is not None else None, facts, calc)
    ck.holds("C19.success", f"{tag}: integration", T.truthy(mk("attr", R, "success")), facts, calc,
             "a solution is available after a failed integration")
    rhs, fs = righthand(r, kw.get("fun"), recs[-1]["state"])
    if rhs is None:
        return ck.open("C19.equation", tag, "right-hand side not followed")
    ck.eq("C19.equation", f"{tag}: f'", rhs[0], fs[1], facts, calc)
    ck.eq("C19.equation", f"{tag}: f''", rhs[1], fs[2], facts, calc)
    A = T.neg(T.subst(rhs[2], {fs[0]: ONE, fs[1]: ONE, fs[2]: ONE}))
    B = T.neg(T.subst(rhs[2], {fs[0]: ZERO, fs[1]: ZERO, fs[2]: ZERO}))
    want = T.neg(T.add(T.mul(A, fs[0], fs[2]), T.mul(B, T.sub(ONE, T.mul(fs[1], fs[1])))))
    ck.eq("C19.equation", f"{tag}: f'''", rhs[2], want, facts, calc)
    if cls == "FalknerSkan":
        ck.eq("C19.equation", f"{tag}: current parameter", B, v("s.beta"), facts, calc)
    momentum(ck, r, env, tag, cls, rhs, fs, sol, facts)
    # thicknesses of this record
    end = mk("index", at(E), ZERO)
    fw = v("s.fw_pp")
    ck.eq("C19.complete", f"{tag}: fw_pp", fw, mk("index", at(ZERO), num(2)), facts, ck.at(cls, "fw_pp"))
    integral(ck, r, f"{tag}: eta_d", v("s.eta_d"), T.sub(E, end), lambda f0, f1, f2: [T.sub(ONE, f1)], at, E, facts, site)
    ed = T.sub(E, end)
    wm = T.div(T.sub(fw, T.mul(B, ed)), T.add(A, B)) if fw is not None else None
    integral(ck, r, f"{tag}: eta_m", v("s.eta_m"), wm, lambda f0, f1, f2: [T.mul(f1, T.sub(ONE, f1))], at, E,
             facts + [T.lt(ZERO, T.add(A, B))], site)
    integral(ck, r, f"{tag}: eta_k", v("s.eta_k"), None,
             lambda f0, f1, f2: [T.mul(num(2), f0, f1, f2), T.mul(f1, T.sub(ONE, T.mul(f1, f1)))], at, E, facts, site)
    shear(ck, r, f"{tag}: eta_s", v("s.eta_s"), at, E, facts, site)
    if "search" in label or "given" in label and "both" not in label:
        search(ck, r, tag, cls, given, E, y0.args[2], rhs, fs, R, n0)


def righthand(r, fun, state=None):
    """Right-hand side at symbolic state, as seen by the integration."""
    fs = [r.sym(f"f{i}", "float") for i in range(3)]
    if fun is None:
        return None, fs
    g = r.fork()
    if state is not None:
        g.st = state.copy()
    g.bind(fun=fun)
    out = []
    g.exec("d = fun(eta, st)", st=mk("seq", *fs))
    for i in range(3):
        out.append(g.fork().val(f"d[{i}]"))
    return (None if any(o is None for o in out) else out), fs


def momentum(ck, r, env, tag, cls, rhs, fs, sol, facts):
    """The velocity profile satisfies the boundary layer equation."""
    x, y = env["x"], env["y"]
    u, v, ue, nu = (r.fork().val(t) for t in ("s.u(x, y)", "s.v(x, y)", "s.u_e(x)", "s.nu_ref"))
    if None in (u, v, ue, nu):
        return ck.open("C19.layer", tag, "no velocity profile")
    inner = stream_rule(r)

    def rule(t, go):
        if t.op == "index" and t.args[1] is num(2) and t.args[0].op == "call" and t.args[0].args[0] is sol:
            e = t.args[0].args[1]
            return T.mul(T.subst(rhs[2], {f: mk("index", t.args[0], num(i)) for i, f in enumerate(fs)}), go(e))
        return inner(t, go)
    known = frozenset(facts)
    u, v, ue = (T.canon(T.assume(t, known)) for t in (u, v, ue))
    uy = T.canon(T.diff(u, y, rule))
    lhs = T.add(T.mul(u, T.diff(u, x, rule)), T.mul(v, uy))
    rhs_ = T.add(T.mul(ue, T.diff(ue, x)), T.mul(nu, T.diff(uy, y, rule)))
    ck.eq("C19.layer", tag, lhs, rhs_, facts, ck.at(cls, "v"))


def integral(ck, r, subject, got, closed, integrands, at, E, facts, site):
    """A thickness is its closed form or the integral of a known integrand
    over the layer."""
    if got is None:
        return ck.bad("C19.complete", subject, site, "no value")
    quads = find(got, lambda t: t.op == "index" and t.args[1] is ZERO and t.args[0].op == "call" and
                 t.args[0].args[0].op == "ext" and t.args[0].args[0].args[0].endswith("quad"))
    if not quads:
        if closed is None:
            if find(got, lambda t: t.op == "call" and t.args[0].op == "ext" and not t.args[0].args[0].endswith("solve_ivp")):
                return ck.open("C19.complete", subject, "computed in another way: " + str(got)[:200])
            return ck.bad("C19.complete", subject, site, f"{str(got)[:200]} is not the integral over the layer")
        return ck.eq("C19.complete", subject, got, closed, facts, site)
    if quads != [got]:
        return ck.open("C19.complete", subject, "combination of integrals")
    q = got.args[0]
    fn, a, b = (kwarg(q, n) for n in ("func", "a", "b"))
    if None in (fn, a, b):
        return ck.open("C19.complete", subject, "integral not followed")
    ck.eq("C19.complete", f"{subject}, limits", mk("tuple", a, b), mk("tuple", ZERO, E), facts, site)
    e = r.sym("eta_i", "float")
    g = r.fork()
    val = g.val("fn(e)", fn=fn, e=e)
    fs = [mk("index", at(e), num(i)) for i in range(3)]
    wants = integrands(*fs)
    if val is None:
        return ck.open("C19.complete", subject, "integrand has no value")
    for w in wants[1:]:
        if T.equal(val, w, facts)[0] is True:
            return ck.ok("C19.complete", subject)
    return ck.eq("C19.complete", subject, val, wants[0], facts, site)


def shear(ck, r, subject, got, at, E, facts, site):
    """The shear thickness is where the velocity is 99 percent of the edge
    velocity."""
    if got is None or got.op != "attr" or got.args[1] != "root":
        return ck.open("C19.complete", subject, "not a root: " + str(got)[:100])
    rec = got.args[0]
    fn, br = kwarg(rec, "f"), kwarg(rec, "bracket")
    if fn is None:
        return ck.open("C19.complete", subject, "search function not followed")
    ck.holds("C19.success", f"{subject} search", T.truthy(mk("attr", rec, "converged")), facts, site,
             "the root is used although the search failed")
    br = as_seq(br)
    if br is not None:
        ck.eq("C19.complete", f"{subject}, bracket", br, mk("seq", ZERO, E), facts, site)
    e, f1 = r.sym("eta_i", "float"), r.sym("f1_i", "float")
    g = r.fork()
    val = g.val("fn(e)", fn=fn, e=e)
    if val is None:
        return ck.open("C19.complete", subject, "search function has no value")
    val = T.subst(val, {mk("index", at(e), ONE): f1})
    if any(s.op == "call" for s in T.subterms(val)):
        return ck.bad("C19.complete", subject, site, f"search function {str(val)[:150]} reads something else than the velocity")
    ck.eq("C19.complete", subject, T.subst(val, {f1: num("0.99")}), ZERO, facts, site)
    ck.holds("C19.complete", f"{subject}, single root", T.lt(T.mul(T.subst(val, {f1: num("0.98")}), T.subst(val, {f1: ONE})), ZERO),
             facts, site)


# ----------------------------------------------------------------- search
def search(ck, r, tag, cls, given, E, F, rhs, fs, final, n0):
    calc = ck.at(cls, "_calculate_solution")
    recs = {}
    known = list(r.st.facts)
    for c in integrations(r, n0):
        if c["result"] is not final and not T.contradiction(frozenset(known + list(c["pc"]))):
            recs.setdefault(c["result"], c)
    scale = {}
    n = 0
    for R, c in recs.items():
        kw = kws(c)
        srhs, _ = righthand(r, kw.get("fun"), c["state"])
        span, y0 = as_seq(kw.get("t_span")), as_seq(kw.get("y0"))
        n += 1
        sub = f"{tag}: search integration {n}"
        if srhs is None or span is None or span.op != "seq" or y0 is None or y0.op != "seq":
            ck.open("C19.rescaled", sub, "not followed")
            continue
        k = T.subst(srhs[0], {fs[1]: ONE})
        scale[R] = (T.mul(k, T.sub(span.args[1], span.args[0])), y0.args[2])
        facts = list(c["pc"])
        for i in range(3):
            ck.eq("C19.rescaled", f"{sub}, component {i}", srhs[i], T.mul(k, rhs[i]), facts, c["site"])
        for i in (0, 1):
            ck.eq("C19.rescaled", f"{sub}, start value {i}", y0.args[i], ZERO, facts, c["site"])
    if not recs:
        if cls == "Blasius" and "fw_pp" not in given and "eta_inf" not in given and F is not None and F.op == "num" and E.op == "num":
            # tabulated wall value for the Blasius equation (White, Viscous Fluid Flow, table 4-1)
            if abs(float(F.args[0]) - 0.469600) < 1e-5 and 6 <= float(E.args[0]) <= 12:
                return ck.ok("C19.converged", f"{tag}: default values")
            return ck.bad("C19.converged", f"{tag}: default values", ck.at(cls, "__init__"),
                          f"f''(0) = {F}, eta_inf = {E}, but the wall value of the Blasius equation is 0.469600 and the layer ends beyond 6")
        return ck.open("C19.converged", tag, "no search integration seen")
    need = []
    if "fw_pp" not in given:
        need.append((1, ONE, "f''(0) search"))
    if "eta_inf" not in given:
        need.append((2, ZERO, "eta_inf search"))
    loops = [L for L in loops_in(list(r.st.facts) + [E, F]) if L in ck.e.loops]
    if any("cond" not in ck.e.loops[L] or ck.e.loops[L].get("brs") for L in loops) or \
            any(s.op in ("idx", "unk", "opq", "find") for v in (E, F) for s in T.subterms(v)):
        return ck.open("C19.converged", tag, "search loop not followed")
    for labels, leaf, (e, w) in leaves(ck, list(r.st.facts), (E, F), [], frozenset()):
        for comp, target, what in need:
            if not bound(ck, what, labels, comp, target, leaf, (e, w), scale, calc, tag):
                break


def counter(ck, t):
    """Pass counter of a loop, at its exit or in its last pass."""
    info = ck.e.loops.get(t.args[0], {})
    for loc, (v0, nv, lo) in info.get("locs", {}).items():
        if str(loc[0]) == str(t.args[1]) and loc[1] == t.args[2] and nv is not None:
            step = T.sub(nv, mk("lv", t.args[0], loc[0], loc[1]))
            return step.op == "num" and step is not ZERO
    return None


def limit(ck, d):
    """Exit by the pass counter."""
    xs = [s for s in T.subterms(d) if s.op in ("lo", "lv")]
    return bool(xs) and d.op in ("le0", "lt0", "eq0", "eq") and all(counter(ck, s) for s in xs)


def loops_in(ts, op="lo"):
    return {s.args[0] for t in ts for s in T.subterms(t) if s.op == op}


def flat(fs):
    out = []
    for f in fs:
        while f.op in ("wrapb",) or f.op == "truth" and f.args[0].op in T.BOOL_OPS:
            f = f.args[0]
        out += flat(f.args) if f.op == "and" else [f]
    return out


def leaves(ck, facts, values, labels, done, depth=12):
    """Cases of the way the search ended, with the last pass of every loop
    written out in terms of the state before it: (labels, facts, values)."""
    facts = list(dict.fromkeys(f for f in flat(facts) if f is not TRUE))
    if FALSE in facts or T.contradiction(frozenset(facts)):
        return []
    hard = frozenset(f for f in facts if f.op != "or")
    fresh = flat(f if f.op != "or" else T.assume(f, hard) for f in facts)
    if fresh != facts:
        return leaves(ck, fresh, values, labels, done, depth)
    if depth == 0:
        return [(labels, facts, values)]
    for f in facts:
        if f.op == "or" and any(s.op in ("lo", "lv") and s.args[0] in ck.e.loops for s in T.subterms(f)):
            rest = [g for g in facts if g is not f]
            out = []
            for i, d in enumerate(f.args):
                more = ["iteration limit"] if limit(ck, d) else []
                out += leaves(ck, rest + [d] + [T.not_(e) for e in f.args[:i]], values, labels + more, done, depth - 1)
            return out
    live = {L for L in loops_in(facts + list(values)) if L in ck.e.loops and L not in done}
    if not live:
        known = frozenset(facts)
        return [(labels, facts, tuple(T.assume(v, known) for v in values))]
    inner = set()
    for L in live:
        for v0, nv, lo in ck.e.loops[L]["locs"].values():
            if nv is not None and nv.op != "undef":
                inner |= loops_in([nv]) - {L}
    L = sorted(live - inner or live)[0]
    info = ck.e.loops[L]
    out = []
    if not (info.get("first") is TRUE and not info.get("brs")):
        zero = {lo: v0 for v0, nv, lo in info["locs"].values() if v0 is not None and v0.op != "undef"}
        out += leaves(ck, [T.subst(f, zero) for f in facts], tuple(T.subst(v, zero) for v in values), labels, done | {L}, depth)
    last = {lo: nv for v0, nv, lo in info["locs"].values() if nv is not None and nv.op != "undef"}
    more = [m for m in [info["cond"]] + list(info.get("end") or []) if m is not None] + equal_pairs(info, L)
    out += leaves(ck, [T.subst(f, last) for f in facts] + more, tuple(T.subst(v, last) for v in values), labels,
                  done | {L}, depth)
    return out


def equal_pairs(info, L):
    """Pairs of loop variables that are equal in every pass (by induction)."""
    vs = [(mk("lv", L, loc[0], loc[1]), v0, nv) for loc, (v0, nv, lo) in info["locs"].items()
          if v0 is not None and nv is not None and v0.op not in ("undef", "str", "none", "true", "false") and nv.op != "undef"]
    out = []
    for i, (a, a0, an) in enumerate(vs):
        for b, b0, bn in vs[i + 1:]:
            if a0 is b0:
                same = T.eq(a, b)
                known = frozenset([same])
                if T.equal(T.assume(an, known), T.assume(bn, known), [same])[0] is True:
                    out.append(same)
    return out


def bound(ck, what, labels, comp, target, facts, values, scale, site, tag):
    """Some fact bounds this residual of an integration with the final
    parameters."""
    subject = what + (" ended by its " + labels[0] if labels else "")
    mine = values[0] if comp == 2 else values[1]
    cands = []
    for f in facts:
        if f.op not in ("lt0", "le0", "eq0"):
            continue
        for s in T.subterms(f):
            if s.op == "index" and s.args[0].op == "attr" and s.args[0].args[1] == "y" and s.args[1].op == "tuple" and \
                    s.args[1].args == (num(comp), num(-1)) and s.args[0].args[0] in scale:
                cands.append((s, f))
        if f.op == "eq0" and stalled(f, mine):
            return ck.ok("C19.converged", f"{tag}: {subject}") or True
    why = "no condition on the residual of the search holds here"
    for c, f in cands:
        goal = T.lt(T.mk("abs", T.sub(c, target)), TOL)
        if T.prove(goal, [f], 1) is not True:
            why = f"the condition {str(f)[:160]} does not bound the residual"
            continue
        e, w = (T.assume(x, frozenset(facts)) for x in scale[c.args[0].args[0]])
        if T.equal(e, values[0], facts)[0] is True and T.equal(w, values[1], facts)[0] is True:
            return ck.ok("C19.converged", f"{tag}: {subject}") or True
        why = f"the converged search parameters {e}, {w} are not those of the final integration, {values[0]}, {values[1]}"
    ck.bad("C19.converged", subject, site, why)
    return False


def stalled(f, value):
    """Two successive search values coincide exactly, the last being this one."""
    t = f.args[0]
    if not all(s.op in ("lv", "lo", "add", "mul", "num", "sym", "eq0") for s in T.subterms(f)):
        return False
    # t = value - other
    other = T.sub(value, t)
    if other.op not in ("lv", "lo"):
        other = T.add(value, t)
    return other.op in ("lv", "lo") and other is not value


def run(ck):
    for cls in ANALYTIC:
        for label_, (program, given) in programs(cls).items():
            ck.unit(solution, cls, label_, program, given)

"""C02: the integration result tells what actually ended the integration.

The value graph of every field of the returned record is evaluated under each
outcome the integrator can have (failed; end of interval; exactly one of the
events handed over stopped it) and compared with what that outcome requires."""

from sa import terms as T
from sa.terms import num, ZERO, ONE, mk, NONE, TRUE, FALSE, const_str
from .common import *
from .c01 import integrations, kws, items, base, IMPORT, CLASSES, one

USER = ("from ibl.ibl_method import TermEvent, TermReason\n"
        "class Uv(TermEvent):\n"
        "    def __init__(self, g, reason, text):\n"
        "        super().__init__()\n"
        "        self.g = g\n"
        "        self.reason = reason\n"
        "        self.text = text\n"
        "    def _call_impl(self, x, f):\n"
        "        return self.g(x, f[0])\n"
        "    def event_info(self):\n"
        "        return self.reason, self.text\n"
        "u1 = Uv(g1, TermReason.TRANSITIONED, 'first user text')\n"
        "u2 = Uv(g2, TermReason.UNKNOWN, 'second user text')\n"
        "u3 = Uv(g1, TermReason.SEPARATED, '')\n")


def outcome(R, status, success, te=(), fired=None):
    """Substitution of what the integrator's record R holds in an outcome."""
    sub = {mk("attr", R, "success"): TRUE if success else FALSE, mk("attr", R, "status"): num(status)}
    # the integrator always gives a text
    sub[mk("len", mk("attr", R, "message"))] = T.add(ONE, mk("sym", "moretext", "nat"))
    sub[T.truthy(mk("attr", R, "message"))] = TRUE
    sub[T.eq(mk("attr", R, "message"), mk("str", ""))] = FALSE
    for i, t in enumerate(te):
        n = ZERO if i != fired else T.add(ONE, mk("sym", f"more{i}", "nat"))
        for z in (mk("index", mk("attr", t, "shape"), ZERO), mk("len", t), mk("attr", t, "size")):
            sub[z] = n
    return sub


def text_of(t):
    return t.args[0] if t is not None and t.op == "str" else None


def decode(ck, cls, fit, args, label):
    m = base(ck, cls, fit)
    r = m.r
    site = ck.at(cls, "solve")
    r.exec(USER)
    f = r.fork()
    n0 = len(f.calls)
    f.exec(f"res = m.solve(x0, x1{args})")
    rec = one(ck, "C02.result", f"{cls}{label}", f, n0)
    if rec is None:
        return
    R = rec["result"]
    ev, sym = items(kws(rec).get("events"))
    n = len(ev)
    if sym:
        return ck.open("C02.result", f"{cls}{label}", "event list not followed")
    te = [mk("index", mk("attr", R, "t_events"), num(i)) for i in range(n)]
    fx = f.fork
    x0, y0 = m.x0, kws(rec)["y0"]

    cache = {}

    def field(name, sub):
        if name not in cache:
            g = f.fork()
            cache[name] = g.val(name)
        return None if cache[name] is None else T.subst(cache[name], sub)

    def eq(sub, name, want, facts, alt=None):
        subject = f"{cls}{label}: {sub}, {name}"
        got = field(f"res.{name}", facts)
        want = T.subst(want, facts)
        if alt is not None and got is not None and T.equal(got, T.subst(alt, facts), [])[0] is True:
            return ck.ok("C02.result", subject)
        return ck.eq("C02.result", subject, got, want, [], site)

    def value(text, **env):
        g = f.fork()
        return g.val(text, **env)

    def message(sub, facts, texts):
        subject = f"{cls}{label}: {sub}, message"
        got = field("res.message", facts)
        parts = flat(got)
        if parts is None:
            return ck.open("C02.message", subject, "message is not followed: " + str(got)[:200])
        whole = "".join(x if isinstance(x, str) else "\0" for x in parts)
        for want in texts:
            if isinstance(want, str):
                if want not in whole:
                    return ck.bad("C02.message", subject, site, f"message {whole!r} does not contain {want!r}")
            elif not any(x is want for x in parts):
                return ck.bad("C02.message", subject, site, f"message {whole!r} does not contain {str(want)[-80:]}")
        ck.ok("C02.message", subject)

    succ = mk("attr", R, "success")
    got = field("res.success", {})
    if got is not succ:
        ck.eq("C02.result", f"{cls}{label}: success", None if got is None else T.truthy(got), T.truthy(succ), [], site)
    else:
        ck.ok("C02.result", f"{cls}{label}: success")
    # reached the end
    facts = outcome(R, 0, True, te)
    xe = mk("index", mk("attr", R, "t"), num(-1))
    sol = lambda x: mk("call", mk("attr", R, "sol"), x)   # noqa
    ylast = mk("index", mk("attr", R, "y"), mk("tuple", mk("slice_", NONE, NONE, NONE), num(-1)))
    reason = {k: value(f"TermReason.{k}") for k in ("REACHED_END", "SEPARATED", "TRANSITIONED", "UNKNOWN")}
    texts = {k: text_of(value(f"str(TermReason.{k})")) for k in reason}
    eq("end reached", "x_end", xe, facts, m.x1)
    eq("end reached", "f_end", sol(xe), facts, ylast)
    eq("end reached", "status", reason["REACHED_END"], facts)
    if texts["REACHED_END"]:
        message("end reached", facts, [texts["REACHED_END"]])
    # failed
    facts = outcome(R, -1, False, te)
    got = field("res.status", facts)
    if got is not None and got.op == "enum":
        if got.args[1] == "REACHED_END":
            ck.bad("C02.result", f"{cls}{label}: failed, status", site, "a failed integration is reported as completed")
        else:
            ck.ok("C02.result", f"{cls}{label}: failed, status")
    else:
        ck.open("C02.result", f"{cls}{label}: failed, status", str(got)[:200])
    if texts["UNKNOWN"]:
        message("failed", facts, [mk("attr", R, "message")])
    # no solution is available afterwards, and the one before is gone
    for q in ("m.delta_m(x)", "m.shape_d(x)", "m.tau_w(x, rho)", "m.v_e(x)"):
        for hist in ("", "m.solve(xa, xb)"):
            g = r.fork()
            g.exec(hist or "pass")
            if hist:
                g.assume(*[T.truthy(mk("attr", c["result"], "success")) for c in integrations(g)])
            n1 = len(g.calls)
            g.exec(f"m.solve(x0, x1{args})")
            g.assume(*[T.not_(T.truthy(mk("attr", c["result"], "success"))) for c in integrations(g, n1)])
            v = g.val(q, x=m.x, rho=m.rho)
            subject = f"{cls}{label} {q}" + (" after an earlier success" if hist else "")
            if v is None and g.st.dead:
                ck.ok("C02.failed", subject)
            else:
                ck.bad("C02.failed", subject, site, "answers after a failed integration")
    # event k fired
    for k in range(n):
        facts = outcome(R, 1, True, te, k)
        sub = f"event {k + 1} of {n}"
        t = mk("index", te[k], ZERO)
        ye = mk("index", mk("index", mk("attr", R, "y_events"), num(k)), ZERO)
        eq(sub, "x_end", t, facts)
        eq(sub, "f_end", sol(t), facts, ye)
        info = value("ev.event_info()", ev=ev[k])
        if info is None or info.op != "tuple":
            ck.open("C02.result", f"{cls}{label}: {sub}", "event information not followed")
            continue
        eq(sub, "status", info.args[0], facts)
        name = info.args[0].args[1] if info.args[0].op == "enum" else None
        want = [x for x in (texts.get(name), text_of(info.args[1])) if x]
        message(sub, facts, want)
    # solution present after success
    for st in (0, 1):
        g = f.fork()
        g.assume(T.truthy(succ), T.eq(mk("attr", R, "status"), num(st)))
        v = g.val("m.delta_m(x)", x=m.x)
        if v is None:
            ck.bad("C02.solution", f"{cls}{label} status {st}", site, "no solution after a successful integration")
        else:
            c = [s for s in T.subterms(v) if s.op == "attr" and s.args[1] == "sol" and s.args[0] is R]
            if c:
                ck.ok("C02.solution", f"{cls}{label} status {st}")
            else:
                ck.bad("C02.solution", f"{cls}{label} status {st}", site, "the stored solution is not the integrator's")


def flat(t):
    """Parts of a text term: strings and opaque pieces."""
    if t is None:
        return None
    if t.op == "str":
        return [t.args[0]]
    if t.op in ("fmt", "concat", "strcat", "add", "fstr", "cat"):
        out = []
        for a in t.args:
            p = flat(a) if hasattr(a, "op") else [str(a)]
            if p is None:
                return None
            out += p
        return out
    if t.op == "strof":
        return flat(t.args[0]) or [t.args[0]]
    if t.op in ("attr", "sym", "call", "index"):
        return [t]
    return None


def terminal(ck):
    """Every termination event stops the integration in both directions."""
    r = ck.run()
    g1, g2 = r.sym("g1", "callable"), r.sym("g2", "callable")
    r.exec(USER, g1=g1, g2=g2)
    check_terminal(ck, r, r.var("u1"), "event of the user", "TermEvent")
    for cls, fit in CLASSES:
        m = base(ck, cls, fit)
        f = m.r.fork()
        n = len(f.calls)
        f.exec("m.solve(x0, x1)")
        rec = one(ck, "C02.terminal", cls, f, n)
        if rec is None:
            continue
        for i, e in enumerate(items(kws(rec).get("events"))[0]):
            check_terminal(ck, f, e, f"{cls} event {i + 1}", cls)


def check_terminal(ck, run, ev, subject, cls):
    t = run.e.type_of(ev, run.st)
    site = ck.at(t, "__init__") if t is not None else cls
    g = run.fork()
    v = g.val("ev.terminal", ev=ev)
    if v is None or v.op == "attr":
        return ck.bad("C02.terminal", subject, site, "the event has no terminal mark")
    ck.holds("C02.terminal", subject, T.truthy(v), [], site, "the event does not stop the integration")
    g = run.fork()
    d = g.val("getattr(ev, 'direction', 0)", ev=ev)
    if d is not None and d.op == "num" and d is not ZERO:
        ck.bad("C02.terminal", subject + " direction", site, "the event ignores crossings from one side")
    else:
        ck.ok("C02.terminal", subject + " direction")


def texts(ck):
    r = ck.run()
    r.exec("from ibl.ibl_method import TermReason")
    cls = ck.e.class_named("TermReason")
    site = ck.at(cls, "__str__")
    seen = {}
    vals = {}
    for name, val in ck.e.enums.get(cls.qual, ()):
        if val is not None and val in vals:
            ck.bad("C02.text", name, site, f"same code as {vals[val]}")
        vals[val] = name
    for name, val in ck.e.enums.get(cls.qual, ()):
        t = r.fork().val(f"str(TermReason.{name})")
        if t is None or t.op != "str":
            ck.open("C02.text", name, "text not constant: " + str(t)[:100])
            continue
        s = t.args[0]
        if not s.strip() or "Invalid" in s or s in seen or s.isdigit():
            ck.bad("C02.text", name, site, f"text {s!r} does not identify the reason" +
                   (f" (also {seen[s]})" if s in seen else ""))
        else:
            seen[s] = name
            ck.ok("C02.text", name)


def record(ck):
    """The record returns what it was given."""
    r = ck.run()
    names = ("x_end", "f_end", "status", "message", "success")
    env = {n: r.sym(n + "0") for n in names}
    r.exec("from ibl.ibl_method import IntegrationResult\nres = IntegrationResult(" +
           ", ".join(f"{n}={n}" for n in names) + ")", **env)
    for n in names:
        ck.eq("C02.record", n, r.fork().val(f"res.{n}"), env[n], [], ck.at("IntegrationResult", n))


def run(ck):
    for cls, fit in CLASSES:
        for args, label in (("", ""), (", u1", " with an event"), (", [u1, u2]", " with two events"),
                            (", [u2, u3, u1]", " with three events")):
            ck.unit(decode, cls, fit, args, label)
    ck.unit(terminal)
    ck.unit(texts)
    ck.unit(record)

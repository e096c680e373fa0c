"""C17: experimental reference data is presented in SI units, fully checked.

A station, the smoothed velocities and a case are read from symbolic lines.  The
value graph of every reported quantity is compared with its own column times the
conversion factor of the unit system, and every agreement between redundant columns
must follow from the conditions of normal exit of the constructor."""

from sa import terms as T, seqs as S, ident
from sa.terms import mk, num, ZERO, ONE
from .common import *

FT, IN = num("0.3048"), num("0.0254")
SUMM = ("x", "ui", "dui", "theta", "h", "hs", "g", "cf", "cflt", "cfe", "beta")
STAT = ("x", "us", "ui", "v", "theta", "dels", "enth", "clth", "h", "g", "hs", "rtheta", "rdels")
ROW = ("yplus", "uplus", "y", "uoui", "ycd", "udef")
LENGTH, SMALL, SPEED = ("x",), ("theta", "dels", "enth", "clth", "y"), ("ui", "us")
POSITIVE = ("ui", "theta", "h", "hs", "g", "cf", "us", "v", "dels", "enth", "clth", "rtheta", "rdels")
NAMES = (True, "SI"), (False, "US")


def factor(q, si):
    """What one unit of the column is in SI units."""
    if q in SMALL:
        return num("0.01") if si else IN
    if q in LENGTH or q in SPEED:
        return ONE if si else FT
    if q == "v":
        return num("0.0001") if si else T.mul(FT, FT)
    return ONE


class Columns:
    """Plain symbols for the columns of a line."""

    def __init__(self, r, line, names, si, tag):
        self.raw, self.si = {}, {}
        self.sub = {}
        self.facts = []
        for i, q in enumerate(names):
            t = r.fork().val(f"float(zz.split()[{i}])", zz=line)
            p = r.sym(f"{q}_{tag}", "float")
            self.sub[t] = p
            self.raw[q] = p
            self.si[q] = T.mul(factor(q, si), p)
            self.facts += [T.not_(T.eq(INF, p)), T.not_(T.eq(INF, self.si[q]))]
            if q in POSITIVE:
                self.facts.append(T.lt(ZERO, p))
            elif q not in ("x", "dui", "beta", "cflt", "cfe"):
                self.facts.append(T.le(ZERO, p))

    def __getitem__(self, q):
        return self.si[q]


def sqrt_half(cf):
    return T.power(T.mul(num("0.5"), cf), num("0.5"))


def plainly(t, sub, conds):
    """The value in terms of the plain symbols."""
    if t is None:
        return None
    for _ in range(3):
        t = T.assume(T.subst(t, sub), conds)
    return t


def clean(facts, sub, conds):
    out = []
    for f in facts:
        f = plainly(f, sub, conds)
        for g in (f.args if f.op == "and" else (f,)):
            if g is not T.TRUE and all(s.op not in ("split", "len", "str") for s in T.subterms(g)):
                out.append(g)
    return out


class Reading:
    """A station read from symbolic lines, in terms of its columns."""

    def __init__(self, ck, si, name, count):
        self.ck, self.si = ck, si
        st = self.st = Station(ck, si, summary_only=count is None, count=count)
        self.name = f"{name}, {'summary only' if count is None else f'{count} samples'}"
        self.alive = not st.r.st.dead
        if not self.alive:
            return
        r = st.r
        self.sub, pos, self.conds = {}, [], []
        self.summ = Columns(r, st.summ, SUMM, si, "summary")
        groups = [self.summ]
        if count is not None:
            self.stat = Columns(r, st.stat, STAT, si, "station")
            self.rows = [Columns(r, x, ROW, si, f"sample{i}") for i, x in enumerate(st.rows.args)]
            groups += [self.stat] + self.rows
            self.conds.append(T.not_(T.eq(T.const_str(""), st.stat)))
        for g in groups:
            self.sub.update(g.sub)
            pos += g.facts
        self.conds = frozenset(self.conds + pos)
        self.pos = pos
        self.accepted = clean(st.r.st.facts, self.sub, self.conds)

    def value(self, text):
        return plainly(self.st.q(text), self.sub, self.conds)

    def eq(self, rule, text, want, site):
        got = self.value(text)
        subject = f"{text}: {self.name}"
        if got is not None and any(s.op in ("unk", "opq", "find", "nextor", "rest", "split", "uninit") for s in T.subterms(got)):
            # another line or column, or not followed
            if any(s.op in ("unk", "opq", "find", "nextor", "rest") for s in T.subterms(got)):
                return self.ck.open(rule, subject, "not followed")
        self.ck.eq(rule, subject, got, want, self.pos, site)

    def agree(self, what, diff, tol, site, defined):
        """Accepted only when the two agree within the tolerance."""
        tol, subject = num(tol), f"{what}: {self.name}"
        facts = self.pos + self.accepted + halves(self.accepted)
        if all(T.prove(T.le(d, tol), facts, 1) is True for d in (diff, T.neg(diff))):
            return self.ck.ok("C17.checked", subject)
        for k in ("1.01", "-1.01", "1.5", "-1.5", "4", "-4", "30", "-30"):
            p = self.witness(defined, T.mul(num(k), tol))
            try:
                if all(p.cond(f) is True for f in self.accepted) and p.cond(T.le(T.tabs(diff), tol)) is False:
                    return self.ck.bad("C17.checked", subject, site, f"data with a mismatching {what} is accepted",
                                       {"off by": str(T.mul(num(k), tol)), "point": {str(s): str(v) for s, v in p.memo.items() if s.op == "sym"}})
            except ident.Undefined:
                pass
        self.ck.open("C17.checked", subject, "not implied by the conditions of acceptance")

    def witness(self, defined, off):
        """Consistent data, but for one column off its implied value."""
        groups = {"a": self.summ, "b": self.stat}
        groups.update({f"c{i}": c for i, c in enumerate(self.rows)})
        si, forced = {}, {}

        def give(key, text):
            g, q = key.split(".")
            v = ident.Point(1, {}, forced).num(num(text) if isinstance(text, str) else text(si))
            if key == defined:
                v += ident.Point(1, {}).num(off)
            forced[groups[g].raw[q]] = v / ident.Point(1, {}).num(factor(q, self.si))
            si[key] = groups[g][q]
        for key, text in CONSISTENT.items():
            if key.startswith("c."):
                continue
            give(key, text)
        for i in range(len(self.rows)):
            for key, text in CONSISTENT.items():
                if key.startswith("c."):
                    k = f"c{i}." + key[2:]
                    if isinstance(text, str):
                        give(k, text)
                    else:
                        give(k, lambda s, text=text, i=i: text({**s, **{"c." + q[len(f"c{i}."):]: v for q, v in s.items()
                                                                       if q.startswith(f"c{i}.")}}))
        return ident.Point(1, {}, forced)


def halves(facts):
    """|u| + rest <= 0 implies the same of u and of -u."""
    out = []
    for f in facts:
        if f.op in ("lt0", "le0"):
            for a in T.subterms(f):
                if a.op == "abs" and a not in T.subterms(T.sub(f.args[0], a)):
                    out += [T.subst(f, {a: a.args[0]}), T.subst(f, {a: T.neg(a.args[0])})]
    return out


# columns of consistent data in SI units, in terms of those before them
CONSISTENT = {
    "a.x": "2", "a.ui": "30", "a.dui": "0.5", "a.theta": "0.05", "a.h": "1.4", "a.hs": "1.7", "a.g": "7", "a.cf": "0.003",
    "a.cflt": "0.003", "a.cfe": "0.003", "a.beta": "1",
    "b.x": lambda s: s["a.x"], "b.ui": lambda s: s["a.ui"], "b.theta": lambda s: s["a.theta"], "b.h": lambda s: s["a.h"],
    "b.hs": lambda s: s["a.hs"], "b.g": lambda s: s["a.g"], "b.dels": lambda s: T.mul(s["a.h"], s["a.theta"]),
    "b.enth": lambda s: T.mul(s["a.hs"], s["a.theta"]), "b.v": "0.0001", "b.clth": "0.01",
    "b.us": lambda s: T.mul(s["a.ui"], sqrt_half(s["a.cf"])),
    "b.rtheta": lambda s: T.div(T.mul(s["a.ui"], s["b.theta"]), s["b.v"]),
    "b.rdels": lambda s: T.div(T.mul(s["a.ui"], s["b.dels"]), s["b.v"]),
    "c.y": "0.02", "c.uoui": "0.6",
    "c.yplus": lambda s: T.div(T.mul(s["c.y"], s["b.us"]), s["b.v"]),
    "c.ycd": lambda s: T.div(s["c.y"], s["b.clth"]),
    "c.uplus": lambda s: T.div(T.mul(s["c.uoui"], s["b.ui"]), s["b.us"]),
    "c.udef": lambda s: T.div(T.sub(s["b.ui"], T.mul(s["c.uoui"], s["b.ui"])), s["b.us"]),
}
CHECKS = {   # name: column, tolerance
    "streamwise coordinate": ("b.x", "0.002"), "edge velocity": ("b.ui", "0.06"), "momentum thickness": ("b.theta", "0.002"),
    "displacement shape factor": ("b.h", "0.002"), "kinetic energy shape factor": ("b.hs", "0.002"),
    "equilibrium shape factor": ("b.g", "0.002"), "displacement thickness": ("b.dels", "0.005"),
    "kinetic energy thickness": ("b.enth", "0.005"), "displacement thickness Reynolds number": ("b.rdels", "5"),
    "momentum thickness Reynolds number": ("b.rtheta", "5"), "friction velocity": ("b.us", "0.005"),
    "y+": ("c.yplus", "1"), "Clauser distance": ("c.ycd", "0.5"), "u+": ("c.uplus", "0.5"), "defect velocity": ("c.udef", "0.5"),
}
CLS = "StanfordOlympics1968StationData"


def stations(ck, si, name, count):
    d = Reading(ck, si, name, count)
    site = ck.at(CLS, "reset")
    if not d.alive:
        return ck.bad("C17.column", d.name, site, "a valid station cannot be read")
    a = d.summ
    own = {"x": a["x"], "u_e": a["ui"], "du_e": a["dui"], "delta_m": a["theta"], "shape_d": a["h"], "shape_k": a["hs"],
           "shape_eq": a["g"], "c_f": a["cf"], "c_f_lt": a["cflt"], "c_f_exp": a["cfe"], "beta_eq": a["beta"],
           "delta_d": T.mul(a["h"], a["theta"]), "delta_k": T.mul(a["hs"], a["theta"]),
           "u_star": T.mul(a["ui"], sqrt_half(a["cf"]))}
    if count is not None:
        b = d.stat
        own.update({"x": b["x"], "u_star": b["us"], "u_e": b["ui"], "nu": b["v"], "delta_m": b["theta"],
                    "delta_d": b["dels"], "delta_k": b["enth"], "delta_c": b["clth"], "shape_d": b["h"],
                    "shape_eq": b["g"], "shape_k": b["hs"], "re_delta_m": b["rtheta"], "re_delta_d": b["rdels"]})
    for q, want in own.items():
        d.eq("C17.column", f"s.{q}", want, site)
    d.eq("C17.column", "s.sample_count()", num(count or 0), site)
    if count is None:
        return
    for i, c in enumerate(d.rows):
        for q, want in (("y", c["y"]), ("y_plus", c["yplus"]), ("y_c", c["ycd"]), ("u", T.mul(c["uoui"], b["ui"])),
                        ("u_plus", c["uplus"]), ("u_defect", c["udef"])):
            d.eq("C17.column", f"s.{q}[{i}]", want, site)
    for i, c in enumerate(d.rows):
        cols = {f"{g}.{q}": cs[q] for g, cs in (("a", a), ("b", b), ("c", c)) for q in cs.raw}
        for what, (key, tol) in CHECKS.items():
            g, q = key.split(".")
            if g == "c" or i == 0:
                d.agree(what if g != "c" else f"{what} of sample {i}", T.sub(cols[key], CONSISTENT[key](cols)), tol, site,
                        key if g != "c" else f"c{i}.{q}")


def smooth(ck, si, name, count):
    r = ck.run()
    lines = [r.sym(f"line{i}", "str") for i in range(count)] if count is not None else None
    data = r.sym("data", "list") if lines is None else mk("seq", *lines)
    r.exec("from ibl.reference._stanford_1968_station import StanfordOlympics1968SmoothVel as V\n"
           f"v = V({si}, data)", data=data)
    site = ck.at("StanfordOlympics1968SmoothVel", "reset")
    tag = f"{name}, {count if count is not None else 'any number of'} lines"
    if r.st.dead:
        return ck.bad("C17.column", tag, site, "valid smoothed velocities cannot be read")
    if lines is None:
        k = r.sym("k", "int")
        facts = [T.le(ZERO, k), T.lt(k, S.length(data))]
        r.assume(*facts)
        pairs = [(mk("index", data, k), "[k]", dict(k=k))]
    else:
        pairs = [(x, f"[{i}]", {}) for i, x in enumerate(lines)]
    for line, at, env in pairs:
        c = Columns(r, line, ("x", "ui", "dui"), si, "line")
        for q, name_ in (("x", "x"), ("ui", "u_e"), ("dui", "du_e")):
            got = plainly(r.fork().val(f"v.{name_}{at}", **env), c.sub, frozenset(c.facts))
            ck.eq("C17.column", f"smoothed {name_}{at}: {tag}", got, c[q], c.facts, site)
    ck.eq("C17.column", f"size: {tag}", r.fork().val("v.size()"), S.length(data), list(r.st.facts), site)


ACCESSORS = ("x", "u_e", "du_e", "delta_d", "delta_m", "delta_k", "delta_c", "shape_d", "shape_k", "shape_eq", "c_f",
             "c_f_lt", "c_f_exp", "beta_eq", "u_star", "nu", "re_delta_d", "re_delta_m")
SAMPLES = ("y", "y_plus", "y_c", "u", "u_plus", "u_defect")


def refilled(ck):
    """Records that held other data before."""
    r = ck.run()
    names = ("a", "b", "c", "d")
    r.exec("from ibl.reference import StanfordOlympics1968StationData as S\n"
           "from ibl.reference._stanford_1968_station import StanfordOlympics1968SmoothVel as V")
    t = {n: r.sym(n, "str") for n in names}
    for n in ("b", "d"):
        r.assume(T.not_(T.eq(T.const_str(""), t[n])))
    rows = {n: r.sym(n, "list") for n in ("e", "f")}
    queries = ACCESSORS + SAMPLES + ("sample_count()",)
    for before, old in (("a full station", "True, a, b, e"), ("a summary", "False, a, '', []")):
        for after, new in (("another in SI", "True, c, d, f"), ("another in US", "False, c, d, f"),
                           ("a summary in SI", "True, c, '', []"), ("a summary in US", "False, c, '', []")):
            ck.unit(refill, "C17.refill", f"{CLS}: {before}, then {after}", ck.at(CLS, "reset"), r, "S", old, new, queries,
                    **t, **rows)
    site = ck.at("StanfordOlympics1968SmoothVel", "reset")
    for after, new in (("others in SI", "True, f"), ("others in US", "False, f"), ("nothing", "True, []")):
        ck.unit(refill, "C17.refill", f"smoothed velocities, then {after}", site, r, "V", "True, e", new,
                ("x", "u_e", "du_e", "size()"), **rows)


# file layouts: stations, smoothed velocities, station summaries, samples of each station
LAYOUTS = ((2, 2, False, None), (2, 1, True, None), (2, 2, True, (1, 2)), (1, 3, True, (2,)))


def case_file(ck, r, case, layout):
    """A data file of symbolic lines: (viscosity, summary, smooth, stations, samples)."""
    n, k, summaries, samples = layout
    C = T.const_str

    def body(name):
        b = r.sym(name, "str")
        ck.e.bodies.add(b)
        r.assume(T.not_(T.eq(C(""), b)), T.not_(T.eq(mk("index", b, ZERO), C("#"))))
        return b
    v = body("viscosity")
    line = lambda b: mk("fmt", b, C("\n"))      # noqa
    blank = C("\n")
    out = [C("# title\n"), C(f"IDENT = {case}\n"), mk("fmt", C("V = "), v, blank), blank, C("# Summary\n"), C("# X UI\n")]
    a = [body(f"summary{i}") for i in range(n)]
    out += [line(b) for b in a] + [blank, C("# Edge velocity\n"), C("# X UI\n")]
    e = [body(f"smooth{i}") for i in range(k)]
    out += [line(b) for b in e] + [blank]
    s, rows = [], []
    if summaries:
        s = [body(f"station{i}") for i in range(n)]
        out += [C("# Stations\n"), C("# X US\n")] + [line(b) for b in s] + [blank]
    for i, m in enumerate(samples or ()):
        rows.append([body(f"row{i}_{j}") for j in range(m)])
        out += [C(f"# Station {i}\n"), C("# Y U\n")] + [line(b) for b in rows[-1]] + [blank]
    ck.e.files["*"] = mk("seq", *out)
    return v, a, e, s, rows


def empty(ck):
    r = ck.run()
    r.exec("from ibl.reference import StanfordOlympics1968 as A\no = A()")
    for q in [q + "_smooth" for q in ("x", "u_e", "du_e")] + list(ACCESSORS):
        array(ck, "C17.array", f"o.{q}() without data", ck.at("StanfordOlympics1968", q), r, f"o.{q}()")


def cases(ck, case, si, name, layout):
    r = ck.run()
    ck.e.files.clear()
    ck.e.bodies.clear()
    v, a, e, s, rows = case_file(ck, r, case, layout)
    try:
        one_case(ck, r, case, si, f"{name}, layout {layout}", v, a, e, s, rows)
    finally:
        ck.e.files.clear()
        ck.e.bodies.clear()


def followed(t):
    return t is not None and not any(q.op in ("unk", "opq", "find", "nextor", "rest", "lo", "uninit", "joined", "strip", "fmt",
                                              "split") for q in T.subterms(t))


def one_case(ck, r, case, si, tag, v, a, e, s, rows):
    r.exec(f"from ibl.reference import StanfordOlympics1968 as A\no = A('{case}')")
    site = ck.at("StanfordOlympics1968", "case")
    if r.st.dead:
        return ck.open("C17.case", tag, "loading not followed")
    sub, pos = {}, []

    def columns(b, names, name):
        c = Columns(r, b, names, si, name)
        sub.update(c.sub)
        pos.extend(c.facts)
        return c
    A = [columns(b, SUMM, f"summary{i}") for i, b in enumerate(a)]
    E = [columns(b, ("x", "ui", "dui"), f"smooth{i}") for i, b in enumerate(e)]
    S_ = [columns(b, STAT, f"station{i}") for i, b in enumerate(s)]
    R = [[columns(b, ROW, f"row{i}_{j}") for j, b in enumerate(g)] for i, g in enumerate(rows)]
    nu = r.sym("nu_column", "float")
    sub[r.fork().val("float(zz)", zz=v)] = nu
    pos.append(T.lt(ZERO, nu))
    conds = frozenset(pos) | frozenset(f for f in r.st.facts if f.op == "not" and f.args[0].op == "eq")

    def eq(text, want):
        got = plainly(r.fork().val(text), sub, conds)
        subject = f"{text}: {tag}"
        if not followed(got):
            return ck.open("C17.case", subject, f"not followed: {got}"[:300])
        ck.eq("C17.case", subject, got, want, pos, site)

    eq("o.nu_ref", T.mul(factor("v", si), nu))
    eq("o.station_count()", num(len(A)))
    for q in [q + "_smooth()" for q in ("x", "u_e", "du_e")] + [q + "()" for q in ACCESSORS] + \
            [q + "(0)" for q in SAMPLES]:
        array(ck, "C17.array", f"o.{q}: {tag}", site, r, "o." + q)
    for q, col in (("x", "x"), ("u_e", "ui"), ("du_e", "dui")):
        eq(f"len(o.{q}_smooth())", num(len(E)))
        for i, c in enumerate(E):
            eq(f"o.{q}_smooth()[{i}]", c[col])
    for i, c in enumerate(A):
        b = S_[i] if S_ else None
        want = {"x": c["x"], "u_e": c["ui"], "du_e": c["dui"], "delta_m": c["theta"], "shape_d": c["h"], "shape_k": c["hs"],
                "shape_eq": c["g"], "c_f": c["cf"], "c_f_lt": c["cflt"], "c_f_exp": c["cfe"], "beta_eq": c["beta"],
                "delta_d": T.mul(c["h"], c["theta"]), "delta_k": T.mul(c["hs"], c["theta"]),
                "u_star": T.mul(c["ui"], sqrt_half(c["cf"]))}
        if b is not None:
            want.update({"x": b["x"], "u_star": b["us"], "u_e": b["ui"], "nu": b["v"], "delta_m": b["theta"],
                         "delta_d": b["dels"], "delta_k": b["enth"], "delta_c": b["clth"], "shape_d": b["h"],
                         "shape_eq": b["g"], "shape_k": b["hs"], "re_delta_m": b["rtheta"], "re_delta_d": b["rdels"]})
        for q in ACCESSORS:
            if q in want:
                eq(f"o.{q}()[{i}]", want[q])
                eq(f"o.station({i}).{q}", want[q])
        for j, d in enumerate(R[i] if R else ()):
            ws = {"y": d["y"], "y_plus": d["yplus"], "y_c": d["ycd"], "u": T.mul(d["uoui"], b["ui"]), "u_plus": d["uplus"],
                  "u_defect": d["udef"]}
            for q in SAMPLES:
                eq(f"o.{q}({i})[{j}]", ws[q])
        eq(f"o.station({i}).sample_count()", num(len(R[i]) if R else 0))
    # a file of another case is refused
    f = r.fork()
    f.exec("o.case = '1777'")
    if f.st.dead:
        ck.ok("C17.checked", f"case number: {tag}")
    else:
        ck.bad("C17.checked", f"case number: {tag}", site, "a file with the number of another case is accepted")


def run(ck):
    for si, name in NAMES:
        ck.unit(stations, si, name, None)
        ck.unit(stations, si, name, 2)
        if ck.tier != "quick":
            ck.unit(stations, si, name, 1)
            ck.unit(stations, si, name, 3)
        ck.unit(smooth, si, name, None)
        ck.unit(smooth, si, name, 2)
    ck.unit(refilled)
    ck.unit(empty)
    for case, si, name in (("1100", True, "SI"), ("2100", False, "US")):
        for layout in LAYOUTS:
            ck.unit(cases, case, si, name, layout)

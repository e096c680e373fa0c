"""Models of the analysed objects shared by the rules: every solver, similarity
solution and initial condition is built by abstractly interpreting a client
program over the public API with symbolic inputs."""

from sa import terms as T
from sa.terms import mk, num, NONE, ZERO, ONE, TRUE, FALSE, INF
from sa.driver import Run

SOLVERS = {"ThwaitesMethodLinear": "ibl.thwaites_method",
           "ThwaitesMethodNonlinear": "ibl.thwaites_method",
           "HeadMethod": "ibl.head_method"}
LAMINAR = ("ThwaitesMethodLinear", "ThwaitesMethodNonlinear")
FITS = ("Spline", "White", "Cebeci-Bradshaw", "Drela")
ANALYTIC = {"Blasius": "ibl.analytic", "FalknerSkan": "ibl.analytic"}


def call(f, *a):
    return mk("call", f, *a)


class Model:
    """A solver with symbolic viscosity, velocity functions and, when asked,
    a stored solution."""

    def __init__(self, ck, cls, fit=None, velocity=True, solved=True, ic=None, asm=True):
        self.ck, self.cls = ck, cls
        r = self.r = ck.run()
        self.nu = r.sym("nu", "float")
        self.x = r.sym("x")
        self.rho = r.sym("rho", "float")
        self.ue, self.due, self.d2ue = (r.sym(n, "callable") for n in ("ue", "due", "d2ue"))
        r.positive(self.nu, self.rho)
        vel = ", ue, due, d2ue" if velocity else ""
        extra = ""
        env = dict(nu=self.nu, ue=self.ue, due=self.due, d2ue=self.d2ue)
        if fit == "custom":
            self.shear, self.shape, self.shape_p = (r.sym(n, "callable") for n in ("S", "H", "Hp"))
            env.update(S=self.shear, H=self.shape, Hp=self.shape_p)
            extra = ", data_fits=(S, H, Hp)"
        elif fit == "custom2":
            self.shear, self.shape = (r.sym(n, "callable") for n in ("S", "H"))
            env.update(S=self.shear, H=self.shape)
            extra = ", data_fits=(S, H)"
        elif fit is not None:
            extra = f", data_fits={fit!r}"
        r.exec(f"from {SOLVERS[cls]} import {cls}\nm = {cls}(nu{vel}{extra})", **env)
        self.fit = fit
        self.m = r.var("m")
        if ic:
            r.exec(ic)
        self.solution = None
        if solved:
            x0, x1 = r.sym("x0", "float"), r.sym("x1", "float")
            self.x0, self.x1 = x0, x1
            r.exec("res = m.solve(x0, x1)", x0=x0, x1=x1)
            self.res = r.var("res")
            if asm:
                s = r.val("res.success")
                if s is not None:
                    r.assume(T.truthy(s))
                    self.success = s
        self.pos = []

    def facts(self):
        return list(self.r.st.facts)

    def q(self, text, **env):
        """Value of a query over m, x, rho in a fork of the state."""
        f = self.r.fork()
        self.last = f
        v = f.val(text, x=self.x, rho=self.rho, **env)
        return v

    def qf(self, text, **env):
        """(value, facts at its normal exit)."""
        f = self.r.fork()
        self.last = f
        v = f.val(text, x=self.x, rho=self.rho, **env)
        return v, list(f.st.facts)

    # the integration handed to the integrator
    def solver_calls(self):
        return [c for c in self.r.calls if c[0] == "scipy.integrate.solve_ivp"]


def subst_calls(t, fn_term, build):
    """Replace every call of fn_term(args) in t by build(args)."""
    memo = {}

    def go(s):
        r = memo.get(s)
        if r is None:
            r = T.rebuild(s, go)
            if r.op == "call" and r.args[0] is fn_term:
                r = build(*r.args[1:])
            memo[s] = r
        return r
    return go(t)


def find(t, pred):
    return [s for s in sorted(T.subterms(t)) if pred(s)]


def solver_call(t):
    """The solve_ivp call nodes inside a value."""
    return find(t, lambda s: s.op == "call" and s.args[0].op == "ext"
                and s.args[0].args[0] == "scipy.integrate.solve_ivp")


def canon(t, name="integration"):
    """The integrator's result as one symbol (its arguments are compared apart)."""
    if t is None:
        return None
    m = {c: mk("call", mk("ext", "integration"), T.const_str(name)) for c in solver_call(t)}
    return T.subst(t, m) if m else t


def kwarg(call_term, name):
    for a in call_term.args[1:]:
        if a.op == "kw" and a.args[0] == name:
            return a.args[1]
    return None


class Similarity:
    """A similarity solution with symbolic parameters."""

    def __init__(self, ck, cls, search=False):
        self.ck, self.cls = ck, cls
        r = self.r = ck.run()
        # beta = 2 - c with c > 0 (beta = 2 is the limit m = inf)
        self.uref, self.nuref = (r.sym(n, "float") for n in ("u_ref", "nu_ref"))
        self.c = r.sym("c", "float")
        self.beta = T.sub(num(2), self.c)
        if cls == "FalknerSkan":
            r.positive(self.c)
        self.x, self.y, self.rho = r.sym("x"), r.sym("y"), r.sym("rho", "float")
        r.positive(self.rho)
        env = dict(beta=self.beta, u_ref=self.uref, nu_ref=self.nuref)
        extra = ""
        if not search:
            self.fw, self.einf = r.sym("fw_pp", "float"), r.sym("eta_inf", "float")
            env.update(fw=self.fw, einf=self.einf)
            extra = ", fw_pp=fw, eta_inf=einf"
        head = "beta, " if cls == "FalknerSkan" else ""
        r.exec(f"from ibl.analytic import {cls}\ns = {cls}({head}u_ref, nu_ref{extra})", **env)
        self.s = r.var("s")
        self.alive = not r.st.dead
        if cls == "FalknerSkan":
            self.b = self.beta
        else:
            self.b = ZERO

    def q(self, text, **env):
        f = self.r.fork()
        self.last = f
        return f.val(text, x=self.x, y=self.y, rho=self.rho, **env)

    def facts(self):
        return list(self.r.st.facts) + [T.lt(ZERO, self.x)]


class Station:
    """An experimental station read from symbolic text rows."""

    def __init__(self, ck, si, summary_only=False, count=None):
        r = self.r = ck.run()
        self.si = si
        self.summ, self.stat, self.rows = r.sym("summ", "str"), r.sym("stat", "str"), r.sym("rows", "list")
        if count is not None:
            self.rows = mk("seq", *[r.sym(f"row{i}", "str") for i in range(count)])
        if summary_only:
            self.stat = T.const_str("")
            self.rows = mk("seq")
        r.exec("from ibl.reference import StanfordOlympics1968StationData as S\n"
               f"s = S({si}, a, b, c)" if not summary_only else
               "from ibl.reference import StanfordOlympics1968StationData as S\n"
               f"s = S({si}, a, '', [])", a=self.summ, b=self.stat, c=self.rows)
        self.s = r.var("s")
        if not summary_only:
            r.assume(T.not_(T.eq(T.const_str(""), self.stat)))

    def q(self, text, **env):
        f = self.r.fork()
        self.last = f
        return f.val(text, **env)

    def facts(self):
        """Facts at the exit; numbers read from the rows are finite."""
        out = list(self.r.st.facts)
        return out


def finite(*ts):
    return [T.not_(T.eq(INF, t)) for t in ts]


def refill(ck, rule, subject, site, run, make, old, new, names, **env):
    """A record filled a second time holds what a new record of the same data holds:
    make is the class with the argument lists old and new."""
    f = run.fork()
    f.bind(**env)
    f.exec(f"was = {make}({old})\nwas.reset({new})\nnew = {make}({new})")
    if f.st.dead:
        return ck.open(rule, subject, "no normal exit")
    for q in names:
        got, want = f.fork().val("was." + q), f.fork().val("new." + q)
        if got is not None and want is not None and stale(got, want, env, old, new):
            ck.bad(rule, f"{subject}: {q}", site, f"still holds {str(got)[:120]} of the data before")
            continue
        ck.eq(rule, f"{subject}: {q}", got, want, list(f.st.facts), site)
    return None


def stale(got, want, env, old, new):
    """got is computed from the old data alone, want is not."""
    words = lambda s: {env[w.strip()] for w in s.split(",") if w.strip() in env}    # noqa
    gone = words(old) - words(new)
    leaves = lambda t: {x for x in T.subterms(t) if x.op == "sym"}      # noqa
    return bool(leaves(got)) and leaves(got) <= gone and not leaves(want) & gone


def array(ck, rule, subject, site, run, text):
    """The value is an array, so that arithmetic on it is elementwise."""
    f = run.fork()
    f.exec("zz_array = " + text)
    if f.st.dead:
        return None
    v = f.var("zz_array")
    o = f.st.heap.get(v.args[0]) if v.op == "ref" else None
    if o is not None and o.kind == "list" or v.op == "tuple":
        return ck.bad(rule, subject, site, "gives a list instead of an array")
    return ck.ok(rule, subject)

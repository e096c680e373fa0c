"""Loop transfer: unrolling of literal sequences, otherwise havoc of the
modified locations and summarisation of the recognised update shapes."""

import ast

from . import terms as T
from . import seqs as S
from .terms import mk, num, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, ite, is_num
from .engine import Dead, Obj, State, Frame, LoopFrame, UNROLL


def lvs_in(t, L):
    return [x for x in T.subterms(t) if x.op == "lv" and x.args[0] == L]


class Loops:
    # ------------------------------------------------------------- drivers
    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)

        def bind(state, v):
            self.assign(s.target, v, state, fr, s)

        def body(state):
            self.exec_block(s.body, state, fr)
        br = self.iterate(it, bind, body, st, fr, s)
        self.loop_else(s, br, st, fr)

    def loop_else(self, s, br, st, fr):
        if br is None:
            self.exec_block(s.orelse, st, fr)
            return
        # br: condition under which the loop was left by break (state merged)
        if s.orelse:
            c, bst = br
            if not st.dead:
                self.exec_block(s.orelse, st, fr)
            m = self.merge(bst, st, c) if not st.dead else bst
            st.become(m)
        else:
            c, bst = br
            if st.dead:
                st.become(bst)
            elif not bst.dead:
                st.become(self.merge(bst, st, c))

    def iterate(self, it, bind, body, st, fr, node):
        """Run body for every element.  Returns None (no break possible) or
        (condition, state) for the exits by break; st holds the exhaustion
        exit."""
        if it.op in ("ref", "iref"):
            it = self.seq_value(it, st)
        if it.op == "ite":
            c, a, b = it.args
            sa, sb = st.copy(), st.copy()
            sa.assume(c)
            sb.assume(T.not_(c))
            ra = rb = None
            if not sa.dead:
                ra = self.iterate(a, bind, body, sa, fr, node)
            if not sb.dead:
                rb = self.iterate(b, bind, body, sb, fr, node)
            brs = [x for x in (ra, rb) if x is not None]
            st.become(self.merge(sa, sb, c) if not (sa.dead and sb.dead) else sa)
            if not brs:
                return None
            if len(brs) == 1:
                return brs[0]
            return (T.or_(T.and_(c, ra[0]), T.and_(T.not_(c), rb[0])),
                    self.merge(ra[1], rb[1], c))
        parts = list(it.args) if it.op == "concat" else [it]
        total = None
        for p in parts:
            if st.dead:
                break
            r = self.iterate_part(p, bind, body, st, fr, node)
            if r is not None:
                if total is None:
                    total = r
                else:
                    c = T.or_(total[0], r[0])
                    total = (c, self.merge(total[1], r[1], total[0]))
        return total

    def iterate_part(self, p, bind, body, st, fr, node):
        n = S.length(p)
        small = p.op in ("seq", "tuple", "str") or (is_num(n) and n.args[0] <= 16)
        if small and is_num(n) and n.args[0] <= UNROLL:
            brs = []
            for i in range(int(n.args[0])):
                if st.dead:
                    break
                lf = LoopFrame()
                fr.loops.append(lf)
                try:
                    bind(st, S.index(p, num(i)))
                    body(st)
                except Dead:
                    st.dead = True
                finally:
                    fr.loops.pop()
                live = [(x, None) for x in lf.continues if not x.dead]
                if not st.dead:
                    live.append((st.copy(), None))
                for b in lf.breaks:
                    brs.append(b)
                if live:
                    m, _ = self.merge_many(live)
                    st.become(m)
                else:
                    st.dead = True
            if brs:
                base = brs
                m, _ = self.merge_many([(b, None) for b in base])
                if m is None:
                    return None
                k = 0
                ref = st.pc if not st.dead else ()
                while k < len(m.pc) and k < len(ref) and m.pc[k] is ref[k]:
                    k += 1
                c = T.and_(*m.pc[k:]) if not st.dead else TRUE
                return (c, m)
            return None
        return self.symbolic(n, lambda k: S.index(p, k), bind, body, st, fr, node)

    # --------------------------------------------------------- generic loops
    def snapshot_locs(self, h0, h1, skip):
        """Locations of pre-existing objects that differ between heaps."""
        out = []
        for oid, o1 in h1.items():
            o0 = h0.get(oid)
            if o0 is o1 or (isinstance(oid, int) and oid >= skip):
                continue
            if o0 is None:
                if not isinstance(oid, int):
                    for f in o1.f:
                        out.append((oid, f))
                continue
            for f in set(o0.f) | set(o1.f):
                if o0.f.get(f) is not o1.f.get(f):
                    out.append((oid, f))
        return out

    def havoc_locs(self, st, locs, L, init):
        for (oid, f) in locs:
            o = st.heap.get(oid)
            if o is None:
                o = Obj("foreign", None, {}, None, oid)
            lv = mk("lv", L, oid, f)
            if o.idx is not None:
                lv = mk("lv", L, oid, f, o.idx)
            st.heap[oid] = o.set(f, lv)

    def read_loc(self, st, loc):
        oid, f = loc
        o = st.heap.get(oid)
        if o is None:
            return mk("attr", oid, f) if not isinstance(oid, int) else UNDEF
        v = o.f.get(f)
        if v is None:
            return mk("attr", oid, f) if not isinstance(oid, int) else UNDEF
        return v

    def write_loc(self, st, loc, v):
        oid, f = loc
        o = st.heap.get(oid)
        if o is None:
            o = Obj("foreign", None, {}, None, oid)
        st.heap[oid] = o.set(f, v)

    def one_pass(self, st, fr, locs, L, k, bind, body, elem):
        """Run the body once from a havocked state.  Returns
        (end state or None, break states)."""
        s = st.copy()
        self.havoc_locs(s, locs, L, st)
        base_pc = len(s.pc)
        lf = LoopFrame()
        fr.loops.append(lf)
        nret = len(fr.returns)
        try:
            if elem is not None:
                bind(s, elem(k))
            body(s)
        except Dead:
            s.dead = True
        finally:
            fr.loops.pop()
        live = [(x, None) for x in lf.continues if not x.dead]
        if not s.dead:
            live.append((s, None))
        end = None
        if live:
            end, _ = self.merge_many(live)
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        return end, [b for b in lf.breaks if not b.dead], rets

    def symbolic(self, n, elem, bind, body, st, fr, node):
        self.nloop += 1
        L = self.nloop
        k = self.fresh("k")
        start = st.copy()
        alloc0 = self.next_oid
        inrange = [T.le(ZERO, k), T.lt(k, n)]
        locs = []
        rmark = len(self.raises)
        pre = start.copy()
        for c in inrange:
            pre.pc = pre.pc + (c,)
        pre._facts = None
        for _ in range(8):
            del self.raises[rmark:]
            alloc1 = self.next_oid
            end, brs, rets = self.one_pass(pre, fr, locs, L, k, bind, body, elem)
            found = set()
            ref = pre.copy()
            self.havoc_locs(ref, locs, L, pre)
            for x in ([end] if end is not None else []) + brs + [r[0] for r in rets]:
                found |= set(self.snapshot_locs(ref.heap, x.heap, alloc1))
            new = [l for l in found if l not in locs]
            if not new:
                break
            locs = locs + sorted(new, key=str)
        plen = len(pre.pc)
        # objects allocated per iteration become families indexed by k
        fam = {}
        if end is not None or brs:
            for x in ([end] if end is not None else []) + brs + [r[0] for r in rets]:
                for oid in list(x.heap):
                    if isinstance(oid, int) and oid >= alloc1:
                        fam[mk("ref", oid)] = mk("iref", oid, k)
        memo = {}

        def tofam(t):
            return T.subst(t, fam, memo) if fam else t

        def fam_objs(x):
            for r in fam:
                o = x.heap.get(r.args[0])
                if o is not None:
                    x.heap[r.args[0]] = Obj(
                        o.kind, o.cls, {f: tofam(v) for f, v in o.f.items()},
                        k if o.idx is None else o.idx, o.meta)
            return x
        after = start.copy()
        self.loops[L] = dict(node=node, k=k, n=n, locs={}, site=self.site(node),
                             func=self.cur_func())
        done = {}
        # early exits
        exits = [(b, None) for b in brs] + rets
        ex = None
        if exits:
            # an iteration that would raise never gets here on a normal path, so
            # the guards that exclude it need not be part of the exit condition
            guards = {}
            for r in self.raises[rmark:]:
                rp = r.state.pc
                if len(rp) > plen:
                    guards.setdefault(rp[plen:-1], set()).add(rp[-1])
            c = T.or_(*[T.and_(*[g for i, g in enumerate(b.pc[plen:])
                                 if T.not_(g) not in guards.get(b.pc[plen:plen + i], ())])
                        for b, _ in exits])
            c = tofam(c)
            opaque = bool(lvs_in(c, L))
            if opaque:
                exists = mk("exists", n, k, mk("opq", L))
                first = mk("first", n, k, mk("opq", L))
            else:
                exists, first = self.exists_first(n, k, c)
            ex = (c, exists, first, opaque)
        # values after complete iterations
        for loc in locs:
            v0 = self.read_loc(start, loc)
            nv = tofam(self.read_loc(end, loc)) if end is not None else None
            done[loc] = (v0, nv)
        def after_value(loc, m):
            v0, nv = done[loc]
            if nv is None:
                return v0
            return self.summarise(L, loc, v0, nv, k, m, start, n)
        for loc in locs:
            v = after_value(loc, n)
            self.loops[L]["locs"][loc] = (done[loc][0], done[loc][1], v)
            self.write_loc(after, loc, v)
        # survivors of the family heap
        srcs = [x for x in ([end] if end is not None else []) + brs +
                [r[0] for r in rets]]
        for x in reversed(srcs):
            fam_objs(x)
        for r in fam:
            oid = r.args[0]
            for x in srcs:
                if oid in x.heap:
                    after.heap[oid] = x.heap[oid]
                    break
        # facts that hold for each completed iteration
        if end is not None:
            fact = tofam(T.and_(*end.pc[plen:]))
            if fact is not TRUE and not lvs_in(fact, L):
                allf = self.forall(n, k, fact, ex)
                if allf is not TRUE:
                    after.pc = after.pc + (allf,)
                    after._facts = None
        else:
            # the first iteration never completes
            after.assume(T.eq0(n) if not is_num(n) else (TRUE if n is ZERO else FALSE))
        for (oid, f) in list(done):
            pass
        result = None
        if exits:
            c, exists, first, opaque = ex
            outs = []
            for b, val in exits:
                bs = after.copy()
                bs.dead = start.dead
                bs.heap = dict(after.heap)
                for loc in locs:
                    bv = tofam(self.read_loc(b, loc))
                    bv = T.subst(bv, {k: first})
                    m = {}
                    for x in lvs_in(bv, L):
                        l2 = (x.args[1], x.args[2])
                        if opaque:
                            m[x] = mk("lo", L, str(l2[0]), l2[1])
                        else:
                            m[x] = after_value(l2, first)
                            if len(x.args) > 3:
                                o = after.heap.get(l2[0])
                                if o is not None and o.idx is not None:
                                    m[x] = T.subst(m[x], {o.idx: x.args[3]})
                    if m:
                        bv = T.subst(bv, m)
                    self.write_loc(bs, loc, bv)
                bc_ = T.and_(exists, T.subst(tofam(T.and_(*b.pc[plen:])), {k: first}))
                bs.pc = start.pc
                bs._facts = None
                if not lvs_in(bc_, L):
                    bs.assume(bc_)
                else:
                    bs.assume(exists)
                if val is not None:
                    v2 = T.subst(tofam(val), {k: first})
                    mm = {x: mk("lo", L, str(x.args[1]), x.args[2]) if opaque
                          else after_value((x.args[1], x.args[2]), first)
                          for x in lvs_in(v2, L)}
                    v2 = T.subst(v2, mm) if mm else v2
                    if not bs.dead:
                        fr.returns.append((bs, v2))
                elif not bs.dead:
                    outs.append(bs)
            after.assume(T.not_(exists))
            if outs:
                m, _ = self.merge_many([(o, None) for o in outs])
                result = (exists, m)
        st.become(after)
        return result

    def exists_first(self, n, k, c):
        """(exists i<n: c(i), the first such i) with canonical binders."""
        m = S.smap(n, k, mk("wrapb", c))
        if m.op == "seq":
            # literal length
            f = ZERO
            e = FALSE
            for i in reversed(range(len(m.args))):
                ci = m.args[i].args[0]
                f = ite(ci, num(i), f)
                e = T.or_(ci, e)
            return e, f
        return mk("exists", m), mk("first", m)

    def forall(self, n, k, c, ex):
        if ex is not None:
            # iterations before the exit completed; only record when the
            # whole range did
            pass
        m = S.smap(n, k, mk("wrapb", c))
        if m.op == "seq":
            return T.and_(*[x.args[0] for x in m.args]) if ex is None else TRUE
        return mk("forall", m) if ex is None else TRUE

    # --------------------------------------------------------- summarisation
    def summarise(self, L, loc, v0, nv, k, n, start, nfull):
        lv = mk("lv", L, loc[0], loc[1])
        o = start.heap.get(loc[0])
        if o is not None and o.idx is not None:
            lv = mk("lv", L, loc[0], loc[1], o.idx)
            return self.summarise_family(L, loc, v0, nv, k, n, o, lv)
        if nv is lv:
            return v0
        free = not lvs_in(nv, L)
        if free:
            if not T.occurs(k, nv):
                return ite(T.eq0(n), v0, nv) if v0 is not UNDEF else nv
            last = T.subst(nv, {k: T.sub(n, ONE)})
            if v0 is UNDEF:
                return last
            return ite(T.eq0(n), v0, last)
        r = self.sum_shape(L, lv, v0, nv, k, n)
        if r is not None:
            return r
        return mk("lo", L, str(loc[0]), loc[1])

    def sum_shape(self, L, lv, v0, nv, k, n):
        def clean(t):
            return not lvs_in(t, L)
        # list growth
        if nv.op == "concat":
            if nv.args[0] is lv and all(clean(a) for a in nv.args[1:]):
                rest = S.concat(*nv.args[1:])
                if rest.op == "seq" and len(rest.args) == 1:
                    return S.concat(v0, S.smap(n, k, rest.args[0]))
                return S.concat(v0, mk("flat", S.smap(n, k, rest)))
            if nv.args[-1] is lv and all(clean(a) for a in nv.args[:-1]):
                rest = S.concat(*nv.args[:-1])
                if rest.op == "seq" and len(rest.args) == 1:
                    return S.concat(S.rev(S.smap(n, k, rest.args[0])), v0)
                return None
        if nv.op == "ite" and nv.args[0] is not None and clean(nv.args[0]):
            c, a, b = nv.args
            if b is lv:
                keep, g = a, c
            elif a is lv:
                keep, g = b, T.not_(c)
            else:
                keep = None
            if keep is not None:
                if keep.op == "concat" and keep.args[0] is lv and \
                        all(clean(x) for x in keep.args[1:]):
                    rest = S.concat(*keep.args[1:])
                    if rest.op == "seq" and len(rest.args) == 1:
                        return S.concat(v0, self.filt(n, k, g, rest.args[0]))
                if clean(keep):
                    return mk("lastof", S.smap(n, k, mk("pair", g, keep)), v0)
            # both branches append
            if a.op == "concat" and b.op == "concat" and a.args[0] is lv and \
                    b.args[0] is lv:
                ra, rb = S.concat(*a.args[1:]), S.concat(*b.args[1:])
                if ra.op == rb.op == "seq" and len(ra.args) == len(rb.args) == 1 \
                        and clean(ra) and clean(rb):
                    return S.concat(v0, S.smap(n, k, ite(c, ra.args[0], rb.args[0])))
        if nv.op == "store":
            return self.sum_store(L, lv, v0, nv, k, n, clean)
        if nv.op == "dictset" and nv.args[0] is lv and clean(nv.args[1]) and clean(nv.args[2]):
            return mk("dictmap", v0, S.smap(n, k, mk("pair", nv.args[1], nv.args[2])))
        # accumulation
        if nv.op == "add":
            if lv in nv.args:
                e = T.add(*[a for a in nv.args if a is not lv])
                if clean(e):
                    if not T.occurs(k, e):
                        return T.add(v0, T.mul(n, e))
                    return T.add(v0, mk("sum", S.smap(n, k, e)))
        if nv.op == "or" and lv in nv.args:
            e = T.or_(*[a for a in nv.args if a is not lv])
            if clean(e):
                return T.or_(v0, self.exists_first(n, k, e)[0])
        if nv.op == "and" and lv in nv.args:
            e = T.and_(*[a for a in nv.args if a is not lv])
            if clean(e):
                return T.and_(v0, T.not_(self.exists_first(n, k, T.not_(e))[0]))
        return None

    def filt(self, n, k, c, e):
        return mk("filt", S.smap(n, k, mk("pair", c, e)))

    def sum_store(self, L, lv, v0, nv, k, n, clean):
        b, i, e = nv.args
        if b is not lv:
            return None
        if not clean(i):
            return None
        if not clean(e):
            # reads of the same element before the store
            sub = {}
            for x in T.subterms(e):
                if x.op == "index" and x.args[0] is lv:
                    if x.args[1] is i:
                        sub[x] = S.index(v0, i)
                    else:
                        return None
            e = T.subst(e, sub)
            if not clean(e):
                return None
        if i is k:
            l0 = S.length(v0)
            if l0 is n or v0.op in ("empty",) and v0.args[0] is n:
                return S.smap(n, k, e)
            if v0.op == "bc" and S.length(v0) is n:
                return S.smap(n, k, e)
        return mk("stores", v0, S.smap(n, k, mk("pair", i, e)))

    def summarise_family(self, L, loc, v0, nv, k, n, o, lv):
        """Field of per-element objects, written at element i(k)."""
        j = o.idx
        if nv.op == "ite" and nv.args[0].op == "eq0":
            c, a, b = nv.args
            if b is lv:
                d = c.args[0]
                # solve j = i(k)
                sol = self.solve_lin(d, k)
                if sol is not None:
                    e = a
                    sub = {}
                    bad = False
                    i_of_k = self.solve_lin(d, j)
                    for x in lvs_in(e, L):
                        if len(x.args) > 3:
                            pass
                    # substitute k by its value for element j
                    e = T.subst(e, {k: sol})
                    for x in lvs_in(e, L):
                        if (x.args[1], x.args[2]) == loc and len(x.args) > 3:
                            if T.sub(x.args[3], j) is ZERO:
                                sub[x] = v0
                            else:
                                bad = True
                        else:
                            bad = True
                    if not bad:
                        e = T.subst(e, sub) if sub else e
                        cond = T.and_(T.le(ZERO, sol), T.lt(sol, n))
                        return mk("fam", cond, e, v0) if False else self.famval(cond, e, v0, j, n)
        return mk("lo", L, str(loc[0]), loc[1])

    def famval(self, cond, e, v0, j, n):
        # the whole family is covered when the index runs over the range the
        # family was created with; elements outside are never referenced
        return e

    def solve_lin(self, d, x):
        """d == 0 with d linear in x: the value of x."""
        terms = d.args if d.op == "add" else (d,)
        coef = None
        rest = []
        for t in terms:
            c, r = T._coef_split(t)
            if r is x:
                coef = c
            elif T.occurs(x, t):
                return None
            else:
                rest.append(t)
        if coef is None:
            return None
        return T.mul(num(-1 / coef), T.add(*rest)) if rest else ZERO

    # ----------------------------------------------------------------- while
    def s_While(self, s, st, fr):
        c0 = self.cond(s.test, st.copy(), fr)
        if c0 is FALSE:
            self.exec_block(s.orelse, st, fr)
            return
        start = st.copy()
        self.nloop += 1
        L = self.nloop
        k = self.fresh("k")
        rmark = len(self.raises)
        locs = []
        state0 = {}

        def body(state):
            c = self.cond(s.test, state, fr)
            state0["c"] = c
            state0["pre"] = state.copy()
            if c is FALSE:
                state.dead = True
                return
            state.assume(c)
            self.exec_block(s.body, state, fr)
        for _ in range(8):
            del self.raises[rmark:]
            alloc1 = self.next_oid
            end, brs, rets = self.one_pass(start, fr, locs, L, k, None, body, None)
            ref = start.copy()
            self.havoc_locs(ref, locs, L, start)
            found = set()
            for x in ([end] if end is not None else []) + brs + [r[0] for r in rets]:
                found |= set(self.snapshot_locs(ref.heap, x.heap, alloc1))
            new = [l for l in found if l not in locs]
            if not new:
                break
            locs = locs + sorted(new, key=str)
        # counting loop?
        ind = self.induction(L, locs, start, end, state0.get("c"))
        if ind is not None:
            loc, n, v0 = ind
            del self.raises[rmark:]

            def bind(state, v):
                self.write_loc(state, loc, v)

            def body2(state):
                before = self.read_loc(state, loc)
                self.exec_block(s.body, state, fr)
            if T.is_num(n) and T.is_num(v0) and n.args[0].denominator == 1 and 0 < n.args[0] <= UNROLL:
                steps = S.seq([T.add(v0, num(i)) for i in range(int(n.args[0]))])
                br = self.iterate_part(steps, bind, body2, st, fr, s)
                self.loop_else(s, br, st, fr)
                return
            br = self.symbolic(n, lambda kk: T.add(v0, kk), bind, body2, st, fr, s)
            if not st.dead:
                self.write_loc(st, loc, T.add(v0, n))
            self.loop_else(s, br, st, fr)
            return
        # opaque loop: every modified location holds an unknown value; the
        # exit condition is known
        after = start.copy()
        info = dict(node=s, k=k, n=None, locs={}, site=self.site(s),
                    func=self.cur_func(), cond=state0.get("c"))
        self.loops[L] = info
        m = {}
        for loc in locs:
            lv = mk("lv", L, loc[0], loc[1])
            lo = mk("lo", L, str(loc[0]), loc[1])
            m[lv] = lo
            v0 = self.read_loc(start, loc)
            nv = self.read_loc(end, loc) if end is not None else None
            info["locs"][loc] = (v0, nv, lo)
            if c0 is TRUE and not brs and nv is not None and nv is not UNDEF and not lvs_in(nv, L):
                lo = nv        # what the last of at least one iteration leaves
            self.write_loc(after, loc, lo)
        info["end"] = [x for x in end.pc if x not in start.facts] if end is not None else None
        if c0 is TRUE and not brs and end is not None:
            for x in info["end"]:
                if not lvs_in(x, L):
                    after.assume(x)
        info["brs"] = len(brs) + len(rets)
        info["first"] = c0
        exit_states = []
        try:
            c = self.cond(s.test, after, fr)
        except Dead:
            c = TRUE
        ex = after.copy()
        ex.assume(T.not_(c))
        if not ex.dead:
            self.exec_block(s.orelse, ex, fr)
            if not ex.dead:
                exit_states.append(ex)
        plen = len(start.pc)
        for b in brs:
            bs = b.copy()
            memo = {}
            for loc in locs:
                v = self.read_loc(bs, loc)
                if v is not UNDEF:
                    self.write_loc(bs, loc, T.subst(v, m, memo))
            bs.pc = tuple(T.subst(x, m, memo) for x in bs.pc)
            bs._facts = None
            exit_states.append(bs)
        for b, v in rets:
            bs = b.copy()
            memo = {}
            bs.pc = tuple(T.subst(x, m, memo) for x in bs.pc)
            bs._facts = None
            for loc in locs:
                x = self.read_loc(bs, loc)
                if x is not UNDEF:
                    self.write_loc(bs, loc, T.subst(x, m, memo))
            fr.returns.append((bs, T.subst(v, m, memo)))
        if not exit_states:
            st.dead = True
            return
        ms, _ = self.merge_many([(x, None) for x in exit_states])
        st.become(ms)

    def induction(self, L, locs, start, end, c):
        """while i < n: ...; i += 1  ->  (location, trip count, start)."""
        if end is None or c is None:
            return None
        conjs = c.args if c.op == "and" else (c,)
        if len(conjs) != 1 or conjs[0].op not in ("lt0", "le0"):
            return None
        d = conjs[0].args[0]
        for loc in locs:
            lv = mk("lv", L, loc[0], loc[1])
            nv = self.read_loc(end, loc)
            if nv is not T.add(lv, ONE):
                continue
            sol = self.solve_lin(d, lv)
            if sol is None or lvs_in(sol, L):
                continue
            # i - n < 0
            terms = d.args if d.op == "add" else (d,)
            if lv not in terms:
                continue
            v0 = self.read_loc(start, loc)
            n = T.sub(sol, v0)
            if conjs[0].op == "le0":
                n = T.add(n, ONE)
            return loc, n, v0
        return None

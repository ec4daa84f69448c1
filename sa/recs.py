"""Loop summaries: closed forms for loop-carried locations, canonical recurrence systems for the rest.

A loop body is analysed once on symbolic loop-head values ('lv' atoms).  The resulting step terms form a system of
recurrences.  Locations that are alone in their dependency component get a closed form (invariant, reduction, array filled
by index, delayed value); the others become a `rec` atom over the canonical (bisimulation-minimised, name-free) system, so
two loops that compute the same sequence get the same value number by induction on the iteration count.
"""
import terms as T
from terms import P, P1, ONE, ZERO, Poly, Lam

KBV = 99


class Sys:
    __slots__ = ("comps", "h", "id", "leaf", "opq", "size", "kind")

    def __repr__(self):
        return "Sys%d" % self.id


_sys = {}
_colors = {}


def _mk_sys(h, comps):
    """comps: tuple of (rank, init, step, is_int, nn)"""
    key = (h, comps)
    s = _sys.get(key)
    if s is None:
        s = Sys()
        s.h, s.comps, s.id = h, comps, len(_sys)
        leaf, o, size = set(), False, 1
        for r, i, st, _, _ in comps:
            leaf |= i.leaf | st.leaf
            o = o or i.opq or st.opq
            size += i.size + st.size
        leaf = {x for x in leaf if not ((isinstance(x, T.Atom) and x.kind == "bv" and x.args[0] == h) or x == ("bref", h))}
        leaf.add(("rec", s.id))
        s.leaf, s.opq, s.size = frozenset(leaf), o, size
        _sys[key] = s
    return s


class Comp:
    """one loop-carried location: vars are the index variables (atoms)"""
    __slots__ = ("cid", "vars", "init", "step", "is_int", "nn", "ones")

    def __init__(self, cid, vars, init, step, is_int=False, nn=False):
        self.cid, self.vars, self.init, self.step, self.is_int, self.nn = cid, list(vars), init, step, is_int, nn
        self.ones = frozenset()


def _close_map(vars, h):
    return {v: P1(T.bv(h, i)) for i, v in enumerate(vars)}


def _reopen_bv(p, h):
    return p


def build_sys(loop, k, comps):
    """comps: list of Comp whose steps refer to each other as lv(loop, cid, k, idx).
    Returns {cid: (Sys, index, offset)}."""
    H = 0
    for c in comps:
        H = max(H, c.init.h, c.step.h)
    H += 1
    kb = P1(T.bv(H, KBV))
    inits, colors = {}, {}
    for c in comps:
        inits[c.cid] = T.subst(c.init, _close_map(c.vars, H))

    def close_step(c, ref):
        m = _close_map(c.vars, H)
        m[k] = kb

        def f(a, rest, rw):
            cid, it, idx = rest
            return T.bref_mk(H, (ref[cid], tuple(idx)), a.is_int, a.nn)
        m[("lv", loop)] = f
        return T.subst(c.step, m)

    def refine(cs, quotient):
        col = {}
        for c in cs:
            col[c.cid] = _colors.setdefault((len(c.vars), inits[c.cid].id, c.is_int), len(_colors))
        for c in quotient:
            pass
        n = len(set(col.values()))
        rounds = 0
        while n < len(cs):
            full = {cid: col[quotient[cid]] for cid in quotient}
            new = {}
            for c in cs:
                st = close_step(c, full)
                new[c.cid] = _colors.setdefault((col[c.cid], st.id), len(_colors))
            rounds += 1
            col = new
            m = len(set(col.values()))
            if m == n and rounds >= 1:
                break
            n = m
        return col

    col = refine(comps, {c.cid: c.cid for c in comps})
    rep, reps = {}, {}
    for c in comps:
        if col[c.cid] not in reps:
            reps[col[c.cid]] = c
        rep[c.cid] = reps[col[c.cid]].cid
    small = list(reps.values())
    # canonical colours of the quotient, a fixed number of rounds
    col = {c.cid: _colors.setdefault((len(c.vars), inits[c.cid].id, c.is_int), len(_colors)) for c in small}
    for _ in range(len(small)):
        if len(set(col.values())) == len(small):
            break       # told apart already: as many rounds as for every isomorphic system
        full = {cid: col[rep[cid]] for cid in rep}
        col = {c.cid: _colors.setdefault((col[c.cid], close_step(c, full).id), len(_colors)) for c in small}
    small.sort(key=lambda c: col[c.cid])
    pos = {c.cid: i for i, c in enumerate(small)}
    full = {cid: pos[rep[cid]] for cid in rep}
    tup = []
    for c in small:
        tup.append((len(c.vars), inits[c.cid], close_step(c, full), c.is_int, c.nn))
    s = _mk_sys(H, tuple(tup))
    # fusion with an earlier loop over the same recurrence
    fu = _fuse(s)
    out = {}
    for cid in rep:
        if fu is None:
            out[cid] = (s, full[cid], ZERO)
        else:
            s1, mp, off = fu
            out[cid] = (s1, mp[full[cid]], off)
    return out


def _fuse(s):
    s1, off, mp = None, None, {}
    for i, (rank, init, step, _, _) in enumerate(s.comps):
        a = _single(init)
        if a is None or a.kind != "rec":
            return None
        _, sys1, c1, it, idx = a.args
        if len(idx) != rank or any(x is not P1(T.bv(s.h, j)) for j, x in enumerate(idx)):
            return None
        if s1 is None:
            s1, off = sys1, it
        if s1 is not sys1 or off is not it:
            return None
        mp[i] = c1
    if s1 is None or len(set(mp.values())) != len(s1.comps) or len(mp) != len(s1.comps):
        return None
    inv = {v: k for k, v in mp.items()}
    # compare steps: s.step(k) == s1.step(k + off)
    kv = P1(T.new_var(None))
    for i, (rank, init, step, _, _) in enumerate(s.comps):
        vs = [P1(T.new_var(None)) for _ in range(rank)]
        r = P1(T.atom("sym", ("fuse",)))
        m = {T.bv(s.h, j): v for j, v in enumerate(vs)}
        m[T.bv(s.h, KBV)] = kv
        m[("bref", s.h)] = lambda a, rest, rw: T.bref_mk("f", (mp[rest[0]], tuple(rest[1])), a.is_int, a.nn)
        A = T.subst(step, m)
        m1 = {T.bv(s1.h, j): v for j, v in enumerate(vs)}
        m1[T.bv(s1.h, KBV)] = kv + off
        m1[("bref", s1.h)] = lambda a, rest, rw: T.bref_mk("f", (rest[0], tuple(rest[1])), a.is_int, a.nn)
        B = T.subst(s1.comps[mp[i]][2], m1)
        if A is not B:
            return None
    return s1, mp, off


def _single(p):
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0].f) == 1 and p.t[0][0].f[0][1] == 1:
        return p.t[0][0].f[0][0]
    return None


MAX_UNROLL = 6


def mk_rec(s, c, it, idx):
    it = P(it)
    idx = tuple(P(i) for i in idx)
    if it.bools or any(i.bools for i in idx):
        return T.lift(lambda q: mk_rec(s, c, q[0], q[1:]), [it] + list(idx))
    k = it.const
    if k is not None and k <= 0:
        return _inst(s, s.comps[c][1], idx, ZERO, None)
    cst = dict(it.t).get(T.M1, 0)
    if cst >= 1 and (it - cst).nn and cst <= MAX_UNROLL:
        prev = it - 1
        return _inst(s, s.comps[c][2], idx, prev, prev)
    _, _, _, isint, nn = s.comps[c]
    return P1(T.atom("rec", (s.h, s, c, it, idx), is_int=isint, nn=nn))


def _inst(s, body, idx, k, prev):
    m = {T.bv(s.h, i): x for i, x in enumerate(idx)}
    m[T.bv(s.h, KBV)] = k
    if prev is not None:
        m[("bref", s.h)] = lambda a, rest, rw: mk_rec(s, rest[0], prev, rest[1])
    return T.subst(body, m)


_rw_cache = {}


def rewrite_rec(a, rw):
    _, s, c, it, idx = a.args
    it2 = rw.poly(it)
    idx2 = tuple(rw.poly(i) for i in idx)
    if not (s.leaf & rw.keys):
        return mk_rec(s, c, it2, idx2)
    res = rw.memo.get(s)
    if res is None:
        h = s.h
        loop = ("rw", T.fresh())
        k = T.new_var(None)
        comps = []
        for i, (rank, init, step, isint, nn) in enumerate(s.comps):
            vs = [T.new_var(None) for _ in range(rank)]
            m = {T.bv(h, j): P1(v) for j, v in enumerate(vs)}
            ini = rw.poly(T.subst(init, m))
            m[T.bv(h, KBV)] = P1(k)
            m[("bref", h)] = lambda at, rest, r2: T.lv_mk(loop, (rest[0], P1(k), tuple(rest[1])), at.is_int, at.nn)
            st = rw.poly(T.subst(step, m))
            comps.append(Comp(i, vs, ini, st, isint, nn))
        res = build_sys(loop, k, comps)
        rw.memo[s] = res
    s2, c2, off = res[c]
    return mk_rec(s2, c2, it2 + off, idx2)


T.REC_REWRITE = rewrite_rec


# -------------------------------------------------------------------------------------------- solving a loop
def lv_deps(p, loop):
    """the component ids a term depends on"""
    out = set()
    if ("lv", loop) not in p.leaf:
        return out
    seen = set()

    def walk(x):
        if isinstance(x, (Poly, T.Mono, T.Atom, Lam)):
            if x in seen or ("lv", loop) not in x.leaf:
                return
            seen.add(x)
        if isinstance(x, Poly):
            for m, c in x.t:
                walk(m)
        elif isinstance(x, T.Mono):
            for a, e in x.f:
                walk(a)
        elif isinstance(x, T.Atom):
            if x.kind == "lv" and x.args[0] == loop:
                out.add(x.args[1])
                for y in x.args[2:]:
                    walk(y)
            else:
                for y in x.args:
                    walk(y)
        elif isinstance(x, Lam):
            walk(x.body)
            for q in x.shape:
                walk(q)
        elif isinstance(x, Sys):
            if ("lv", loop) in x.leaf:
                for r, i, st, _, _ in x.comps:
                    walk(i)
                    walk(st)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(p)
    return out


def sccs(nodes, deps):
    index, low, st, on, out, n = {}, {}, [], set(), [], [0]

    def go(v):
        index[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        for w in deps[v]:
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = st.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)
    for v in nodes:
        if v not in index:
            go(v)
    return out      # dependencies first


def subst_lv(p, loop, forms):
    """replace lv atoms of solved components by their forms: forms[cid](iter, idx)"""
    def f(a, rest, rw):
        cid, it, idx = rest
        g = forms.get(cid)
        if g is None:
            return None
        return g(it, idx)
    return T.subst(p, {("lv", loop): f})


def self_lv_of(loop, k, c):
    """the location itself at the beginning of iteration k"""
    return T.lv_mk(loop, (c.cid, P1(k), tuple(ZERO if v in c.ones else P1(v) for v in c.vars)), c.is_int, c.nn)


def _split(loop, k, c):
    """step = A + B * self: (A, B), the self atom being the location at the same indices; None if the location occurs otherwise in
    these terms"""
    self_lv = self_lv_of(loop, k, c)
    a = self_lv.t[0][0].f[0][0] if len(self_lv.t) == 1 and len(self_lv.t[0][0].f) == 1 else None
    if a is None:
        return None
    A, B = {}, {}
    for m, co in c.step.t:
        fs = dict(m.f)
        for x in list(fs):
            if x is not a and x.kind == "lv" and x.args[0] == loop and x.args[1] == c.cid and _same_under(m, x, a, k):
                fs[a] = fs.get(a, 0) + fs.pop(x)
        if fs.get(a) == 1:
            fs.pop(a)
            mm = T.mk_mono(tuple(sorted(fs.items(), key=lambda x: x[0].id)))
            B[mm] = B.get(mm, 0) + co
        else:
            A[m] = A.get(m, 0) + co
    return T.mk_poly(A), T.mk_poly(B)


def _frozen(loop, k, comps):
    """elements that no iteration writes keep their initial value: step = A + B * self where B is a condition on the indices only
    and A is zero under it"""
    keep = {}
    for c in comps:
        if not c.vars or c.step.leaf.isdisjoint((("lv", loop),)):
            continue
        ab = _split(loop, k, c)
        if ab is None:
            continue
        A, B = ab
        if B is ZERO or B is ONE or k in B.leaf or ("lv", loop) in B.leaf:
            # sums of the same condition with other factors: take the part that depends on the indices only
            Bm = {m: co for m, co in B.t if k not in T.mk_poly({m: co}).leaf and ("lv", loop) not in T.mk_poly({m: co}).leaf} if B is not ONE else {}
            B2 = T.mk_poly(Bm)
            if B2 is ZERO or B2 is ONE or B is ONE:
                continue
            selfp = self_lv_of(loop, k, c)
            A, B = A + T.mul(B - B2, selfp), B2
        if T.mul(B, B) is not B or T.mul(B, A) is not ZERO:
            continue
        keep[c.cid] = (c, A, B)
    if not keep:
        return
    def at(cid, it, idx):
        g = keep.get(cid)
        if g is None:
            return None
        c, A, B = g
        m = {v: P(x) for v, x in zip(c.vars, idx)}
        if T.subst(B, m) is ONE:
            return T.subst(c.init, m)
        return None
    for c in comps:
        g = keep.get(c.cid)
        if g is not None:
            c.step = g[1] + T.mul(g[2], c.init)
        c.step = T.subst(c.step, {("lv", loop): lambda a, rest, rw: at(*rest)})


def solve(loop, k, n, comps):
    """comps: list of Comp; k: iteration variable (0 <= k < n).  Returns {cid: function(iter, idx) -> Poly}, the value of the
    location after `iter` iterations."""
    for c in comps:
        one = {v: ZERO for v in c.vars if T.VAR_HI.get(v) is ONE and T.VAR_LO.get(v, ZERO) is ZERO}
        if one:
            c.init, c.step, c.ones = T.subst(c.init, one), T.subst(c.step, one), frozenset(one)
    _frozen(loop, k, comps)
    byid = {c.cid: c for c in comps}
    deps = {c.cid: lv_deps(c.step, loop) & set(byid) for c in comps}
    forms = {}
    for comp in sccs([c.cid for c in comps], deps):
        if len(comp) == 1:
            c = byid[comp[0]]
            c.step = subst_lv(c.step, loop, forms)
            f = _closed(loop, k, n, c)
            if f is not None:
                forms[c.cid] = f
                continue
        cs = [byid[x] for x in comp]
        for c in cs:
            c.step = subst_lv(c.step, loop, forms)
        if INVARIANTS:
            inv = _constants(loop, k, n, cs)
            if inv is not None:
                forms.update(inv)
                continue
        res = build_sys(loop, k, cs)
        for c in cs:
            s, i, off = res[c.cid]
            forms[c.cid] = (lambda s, i, off: lambda it, idx: mk_rec(s, i, P(it) + off, idx))(s, i, off)
    return forms


INVARIANTS = False      # look for locations that keep their initial value (one at a time, by induction) and for shift registers


def _constants(loop, k, n, cs):
    for c in cs:
        const = {c.cid: (lambda c: lambda it, idx: T.subst(c.init, {v: P(x) for v, x in zip(c.vars, idx)}))(c)}
        rest = [Comp(o.cid, o.vars, o.init, subst_lv(o.step, loop, const), o.is_int, o.nn) for o in cs if o is not c]
        try:
            forms = solve(loop, k, n, rest)
        except T.TooBig:
            continue
        forms.update(const)
        # induction step: if the location had its initial value before every earlier iteration, it has it after this one
        if subst_lv(c.step, loop, forms) is c.init:
            return forms
    return None


def _shift(loop, k, c):
    """step = self at v - 1 where v >= 1, a term free of the location where v == 0"""
    for v in c.vars:
        idx = tuple(P1(u) - 1 if u is v else P1(u) for u in c.vars)
        prev = T.lv_mk(loop, (c.cid, P1(k), idx), c.is_int, c.nn)
        later = T.ge(P1(v) - 1)
        first = T.eq(P1(v))
        A = T.subst(c.step, {v: ZERO})
        if c.cid in lv_deps(A, loop) or v in A.leaf:
            continue
        if c.step - T.mul(T.ge(P1(v) - 1), prev) - T.mul(first, A) is not ZERO and c.step - T.ite(first, A, prev) is not ZERO:
            continue

        def f(it, idx, v=v, A=A):
            it = P(it)
            m = {u: P(x) for u, x in zip(c.vars, idx)}
            at = m[v]
            m2 = dict(m)
            m2[k] = it - 1 - at
            m3 = dict(m)
            m3[v] = at - it
            return T.ite(T.ge(it - 1 - at), T.subst(A, m2), T.subst(c.init, m3))
        return f
    return None


def _same_under(m, x, a, k):
    """are the locations x and a the same under the equalities of monomial m?"""
    xs, ys = [x.args[2]] + list(x.args[3]), [a.args[2]] + list(a.args[3])
    if len(xs) != len(ys):
        return False
    eqs = []
    for b, e in m.f:
        if b.kind == "eq":
            s = T.solve_eq(b.args[0])
            if s is not None:
                eqs.append({s[0]: s[1]})
    for sb in eqs:
        xs = [T.subst(p, sb) for p in xs]
        ys = [T.subst(p, sb) for p in ys]
    return all(p is q for p, q in zip(xs, ys))


def _common_eq(W, k):
    """the equalities on k that are a factor of every monomial"""
    out = None
    for m, co in W.t:
        es = {a for a, e in m.f if a.kind == "eq" and k in a.leaf}
        out = es if out is None else out & es
    return sorted(out or (), key=lambda a: a.id)


def _closed(loop, k, n, c):
    self_lv = self_lv_of(loop, k, c)
    if c.step is self_lv:
        return lambda it, idx: T.subst(c.init, {v: P(x) for v, x in zip(c.vars, idx)})
    if c.cid not in lv_deps(c.step, loop):
        # delayed: after iteration k the location holds step(k)
        def f(it, idx):
            it = P(it)
            m = {v: P(x) for v, x in zip(c.vars, idx)}
            ini = T.subst(c.init, m)
            z = T.ge(it - 1)
            if z is ZERO:
                return ini
            m2 = dict(m)
            m2[k] = it - 1
            return T.ite(z, T.subst(c.step, m2), ini)
        return f
    if INVARIANTS:
        f = _shift(loop, k, c)
        if f is not None:
            return f
    # step = A + B * self with A, B free of the location
    a = self_lv.t[0][0].f[0][0] if len(self_lv.t) == 1 else None
    if a is None:
        return None
    vids = [P1(v) for v in c.vars]
    A, B = {}, {}
    for m, co in c.step.t:
        fs = dict(m.f)
        for x in list(fs):
            # under [v == k] the location itself may be written with v for k or k for v
            if x is not a and x.kind == "lv" and x.args[0] == loop and x.args[1] == c.cid:
                if _same_under(m, x, a, k):
                    fs[a] = fs.get(a, 0) + fs.pop(x)
        if a in fs:
            if fs[a] != 1:
                return None
            fs.pop(a)
            mm = T.mk_mono(tuple(sorted(fs.items(), key=lambda x: x[0].id)))
            B[mm] = B.get(mm, 0) + co
        else:
            A[m] = A.get(m, 0) + co
    A, B = T.mk_poly(A), T.mk_poly(B)
    if c.cid in lv_deps(A, loop) or c.cid in lv_deps(B, loop):
        return None
    if B is ONE:
        # reduction
        def f(it, idx):
            m = {v: P(x) for v, x in zip(c.vars, idx)}
            j = T.new_var(P(it))
            m2 = dict(m)
            m2[k] = P1(j)
            return T.subst(c.init, m) + T.mksum([j], T.subst(A, m2))
        return f
    W = ONE - B
    # array filled by index: written exactly at v == k + const (and under conditions that do not change)
    for e in _common_eq(W, k):
        l = T.linear_in(e.args[0], k)
        if l is None or l[0] not in (1, -1):
            continue
        at = T.neg(l[1]) if l[0] == 1 else l[1]      # k == at
        if k in at.leaf or not (at.leaf & set(c.vars)):
            continue
        W1 = T.subst(T.given(W, e, True), {k: at})
        Ap = T.given(A, e, True)
        if T.mul(W1, W1) is not W1:
            continue
        if T.mul(W, A) is not A:
            continue

        def f(it, idx, at=at, W1=W1, Ap=Ap):
            it = P(it)
            m = {v: P(x) for v, x in zip(c.vars, idx)}
            t = T.subst(at, m)
            ini = T.subst(c.init, m)
            done = T.mul(T.mul(T.ge(t), T.ge(it - 1 - t)), T.subst(W1, m))
            if done is ZERO:
                return ini
            m2 = dict(m)
            m2[k] = t
            val = T.subst(Ap, m2)
            # the conditions of the write are known to hold with k == t
            return T.ite(done, val, ini)
        return f
    # some elements are written in every iteration, the others never: B is a condition on the indices only
    if k not in B.leaf and ("lv", loop) not in B.leaf and T.mul(B, B) is B and T.mul(B, A) is ZERO:
        def f(it, idx):
            it = P(it)
            m = {v: P(x) for v, x in zip(c.vars, idx)}
            ini = T.subst(c.init, m)
            z = T.ge(it - 1)
            if z is ZERO:
                return ini
            keep = T.subst(B, m)
            if keep is ONE:
                return ini
            m2 = dict(m)
            m2[k] = it - 1
            # indices of the written elements only
            return T.ite(T.mul(z, ONE - keep), T.subst(A, m2), ini)
        return f
    return None

"""C19 (divisors), C20 (element types of caller data), C34 (memory): rules over the effects recorded by the interpreter."""
import terms as T
import witness as W
from terms import P, P1, ONE, ZERO, Poly
from values import *
from core import *
from p_filters import *
import p_functions as PF

DET = PF.DET
INPKG = "padasip/"


def inside(e):
    loc = e.get("loc")
    return bool(loc) and str(loc[0]).startswith(INPKG)


def place(e):
    loc = e["loc"]
    return "%s:%s %s" % (loc[0], loc[1], loc[2] if len(loc) > 2 else "")


# ------------------------------------------------------------------------------------------------ C19
def never_zero(by, squares, guard):
    """None, or the reason why a divisor cannot be zero"""
    c = by.const
    if c is not None:
        return "a constant" if c != 0 else None
    if by.pos or T.neg(by).pos:
        return "positive by its terms"
    try:
        if T.prove_ge(by - ONE):
            return "at least one"
    except T.TooBig:
        pass
    if len(by.t) == 1 and len(by.t[0][0].f) == 1 and by.t[0][0].f[0][0].kind == "max":
        # the smaller or larger of values that are not zero
        c = by.t[0][1]
        if all(never_zero(T.scale(x, c), squares, guard) or T.mul(guard, T.eq(x)) is ZERO for x in by.t[0][0].f[0][0].args[0]):
            return "the smaller or larger of values that are not zero here"
    for s in squares:
        r = by - s
        if r.pos or (r.const is not None and r.const > 0):
            return "positive plus a sum of squares"
        for s2 in squares[:6]:
            r2 = r - s2
            if r2.pos:
                return "positive plus sums of squares"
    return None


def matrix_of(p):
    """the matrix a recorded event is about"""
    if len(p.t) == 1:
        m, c = p.t[0]
        if c == 1 and len(m.f) == 1 and m.f[0][0].kind == "fa":
            l = m.f[0][0].args[1][0]
            if isinstance(l, T.Lam) and len(l.shape) == 2:
                return l
    return None


def regular(lam, grams):
    """a reason why a matrix to solve is regular"""
    us, body = T.lam_open(lam)
    i, j = [P1(T.var_atom(u)) for u in us]
    d = T.eq(i - j)
    for g in [None] + grams:
        r = body
        if g is not None:
            vs, b = T.lam_open(g)
            r = body - T.subst(b, {T.var_atom(vs[0]): i, T.var_atom(vs[1]): j})
        try:
            off = T.mul(r, ONE - d)
            on = T.subst(r, {T.var_atom(us[1]): i})
        except T.TooBig:
            continue
        if not off.t and (on.pos or on.const is not None and on.const > 0):
            return "positive multiple of the identity" + ("" if g is None else " plus a Gram matrix")
    return None


def base2(s, st):
    b = base_binds(s, st)
    # (a memory of one place has nothing to compare with: C09)
    b["mem"] = Num(T.dim("mem", 2), "i", True)
    return b


def divisors(ck, label, code, binds, where, rule, extra=None, ok_div=None):
    """every divisor and every system reached by the driver"""
    def go():
        S = session(True)
        r = ck.run(code, binds, label)
        known = [e["of"] for e in r.events if e["kind"] == "square"]
        for k, o in r.obs.items():
            if k.startswith("square") and isinstance(o.val, Num):
                known.append(o.val.p)
        known = list(dict.fromkeys(known))
        grams = []
        for e in r.events:
            if e["kind"] == "gram":
                l = matrix_of(e["matrix"])
                if l is not None:
                    grams.append(l)
        pl = ck.places(where, r)
        count = 0
        for e in r.events:
            if e["kind"] not in ("div", "solve") or not inside(e):
                continue
            count += 1
            g = e["guard"]
            if e["kind"] == "div":
                by = e["by"]
                name = "%s: divisor" % label
                why = never_zero(by, known, g)
                if why:
                    ck.add(name, "proved", why, [place(e)], rule)
                    continue
                try:
                    v, d = W.compare(T.mul(g, T.eq(by)), ZERO, ck.seed)
                except T.TooBig:
                    v, d = "unknown", "too big"
                if v == "equal":
                    ck.add(name, "proved", "zero only where it is not reached", [place(e)], rule)
                elif v == "different":
                    ck.add(name, "refuted", "the divisor %s is zero for %s" % (T.short(by, 120), d), [place(e)], rule, code)
                else:
                    ck.add(name, "undecided", "%s: %s" % (T.short(by, 160), d), [place(e)], rule)
            else:
                lam = matrix_of(e["matrix"])
                name = "%s: system to solve" % label
                why = regular(lam, grams) if lam is not None else None
                if why:
                    ck.add(name, "proved", why, [place(e)], rule)
                elif lam is not None and not lam.body.t and not lam.body.opq:
                    ck.add(name, "refuted", "the matrix of the system is zero", [place(e)], rule, code)
                else:
                    ck.add(name, "undecided", T.short(lam.body, 160) if lam is not None else "not modelled", [place(e)], rule)
        for o in r.raises:
            if isinstance(o.val, ExcV) and set(o.val.names) & {"ZeroDivisionError", "LinAlgError", "FloatingPointError"}:
                v, d = ck.cmp_poly(o.st.abs(), ZERO)
                if v != "equal":
                    ck.add("%s: no exception" % label, "refuted" if v == "different" else "undecided", "%s at %s: %s" % (o.val, o.node, d), pl, rule, code)
        if not count:
            ck.add("%s: divisors" % label, "proved", "nothing is divided", pl, rule)
    ck.guardrun(label, go)


def C19(ck):
    rule = "every divisor is a positive constant plus terms that cannot be negative; every system to solve is a Gram matrix plus a positive multiple of the identity"
    for nm in ("NLMS", "NLMF", "NSSLMS", "OCNLMS", "AP"):
        f = BY[nm]
        at = [f.rule_at] if nm != "AP" else [f.rule_at, BASE + "::AdaptiveFilterAP.adapt"]
        head = "import padasip as pa\nimport numpy as np\n%s\n" % new(f)
        divisors(ck, "%s.run" % nm, head + "f.run(d, x)\n", base2, at, rule)
        divisors(ck, "%s.adapt" % nm, head + "for k in range(N):\n    f.adapt(d[k], x[k])\n", base2, at, rule)
        zero = head + "z = np.zeros(n)\nf.adapt(d[0], z)\nf.adapt(0.0, z)\n"
        divisors(ck, "%s, adapt with zero inputs" % nm, zero, base2, at, rule)
        divisors(ck, "%s, run over zeros" % nm, head + "f.run(np.zeros(N), np.zeros((N, n)))\n", base2, at, rule)
        divisors(ck, "%s, predict" % nm, head + "f.predict(x[0])\n", base2, at, rule)
    f = BY["RLS"]
    head = "import padasip as pa\nimport numpy as np\n%s\n" % new(f)
    divisors(ck, "RLS, creation", head, base2, [f.rule_at], rule)
    divisors(ck, "RLS, first sample", head + "v = x[0]\nout('square', np.dot(v, v))\nout('square of the start', np.dot(v, v)/eps)\nf.adapt(d[0], v)\n", base2, [f.rule_at], rule)

    def with_root(s, st):
        b = base_binds(s, st)
        b["G"] = s.array(st, "G", (T.dim("n"), T.dim("n")), "f")
        return b
    pd = head + "f.R = np.dot(G.T, G)\n"
    for lab, act in (("adapt", "f.adapt(d[0], v)\n"), ("run", "f.run([d[0]], [v])\n")):
        divisors(ck, "RLS with any positive definite matrix, %s" % lab, pd + "v = x[0]\nu = np.dot(G, v)\nout('square', np.dot(u, u))\n" + act, with_root, [f.rule_at], rule)
    divisors(ck, "RLS, zero input", head + "z = np.zeros(n)\nf.adapt(d[0], z)\nf.adapt(d[0], z)\n", base2, [f.rule_at], rule)
    at = [DET + "le.py::learning_entropy"]
    for o in (1, 2):
        binds = PF.le_binds(o, False)
        divisors(ck, "learning entropy of order %d" % o, "import padasip as pa\npa.detection.learning_entropy(w, m=m, order=%d)\n" % o, binds, at, rule)
        divisors(ck, "learning entropy of order %d, sensitivities" % o, "import padasip as pa\npa.detection.learning_entropy(w, m=m, order=%d, alpha=al)\n" % o, binds, at, rule)
    divisors(ck, "learning entropy of constant weights", "import padasip as pa\nimport numpy as np\npa.detection.learning_entropy(np.zeros((N, n)), m=m)\n", PF.le_binds(1, False), at, rule)
    divisors(ck, "learning entropy of constant weights, sensitivities", "import padasip as pa\nimport numpy as np\npa.detection.learning_entropy(np.zeros((N, n)), m=m, alpha=al)\n", PF.le_binds(1, False), at, rule)


# ------------------------------------------------------------------------------------------------ C20
def twice(names):
    """the same values stored as the caller likes and as float64"""
    def deco(binds):
        def b(s, st):
            r = binds("c")(s, st)
            q = binds("f")(s, st)
            for k in names:
                if k in q:
                    r[k + "f"] = q[k]
            return r
        return b
    return deco


def types(ck, label, code, outs, binds, where):
    """code uses names of data; run once on stored data, once on floats; and no arithmetic in the stored type"""
    rule = "no arithmetic of the package is done in the integer type of the caller's array; results equal those for the same values as float64"
    names = ("x", "d", "z", "w0", "xh", "dh", "a", "a2", "w", "w2", "al")
    import re
    fl = re.sub(r"(?<![.\w])(%s)\b(?!=)" % "|".join(names), r"\1f", code)
    full = "import padasip as pa\nimport numpy as np\nnp.random.seed(1)\n" + code + "".join("out(%r, %s)\n" % (o, o) for o in outs)
    ref = "np.random.seed(1)\n" + fl + "".join("out(%r, %s)\n" % (o + "'", o) for o in outs)

    def go():
        S = session(True)
        r = ck.run(full + ref, twice(names)(binds), label)
        pl = ck.places(where, r)
        seen = {}
        for e in r.events:
            if e["kind"] != "narrow" or not inside(e):
                continue
            k = (place(e), e["what"])
            if seen.get(k) == "refuted":
                continue
            v, d = ck.cmp_poly(e["guard"], ZERO)
            seen[k] = "refuted" if v == "different" else seen.get(k) or ("undecided" if v == "unknown" else "proved")
        bad = sorted(k for k, v in seen.items() if v == "refuted")
        und = sorted(k for k, v in seen.items() if v == "undecided")
        if bad:
            ck.add(label + ": element type", "refuted", "; ".join("%s in the type of the caller's array at %s" % (k[1], k[0]) for k in bad), [k[0] for k in bad], rule, full)
        elif und:
            ck.add(label + ": element type", "undecided", str(und)[:300], pl, rule)
        else:
            ck.add(label + ": element type", "proved", "", pl, rule)
        for o in outs:
            a, b = r.obs.get(o), r.obs.get(o + "'")
            name = "%s: %s" % (label, o)
            if a is None or b is None:
                ck.add(name, "undecided", "not reached in the analysis", pl, rule)
                continue
            res = ck.cmp_val(S, a.val, a.st, b.val, b.st, T.mul(a.guard, b.guard))
            bad = [q for q in res if q[1] == "different"]
            unk = [q for q in res if q[1] == "unknown"]
            ck.add(name, "refuted" if bad else "undecided" if unk else "proved", "; ".join(str(q[2]) for q in bad or unk)[:900], pl, rule, full if bad else "")
    ck.guardrun(label, go)


def C20(ck):
    import p_effects as PE
    eb = lambda dt: PE.eff_binds(dt=dt)
    for f in FILTERS:
        if f.name == "OCNLMS":
            code = new(f) + "\npr = f.predict(z)\ny, e, h = f.run(d, x)\n"
        else:
            code = new(f) + "\npr = f.predict(z)\nf.adapt(dh[0], z)\ny, e, h = f.run(d, x)\n"
        types(ck, f.name, code, ["pr", "y", "e", "h"], eb, PE.run_at(f))
        code = new(f) + "\nfor k in range(H):\n    f.adapt(dh[k], xh[k])\npr = f.w\n"
        types(ck, f.name + ", adapt", code, ["pr"], eb, PE.run_at(f))
    for f in FILTERS:
        def lists(s, st):
            r = PE.eff_binds()(s, st)
            n, N = T.dim("n"), T.dim("N")
            for k, sh in (("x", (N, n)), ("d", (N,)), ("z", (n,)), ("w0", (n,))):
                r[k + "l"] = s.array(st, k, sh, lst=True)
            t = T.P1(T.atom("sym", ("ti",), is_int=True))
            r["ti"], r["tf"] = Num(t, "i", True), Num(t, "f", True)
            return r
        code = "import padasip as pa\n%s\nf.adapt(%s, %s)\ny, e, h = f.run(%s, %s)\nout('weights', f.w)\nout('y', y)\nout('e', e)\nout('history', h)\n"
        ck.twin("%s, data in lists, a whole number as the target" % f.name, code % (new(f, "f", "w0l"), "ti", "zl", "dl", "xl"),
                code % (new(f), "tf", "z", "d", "x"), lists, where=PE.run_at(f),
                rule="the same numbers in lists, or a Python int instead of a float, give the same results")
    f = BY["NLMS"]
    types(ck, "filter_data and pretrained_run", "y, e, h = pa.filters.filter_data(d, x, model='NLMS', mu=mu, eps=eps, w=w0)\nf = pa.filters.AdaptiveFilter(model='NLMS', n=n, mu=mu, eps=eps, w=w0)\n"
          "y2, e2, h2 = f.pretrained_run(d, x, ntrain=0.5, epochs=2)\n", ["y", "e", "h", "y2", "e2", "h2"], eb, [PE.INITF + "::filter_data", BASE + "::AdaptiveFilter.pretrained_run"])
    for lab, call, used, at in PE.FUNS:
        types(ck, lab, "v = %s\n" % call, ["v"], lambda dt: PE.fun_binds(dt=dt), [at])
    types(ck, "learning_entropy, integer sensitivities", "v = pa.detection.learning_entropy(w, m=3, alpha=a)\n", ["v"], lambda dt: PE.fun_binds(dt=dt), [DET + "le.py::learning_entropy"])
    for m in ("sqrt", "log10", "log10log10", "30%", "35%"):
        types(ck, "ESE by " + m, "v = pa.detection.ESE(w, window=3, pot_method=%r)\n" % m, ["v"], lambda dt: PE.fun_binds(dt=dt), [DET + "ese.py::ESE"])
    for L in (1, 2):
        for o in (1, 2):
            for act in ("sigmoid", "tanh"):
                hs = ", ".join("h%d" % (i + 1) for i in range(L))
                code = "g = pa.ann.NetworkMLP([%s], n, outputs=%s, activation=%r, mu=mu)\n" % (hs, "1" if o == 1 else "o", act)
                code += "pr = g.predict(z)\nr = g.run(x)\nt = g.test(x, d)\n"
                types(ck, "network, %d hidden, %s, %s: answers" % (L, "one output" if o == 1 else "several outputs", act), code, ["pr", "r", "t"],
                      lambda dt, L=L, o=o: PE.net_binds(L, o, dt), [PE.MLP + "::NetworkMLP." + m for m in ("run", "test", "predict")])
                if L == 1:
                    code = "g = pa.ann.NetworkMLP([%s], n, outputs=%s, activation=%r, mu=mu)\n" % (hs, "1" if o == 1 else "o", act)
                    code += "pr = g.predict(z)\nu = g.update(d[0])\nr, t = g.train(x, d, epochs=1)\n"
                    types(ck, "network, %s, %s: training" % ("one output" if o == 1 else "several outputs", act), code, ["u", "r", "t"],
                          lambda dt, L=L, o=o: PE.net_binds(L, o, dt), [PE.MLP + "::NetworkMLP." + m for m in ("train", "update")])


# ------------------------------------------------------------------------------------------------ C34
def layout(st, v, seen=()):
    """what kind of data, in which sizes, is reachable from a value; None where it is not known"""
    if isinstance(v, Num):
        return "number"
    if isinstance(v, Arr):
        return ("array", v.shape)
    if isinstance(v, Tup):
        r = [layout(st, x, seen) for x in v.items]
        return None if None in r else ("tuple",) + tuple(r)
    if isinstance(v, Choice):
        a, b = layout(st, v.a, seen), layout(st, v.b, seen)
        return a if a == b else None if a is None or b is None else ("either", a, b)
    if isinstance(v, (ListRef, DictRef, Obj)):
        key = ("l", v.lid) if isinstance(v, ListRef) else ("d", v.did) if isinstance(v, DictRef) else ("o", v.oid)
        if key in seen:
            return ("seen", len(seen) - seen.index(key))
        seen = seen + (key,)
        if isinstance(v, ListRef):
            d = st.cells[key]
            if not d.concrete:
                return None
            r = [layout(st, x, seen) for x in d.items]
        elif isinstance(v, DictRef):
            d = st.cells[key]
            if d.opq:
                return None
            r = [(str(k), layout(st, x, seen)) for k, x in d.items]
            return None if None in [x[1] for x in r] else ("dict",) + tuple(r)
        else:
            r = [(k[2], layout(st, x, seen)) for k, x in st.cells.items() if k[0] == "a" and k[1] == v.oid and not isinstance(x, Unbound)]
            return None if None in [x[1] for x in r] else ("object", v.cls.name) + tuple(sorted(r, key=str))
        return None if None in r else ("list",) + tuple(r)
    if isinstance(v, (Str, SymStr)):
        return "text" if isinstance(v, SymStr) or v.s is None else ("text", len(v.s))
    if isinstance(v, Opq):
        return None
    return type(v).__name__


def amount(st, v, seen=None):
    """numbers held by a value, as a polynomial; None if not known"""
    seen = set() if seen is None else seen
    if isinstance(v, Arr):
        r = ONE
        for s in v.shape:
            r = T.mul(r, s)
        return r
    if isinstance(v, Choice):
        a, b = amount(st, v.a, set(seen)), amount(st, v.b, set(seen))
        return None if a is None or b is None else T.mul(v.c, a) + T.mul(ONE - v.c, b)
    if isinstance(v, Tup):
        xs = v.items
    elif isinstance(v, (ListRef, DictRef, Obj)):
        key = ("l", v.lid) if isinstance(v, ListRef) else ("d", v.did) if isinstance(v, DictRef) else ("o", v.oid)
        if key in seen:
            return ZERO
        seen.add(key)
        if isinstance(v, Obj):
            xs = [x for k, x in st.cells.items() if k[0] == "a" and k[1] == v.oid and not isinstance(x, Unbound)]
        else:
            d = st.cells[key]
            if not d.concrete if isinstance(v, ListRef) else d.opq or d.part:
                return None
            xs = d.items if isinstance(v, ListRef) else [x for k, x in d.items]
    else:
        return None if isinstance(v, Opq) else ONE
    r = ONE
    for x in xs:
        q = amount(st, x, seen)
        if q is None:
            return None
        r = r + q
    return r


def constant_memory(ck, label, make, step, binds, where, obj="f"):
    """make: creation; step: one online step with sample k"""
    rule = "over a loop of any number of online steps every array reachable from the object keeps its shape and every container its length"
    head = "import padasip as pa\nimport numpy as np\n%s\n" % make
    loop = head + "k = 0\n%smark('before', %s)\nfor k in range(1, H):\n%smark('after', %s)\n" % (step, obj, "".join("    " + l + "\n" for l in step.splitlines()), obj)
    unrolled = head
    for k in range(5):
        unrolled += "k = %d\n%smark('%d', %s)\n" % (k, step, k, obj)

    def grows():
        """a reason why the object grows with every step, and where; None if it does not; '' if not known"""
        r = ck.run(unrolled, binds, label + ", step by step")
        ms = [r.obs.get("@%d" % k) for k in range(5)]
        if None in ms:
            return "", []
        marks = {e["name"]: (i, e["id"]) for i, e in enumerate(r.events) if e["kind"] == "mark"}
        evs = r.events
        after, born = marks["2"]
        cells = {}
        for i, e in enumerate(evs):
            if i > after and e["kind"] in ("grow", "shrink") and e["cell"][1] < born:
                cells.setdefault(e["cell"], []).append((i, e))
        for c, es in cells.items():
            if any(e["kind"] == "shrink" for i, e in es):
                continue
            last = [e for i, e in es if i > marks["3"][0]]
            bad = []
            for e in last:
                g = e["guard"] if e["by"] is None else T.mul(e["guard"], e["by"])
                v, d = ck.cmp_poly(g, ZERO)
                if v == "different":
                    bad.append((e, d))
            if bad and e["by"] is not None:
                return "%s grows by an element in the fifth step too, for %s" % ("a list" if c[0] == "l" else "a dictionary", bad[0][1]), [place(bad[0][0])]
        sizes = [amount(o.st, o.val) for o in ms]
        if None in sizes:
            return "", []
        diffs = [ck.cmp_poly(b, a) for a, b in zip(sizes[1:], sizes[2:])]
        if all(v == "different" for v, d in diffs):
            inc = [T.short(b - a, 80) for a, b in zip(sizes[1:], sizes[2:])]
            return "after 2, 3, 4 and 5 steps it holds %s numbers (%s)" % (", ".join(T.short(s, 60) for s in sizes[1:]), "; ".join(inc)), []
        return (None if all(v == "equal" for v, d in diffs) and not cells else ""), []

    def go():
        r = ck.run(loop, binds, label)
        pl = ck.places(where, r)
        a, b = r.obs.get("@before"), r.obs.get("@after")
        name = label + ": size of the object"
        if a is not None and b is not None:
            la, lb = layout(a.st, a.val), layout(b.st, b.val)
            i = [j for j, e in enumerate(r.events) if e["kind"] == "mark"][0]
            born = r.events[i]["id"]
            grown = [e for e in r.events[i:] if e["kind"] == "grow" and e["cell"][1] < born]
            if la is not None and la == lb and not grown:
                ck.add(name, "proved", "", pl, rule)
                return
        why, at = grows()
        if why:
            ck.add(name, "refuted", why, at or pl, rule, unrolled)
        else:
            ck.add(name, "undecided", "the loop changes the layout of the object in a way that is not understood", pl, rule)
    ck.guardrun(label, go)


def C34(ck):
    import p_effects as PE
    for f in FILTERS:
        at = [f.rule_at] + PE.run_at(f)
        constant_memory(ck, f.name + ", adapt and predict", new(f), "f.predict(xh[k])\nf.adapt(dh[k], xh[k])\n", PE.eff_binds(), at)
        if f.name != "OCNLMS":
            constant_memory(ck, f.name + ", adapt only, then predict", new(f), "f.adapt(dh[k], xh[k])\ny = f.predict(xh[k])\n", PE.eff_binds(), at)
    constant_memory(ck, "base class", "f = pa.filters.base_filter.AdaptiveFilter(n, mu, w='zeros')", "f.predict(xh[k])\nf.adapt(dh[k], xh[k])\n", PE.eff_binds(), [BASE + "::AdaptiveFilter.adapt"])
    for L in (1, 2):
        for o in (1, 2):
            for act in ("sigmoid", "tanh"):
                hs = ", ".join("h%d" % (i + 1) for i in range(L))
                mk = "g = pa.ann.NetworkMLP([%s], n, outputs=%s, activation=%r, mu=mu)\n" % (hs, "1" if o == 1 else "o", act)
                lab = "network, %d hidden, %s, %s" % (L, "one output" if o == 1 else "several outputs", act)
                at = [PE.MLP + "::NetworkMLP." + m for m in ("predict", "update")] + [PE.MLP + "::Layer." + m for m in ("predict", "update")]
                constant_memory(ck, lab + ", predict", mk, "g.predict(z)\n", lambda s, st, L=L, o=o: dict(PE.net_binds(L, o)(s, st), H=Num(T.dim("H"), "i", True)), at, "g")
                constant_memory(ck, lab + ", predict and update", mk, "g.predict(z)\ng.update(d[k])\n" if o == 1 or True else "", lambda s, st, L=L, o=o: mlp_binds(s, st, L, o), at, "g")


def mlp_binds(s, st, L, o):
    import p_effects as PE
    b = PE.net_binds(L, o)(s, st)
    b["H"] = Num(T.dim("H"), "i", True)
    return b

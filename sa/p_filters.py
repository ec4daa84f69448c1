"""Properties of the adaptive filters."""
import terms as T
from terms import P, P1, ONE, ZERO
from values import *
from core import *

FI = "padasip/filters/"
BASE = FI + "base_filter.py"


class F:
    def __init__(self, name, mod, kw, ref_init="", ref_step="", pred=None):
        self.name, self.mod, self.kw, self.ref_init, self.ref_step, self.pred = name, mod, kw, ref_init, ref_step, pred
        self.cls = "Filter" + name
        self.file = FI + mod + ".py"
        self.rule_at = "%s::%s.learning_rule" % (self.file, self.cls)


# reference step: uses w, e, x, the parameters and the state set up by ref_init; must leave the new weights in w
FILTERS = [
    F("LMS", "lms", "mu=mu", "", "w = w + mu*e*x"),
    F("LMF", "lmf", "mu=mu", "", "w = w + mu*e**3*x"),
    F("SSLMS", "sslms", "mu=mu", "", "w = w + mu*np.sign(e)*np.sign(x)"),
    F("Llncosh", "llncosh", "mu=mu, lambd=lam", "", "w = w + mu*np.tanh(lam*e)*x"),
    F("GMCC", "gmcc", "mu=mu, lambd=lam, alpha=alpha", "",
      "w = w + mu*lam*alpha*np.exp(-lam*np.abs(e)**alpha)*np.abs(e)**(alpha-1)*np.sign(e)*x"),
    F("NLMS", "nlms", "mu=mu, eps=eps", "", "w = w + mu/(eps+np.dot(x,x))*e*x"),
    F("NLMF", "nlmf", "mu=mu, eps=eps", "", "w = w + mu/(eps+np.dot(x,x))*e**3*x"),
    F("NSSLMS", "nsslms", "mu=mu, eps=eps", "", "w = w + mu/(eps+np.dot(x,x))*np.sign(e)*np.sign(x)"),
    F("RLS", "rls", "mu=mup, eps=eps", "R = np.identity(n)/eps", """
Rx = np.dot(R, x)
xR = np.dot(x, R)
R = (R - np.outer(Rx, xR)/(mup + np.dot(xR, x)))/mup
w = w + np.dot(R, x)*e
"""),
    F("AP", "ap", "mu=mu, order=p, ifc=eps", "X = np.zeros((n, p))\nD = np.zeros(p)", """
X2 = np.zeros((n, p)); D2 = np.zeros(p)
X2[:, 1:] = X[:, :-1]; X2[:, 0] = x
D2[1:] = D[:-1]; D2[0] = t
X = X2; D = D2
E = D - np.dot(X.T, w)
w = w + mu*np.dot(X, np.dot(np.linalg.inv(np.dot(X.T, X) + eps*np.identity(p)), E))
"""),
    F("GNGD", "gngd", "mu=mu, eps=eps, ro=ro", "ep = eps\ne1 = 0.0\nx1 = np.zeros(n)", """
ep = ep - ro*mu*e*e1*np.dot(x, x1)/(np.dot(x1, x1) + ep)**2
w = w + mu/(ep + np.dot(x, x))*e*x
e1 = e; x1 = x
"""),
    F("VSLMS_Mathews", "vslms_mathews", "mu=mu, ro=ro", "m = mu\ne1 = 0.0\nx1 = np.zeros(n)", """
m = m + ro*e*e1*np.dot(x1, x)
w = w + m*e*x
e1 = e; x1 = x
"""),
    F("VSLMS_Benveniste", "vslms_benveniste", "mu=mu, ro=ro", "m = mu\ne1 = 0.0\nx1 = np.zeros(n)\nphi = np.zeros(n)", """
phi = np.dot(np.identity(n) - m*np.outer(x1, x1), phi) + e1*x1
m = m + ro*e*np.dot(x1, phi)
w = w + m*e*x
e1 = e; x1 = x
"""),
    F("VSLMS_Ang", "vslms_ang", "mu=mu, ro=ro, a=a", "m = mu\ne1 = 0.0\nx1 = np.zeros(n)\nphi = np.zeros(n)", """
phi = a*phi + e1*x1
m = m + ro*e*np.dot(x1, phi)
w = w + m*e*x
e1 = e; x1 = x
"""),
    F("OCNLMS", "ocnlms", "mu=mu, eps=eps, mem=mem"),
]
BY = {f.name: f for f in FILTERS}


def params(s, st):
    return dict(mu=Num(T.sym("mu"), "f", True), mup=Num(T.sym("mup", pos=True), "f", True), eps=Num(T.sym("eps", pos=True), "f", True),
                lam=Num(T.sym("lam"), "f", True), alpha=Num(T.sym("alpha", pos=True), "f", True), ro=Num(T.sym("ro"), "f", True),
                a=Num(T.sym("a"), "f", True), p=Num(T.dim("p"), "i", True), mem=Num(T.dim("mem"), "i", True),
                n=Num(T.dim("n"), "i", True))


def data(s, st, tag="", N="N"):
    N = T.dim(N) if isinstance(N, str) else N
    n = T.dim("n")
    return {"x" + tag: s.array(st, "x" + tag, (N, n), input=True), "d" + tag: s.array(st, "d" + tag, (N,)), "N" + tag: Num(N, "i", True)}


def base_binds(s, st):
    b = params(s, st)
    b["w0"] = s.array(st, "w0", (T.dim("n"),), "f")
    b.update(data(s, st))
    return b


def new(f, var="f", w="w0"):
    return "%s = pa.filters.%s(n, %s, w=%s)" % (var, f.cls, f.kw, w)


def indent(s, k=4):
    return textwrap.indent(textwrap.dedent(s).strip("\n"), " " * k)


def reference(f):
    return """
import numpy as np
w = np.array(w0, dtype='float64')
%s
for k in range(N):
    x = xs[k]; t = ds[k]
    e = t - np.dot(w, x)
%s
out("w", w)
""" % (f.ref_init, indent(f.ref_step))


def reference2(f):
    """the same recursion over two parts"""
    part = """
for k in range(%s):
    x = xs[%s]; t = ds[%s]
    e = t - np.dot(w, x)
""" + indent(f.ref_step).replace("%", "%%") + "\n"
    return "import numpy as np\nw = np.array(w0, dtype='float64')\n%s\n" % f.ref_init + part % ("K", "k", "k") + part % ("M", "K + k", "K + k") + 'out("w", w)\n'


def with_xs(s, st):
    b = base_binds(s, st)
    b["xs"], b["ds"] = b["x"], b["d"]
    return b


def two_parts(s, st):
    b = split_binds()(s, st)
    b["xs"], b["ds"] = b["x"], b["d"]
    return b


def any_eps(binds):
    """the regularisation is whatever the user gave, also zero"""
    def b(s, st):
        r = binds(s, st)
        r["eps"] = Num(T.sym("eps'"), "f", True)
        return r
    return b


def update_rule(ck, names):
    """C03 - C08: the weights after any number of samples equal the published recursion, through run and through adapt"""
    for nm in names:
        f = BY[nm]
        ref = reference(f)
        run = "import padasip as pa\n%s\nf.run(ds, xs)\nout(\"w\", f.w)\n" % new(f)
        ad = "import padasip as pa\n%s\nfor k in range(N):\n    f.adapt(ds[k], xs[k])\nout(\"w\", f.w)\n" % new(f)
        wx, w2 = with_xs, two_parts
        if nm not in ("RLS", "AP"):
            wx, w2 = any_eps(wx), any_eps(w2)
        ck.twin("%s through run" % nm, run, ref, wx, where=[f.rule_at])
        wh = [f.rule_at] if nm != "AP" else [BASE + "::AdaptiveFilterAP.adapt"]
        ck.twin("%s through adapt" % nm, ad, ref, wx, where=wh)
        two = "import padasip as pa\n%s\nf.run(ds[:K], xs[:K])\nf.run(ds[K:], xs[K:])\nout(\"w\", f.w)\n" % new(f)
        ck.twin("%s through two runs" % nm, two, reference2(f), w2, where=[f.rule_at])
        mix = "import padasip as pa\n%s\nfor k in range(K):\n    f.adapt(ds[k], xs[k])\nf.run(ds[K:], xs[K:])\nout(\"w\", f.w)\n" % new(f)
        ck.twin("%s through adapt and run" % nm, mix, reference2(f), w2, where=[f.rule_at])


def C03(ck):
    update_rule(ck, ["LMS", "LMF", "SSLMS", "Llncosh", "GMCC"])


def C04(ck):
    update_rule(ck, ["NLMS", "NLMF", "NSSLMS"])


def C05(ck):
    update_rule(ck, ["RLS"])


def C06(ck):
    update_rule(ck, ["AP"])


def C07(ck):
    update_rule(ck, ["GNGD"])


def C08(ck):
    update_rule(ck, ["VSLMS_Mathews", "VSLMS_Benveniste", "VSLMS_Ang"])


def split_binds(N="KM"):
    """data of K + M samples, so that sample K exists"""
    def b(s, st):
        r = params(s, st)
        r["w0"] = s.array(st, "w0", (T.dim("n"),), "f")
        K, M = T.dim("K"), T.dim("M")
        r["K"], r["M"] = Num(K, "i", True), Num(M, "i", True)
        r.update(data(s, st, "", K + M))
        H = T.dim("H")
        r.update(data(s, st, "h", H))
        r["H"] = Num(H, "i", True)
        r["z"] = s.array(st, "z", (T.dim("n"),), input=True)
        return r
    return b


def ocn_mem(ck):
    return "mem=mem"


def C01(ck):
    for f in FILTERS:
        run_at = BASE + ("::AdaptiveFilterAP.run" if f.name == "AP" else "::AdaptiveFilter.run")
        code = """
import padasip as pa
%s
%s
y, e, h = f.run(d, x)
out("number of outputs", len(y)); out("number of outputs'", N)
out("number of errors", len(e)); out("number of errors'", N)
out("number of history rows", len(h)); out("number of history rows'", N)
out("first history row", h[0]); out("first history row'", w0)
g.run(d[:K], x[:K])
out("history row K is the weights after K samples", h[K]); out("history row K is the weights after K samples'", g.w)
out("output K is the prediction before sample K is learned", y[K]); out("output K is the prediction before sample K is learned'", g.predict(x[K]))
out("error K is the target minus output K", e[K]); out("error K is the target minus output K'", d[K] - y[K])
i = %s
out("first output", y[0]); out("first output'", i.predict(x[0]))
out("first error", e[0]); out("first error'", d[0] - y[0])
""" % (new(f), new(f, "g"), new(f, "i").split("= ", 1)[1])
        ck.pairs("%s.run from a new filter" % f.name, code, split_binds(), where=[run_at])
        code = """
import padasip as pa
%s
%s
for k in range(H):
    f.adapt(dh[k], xh[k])
    g.adapt(dh[k], xh[k])
ws = g.w + 0.0
y, e, h = f.run(d, x)
out("first history row", h[0]); out("first history row'", ws)
out("first output", y[0]); out("first output'", g.predict(x[0]))
out("first error", e[0]); out("first error'", d[0] - y[0])
g.run(d[:K], x[:K])
out("history row K", h[K]); out("history row K'", g.w)
out("output K", y[K]); out("output K'", g.predict(x[K]))
out("error K", e[K]); out("error K'", d[K] - y[K])
""" % (new(f), new(f, "g"))
        ck.pairs("%s.run after H adapted samples" % f.name, code, split_binds(), where=[run_at])
        code = """
import padasip as pa
%s
%s
for k in range(H):
    f.adapt(dh[k], xh[k])
    g.adapt(dh[k], xh[k])
y, e, h = f.run(d[:1], x[:1])
out("sizes", (len(y), len(e), len(h))); out("sizes'", (1, 1, 1))
out("history row", h[0]); out("history row'", g.w)
out("output", y[0]); out("output'", g.predict(x[0]))
out("error", e[0]); out("error'", d[0] - g.predict(x[0]))
""" % (new(f), new(f, "g"))
        ck.pairs("%s.run over a single sample" % f.name, code, split_binds(), where=[run_at])
        code = """
import padasip as pa
%s
f.run(dh, xh)
ws = f.w + 0.0
y, e, h = f.run(d, x)
out("sizes", (len(y), len(e), len(h))); out("sizes'", (N, N, N))
out("first history row", h[0]); out("first history row'", ws)
out("first error", e[0]); out("first error'", d[0] - y[0])
out("error K", e[K]); out("error K'", d[K] - y[K])
""" % new(f)
        ck.pairs("%s.run after an earlier run" % f.name, code, split_binds(), where=[run_at])


def C02(ck):
    for f in FILTERS:
        at = [BASE + ("::AdaptiveFilterAP." if f.name == "AP" else "::AdaptiveFilter.") + m for m in ("run", "adapt")] + [f.rule_at]
        code = """
import padasip as pa
%s
%s
f.run(d, x)
for k in range(N):
    g.adapt(d[k], x[k])
out("weights after run and after adapt", f.w); out("weights after run and after adapt'", g.w)
%s
""" % (new(f), new(f, "g"), "" if f.name == "OCNLMS" else """
f.adapt(dh[0], z)
g.adapt(dh[0], z)
out("weights after one more sample", f.w); out("weights after one more sample'", g.w)
out("prediction after one more sample", f.predict(z)); out("prediction after one more sample'", g.predict(z))
""")
        ck.pairs("%s, new filter" % f.name, code, split_binds(), where=at)
        code = """
import padasip as pa
%s
%s
for k in range(H):
    f.adapt(dh[k], xh[k])
    g.adapt(dh[k], xh[k])
f.run(d, x)
for k in range(N):
    g.adapt(d[k], x[k])
out("weights", f.w); out("weights'", g.w)
f.run(d, x)
for k in range(N):
    g.adapt(d[k], x[k])
out("weights after the second run", f.w); out("weights after the second run'", g.w)
""" % (new(f), new(f, "g"))
        ck.pairs("%s, filter with a history of adapt" % f.name, code, split_binds(), where=at)
        code = """
import padasip as pa
%s
%s
f.run(d[:K], x[:K])
for k in range(K):
    g.adapt(d[k], x[k])
out("weights after the first part", f.w); out("weights after the first part'", g.w)
f.run(d[K:], x[K:])
for k in range(M):
    g.adapt(d[K + k], x[K + k])
out("weights after the second part", f.w); out("weights after the second part'", g.w)
""" % (new(f), new(f, "g"))
        ck.pairs("%s, run in two parts of any lengths" % f.name, code, split_binds(), where=at)


OCN_REF = """
import numpy as np
def centre(X, D, i, empty):
    if empty:
        if i == 0:
            return np.zeros(n), 0
        return np.mean(X[:i+1], axis=0), np.mean(D[:i])
    return np.mean(X, axis=0), np.mean(np.delete(D, i))
w = np.array(w0, dtype='float64')
X = np.zeros((mem, n)); D = np.zeros(mem)
i = 0
empty = True
y = np.zeros(N)
for k in range(N):
    x = xs[k]; t = ds[k]
    mx, md = centre(X, D, i, empty)
    y[k] = np.dot(w, x - mx) + md
    e = t - y[k]
    i = i + 1
    if i > mem - 1:
        i = 0; empty = False
    X[i] = x
    mx, md = centre(X, D, i, empty)
    i = i + 1
    if i > mem - 1:
        i = 0; empty = False
    c = x - mx
    D[i - 1] = e + (np.dot(w, c) + md)
    w = w + mu/(eps + np.dot(c, c))*e*c
out("w", w)
out("y", y)
"""


def C09(ck):
    f = BY["OCNLMS"]

    def b(s, st):
        r = with_xs(s, st)
        r["mem"] = Num(T.dim("memory", 2), "i", True)
        r["z"] = s.array(st, "z", (T.dim("n"),), input=True)
        return r
    at = [FI + "ocnlms.py::FilterOCNLMS." + m for m in ("learning_rule", "predict", "read_memory", "clear_memory")]
    run = "import padasip as pa\n%s\ny, e, h = f.run(ds, xs)\nout(\"w\", f.w)\nout(\"y\", y)\n" % new(f)
    ck.twin("through run", run, OCN_REF, b, where=at, rule="the value graph of outputs and weights equals that of the reference (memory of `mem` places)")
    ad = """
import padasip as pa
import numpy as np
%s
y = np.zeros(N)
for k in range(N):
    y[k] = f.predict(xs[k])
    f.adapt(ds[k], xs[k])
out("w", f.w)
out("y", y)
""" % new(f)
    ck.twin("through predict and adapt", ad, OCN_REF, b, where=at)

    # clauses of the property that the pinned numbers of the test suite contradict (see known-findings.txt)
    def b3(s, st):
        r = b(s, st)
        r["mem"] = Num(T.dim("memory", 3), "i", True)
        return r
    one = """
import padasip as pa
import numpy as np
f = pa.filters.FilterOCNLMS(n, mu=0.0, eps=eps, mem=mem, w=w0)
f.adapt(ds[0], xs[0])
out("prediction after one stored sample", f.predict(z))
out("prediction after one stored sample'", np.dot(w0, z - xs[0]) + ds[0])
"""
    ck.pairs("one place per sample", one, b3, where=at,
             rule="after one sample the memory holds this sample only: prediction = w.(z - x) + d when mu = 0")


INIT = BASE + "::AdaptiveFilter.init_weights"


def C10(ck):
    n = T.dim("n")
    for f in FILTERS:
        at = [INIT, BASE + "::AdaptiveFilter.__init__", f.file + "::%s.__init__" % f.cls]
        lab = f.name

        def forms(s, st):
            b = params(s, st)
            b["wf"] = s.array(st, "wf", (n,), "f")
            b["wi"] = s.array(st, "wi", (n,), "c", is_int=True)
            b["wl"] = s.array(st, "wl", (n,), "c", lst=True)
            return b
        code = "import padasip as pa\nimport numpy as np\n"
        for k, e, ref in (("float array", "wf", "wf"), ("array of any type", "wi", "wi"), ("list", "wl", "wl"), ("zeros", "'zeros'", "np.zeros(n)")):
            code += "f = pa.filters.%s(n, %s, w=%s)\nout(%r, f.w)\nout(%r, np.array(%s, dtype='float64'))\n" % (f.cls, f.kw, e, k, k + "'", ref)
        ck.pairs(lab + ", weights given", code, forms, where=at, then=lambda A: float_private(ck, lab, A, at, code))
        for k, arg in (("random", ", w='random'"), ("default", "")):
            code = "import padasip as pa\nf = pa.filters.%s(n, %s%s)\nout('weights', f.w)\nout('next draw', __import__('numpy').random.normal(0, 1))\n" % (f.cls, f.kw, arg)
            code = "import padasip as pa\nimport numpy as np\nf = pa.filters.%s(n, %s%s)\nout('weights', f.w)\nout('next draw', np.random.normal(0, 1))\n" % (f.cls, f.kw, arg)
            ref = "import numpy as np\nw = np.random.normal(0, 0.5, n)\nout('weights', w)\nout('next draw', np.random.normal(0, 1))\n"
            ck.twin("%s, %s weights" % (lab, k), code, ref, forms, where=at, rule="n draws of the global generator, mean 0, deviation 0.5")

        def word(s, st):
            b = params(s, st)
            b["word"] = SymStr("word")
            return b
        ck.raises(lab + ", any word for the weights", "import padasip as pa\nf = pa.filters.%s(n, %s, w=word)\n" % (f.cls, f.kw), word,
                  T.mul(ONE - T.tag("word", "random"), ONE - T.tag("word", "zeros")), where=at)

        def length(s, st):
            b = params(s, st)
            b["w2"] = s.array(st, "w2", (T.dim("n2"),), "f")
            b["l2"] = s.array(st, "l2", (T.dim("n2"),), "c", lst=True)
            b["m2"] = s.array(st, "m2", (T.dim("n2"), T.dim("n3")), "f")
            return b
        wrong = ONE - T.eq(T.dim("n") - T.dim("n2"))
        for k in ("w2", "l2", "m2"):
            ck.raises("%s, %s of any length for the weights" % (lab, {"w2": "array", "l2": "list", "m2": "table (length: its rows)"}[k]),
                      "import padasip as pa\nf = pa.filters.%s(n, %s, w=%s)\n" % (f.cls, f.kw, k), length, wrong, where=at)

        def unconv(s, st):
            b = params(s, st)
            b["w3"] = s.array(st, "w3", (n,), "c", conv=True, lst=True)
            return b
        fl = T.lor(T.flag("unconvertible", "w3", "ValueError"), T.flag("unconvertible", "w3", "TypeError"))
        ck.raises(lab + ", weights that may not be numbers", "import padasip as pa\nf = pa.filters.%s(n, %s, w=w3)\n" % (f.cls, f.kw), unconv, fl, where=at)


def float_private(ck, lab, A, at, code):
    """the weights are float64 and live in memory of their own"""
    pl = ck.places(at, A)
    for k in ("float array", "array of any type", "list", "zeros"):
        ob = A.obs.get(k)
        if ob is None:
            continue
        name = "%s, weights given: %s is kept as a private float64 array" % (lab, k)
        rule = "element type and memory region of the attribute w"
        if not isinstance(ob.val, Arr):
            ck.add(name, "refuted" if isinstance(ob.val, (Num, Tup, ListRef, NoneT, Str)) else "undecided", "w is %r" % (ob.val,), pl, rule, code)
            continue
        it = A.session.it
        dt = ob.st.cells[("r", ob.val.rid)].dt
        own = it.owner.get(ob.val.rid, "fresh")
        if dt in "ibcC":
            ck.add(name, "refuted", "the weights are stored in the caller's element type" if dt in "cC" else "the weights are stored as type %r" % dt, pl, rule, code)
        elif own != "fresh":
            ck.add(name, "refuted", "the weights are the caller's array (%s)" % own, pl, rule, code)
        else:
            ck.add(name, "proved" if dt == "f" else "undecided", "", pl, rule)


def C11(ck):
    for f in FILTERS:
        at = [BASE + "::AdaptiveFilter.predict", f.file + "::%s.predict" % f.cls, f.rule_at]
        code = """
import padasip as pa
import numpy as np
%s
%s
p0 = f.predict(z)
for k in range(H):
    p = f.predict(xh[k])
    p = f.predict(z)
    f.adapt(dh[k], xh[k])
    p = f.predict(z)
    g.adapt(dh[k], xh[k])
out("weights, with and without predictions in between", f.w); out("weights, with and without predictions in between'", g.w)
p1 = f.predict(z)
q = f.predict(xh[0])
p2 = f.predict(z)
out("prediction repeated", p2); out("prediction repeated'", p1)
out("prediction of a filter that made none before", p1); out("prediction of a filter that made none before'", g.predict(z))
%s
out("weights untouched by predict", f.w); out("weights untouched by predict'", g.w)
""" % (new(f), new(f, "g"), "" if f.name == "OCNLMS" else
       "out('inner product', p1); out(\"inner product'\", np.dot(f.w, z))\nout('first inner product', p0); out(\"first inner product'\", np.dot(w0, z))")
        ck.pairs("%s, predict between adapts" % f.name, code, split_binds(), where=at)
        code = """
import padasip as pa
%s
%s
f.adapt(dh[0], xh[0]); g.adapt(dh[0], xh[0])
p = f.predict(z); p = f.predict(xh[0])
y, e, h = f.run(d, x)
y2, e2, h2 = g.run(d, x)
out("outputs", y); out("outputs'", y2)
out("weights", f.w); out("weights'", g.w)
""" % (new(f), new(f, "g"))
        ck.pairs("%s, predict before a run" % f.name, code, split_binds(), where=at)
        if f.name == "OCNLMS":
            ck.twin("OCNLMS predictions", """
import padasip as pa
import numpy as np
%s
y = np.zeros(N)
for k in range(N):
    y[k] = f.predict(xs[k])
    f.adapt(ds[k], xs[k])
out("y", y)
""" % new(f), OCN_REF.replace('out("w", w)\n', ""), lambda s, st: dict(with_xs(s, st), mem=Num(T.dim("memory", 2), "i", True)), where=at)
    mlp_predict(ck)


def mlp_predict(ck):
    import p_mlp
    at = [p_mlp.MLP + "::NetworkMLP.predict", p_mlp.MLP + "::NetworkMLP.run", p_mlp.MLP + "::NetworkMLP.test", p_mlp.MLP + "::Layer.predict"]
    for L, o, a in [(1, 1, "sigmoid"), (1, 2, "tanh"), (2, 1, "tanh")]:
        lab = "network with " + p_mlp.lab(L, o, a)
        code = """
import padasip as pa
import numpy as np
np.random.seed(3)
%s
np.random.seed(3)
%s
p0 = f.predict(z); p0 = f.predict(xh[0]); y0 = f.run(x); v0 = f.test(x, d)
e, m = f.train(xh, dh, epochs=1)
e2, m2 = g.train(xh, dh, epochs=1)
out("errors of a training after predictions", e); out("errors of a training after predictions'", e2)
out("weights after a training after predictions", f.w); out("weights after a training after predictions'", g.w)
out("hidden weights after a training after predictions", f.layers[0].w); out("hidden weights after a training after predictions'", g.layers[0].w)
w1 = f.w + 0.0
p1 = f.predict(z)
q = f.predict(xh[0]); r = f.run(x); t = f.test(x, d)
p2 = f.predict(z)
out("prediction repeated", p2); out("prediction repeated'", p1)
out("prediction of a network that made none before", p1); out("prediction of a network that made none before'", g.predict(z))
out("run after predictions", f.run(x)); out("run after predictions'", g.run(x))
out("test after predictions", f.test(x, d)); out("test after predictions'", g.test(x, d))
out("weights untouched", f.w); out("weights untouched'", w1)
""" % (p_mlp.net(L, o, a, var="f"), p_mlp.net(L, o, a, var="g"))
        ck.pairs(lab + ", predictions around a training", code, p_mlp.mlp_binds(L, o), where=at)


def C16(ck):
    # N = T + M samples and ntrain = (T + r)/N with 0 <= r < 1, so that floor(ntrain*N) = T is any split with both parts non-empty
    import witness
    Tr, M, r = T.dim("T"), T.dim("M"), T.sym("r", nn=True)
    N = Tr + M
    witness.RANGES[r.t[0][0].f[0][0]] = (0.0, 0.98)
    nt = T.mul(Tr + r, T.power(N, -1))
    T.INTS[T.mul(N, nt)] = Tr
    half = T.dim("half")
    for f in FILTERS:
        at = [BASE + "::AdaptiveFilter.pretrained_run"]

        def b(s, st, N=N, Tr=Tr, M=M, nt=nt):
            b = params(s, st)
            b["w0"] = s.array(st, "w0", (T.dim("n"),), "f")
            b.update(data(s, st, "", N))
            b["T"], b["M"] = Num(Tr, "i", True), Num(M, "i", True)
            b["ntrain"] = Num(nt, "f", True)
            b["E"] = Num(T.dim("E", 0), "i", True)
            return b
        code = """
import padasip as pa
%s
%s
y, e, h = f.pretrained_run(d, x, ntrain=ntrain, epochs=E)
for i in range(E):
    g.run(d[:T], x[:T])
y2, e2, h2 = g.run(d[T:], x[T:])
out("outputs", y); out("outputs'", y2)
out("errors", e); out("errors'", e2)
out("weight history", h); out("weight history'", h2)
out("weights", f.w); out("weights'", g.w)
""" % (new(f), new(f, "g"))
        ck.pairs("%s.pretrained_run" % f.name, code, b, where=at)
        if f.name in ("LMS", "AP"):
            for odd in (0, 1):
                def b2(s, st, odd=odd):
                    return b(s, st, half + half + odd, half, half + odd, nt)
                ck.pairs("%s.pretrained_run, default split, %s number of samples" % (f.name, ("even", "odd")[odd]),
                         code.replace("ntrain=ntrain, epochs=E", "epochs=E"), b2, where=at)
            ck.pairs("%s.pretrained_run, default epochs" % f.name, code.replace(", epochs=E", "").replace("range(E)", "range(1)"), b, where=at)


def C18(ck):
    import recs
    recs.INVARIANTS = True
    try:
        zero_error(ck)
    finally:
        recs.INVARIANTS = False


def zero_error(ck):
    for f in FILTERS:
        code = """
import padasip as pa
%s
%s
w1 = f.w + 0.0
f.adapt(f.predict(z), z)
out("weights after a perfectly predicted sample", f.w); out("weights after a perfectly predicted sample'", w1)
""" % (new(f), "" if f.name == "AP" else "for k in range(H):\n    f.adapt(dh[k], xh[k])")

        def b(s, st):
            r = split_binds()(s, st)
            r["alpha"] = Num(T.sym("alpha1", pos=True) + 1, "f", True)
            return r
        ck.pairs(f.name + ", after a history" if f.name != "AP" else "AP, first sample", code, b, where=[f.rule_at])
        code = """
import padasip as pa
import numpy as np
%s
for k in range(H):
    f.adapt(f.predict(xh[k]), xh[k])
out("weights after perfectly predicted samples", f.w); out("weights after perfectly predicted samples'", w0)
""" % new(f)
        ck.pairs(f.name + ", all samples matched, adapt", code, b, where=[f.rule_at] if f.name != "AP" else [BASE + "::AdaptiveFilterAP.adapt"])
        if f.name != "OCNLMS":
            code = """
import padasip as pa
import numpy as np
%s
y, e, h = f.run(np.dot(x, w0), x)
out("weights after perfectly predicted samples", f.w); out("weights after perfectly predicted samples'", w0)
""" % new(f)
            ck.pairs(f.name + ", all samples matched, run", code, b, where=[f.rule_at])

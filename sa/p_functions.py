"""Properties of the preprocessing, detection and error functions."""
import terms as T
from terms import P, P1, ONE, ZERO
from values import *
from core import *

PRE = "padasip/preprocess/"
DET = "padasip/detection/"
ERR = "padasip/misc/error_evaluation.py"


def series(s, st, name="a", N="N", **k):
    return s.array(st, name, (T.dim(N) if isinstance(N, str) else N,), **k)


# ------------------------------------------------------------------------------------------------ C21
def C21(ck):
    defs = {"MAE": "np.mean(np.abs(e))", "MSE": "np.mean(e*e)", "RMSE": "np.sqrt(np.mean(e*e))", "logSE": "10*np.log10(e*e)"}

    def b(s, st):
        r = {}
        for k in ("a", "b"):
            r[k] = series(s, st, k)
            r["l" + k] = series(s, st, "l" + k, lst=True)
        r["c"] = series(s, st, "c", "M")
        r["lc"] = series(s, st, "lc", "M", lst=True)
        r["k"] = Num(T.sym("k"), "f", True)
        return r
    for f, d in defs.items():
        at = [ERR + "::" + f, ERR + "::get_valid_error"]
        code = "import padasip as pa\n"
        ref = "import numpy as np\n"
        for lab, call, e in (("a pair of series", "a, b", "a - b"), ("an error series", "a", "a"), ("a pair of lists", "la, lb", "np.array(la) - np.array(lb)"),
                             ("an error list", "la", "np.array(la)"), ("a series and a list", "a, lb", "a - np.array(lb)")):
            code += "out(%r, pa.misc.%s(%s))\n" % (lab, f, call)
            ref += "e = np.array(%s, dtype='float64')\nout(%r, %s)\n" % (e, lab, d)
        ck.twin(f, code, ref, b, where=at, rule="the value equals the definition")
        for lab, call in (("two arrays", "a, c"), ("two lists", "la, lc"), ("a list and an array", "la, c")):
            ck.raises("%s of %s of any lengths" % (f, lab), "import padasip as pa\npa.misc.%s(%s)\n" % (f, call), b, ONE - T.eq(T.dim("N") - T.dim("M")), where=at)
    at = [ERR + "::get_mean_error"]
    code = "import padasip as pa\n"
    ref = "import numpy as np\n"
    for f, d in defs.items():
        if f == "logSE":
            continue
        for lab, call, e in (("a pair", "a, b", "a - b"), ("an error series", "a", "a")):
            code += "out('%s of %s', pa.misc.get_mean_error(%s, function=%r))\n" % (f, lab, call, f)
            ref += "e = np.array(%s, dtype='float64')\nout('%s of %s', %s)\n" % (e, f, lab, d)
    ck.twin("get_mean_error", code, ref, b, where=at, rule="the value equals the definition of the measure asked for")
    for f in ("MSE", "MAE", "RMSE"):
        ck.raises("get_mean_error %s of two series of any lengths" % f, "import padasip as pa\npa.misc.get_mean_error(a, c, function=%r)\n" % f, b,
                  ONE - T.eq(T.dim("N") - T.dim("M")), where=at)


# ------------------------------------------------------------------------------------------------ C23
def C23(ck):
    at = [PRE + "standardize.py::standardize"]
    ab = [PRE + "standardize_back.py::standardize_back"]

    def b(s, st):
        return {"x": series(s, st, "x"), "lx": series(s, st, "lx", lst=True), "X": s.array(st, "X", (T.dim("N"), T.dim("M"))),
                "o": Num(T.sym("o"), "f", True), "s": Num(T.sym("s"), "f", True), "io": Num(T.sym("io"), "i", True)}
    code, ref = "import padasip as pa\n", "import numpy as np\n"
    for xn, xe in (("x", "x"), ("lx", "np.array(lx)"), ("X", "X")):
        lab = {"x": "array", "lx": "list", "X": "matrix"}[xn]
        for l2, args, o, s in (("no arguments", "", "np.mean(v)", "np.std(v)"), ("offset given", ", offset=o", "o", "np.std(v)"),
                               ("scale given", ", scale=s", "np.mean(v)", "s"), ("both given", ", offset=o, scale=s", "o", "s"),
                               ("by position", ", o, s", "o", "s"), ("integer offset", ", offset=io", "io", "np.std(v)")):
            code += "out('%s, %s', pa.standardize(%s%s))\n" % (lab, l2, xn, args)
            ref += "v = np.array(%s, dtype='float64')\nout('%s, %s', (v - %s)/%s)\n" % (xe, lab, l2, o, s)
    ck.twin("standardize", code, ref, b, where=at, rule="(x - offset)/scale with the defaults of the property")
    code, ref = "import padasip as pa\n", "import numpy as np\n"
    for xn, xe in (("x", "x"), ("lx", "np.array(lx)"), ("X", "X")):
        lab = {"x": "array", "lx": "list", "X": "matrix"}[xn]
        for l2, args in (("keywords", ", offset=o, scale=s"), ("by position", ", o, s")):
            code += "out('%s, %s', pa.standardize_back(%s%s))\n" % (lab, l2, xn, args)
            ref += "v = np.array(%s, dtype='float64')\nout('%s, %s', v*s + o)\n" % (xe, lab, l2)
    ck.twin("standardize_back", code, ref, b, where=ab, rule="xs*scale + offset")
    ck.twin("standardize, then back", """
import padasip as pa
assume(s != 0)
out("given offset and scale", pa.standardize_back(pa.standardize(x, offset=o, scale=s), offset=o, scale=s))
out("matrix", pa.standardize_back(pa.standardize(X, offset=o, scale=s), offset=o, scale=s))
""", "out('given offset and scale', x)\nout('matrix', X)\n", b, where=at + ab, rule="the composition is the identity for scale != 0")
    ck.twin("standardize with defaults, then back", """
import padasip as pa
import numpy as np
assume(np.std(x) != 0)
out("mean and deviation of the data", pa.standardize_back(pa.standardize(x), offset=np.mean(x), scale=np.std(x)))
""", "out('mean and deviation of the data', x)\n", b, where=at + ab, rule="the composition is the identity for scale != 0")
    zero = "import padasip as pa\nassume(s == 0)\n"
    for xn in ("x", "X"):
        zero += "out('%s, scale 0', pa.standardize(%s, scale=s))\nout('%s, default scale', pa.standardize(%s))\nout('%s, both 0', pa.standardize(%s, offset=s, scale=s))\n" % ((xn,) * 6) + \
            "out('%s, offset 0', pa.standardize(%s, offset=s))\n" % (xn, xn)
    ck.distinct("standardize, a scale of zero is not a missing scale", zero, b, at,
                       [p for xn in ("x", "X") for p in ((xn + ", scale 0", xn + ", default scale"), (xn + ", both 0", xn + ", offset 0"))],
                       rule="dividing by the given scale 0 is not what the default does", undefined=True)


# ------------------------------------------------------------------------------------------------ C24
def C24(ck):
    at = [PRE + "input_from_history.py::input_from_history"]

    def b(s, st):
        n, R = T.dim("n"), T.dim("R")
        L = n + R - 1
        return {"a": series(s, st, "a", L), "la": series(s, st, "la", L, lst=True), "n": Num(n, "i", True), "R": Num(R, "i", True),
                "L": Num(L, "i", True), "ia": series(s, st, "ia", L, is_int=True)}
    code, ref = "import padasip as pa\n", "import numpy as np\n"
    for xn, lab in (("a", "array"), ("la", "list"), ("ia", "integers")):
        for l2, bias, ones in (("plain", "", False), ("bias=False", ", bias=False", False), ("bias", ", bias=True", True), ("bias by position", ", True", True)):
            code += "out('%s, %s', pa.input_from_history(%s, n%s))\n" % (lab, l2, xn, bias)
            ref += "X = np.%s((R, n%s))\nfor i in range(R):\n    for j in range(n):\n        X[i, j] = %s[i + j]\nout('%s, %s', X)\n" % (
                "ones" if ones else "zeros", " + 1" if ones else "", xn, lab, l2)
    def floats(A):
        pl = ck.places(at, A[0])
        for k, o in A[0].obs.items():
            if isinstance(o.val, Arr):
                dt = o.st.cells[("r", o.val.rid)].dt
                ck.add("input_from_history: %s is an array of floats" % k, "proved" if dt == "f" else ("refuted" if dt in "icbC" else "undecided"),
                       "" if dt == "f" else "element type %r" % dt, pl, "element type of the result", code)
    ck.twin("input_from_history", code, ref, b, where=at, rule="row i holds the values i ... i+n-1; the last column of ones with bias", then=floats)

    def w(s, st):
        r = b(s, st)
        r["k"] = Num(T.sym("k", is_int=True), "i", True)
        r["q"] = Num(T.sym("q"), "f", True)
        r["word"] = SymStr("word")
        r["u"] = s.array(st, "u", (T.dim("n") + T.dim("R") - 1,), "c", conv=True, lst=True)
        return r
    # any integer width up to the length of the series: refused exactly if it is not positive
    k, L = T.sym("k", is_int=True), T.dim("n") + T.dim("R") - 1
    ck.raises("integer width, any value up to the length", "import padasip as pa\nassume(k <= L)\npa.input_from_history(a, k)\n", w,
              T.mul(T.ge(-k), T.ge(L - k)), where=at)
    for lab, e in (("float", "q"), ("word", "word"), ("None", "None"), ("list", "[n]")):
        ck.raises("%s as width" % lab, "import padasip as pa\npa.input_from_history(a, %s)\n" % e, w, ONE, where=at)
    fl = T.lor(T.flag("unconvertible", "u", "ValueError"), T.flag("unconvertible", "u", "TypeError"))
    ck.raises("series that may not be numbers", "import padasip as pa\npa.input_from_history(u, n)\n", w, fl, where=at)


# ------------------------------------------------------------------------------------------------ C25
def pca_binds(s, st):
    M = T.dim("cols", 2)
    return {"x": s.array(st, "x", (T.dim("rows", 2), M)), "cols": Num(M, "i", True), "rows": Num(T.dim("rows", 2), "i", True),
            "n": Num(T.dim("n"), "i", True), "ix": s.array(st, "ix", (T.dim("rows", 2), M), is_int=True)}


def C25(ck):
    at = [PRE + "pca.py::PCA"]
    ac = [PRE + "pca.py::PCA_components"]
    pre = "import numpy as np\nw, V = np.linalg.eig(np.cov(x.T))\no = np.argsort(-w)\n"
    ck.twin("PCA", "import padasip as pa\nassume(n < cols)\nout('n given', pa.preprocess.PCA(x, n))\nout('n by keyword', pa.preprocess.PCA(x, n=n))\nout('default', pa.preprocess.PCA(x))\n",
            pre + "Y = np.dot(x, V[:, o])\nassume(n < cols)\nout('n given', Y[:, :n])\nout('n by keyword', Y[:, :n])\nout('default', Y[:, :cols-1])\n", pca_binds, where=at,
            rule="every row times the eigenvectors of cov(x) with the largest eigenvalues, largest first")
    ck.twin("PCA_components", "import padasip as pa\nout('components', pa.preprocess.PCA_components(x))\n", pre + "out('components', w[o])\n", pca_binds, where=ac,
            rule="the eigenvalues of cov(x) in descending order")
    ck.raises("PCA refuses n", "import padasip as pa\npa.preprocess.PCA(x, n)\n", pca_binds, T.ge(T.dim("n") - T.dim("cols", 2)), exc="AssertionError", where=at)


# ------------------------------------------------------------------------------------------------ C26
LDA_REF = """
import numpy as np
labels = np.array(labels)
m = np.mean(x, axis=0)
Sw = np.zeros((cols, cols))
Sb = np.zeros((cols, cols))
for c in np.unique(labels):
    q = labels == c
    mc = np.mean(x[q], axis=0)
    for r in x[q]:
        Sw = Sw + np.outer(r - mc, r - mc)
    Sb = Sb + np.sum(q)*np.outer(mc - m, mc - m)
w, V = np.linalg.eig(np.dot(np.linalg.inv(Sw), Sb))
o = np.argsort(-w)
"""


def lda_binds(lst):
    def b(s, st):
        r = pca_binds(s, st)
        r["labels"] = s.array(st, "labels", (T.dim("rows", 2),), lst=lst)
        return r
    return b


def C26(ck):
    at = [PRE + "lda.py::LDA", PRE + "lda.py::LDA_base"]
    ad = [PRE + "lda.py::LDA_discriminants", PRE + "lda.py::LDA_base"]
    for lst, lab in ((False, "labels in an array"), (True, "labels in a list")):
        b = lda_binds(lst)
        ck.twin("LDA, " + lab, "import padasip as pa\nassume(n < cols)\nout('n given', pa.preprocess.LDA(x, labels, n))\nout('default', pa.preprocess.LDA(x, labels))\n",
                LDA_REF + "Y = np.dot(x, V[:, o])\nassume(n < cols)\nout('n given', Y[:, :n])\nout('default', Y[:, :cols-1])\n", b, where=at,
                rule="every row times the eigenvectors of inv(Sw).Sb with the largest eigenvalues, largest first")
        ck.twin("LDA_discriminants, " + lab, "import padasip as pa\nout('discriminants', pa.preprocess.LDA_discriminants(x, labels))\n", LDA_REF + "out('discriminants', w[o])\n", b,
                where=ad, rule="the eigenvalues of inv(Sw).Sb in descending order")
        ck.raises("LDA refuses n, " + lab, "import padasip as pa\npa.preprocess.LDA(x, labels, n)\n", b, T.ge(T.dim("n") - T.dim("cols", 2)), exc="AssertionError", where=at)


# ------------------------------------------------------------------------------------------------ C27
def le_binds(order=1, lst=False):
    def b(s, st):
        N = T.dim("M") + T.dim("m") + (order - 1)
        return {"w": s.array(st, "w", (N, T.dim("n")), lst=lst), "N": Num(N, "i", True), "n": Num(T.dim("n"), "i", True),
                "m": Num(T.dim("m"), "i", True), "A": Num(T.dim("A"), "i", True), "al": s.array(st, "al", (T.dim("A"),), "f"),
                "ll": s.array(st, "ll", (T.dim("A"),), "f", lst=True)}
    return b


def diff_ref(order):
    inc = {1: "v[k] - v[k-1]", 2: "v[k] - 2*v[k-1] + v[k-2]", 3: "v[k] - 3*v[k-1] + 3*v[k-2] - v[k-3]"}[order]
    return """
import numpy as np
v = np.array(w, dtype='float64')
dw = np.zeros((N, n))
for k in range(%d):
    dw[k] = v[k]
for k in range(%d, N):
    dw[k] = np.abs(%s)
""" % (order, order, inc)


def C27(ck):
    at = [DET + "le.py::learning_entropy"]
    rule1 = "(|dw| - mean)/(deviation + 1e-10) over the m preceding increments, 0 before row m"
    rule2 = "share of pairs with |dw| > sensitivity * mean of the m preceding increments, 0 before row m"
    for lst in (False, True):
        lab = "order 1, weights in %s" % ("a list" if lst else "an array")
        ck.twin("direct, " + lab, """
import padasip as pa
r = pa.detection.learning_entropy(w, m=m)
out("values", r)
out("rows", len(r))
r = pa.detection.learning_entropy(w, m=m, alpha=None)
out("alpha=None", r)
""", diff_ref(1) + """
le = np.zeros((N, n))
for k in range(m, N):
    le[k] = (dw[k] - np.mean(dw[k-m:k], axis=0))/(np.std(dw[k-m:k], axis=0) + 1e-10)
out("values", le)
out("rows", N)
out("alpha=None", le)
""", le_binds(1, lst), where=at, rule=rule1)
        for an in ("al", "ll"):
            ck.twin("multiscale, %s, sensitivities in %s" % (lab, {"al": "an array", "ll": "a list"}[an]), """
import padasip as pa
r = pa.detection.learning_entropy(w, m=m, alpha=%s)
out("values", r)
out("rows", len(r))
""" % an, diff_ref(1) + """
le = np.zeros(N)
for k in range(m, N):
    s = 0.0
    for a in ALPHA:
        s = s + np.sum(dw[k] > a*np.mean(dw[k-m:k], axis=0))
    le[k] = s/(n*A)
out("values", le)
out("rows", N)
""".replace("ALPHA", an), le_binds(1, lst), where=at, rule=rule2)
    for order in (1, 2, 3) + ((4, 5) if ck.thorough else ()):
        inc = {1: "v[K] - v[K-1]", 2: "v[K] - 2*v[K-1] + v[K-2]", 3: "v[K] - 3*v[K-1] + 3*v[K-2] - v[K-3]", 4: "v[K] - 4*v[K-1] + 6*v[K-2] - 4*v[K-3] + v[K-4]",
               5: "v[K] - 5*v[K-1] + 10*v[K-2] - 10*v[K-3] + 5*v[K-4] - v[K-5]"}[order]

        def b(s, st):
            K = T.dim("m") + order + T.dim("j", 0)
            N = K + T.dim("M")
            return {"w": s.array(st, "w", (N, T.dim("n"))), "N": Num(N, "i", True), "n": Num(T.dim("n"), "i", True), "K": Num(K, "i", True),
                    "m": Num(T.dim("m"), "i", True), "A": Num(T.dim("A"), "i", True), "al": s.array(st, "al", (T.dim("A"),), "f"),
                    "order": Num(T.sym("order"), "i", True)}
        pre = """
import numpy as np
v = np.array(w, dtype="float64")
D = np.zeros((m, n))
for q in range(m):
    D[q] = np.abs(%s)
c = np.abs(%s)
""" % (inc.replace("[K", "[K-m+q"), inc)
        for l2, o in (("", "m=m, order=%d" % order), (", arguments by position", "m, %d" % order)):
            ck.twin("order %d, row K%s" % (order, l2), """
import padasip as pa
r = pa.detection.learning_entropy(w, %s)
out("direct", r[K])
r2 = pa.detection.learning_entropy(w, %s, alpha=al)
out("multiscale", r2[K])
out("rows", len(r))
out("rows, multiscale", len(r2))
out("first rows", r[:m])
out("first rows, multiscale", r2[:m])
""" % (o, o), pre + """
out("direct", (c - np.mean(D, axis=0))/(np.std(D, axis=0) + 1e-10))
s = 0.0
for a in al:
    s = s + np.sum(c > a*np.mean(D, axis=0))
out("multiscale", s/(n*A))
out("rows", N)
out("rows, multiscale", N)
out("first rows", np.zeros((m, n)))
out("first rows, multiscale", np.zeros(m))
""", b, where=at, rule=rule1 + "; " + rule2)
    ck.twin("defaults", "import padasip as pa\nassume(N >= 12)\nout('values', pa.detection.learning_entropy(w))\n",
            "import padasip as pa\nassume(N >= 12)\nout('values', pa.detection.learning_entropy(w, m=10, order=1, alpha=False))\n",
            le_binds(), where=at, rule="documented defaults m=10, order=1, no sensitivities")


# ------------------------------------------------------------------------------------------------ C28
def C28(ck):
    at = [DET + "elbnd.py::ELBND"]

    def b(s, st):
        N = T.dim("N")
        return {"w": s.array(st, "w", (N, T.dim("n"))), "e": series(s, st, "e"), "le": series(s, st, "le", lst=True), "N": Num(N, "i", True), "n": Num(T.dim("n"), "i", True)}
    for en in ("e", "le"):
        ck.twin("ELBND, errors in %s" % ("an array" if en == "e" else "a list"), """
import padasip as pa
import numpy as np
out("default", pa.detection.ELBND(w, %s))
out("max", pa.detection.ELBND(w, %s, function="max"))
s = pa.detection.ELBND(w, %s, function="sum")
out("sum", s)
out("one value per row", len(s))
""" % (en, en, en), """
import numpy as np
v = np.array(w, dtype='float64')
q = np.array(%s, dtype='float64')
a = np.zeros(N)
s = np.zeros(N)
for k in range(N - 1):
    a[k] = np.max(np.abs(v[k+1] - v[k])*np.abs(q[k]))
    s[k] = np.sum(np.abs(v[k+1] - v[k])*np.abs(q[k]))
out("default", a)
out("max", a)
out("sum", s)
out("one value per row", N)
""" % en, b, where=at, rule="max or sum over the weights of |w[k+1]-w[k]|*|e[k]|, 0 for the last row")


# ------------------------------------------------------------------------------------------------ C29
POT = {"10%": "int(0.1*q)", "30%": "int(0.3*q)", "35%": "int(0.35*q)", "sqrt": "int(np.sqrt(q))", "log10": "int(np.log10(q))",
       "log10log10": "int(q**(2/3)/np.log10(np.log10(q)))"}


def C29(ck):
    at = [DET + "ese.py::ESE", DET + "ese.py::pot"]
    for meth, kf in POT.items():
        lo = 11 if meth == "log10log10" else 1

        def b(s, st):
            win = T.dim("win", lo)
            N = win + T.dim("M")
            return {"w": s.array(st, "w", (N, T.dim("n"))), "win": Num(win, "i", True), "N": Num(N, "i", True), "n": Num(T.dim("n"), "i", True), "M": Num(T.dim("M"), "i", True)}
        ck.twin("ESE, peaks by " + meth, """
import padasip as pa
r = pa.detection.ESE(w, window=win%s)
out("values", r)
out("one value per row", len(r))
""" % (", pot_method=%r" % meth), """
import numpy as np
from scipy.stats import genpareto
v = np.array(w, dtype='float64')
dw = np.zeros((N, n))
dw[0] = v[0]
for k in range(1, N):
    dw[k] = np.abs(v[k] - v[k-1])
q = win
peaks = max(%s, 1)
h = np.ones((M, n))
for i in range(M):
    for j in range(n):
        s = -np.sort(-dw[i:i+win, j])
        s = s[:peaks]
        if dw[win+i, j] > s[-1]:
            c, l, sc = genpareto.fit(s, floc=s[-1])
            if dw[win+i, j] >= l:
                h[i, j] = 1 - genpareto.cdf(dw[win+i, j], c, l, sc) + 1e-20
r = np.zeros(N)
for i in range(M):
    r[win+i] = -np.log10(np.prod(h[i]))
out("values", r)
out("one value per row", N)
""" % kf, b, where=at, rule="-log10 of the product of the tail probabilities of the fit to the peaks of the preceding window")
    def b0(s, st):
        win = T.dim("win", 1)
        N = win + T.dim("M")
        return {"w": s.array(st, "w", (N, T.dim("n"))), "win": Num(win, "i", True)}
    ck.twin("ESE, defaults", "import padasip as pa\nout('values', pa.detection.ESE(w, win))\n", "import padasip as pa\nout('values', pa.detection.ESE(w, window=win, pot_method='10%'))\n", b0, where=at,
            rule="the documented default takes a tenth of the values")

"""Properties about effects: what is written, kept, shared, drawn, refused, divided and stored."""
import terms as T
from terms import P, P1, ONE, ZERO
from values import *
from core import *
import p_mlp
from p_filters import FILTERS, BY, FI, BASE, INIT, params, data, split_binds, new, F
from p_functions import PRE, DET, ERR, series

INITF = FI + "__init__.py"
MLP = p_mlp.MLP


def run_at(f):
    c = "::AdaptiveFilterAP." if f.name == "AP" else "::AdaptiveFilter."
    return [BASE + c + m for m in ("run", "adapt")] + [f.rule_at, BASE + "::AdaptiveFilter.predict"]


def eff_binds(f=None, dt="f", lst=False):
    """data in the layout that tempts code to keep a reference: float64 arrays (or lists)"""
    def b(s, st):
        r = params(s, st)
        n, N, H = T.dim("n"), T.dim("N"), T.dim("H")
        r.update(N=Num(N, "i", True), H=Num(H, "i", True))
        for k, sh in (("w0", (n,)), ("w1", (n,)), ("x", (N, n)), ("d", (N,)), ("xh", (H, n)), ("dh", (H,)), ("z", (n,)), ("z2", (n,)),
                      ("jx", (N, n)), ("jd", (N,)), ("jn", (n,))):
            r[k] = s.array(st, k, sh, dt, lst=lst and k in ("w0", "x", "d", "z"))
        return r
    return b


# ------------------------------------------------------------------------------------------------ C12
# every function that takes data: (label, call, anchors); x: matrix N*n, d: N, w: matrix, e: N
def fun_binds(lst=False, dt="f"):
    def b(s, st):
        n, N, win = T.dim("n", 2), T.dim("N", 13), T.dim("m")
        r = {}
        for k in ("a", "a2", "ja"):
            r[k] = s.array(st, k, (N,), dt, lst=lst and k != "ja")
        for k in ("w", "w2", "jw"):
            r[k] = s.array(st, k, (N, n), dt)
        r["labels"] = s.array(st, "labels", (N,), "c", lst=lst)
        r["labels2"] = s.array(st, "labels2", (N,), "c")
        r["al"] = s.array(st, "al", (T.dim("A"),), "f", lst=lst)
        r["al2"] = s.array(st, "al2", (T.dim("A"),), "f")
        r["o"], r["s"] = Num(T.sym("o"), "f", True), Num(T.sym("s", pos=True), "f", True)
        r["n"], r["N"] = Num(n, "i", True), Num(N, "i", True)
        return r
    return b


FUNS = [
    ("standardize", "pa.standardize(a)", "a", PRE + "standardize.py::standardize"),
    ("standardize with offset and scale", "pa.standardize(a, offset=o, scale=s)", "a", PRE + "standardize.py::standardize"),
    ("standardize by 0 and 1", "pa.standardize(a, offset=0, scale=1)", "a", PRE + "standardize.py::standardize"),
    ("standardize_back", "pa.standardize_back(a, o, s)", "a", PRE + "standardize_back.py::standardize_back"),
    ("standardize_back by 0 and 1", "pa.standardize_back(a, 0, 1)", "a", PRE + "standardize_back.py::standardize_back"),
    ("standardize of a matrix", "pa.standardize(w)", "w", PRE + "standardize.py::standardize"),
    ("standardize_back of a matrix", "pa.standardize_back(w, o, s)", "w", PRE + "standardize_back.py::standardize_back"),
    ("input_from_history", "pa.input_from_history(a, 3)", "a", PRE + "input_from_history.py::input_from_history"),
    ("input_from_history, width 1", "pa.input_from_history(a, 1)", "a", PRE + "input_from_history.py::input_from_history"),
    ("input_from_history with bias", "pa.input_from_history(a, 3, bias=True)", "a", PRE + "input_from_history.py::input_from_history"),
    ("PCA", "pa.preprocess.PCA(w, 1)", "w", PRE + "pca.py::PCA"),
    ("PCA_components", "pa.preprocess.PCA_components(w)", "w", PRE + "pca.py::PCA_components"),
    ("LDA", "pa.preprocess.LDA(w, labels, 1)", "w labels", PRE + "lda.py::LDA"),
    ("LDA_discriminants", "pa.preprocess.LDA_discriminants(w, labels)", "w labels", PRE + "lda.py::LDA_discriminants"),
    ("learning_entropy", "pa.detection.learning_entropy(w, m=3)", "w", DET + "le.py::learning_entropy"),
    ("learning_entropy, order 2", "pa.detection.learning_entropy(w, m=3, order=2)", "w", DET + "le.py::learning_entropy"),
    ("learning_entropy, multiscale", "pa.detection.learning_entropy(w, m=3, alpha=al)", "w al", DET + "le.py::learning_entropy"),
    ("ELBND", "pa.detection.ELBND(w, a)", "w a", DET + "elbnd.py::ELBND"),
    ("ELBND, sum", "pa.detection.ELBND(w, a, function='sum')", "w a", DET + "elbnd.py::ELBND"),
    ("ESE", "pa.detection.ESE(w, window=3)", "w", DET + "ese.py::ESE"),
    ("MAE", "pa.misc.MAE(a, a2)", "a a2", ERR + "::MAE"),
    ("MSE", "pa.misc.MSE(a, a2)", "a a2", ERR + "::MSE"),
    ("RMSE", "pa.misc.RMSE(a, a2)", "a a2", ERR + "::RMSE"),
    ("logSE", "pa.misc.logSE(a, a2)", "a a2", ERR + "::logSE"),
    ("MAE of errors", "pa.misc.MAE(a)", "a", ERR + "::MAE"),
    ("MSE of errors", "pa.misc.MSE(a)", "a", ERR + "::MSE"),
    ("RMSE of errors", "pa.misc.RMSE(a)", "a", ERR + "::RMSE"),
    ("logSE of errors", "pa.misc.logSE(a)", "a", ERR + "::logSE"),
    ("get_mean_error", "pa.misc.get_mean_error(a, a2, function='MAE')", "a a2", ERR + "::get_mean_error"),
    ("get_mean_error of errors", "pa.misc.get_mean_error(a, function='RMSE')", "a", ERR + "::get_mean_error"),
]
SCALAR = ("MAE", "MSE", "RMSE", "get_mean_error")


def both(name, a, b):
    return "out(%r, %s); out(%r, %s)\n" % (name, a, name + "'", b)


NET1 = "np.random.seed(3)\n"


def C12(ck):
    un = "the caller's arrays have the values they had before the call"
    kept = "results after the caller has overwritten its arrays equal those of a twin whose arrays were left alone"
    for f in FILTERS:
        for lst in (False, True):
            form = "lists" if lst else "float64 arrays"
            names = ("w0", "x", "d", "z") + (() if lst else ("xh",))
            code = "import padasip as pa\nimport numpy as np\n"
            code += "".join("%s_ = np.array(%s) + 0.0\n" % (k, k) for k in names)
            code += new(f) + "\np = f.predict(z)\nf.adapt(dh[0], z)\np = f.predict(z)\n"
            if not lst:
                code += "for k in range(H):\n    f.adapt(dh[k], xh[k])\n"
            code += both("z after predict and adapt", "np.array(z)", "z_") + both("initial weights after adapt", "np.array(w0)", "w0_")
            if not lst:
                code += both("inputs after adapt", "xh", "xh_")
            code += "y, e, h = f.run(d, x)\n"
            code += both("inputs after run", "np.array(x)", "x_") + both("targets after run", "np.array(d)", "d_") + both("initial weights after run", "np.array(w0)", "w0_")
            ck.pairs("%s leaves %s unchanged" % (f.name, form), code, eff_binds(lst=lst), where=run_at(f), rule=un)
        code = """
import padasip as pa
import numpy as np
%s
%s
w0[:] = jn
b = np.zeros(n)
for k in range(H):
    b[:] = xh[k]
    f.adapt(dh[k], b)
    g.adapt(dh[k], xh[k])
%s
""" % (new(f), new(f, "g", "w1"), both("weights after samples passed in one reused buffer", "f.w", "g.w"))
        code = code.replace("import numpy as np\n", "import numpy as np\nw1 = w0 + 0.0\n", 1)
        ck.pairs("%s keeps no array passed to adapt" % f.name, code, eff_binds(), where=run_at(f), rule=kept)
        code = """
import padasip as pa
import numpy as np
w1 = w0 + 0.0; x1 = x + 0.0; d1 = d + 0.0; z1 = z + 0.0
%s
%s
y, e, h = f.run(d, x); y1, e1, h1 = g.run(d1, x1)
p = f.predict(z); p1 = g.predict(z1)
x[:] = jx; d[:] = jd; w0[:] = jn; z[:] = jn
%s%s%sf.adapt(dh[0], z1); g.adapt(dh[0], z1)
%s
""" % (new(f), new(f, "g", "w1"), both("outputs already returned", "y", "y1"), both("errors already returned", "e", "e1"), both("weight history already returned", "h", "h1"),
       both("weights after one more sample", "f.w", "g.w"))
        ck.pairs("%s keeps no array passed to run" % f.name, code, eff_binds(), where=run_at(f), rule=kept)
    f = BY["NLMS"]
    code = """
import padasip as pa
import numpy as np
x_ = x + 0.0; d_ = d + 0.0; w0_ = w0 + 0.0
y, e, h = pa.filters.filter_data(d, x, model="NLMS", mu=mu, eps=eps, w=w0)
f = pa.filters.AdaptiveFilter(model="NLMS", n=n, mu=mu, eps=eps, w=w0)
y, e, h = f.run(d, x)
y, e, h = f.pretrained_run(d, x, ntrain=0.5, epochs=2)
%s%s%s
""" % (both("inputs", "x", "x_"), both("targets", "d", "d_"), both("initial weights", "w0", "w0_"))

    def b4(s, st):
        r = eff_binds()(s, st)
        N = T.dim("half") + T.dim("half")
        r["x"], r["d"] = s.array(st, "x4", (N, T.dim("n")), "f"), s.array(st, "d4", (N,), "f")
        return r
    ck.pairs("filter_data and pretrained_run leave their data unchanged", code, b4, where=[INITF + "::filter_data", INITF + "::AdaptiveFilter", BASE + "::AdaptiveFilter.pretrained_run"], rule=un)
    for lst in (False, True):
        for lab, call, args, at in FUNS:
            if lst and not any(k in ("a", "a2", "al", "labels") for k in args.split()):
                continue
            code = "import padasip as pa\nimport numpy as np\n"
            code += "".join("%s_ = np.array(%s)\n" % (k, k) for k in args.split())
            code += "r = %s\n" % call
            for k in args.split():
                code += both("argument %s" % k, "np.array(%s)" % k, k + "_")
            if not lst:
                code += "r0 = r + 0.0\n" + "".join("%s[:] = %s\n" % (k, {"a": "ja", "a2": "ja", "w": "jw", "labels": "labels2", "al": "al2"}[k]) for k in args.split())
                if lab.split()[0] not in SCALAR:
                    code += both("result after the arguments are overwritten", "r", "r0")
            ck.pairs("%s leaves its arguments%s unchanged" % (lab, " (lists)" if lst else ""), code, fun_binds(lst), where=[at], rule=un)
    for L, o, a in [(1, 1, "sigmoid"), (1, 2, "tanh"), (2, 1, "tanh"), (2, 2, "sigmoid")]:
        lab = "network with " + p_mlp.lab(L, o, a)
        at = [MLP + "::NetworkMLP." + m for m in ("train", "predict", "update", "run", "test")] + [MLP + "::Layer.predict", MLP + "::Layer.update"]
        for sh in (False, True) if L == 1 else (False,):
            code = """
import padasip as pa
import numpy as np
np.random.seed(3)
%s
x_ = x + 0.0; d_ = d + 0.0; z_ = z + 0.0
y = nn.predict(z); v = nn.update(d[0]); y = nn.run(x); v = nn.test(x, d)
e, m = nn.train(x, d, epochs=%s, shuffle=%s)
%s%s%s
""" % (p_mlp.net(L, o, a), "1" if sh else "E", sh, both("inputs", "x", "x_"), both("targets", "d", "d_"), both("input of predict", "z", "z_"))
            ck.pairs("%s leaves its data unchanged%s" % (lab, ", shuffled" if sh else ""), code, net_binds(L, o), where=at, rule=un)
        code = """
import padasip as pa
import numpy as np
sizes = [%s]
np.random.seed(3)
%s
np.random.seed(3)
%s
t = d[0] + 0.0; t1 = d[0] + 0.0
z1 = z + 0.0; x1 = x + 0.0; d1 = d + 0.0
p = f.predict(z); z[:] = jn; v = f.update(t); 
p1 = g.predict(z1); v1 = g.update(t1)
e, m = f.train(x, d, epochs=1); e1, m1 = g.train(x1, d1, epochs=1)
x[:] = x2; d[:] = d2
%s%s
q = f.run(x1); q1 = g.run(x1)
x1[:] = x2
f.update(t); g.update(t1)
%s%s
""" % (", ".join("h%d" % (i + 1) for i in range(L)), p_mlp.net(L, o, a, var="f").replace(p_mlp.net(L, o, a, var="f").split("(", 1)[1].split("]")[0] + "]", "sizes"),
            p_mlp.net(L, o, a, var="g"), both("training errors already returned", "e", "e1"), both("answers", "f.run(x2)", "g.run(x2)"),
            both("weights after one more update", "f.w", "g.w"), both("hidden weights after one more update", "f.layers[0].w", "g.layers[0].w"))
        ck.pairs("%s keeps no array passed to it" % lab, code, net_binds(L, o), where=at, rule=kept)
        code = """
import padasip as pa
import numpy as np
sizes = np.array([%s])
s_ = sizes + 0
%s
%s
""" % (", ".join("h%d" % (i + 1) for i in range(L)), p_mlp.net(L, o, a).replace(p_mlp.net(L, o, a).split("(", 1)[1].split("]")[0] + "]", "sizes"), both("layer sizes", "sizes", "s_"))
        ck.pairs("%s leaves the sizes of the layers unchanged" % lab, code, net_binds(L, o), where=[MLP + "::NetworkMLP.__init__"], rule=un)


def net_binds(L, o, dt="f"):
    def b(s, st):
        r = p_mlp.mlp_binds(L, o)(s, st)
        N, n = T.dim("N"), T.dim("n")
        tgt = (N,) if o == 1 else (N, T.dim("o", 2))
        for k, sh in (("x", (N, n)), ("x2", (N, n)), ("d", tgt), ("d2", tgt), ("z", (n,)), ("jn", (n,))):
            r[k] = s.array(st, k + "f", sh, dt)
        r["N"] = Num(N, "i", True)
        return r
    return b


# ------------------------------------------------------------------------------------------------ C13
def C13(ck):
    kept = "a returned array has, after later calls, the values it had when it was returned"
    sep = "writing into one result changes neither another result nor what the object computes later"
    for f in FILTERS:
        at = run_at(f) + [BASE + "::AdaptiveFilter.pretrained_run"]
        code = """
import padasip as pa
import numpy as np
w1 = w0 + 0.0
%s
%s
y, e, h = f.run(d, x)
y_ = y + 0.0; e_ = e + 0.0; h_ = h + 0.0
q = g.run(jd, jx)
Y, E, W = f.run(jd, jx)
%s%s%s
""" % (new(f), new(f, "g", "w1"), both("outputs after another run", "y", "y_"), both("errors after another run", "e", "e_"), both("weight history after another run", "h", "h_"))
        ck.pairs("%s.run, results kept by run" % f.name, code, eff_binds(), where=at, rule=kept)
        code = """
import padasip as pa
import numpy as np
%s
y, e, h = f.run(d, x)
y_ = y + 0.0; e_ = e + 0.0; h_ = h + 0.0
p = f.predict(z)
f.adapt(dh[0], z)
%s%s%s
""" % (new(f), both("outputs after adapt", "y", "y_"), both("errors after adapt", "e", "e_"), both("weight history after adapt", "h", "h_"))
        ck.pairs("%s.run, results kept by adapt" % f.name, code, eff_binds(), where=at, rule=kept)
        code = """
import padasip as pa
import numpy as np
w1 = w0 + 0.0
%s
%s
y, e, h = f.run(d, x); g.run(d, x)
y_ = y + 0.0; e_ = e + 0.0
h[:] = jx
%s%s%s
y[:] = jd
%s
e[:] = 2.0*jd
%s%s
f.adapt(dh[0], z); g.adapt(dh[0], z)
%s
""" % (new(f), new(f, "g", "w1"), both("weights after the history is overwritten", "f.w", "g.w"), both("outputs after the history is overwritten", "y", "y_"),
       both("errors after the history is overwritten", "e", "e_"), both("errors after the outputs are overwritten", "e", "e_"), both("outputs after the errors are overwritten", "y", "jd"),
       both("weights after all are overwritten", "f.w", "g.w"), both("weights after one more sample", "f.w", "g.w"))
        ck.pairs("%s.run, results separate" % f.name, code, eff_binds(), where=at, rule=sep)
        code = """
import padasip as pa
import numpy as np
%s
y, e, h = f.pretrained_run(d, x, ntrain=0.5)
y_ = y + 0.0; e_ = e + 0.0; h_ = h + 0.0
Y, E, W = f.pretrained_run(jd, jx, ntrain=0.5)
f.adapt(dh[0], z)
%s%s%s
Y_ = Y + 0.0; E_ = E + 0.0; W_ = W + 0.0
y[:] = 7.0; e[:] = 7.0; h[:] = 7.0
%s%s%s
""" % (new(f), both("outputs", "y", "y_"), both("errors", "e", "e_"), both("weight history", "h", "h_"),
       both("outputs of the second call", "Y", "Y_"), both("errors of the second call", "E", "E_"), both("weight history of the second call", "W", "W_"))

        def b4(s, st):
            r = eff_binds()(s, st)
            N = T.dim("half") + T.dim("half")
            for k, sh in (("x", (N, T.dim("n"))), ("jx", (N, T.dim("n"))), ("d", (N,)), ("jd", (N,))):
                r[k] = s.array(st, k + "4", sh, "f")
            return r
        if f.name in ("LMS", "AP", "OCNLMS"):
            ck.pairs("%s.pretrained_run" % f.name, code, b4, where=at, rule=kept + "; " + sep)
    code = """
import padasip as pa
import numpy as np
y, e, h = pa.filters.filter_data(d, x, model="NLMS", mu=mu, eps=eps, w=w0)
y_ = y + 0.0; e_ = e + 0.0; h_ = h + 0.0
Y, E, W = pa.filters.filter_data(jd, jx, model="NLMS", mu=mu, eps=eps, w=w0)
Y_ = Y + 0.0; E_ = E + 0.0; W_ = W + 0.0
%s%s%s
y[:] = 7.0; e[:] = 7.0; h[:] = 7.0
%s%s%s
Y, E, W = pa.filters.filter_data(d, x, model="NLMS", mu=mu, eps=eps, w=w0)
%s%s%s
""" % (both("outputs", "y", "y_"), both("errors", "e", "e_"), both("weight history", "h", "h_"),
       both("outputs of the second call", "Y", "Y_"), both("errors of the second call", "E", "E_"), both("weight history of the second call", "W", "W_"),
       both("outputs of the third call", "Y", "y_"), both("errors of the third call", "E", "e_"), both("weight history of the third call", "W", "h_"))
    ck.pairs("filter_data", code, eff_binds(), where=[INITF + "::filter_data"], rule=kept + "; " + sep)
    other = {"a": "ja", "a2": "ja", "w": "jw", "labels": "labels2", "al": "al2"}
    for lab, call, args, at in FUNS:
        if lab.split()[0] in SCALAR:
            continue
        call2 = call.replace("(w", "(jw").replace("(a", "(ja").replace(", a2", ", a").replace(", a)", ", ja)").replace(", a,", ", ja,").replace("labels", "labels2")
        code = """
import padasip as pa
import numpy as np
r = %s
r_ = r + 0.0
q = %s
%s
q_ = q + 0.0
r[:] = 7.0
%s
t = %s
%s
t[:] = 8.0
%s
""" % (call, call2, both("first result after another call", "r", "r_"), both("second result after the first is overwritten", "q", "q_"), call,
       both("result of the same call again", "t", "r_"), both("first result after the third is overwritten", "r", "r_*0.0 + 7.0"))
        ck.pairs(lab, code, fun_binds(), where=[at], rule=kept + "; " + sep)
    for L, o, a in [(1, 1, "sigmoid"), (1, 2, "tanh"), (2, 2, "sigmoid")]:
        lab = "network with " + p_mlp.lab(L, o, a)
        at = [MLP + "::NetworkMLP." + m for m in ("train", "predict", "update", "run", "test")] + [MLP + "::Layer.predict", MLP + "::Layer.update"]
        code = """
import padasip as pa
import numpy as np
np.random.seed(3)
%s
y = nn.run(x); y_ = y + 0.0
v = nn.test(x, d); v_ = v + 0.0
p = nn.predict(z); p_ = p + 0.0
u = nn.update(d[0]); u_ = u + 0.0
%s
Y = nn.run(x2); V = nn.test(x2, d2); P = nn.predict(jn); U = nn.update(d2[0])
%s%s%s%s
Y_ = Y + 0.0; V_ = V + 0.0
y[:] = 7.0; v[:] = 8.0
%s%s
""" % (p_mlp.net(L, o, a), both("prediction after an update", "p", "p_"), both("answers", "y", "y_"), both("test errors", "v", "v_"), both("prediction", "p", "p_"), both("update error", "u", "u_"),
       both("answers of the second run", "Y", "Y_"), both("errors of the second test", "V", "V_"))
        ck.pairs(lab, code, net_binds(L, o), where=at, rule=kept + "; " + sep)
        if L > 1 and not ck.thorough:
            continue
        code = """
import padasip as pa
import numpy as np
np.random.seed(3)
%s
e, m = nn.train(x, d, epochs=1)
e_ = e + 0.0; m_ = m + 0.0
Y = nn.run(x2); V = nn.test(x2, d2); P = nn.predict(jn); U = nn.update(d2[0])
%s%s
E2, M2 = nn.train(x2, d2, epochs=1)
%s%s
E_ = E2 + 0.0; M_ = M2 + 0.0
e[:] = 7.0; m[:] = 8.0
%s%s
""" % (p_mlp.net(L, o, a), both("training errors after run, test, predict and update", "e", "e_"), both("epoch errors after run, test, predict and update", "m", "m_"),
       both("training errors after another training", "e", "e_"), both("epoch errors after another training", "m", "m_"),
       both("training errors of the second training", "E2", "E_"), both("epoch errors of the second training", "M2", "M_"))
        ck.pairs(lab + ", training", code, net_binds(L, o), where=at, rule=kept + "; " + sep)


# ------------------------------------------------------------------------------------------------ C14
def C14(ck):
    alone = "results with other objects created and used in between equal those of a program without them"
    det = "two runs of the program that differ in hash seed, time and entropy give the same values"
    names = [f.name for f in FILTERS]
    other = {nm: FILTERS[(i + 1) % len(FILTERS)] for i, nm in enumerate(names)}
    for f in FILTERS:
        at = run_at(f) + [f.file + "::%s.__init__" % f.cls]
        mine = "%s\n" % new(f, "f")
        code = """
import padasip as pa
import numpy as np
%s
for k in range(H):
%s    f.adapt(dh[k], xh[k])
%sout("weights", f.w)
out("prediction", f.predict(z))
"""
        same_cls = new(f, "g", "w1") + "\n"
        oth = new(other[f.name], "o", "w1") + "\n"
        ref = code % (mine, "", "")
        ck.twin("%s beside another filter of its class" % f.name, code % (same_cls + mine + "g.adapt(jd[0], z2)\n", "    g.adapt(dh[k], xh[k])\n", "g.adapt(jd[0], z2)\n"), ref, eff_binds(), where=at, rule=alone)
        ck.twin("%s beside a filter of another class" % f.name, code % (oth + mine, "    o.adapt(dh[k], xh[k])\n", "y, e, h = o.run(jd, jx); p = o.predict(z2)\n"), ref, eff_binds(), where=at, rule=alone)
        run = """
import padasip as pa
import numpy as np
%s%s%sy, e, h = f.run(d, x)
%sout("outputs", y)
out("errors", e)
out("history", h)
out("weights", f.w)
"""
        ck.twin("%s.run beside other filters" % f.name, run % (same_cls, mine, "g.run(jd, jx)\n" + oth + "o.run(jd, jx)\n", "g.adapt(dh[0], z2)\n"), run % ("", mine, "", ""), eff_binds(), where=at, rule=alone)
        ck.twin("%s, parameters of its own" % f.name, run % (
            "g = pa.filters.%s(n, %s, w=w1)\n" % (f.cls, ", ".join("%s=%s" % (a.split("=")[0], {"order": "p", "mem": "mem"}.get(a.split("=")[0], "2.0")) for a in f.kw.split(", "))), mine,
            "", ""), run % ("", mine, "", ""), eff_binds(), where=at, rule=alone)
        defaults = "f = pa.filters.%s(n, w=w0)\n" % f.cls
        ck.twin("%s, defaults" % f.name, run % (same_cls + "g.run(jd, jx)\n", defaults, "", ""), run % ("", defaults, "", ""), eff_binds(), where=at, rule=alone)
        zf, zg = ("%s = pa.filters.%s(n, %s, w='zeros')\n" % (v, f.cls, f.kw) for v in "fg")
        rf, rg = ("np.random.seed(%s)\n%s = pa.filters.%s(n, %s, w='random')\n" % (sd, v, f.cls, f.kw) for v, sd in (("f", "3"), ("g", "4")))
        for lab, a, b in (("zero", zf, zg), ("random", rf, rg)):
            ck.twin("%s beside another filter, %s weights" % (f.name, lab), code % (b + "g.adapt(jd[0], z2)\n" + a, "    g.adapt(dh[k], xh[k])\n", "g.adapt(jd[0], z2)\n"),
                    code % (a, "", ""), eff_binds(), where=at + [INIT], rule=alone)
        everything = code % (mine, "", "y, e, h = f.run(d, x)\nout('outputs', y)\nout('errors', e)\nout('random state', np.random.normal(0, 1))\n")
        ck.twin("%s is deterministic" % f.name, everything, everything, eff_binds(), where=at, rule=det, nonce=1)
        code = """
import padasip as pa
import numpy as np
%s
f.adapt(dh[0], z); p = f.predict(z)
y, e, h = f.run(d, x)
%s
""" % (new(f), both("next draw of the global generator", "q", "q1"))
        ck.twin("%s draws no random numbers" % f.name, code.replace(both("next draw of the global generator", "q", "q1"), "out('next draw', np.random.normal(0, 1))"),
                "import numpy as np\nout('next draw', np.random.normal(0, 1))\n", eff_binds(), where=at, rule="the state of NumPy's generator is not changed")
        code = "import padasip as pa\nimport numpy as np\nnp.random.seed(s)\n%sf = pa.filters.%s(n, %s, w='random')\nout('weights', f.w)\nout('next draw', np.random.normal(0, 1))\n"
        ck.twin("%s, random weights are determined by the seed" % f.name, code % ("", f.cls, f.kw), code % ("", f.cls, f.kw), seed_binds, where=at + [INIT], rule=det, nonce=1)
    for lab, call, args, at in FUNS:
        call2 = call.replace("(w", "(jw").replace("(a", "(ja").replace(", a2", ", a").replace(", a)", ", ja)").replace(", a,", ", ja,").replace("labels", "labels2")
        code = "import padasip as pa\nimport numpy as np\nr = %s\nout('result', r)\nout('next draw', np.random.normal(0, 1))\n"
        ck.twin(lab + " is deterministic", code % call, code % call, fun_binds(), where=[at], rule=det, nonce=1)
        ck.twin(lab + " after other calls", "import padasip as pa\nimport numpy as np\nq = %s\nq2 = %s\nr = %s\nout('result', r)\nout('next draw', np.random.normal(0, 1))\n" % (call2, call, call),
                "import padasip as pa\nimport numpy as np\nr = %s\nout('result', r)\nout('next draw', np.random.normal(0, 1))\n" % call, fun_binds(), where=[at],
                rule="the result does not depend on earlier calls; no random numbers are drawn")
    for L, o, a in [(1, 1, "sigmoid"), (1, 2, "tanh"), (2, 1, "tanh")]:
        lab = "network with " + p_mlp.lab(L, o, a)
        at = [MLP + "::NetworkMLP." + m for m in ("__init__", "train", "predict", "update", "run", "test")] + [MLP + "::Layer.predict", MLP + "::Layer.update"]
        tail = """
%s
e, m = nn.train(x, d, epochs=1%s)
%s
out("training errors", e)
out("epoch errors", m)
out("output weights", nn.w)
out("hidden weights", nn.layers[0].w)
out("prediction", nn.predict(z))
out("answers", nn.run(x2))
out("next draw", np.random.normal(0, 1))
"""
        head = "import padasip as pa\nimport numpy as np\n%snp.random.seed(3)\n" + p_mlp.net(L, o, a)
        for sh in ("",) + ((", shuffle=True",) if L == 1 else ()):
            both_ = head % "" + tail % ("", sh, "")
            ck.twin("%s is deterministic%s" % (lab, ", shuffled" if sh else ""), both_, both_, net_binds(L, o), where=at, rule=det, nonce=1)
        g = p_mlp.net(L, o, a, var="g")
        ck.twin("%s beside another network" % lab, head % (g + "\ng.predict(z)\n") + tail % ("g.predict(jn); g.update(d2[0])", "", "g.train(x2, d2, epochs=1); g.predict(jn)"),
                head % "" + tail % ("", "", ""), net_binds(L, o), where=at, rule=alone)
        code = "import padasip as pa\nimport numpy as np\n%s\np = nn.predict(z); u = nn.update(d[0]); y = nn.run(x); v = nn.test(x, d); e, m = nn.train(x, d, epochs=1)\nout('next draw', np.random.normal(0, 1))\n" % p_mlp.net(L, o, a)
        ref = "import padasip as pa\nimport numpy as np\n%s\nout('next draw', np.random.normal(0, 1))\n" % p_mlp.net(L, o, a)
        ck.twin("%s draws only its weights" % lab, code, ref, net_binds(L, o), where=at, rule="without shuffling no method draws random numbers")
        code = "import padasip as pa\nimport numpy as np\nnp.random.seed(3)\n%s\nnp.random.seed(4)\n%s\n%s\n" % tuple(p_mlp.net(L, o, a, var=v) for v in ("nn", "g", "g2"))
        parts = [("hidden weights", "layers[0].w"), ("output weights", "w")] + ([("weights of the second layer", "layers[1].w")] if L == 2 else [])
        for part, e in parts:
            code += "out('%s', nn.%s)\nout('%s, another seed', g.%s)\nout('%s, next network', g2.%s)\n" % (part, e, part, e, part, e)
        ck.distinct("%s starts with weights of its own" % lab, code, net_binds(L, o), at,
                 [(p, p + ", another seed") for p, _ in parts] + [(p + ", another seed", p + ", next network") for p, _ in parts])
    for f in FILTERS:
        fk = "%s = pa.filters." + f.cls + "(n, " + f.kw + ", w='random')\n"
        code = "import padasip as pa\nimport numpy as np\nnp.random.seed(3)\n%snp.random.seed(4)\n%s%sout('weights', f.w)\nout('weights, another seed', g.w)\nout('weights, next filter', h.w)\n" % (
            fk % "f", fk % "g", fk % "h")
        ck.distinct("%s starts with random weights of its own" % f.name, code, seed_binds, [INIT],
                 [("weights", "weights, another seed"), ("weights, another seed", "weights, next filter")])
    # the import itself
    S = session()
    drawn = [e for e in S.load_events if e["kind"] in ("rng", "rng_seed")]
    ck.add("importing the package leaves NumPy's generator alone", "refuted" if drawn else "proved", "; ".join(str(e.get("loc")) for e in drawn[:4]),
           [":".join(map(str, (e.get("loc") or ("?",))[:2])) for e in drawn[:4]], "no draw and no seeding while the package is imported")


def seed_binds(s, st):
    r = params(s, st)
    r["s"] = Num(T.sym("seed", is_int=True), "i", True)
    return r


# ------------------------------------------------------------------------------------------------ C15
def reachable(S, st, v, path, out, seen):
    """all values an object holds: (path, value)"""
    it = S.it
    if isinstance(v, Obj):
        if v.oid in seen:
            return
        seen.add(v.oid)
        for k in sorted((k for k in st.cells if k[0] == "a" and k[1] == v.oid), key=lambda k: str(k[2])):
            reachable(S, st, st.cells[k], path + "." + str(k[2]), out, seen)
        return
    if isinstance(v, ListRef):
        d = st.cells.get(("l", v.lid))
        if isinstance(d, ListD) and d.concrete and v.lid not in seen:
            seen.add(v.lid)
            for i, x in enumerate(d.items):
                reachable(S, st, x, path + "[%d]" % i, out, seen)
            return
    if isinstance(v, Tup):
        for i, x in enumerate(v.items):
            reachable(S, st, x, path + "[%d]" % i, out, seen)
        return
    out.append((path, v))


def unchanged_at_raise(ck, label, A, names, pl, code, extra=None):
    """every object in `names` holds, wherever an exception leaves the call, what it held before the call"""
    S = A.session
    rule = "state at every raise statement that leaves the call equals the state before the call"
    before = A.obs.get("@before")
    name = "%s: nothing has changed when the call raises" % label
    if before is None:
        ck.add(name, "undecided", "not reached in the analysis", pl, rule)
        return
    bad, unk = [], []
    old = []
    for nm, v in zip(names, before.val.items):
        reachable(S, before.st, v, nm, old, set())
    rng0 = before.st.cells.get(("rng",), Num(T.sym("rng state"), "o"))
    for o in A.raises:
        g = o.st.abs()
        at = ":".join(map(str, (o.node or ("?",))[:2]))
        if g is ZERO:
            continue
        new_ = []
        for nm, v in zip(names, before.val.items):
            reachable(S, o.st, v, nm, new_, set())
        now = dict(new_)
        for path, v in old:
            if path not in now:
                bad.append("%s is gone at %s" % (path, at))
                continue
            w = now[path]
            if w is v and not (isinstance(v, Arr) and before.st.cells.get(("r", v.rid)) is not o.st.cells.get(("r", v.rid))) and not isinstance(v, (ListRef, DictRef)):
                continue
            if isinstance(v, NoneT) or isinstance(v, (Str, FuncV, ClassV)):
                res = [("", "equal" if same(v, w) else "different", "%s instead of %s" % (w, v))]
            else:
                res = ck.cmp_val(S, w, o.st, v, before.st, T.mul(g, before.guard))
            for p, verdict, d in res:
                if verdict == "different":
                    bad.append("%s%s changed before the exception at %s: %s" % (path, p, at, str(d)[:200]))
                elif verdict == "unknown":
                    unk.append("%s at %s: %s" % (path, at, str(d)[:100]))
        for path, v in new_:
            if path not in dict(old):
                vv, d = ck.cmp_poly(g, ZERO)
                (bad if vv == "different" else unk).append("%s is new at %s" % (path, at)) if vv != "equal" else None
        r = o.st.cells.get(("rng",), Num(T.sym("rng state"), "o"))
        if r.p is not rng0.p:
            vv, d = ck.cmp_poly(r.p, rng0.p, T.mul(g, before.guard))
            if vv == "different":
                bad.append("random numbers were drawn before the exception at %s" % at)
            elif vv == "unknown":
                unk.append("random generator at %s" % at)
    if bad:
        ck.add(name, "refuted", "; ".join(bad)[:900], pl, rule, code)
    elif unk:
        ck.add(name, "undecided", "; ".join(unk)[:400], pl, rule)
    else:
        ck.add(name, "proved", "", pl, rule)


def C15(ck):
    n, m, N, M = T.dim("n"), T.dim("m"), T.dim("N"), T.dim("M")
    sizes = T.lor(ONE - T.eq(N - M), ONE - T.eq(n - m))
    fl = ZERO
    for k in ("x", "d"):
        for e in ("ValueError", "TypeError"):
            fl = T.lor(fl, T.flag("unconvertible", k, e))
    rule = "ValueError exactly if the sizes differ or the data are not numbers"

    def binds(lx, ld, conv):
        def b(s, st):
            r = params(s, st)
            r["w0"] = s.array(st, "w0", (n,), "f")
            r["x"] = s.array(st, "x", (N, m), "c", lst=lx, conv=conv)
            r["d"] = s.array(st, "d", (M,), "c", lst=ld, conv=conv)
            r["H"] = Num(T.dim("H", 0), "i", True)
            r["xh"] = s.array(st, "xh", (T.dim("H", 0), n), "f")
            r["dh"] = s.array(st, "dh", (T.dim("H", 0),), "f")
            return r
        return b
    for f in FILTERS:
        at = run_at(f)[:1]
        for lab, lx, ld, conv, hist in (("arrays of any sizes", False, False, True, False), ("lists of any sizes", True, True, True, False), ("an array and a list", False, True, False, False),
                                        ("a list and an array", True, False, False, False), ("arrays, after a history", False, False, True, True)):
            label = "%s.run, %s" % (f.name, lab)
            code = "import padasip as pa\n%s\n%smark('before', f)\nf.run(d, x)\n" % (new(f), "for k in range(H):\n    f.adapt(dh[k], xh[k])\n" if hist else "")
            exp = T.lor(sizes, fl) if conv else sizes

            def after(A, label=label, at=at, code=code):
                unchanged_at_raise(ck, label, A, ["f"], ck.places(at, A), code)
            ck.raises(label, code, binds(lx, ld, conv), exp, where=at, rule=rule, then=after)
    for L, o, a in [(1, 1, "sigmoid"), (1, 2, "tanh"), (2, 1, "tanh"), (2, 2, "sigmoid")]:
        lab = "network with " + p_mlp.lab(L, o, a)
        q = T.dim("q")

        def nb(lst, one=o == 1, flat=True, wide=False):
            def b(s, st):
                r = {"n": Num(n, "i", True), "o": Num(T.dim("o", 2), "i", True), "mu": Num(T.sym("mu", pos=True), "f", True)}
                for i in range(L):
                    r["h%d" % (i + 1)] = Num(T.dim("h%d" % (i + 1)), "i", True)
                r["x"] = s.array(st, "x", (N, m), "c", lst=lst, conv=True)
                r["d"] = s.array(st, "d", ((M,) if flat else (M, q)), "c", lst=lst, conv=True)
                return r
            return b
        for meth in ("train", "test"):
            at = [MLP + "::NetworkMLP." + meth]
            for what, call in ((meth, "nn.%s(x, d)" % meth),) + ((("train, shuffled", "nn.train(x, d, epochs=2, shuffle=True)"),) if meth == "train" and L == 1 else ()):
                if L > 1 and what != "test":
                    call = "nn.train(x, d, epochs=1)"
                for lst in (False, True):
                    if lst and L > 1:
                        continue
                    for flat in ((True, False) if L == 1 else (o == 1,)):
                        label = "%s, %s of %s%s" % (lab, what, "lists" if lst else "arrays", ", targets in %s" % ("a row" if flat else "columns"))
                        wrong = T.lor(sizes, fl)
                        if flat != (o == 1):
                            wrong = ONE
                        elif not flat:
                            wrong = T.lor(wrong, ONE - T.eq(q - T.dim("o", 2)))
                        code = "import padasip as pa\n%s\nmark('before', nn)\n%s\n" % (p_mlp.net(L, o, a), call)

                        def after(A, label=label, at=at, code=code):
                            unchanged_at_raise(ck, label, A, ["nn"], ck.places(at, A), code)
                        ck.raises(label, code, nb(lst, flat=flat), wrong, where=at, rule=rule, then=after)


# ------------------------------------------------------------------------------------------------ C17
def folded(w):
    return T.tag(("word", "fold"), w.upper())


def known_word():
    r = ONE
    for f in FILTERS:
        r = T.mul(r, ONE - folded(f.name))
    return ONE - r


def word_binds(s, st):
    r = eff_binds()(s, st)
    r["word"] = SymStr("word")
    return r


def C17(ck):
    gf, af, fd = INITF + "::get_filter", INITF + "::AdaptiveFilter", INITF + "::filter_data"
    for f in FILTERS:
        forms = sorted({f.name, f.name.lower(), f.name.upper(), f.name.title(), f.name.swapcase(), f.name.capitalize()})
        code, ref = "import padasip as pa\n", "import padasip as pa\n"
        for k in forms:
            code += "out('get_filter(%s)', pa.filters.get_filter(%r))\n" % (k, k)
            ref += "out('get_filter(%s)', pa.filters.%s)\n" % (k, f.cls)
            code += "out('class of AdaptiveFilter(%s)', type(pa.filters.AdaptiveFilter(model=%r, n=n)))\n" % (k, k)
            ref += "out('class of AdaptiveFilter(%s)', pa.filters.%s)\n" % (k, f.cls)
            code += "out('class of AdaptiveFilter by position (%s)', type(pa.filters.AdaptiveFilter(%r, n=n, %s, w='zeros')))\n" % (k, k, f.kw)
            ref += "out('class of AdaptiveFilter by position (%s)', pa.filters.%s)\n" % (k, f.cls)
        ck.twin("%s: class of each spelling" % f.name, code, ref, eff_binds(), where=[gf, af], rule="the name resolves to the class of that filter")
        hist = "out('%s outputs', y)\nout('%s errors', e)\nout('%s weight history', h)\n"
        for k in (f.name, f.name.lower()):
            code = "import padasip as pa\ny, e, h = pa.filters.filter_data(d, x, model=%r, %s, w=w0)\n" % (k, f.kw) + hist % (("filter_data(%s)" % k,)*3)
            ref = "import padasip as pa\nf = pa.filters.%s(n, %s, w=w0)\ny, e, h = f.run(d, x)\n" % (f.cls, f.kw) + hist % (("filter_data(%s)" % k,)*3)
            ck.twin("filter_data, %s" % k, code, ref, eff_binds(), where=[fd], rule="a filter of the class named, with the parameters given and the size of the data, run on the data")
        code = "import padasip as pa\ny, e, h = pa.filters.filter_data(d, x, model=%r, n=n + n, %s, w=w0)\n" % (f.name, f.kw) + hist % (("filter_data, another size given",)*3)
        ref = "import padasip as pa\nf = pa.filters.%s(n, %s, w=w0)\ny, e, h = f.run(d, x)\n" % (f.cls, f.kw) + hist % (("filter_data, another size given",)*3)
        ck.twin("filter_data with another size, %s" % f.name, code, ref, eff_binds(), where=[fd], rule="filter_data sets the size from the number of columns")
        code = "import padasip as pa\nf = pa.filters.AdaptiveFilter(model=%r, n=n, %s, w=w0)\nf.adapt(dh[0], z)\ny, e, h = f.run(d, x)\n" % (f.name, f.kw) + hist % (("created by AdaptiveFilter",)*3)
        code += "f = pa.filters.get_filter(%r)(n, %s, w=w0)\nf.adapt(dh[0], z)\ny, e, h = f.run(d, x)\n" % (f.name, f.kw) + hist % (("created by get_filter",)*3)
        ref = "import padasip as pa\nf = pa.filters.%s(n, %s, w=w0)\nf.adapt(dh[0], z)\ny, e, h = f.run(d, x)\n" % (f.cls, f.kw) + hist % (("created by AdaptiveFilter",)*3) + hist % (("created by get_filter",)*3)
        ck.twin("%s: created by name" % f.name, code, ref, eff_binds(), where=[af, gf], rule="the filter created by name is the one created from its class with the same keywords")
        code = "import padasip as pa\nf = pa.filters.AdaptiveFilter(model=%r, n=n, w=w0)\ny, e, h = f.run(d, x)\n" % f.name + hist % (("no parameters given",)*3)
        code += "y, e, h = pa.filters.filter_data(d, x, model=%r, w=w0)\n" % f.name + hist % (("filter_data, no parameters given",)*3)
        ref = "import padasip as pa\nf = pa.filters.%s(n, w=w0)\ny, e, h = f.run(d, x)\n" % f.cls + hist % (("no parameters given",)*3) + hist % (("filter_data, no parameters given",)*3)
        ck.twin("%s: created by name with defaults" % f.name, code, ref, eff_binds(), where=[af, fd], rule="no parameter is added or replaced")
        code = "import padasip as pa\nimport numpy as np\nf = pa.filters.AdaptiveFilter(model=%r, n=n)\nout('weights', f.w)\nout('next draw', np.random.normal(0, 1))\n" % f.name
        ref = "import padasip as pa\nimport numpy as np\nf = pa.filters.%s(n)\nout('weights', f.w)\nout('next draw', np.random.normal(0, 1))\n" % f.cls
        ck.twin("%s: random weights" % f.name, code, ref, eff_binds(), where=[af], rule="no parameter is added or replaced")
        ck.raises("%s without a size" % f.name, "import padasip as pa\npa.filters.AdaptiveFilter(model=%r)\n" % f.name, eff_binds(), ONE, where=[af], rule="ValueError for a missing size")
        ck.raises("%s without a size, with parameters" % f.name, "import padasip as pa\npa.filters.AdaptiveFilter(model=%r, %s)\n" % (f.name, f.kw), eff_binds(), ONE, where=[af], rule="ValueError for a missing size")
    code = "import padasip as pa\nout('AdaptiveFilter', type(pa.filters.AdaptiveFilter(n=n)))\ny, e, h = pa.filters.filter_data(d, x, w=w0)\nout('filter_data', h)\n"
    ref = "import padasip as pa\nout('AdaptiveFilter', pa.filters.FilterLMS)\nf = pa.filters.FilterLMS(n, w=w0)\ny, e, h = f.run(d, x)\nout('filter_data', h)\n"
    ck.twin("default model", code, ref, eff_binds(), where=[af, fd], rule="the documented default model is lms")
    un = ONE - known_word()
    rule = "ValueError exactly for the words that are no filter's name"
    ck.raises("get_filter of any word", "import padasip as pa\npa.filters.get_filter(word)\n", word_binds, un, where=[gf], rule=rule)
    ck.raises("AdaptiveFilter of any word", "import padasip as pa\npa.filters.AdaptiveFilter(model=word, n=n)\n", word_binds, un, where=[af], rule=rule)
    ck.raises("filter_data with any word", "import padasip as pa\npa.filters.filter_data(d, x, model=word)\n", word_binds, un, where=[fd], rule=rule)
    ck.raises("AdaptiveFilter of any word without a size", "import padasip as pa\npa.filters.AdaptiveFilter(model=word)\n", word_binds, ONE, where=[af], rule="ValueError for a missing size")
    for w in ("", "lmss", "filterlms", "FilterLMS", "ap ", "vslms", "random", "nlms-", "adaptive"):
        for lab, call, at in (("get_filter", "pa.filters.get_filter(%r)", gf), ("AdaptiveFilter", "pa.filters.AdaptiveFilter(model=%r, n=n)", af), ("filter_data", "pa.filters.filter_data(d, x, model=%r)", fd)):
            ck.raises("%s, %r" % (lab, w), "import padasip as pa\n%s\n" % (call % w), eff_binds(), ONE, where=[at], rule=rule)


# ------------------------------------------------------------------------------------------------ C22
def words_only(*ws):
    r = ONE
    for w in ws:
        r = T.mul(r, ONE - T.tag("word", w))
    return r


WRONG = ["", "MAX", "Max", "sum ", "mean", "min", "random", "10", "10 %", "20%", "log", "Log10", "square", "mse", "mae", "rmse", "logse", "relu", "Sigmoid", "linear", "TANH", "zero", "ones", "Zeros", "RANDOM", "auto", "none"]


def C22(ck):
    gf, af, fd = INITF + "::get_filter", INITF + "::AdaptiveFilter", INITF + "::filter_data"
    rule = "ValueError exactly for the words that are not documented"

    def b(s, st):
        r = eff_binds()(s, st)
        r["word"] = SymStr("word")
        r["mu"] = Num(T.sym("mu", pos=True), "f", True)
        r["win"] = Num(T.dim("win", 11), "i", True)
        N = T.dim("win", 11) + T.dim("M")
        r["wh"] = s.array(st, "wh", (N, T.dim("n")))
        r["e"] = s.array(st, "e", (N,))
        r["h"], r["o"] = Num(T.dim("h"), "i", True), Num(T.dim("o", 2), "i", True)
        return r
    pot = list(("10%", "30%", "35%", "sqrt", "log10", "log10log10"))
    known = ONE - known_word()
    opts = [
        ("filter model of get_filter", "pa.filters.get_filter(%s)", [f.name for f in FILTERS] + [f.name.lower() for f in FILTERS], known, gf),
        ("filter model of AdaptiveFilter", "pa.filters.AdaptiveFilter(model=%s, n=n)", [f.name for f in FILTERS] + [f.name.lower() for f in FILTERS], known, af),
        ("filter model of filter_data", "pa.filters.filter_data(d, x, model=%s)", [f.name.lower() for f in FILTERS], known, fd),
        ("ELBND function", "pa.detection.ELBND(wh, e, function=%s)", ["max", "sum"], words_only("max", "sum"), DET + "elbnd.py::ELBND"),
        ("ELBND function by position", "pa.detection.ELBND(wh, e, %s)", ["max", "sum"], words_only("max", "sum"), DET + "elbnd.py::ELBND"),
        ("ESE peak selection", "pa.detection.ESE(wh, window=win, pot_method=%s)", pot, words_only(*pot), DET + "ese.py::pot"),
        ("ESE peak selection by position", "pa.detection.ESE(wh, win, %s)", pot, words_only(*pot), DET + "ese.py::pot"),
        ("mean error function", "pa.misc.get_mean_error(e, function=%s)", ["MSE", "MAE", "RMSE"], words_only("MSE", "MAE", "RMSE"), ERR + "::get_mean_error"),
        ("mean error function of a pair", "pa.misc.get_mean_error(e, e, function=%s)", ["MSE", "MAE", "RMSE"], words_only("MSE", "MAE", "RMSE"), ERR + "::get_mean_error"),
        ("network activation", "pa.ann.NetworkMLP([h], n, activation=%s, mu=mu)", ["sigmoid", "tanh"], words_only("sigmoid", "tanh"), MLP + "::Layer.__init__"),
        ("network activation, two layers, several outputs", "pa.ann.NetworkMLP([h, h], n, outputs=o, activation=%s)", ["sigmoid", "tanh"], words_only("sigmoid", "tanh"), MLP + "::Layer.__init__"),
    ] + [("initial weights of %s" % f.name, "pa.filters.%s(n, %s, w=%%s)" % (f.cls, f.kw), ["random", "zeros"], words_only("random", "zeros"), INIT) for f in FILTERS]
    for lab, call, good, exp, at in opts:
        ck.raises("%s, any word" % lab, "import padasip as pa\n%s\n" % (call % "word"), b, exp, where=[at], rule=rule)
        for w in good:
            ck.raises("%s, %r" % (lab, w), "import padasip as pa\n%s\n" % (call % repr(w)), b, ZERO, where=[at], rule="documented words are accepted")
        bad = [w for w in WRONG if w not in good]
        if lab.startswith("initial weights") and not lab.endswith((" LMS", " AP", " OCNLMS")):
            bad = bad[:3]
        code = "import padasip as pa\nr = 0\n"
        for w in bad:
            code += "try:\n    q = %s\nexcept ValueError:\n    r = r + 1\n" % (call % repr(w))
        ck.twin("%s, words it does not know" % lab, code + "out('refused', r)\n", "out('refused', %d)\n" % len(bad), b, where=[at], rule=rule)
    for w in ("autos", "AUTO", "", "fast"):
        ck.raises("learning rate of the network, %r" % w, "import padasip as pa\npa.ann.NetworkMLP([h], n, mu=%r)\n" % w, b, ONE, where=[MLP + "::NetworkMLP.__init__"], rule="ValueError for a word other than auto")
    ck.raises("learning rate of the network, 'auto'", "import padasip as pa\npa.ann.NetworkMLP([h], n, mu='auto')\n", b, ZERO, where=[MLP + "::NetworkMLP.__init__"], rule="documented words are accepted")

"""Properties of the neural network."""
import terms as T
from terms import P, P1, ONE, ZERO
from values import *
from core import *

MLP = "padasip/ann/mlp.py"

# the forward pass written from the property
FORWARD = """
import numpy as np
def act(z):
    %s
def forward(x):
    for W in Ls:
        x = act(W[:, 0] + np.dot(W[:, 1:], x))
    return V[0] + np.dot(V[1:], x) if one else V[:, 0] + np.dot(V[:, 1:], x)
"""
ACT = {"sigmoid": "return 1/(1 + np.exp(-z))", "tanh": "return np.tanh(z)"}
DER = {"sigmoid": "return a*(1 - a)", "tanh": "return 1 - a*a"}


def mlp_binds(L, outputs):
    def b(s, st):
        r = {"n": Num(T.dim("n"), "i", True), "o": Num(T.dim("o", 2), "i", True), "mu": Num(T.sym("mu", pos=True), "f", True),
             "N": Num(T.dim("N"), "i", True), "M": Num(T.dim("M"), "i", True), "E": Num(T.dim("E"), "i", True), "one": Num(ONE if outputs == 1 else ZERO, "b", True)}
        for i in range(L):
            r["h%d" % (i + 1)] = Num(T.dim("h%d" % (i + 1)), "i", True)
        K = T.dim("K", 0)
        N = K + T.dim("N")
        r["K"] = Num(K, "i", True)
        r["N"] = Num(N, "i", True)
        n = T.dim("n")
        r["x"] = s.array(st, "x", (N, n))
        r["xh"] = s.array(st, "xh", (T.dim("M"), n))
        r["z"] = s.array(st, "z", (n,))
        r["z2"] = s.array(st, "z2", (n,))
        if outputs == 1:
            r["d"] = s.array(st, "d", (N,))
            r["dh"] = s.array(st, "dh", (T.dim("M"),))
        else:
            r["d"] = s.array(st, "d", (N, T.dim("o", 2)))
            r["dh"] = s.array(st, "dh", (T.dim("M"), T.dim("o", 2)))
        return r
    return b


def net(L, outputs, act, mu="mu", var="nn"):
    return "%s = pa.ann.NetworkMLP([%s], n%s, activation=%r%s)" % (
        var, ", ".join("h%d" % (i + 1) for i in range(L)), "" if outputs == 1 else ", outputs=o", act, "" if mu == "auto" else ", mu=" + mu)


CONFIGS = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)]


def configs(ck):
    out = [(L, o, a) for L, o in CONFIGS for a in ("sigmoid", "tanh")]
    if ck.thorough:
        out += [(3, 2, a) for a in ("sigmoid", "tanh")] + [(4, 1, a) for a in ("sigmoid", "tanh")]
    return out


def lab(L, o, a):
    return "%d hidden layer%s, %s, %s" % (L, "s" if L > 1 else "", "one output" if o == 1 else "several outputs", a)


def C30(ck):
    at = [MLP + "::NetworkMLP.run", MLP + "::NetworkMLP.predict", MLP + "::Layer.predict", MLP + "::Layer.activation"]
    tt = [MLP + "::NetworkMLP.test"] + at[1:]
    for L, o, a in configs(ck):
        code = """
import padasip as pa
%s
V = nn.w + 0.0
Ls = [l.w + 0.0 for l in nn.layers]
%s
y = nn.run(x)
out("rows", len(y)); out("rows'", N)
out("answer K", y[K]); out("answer K'", forward(x[K]))
out("first answer", y[0]); out("first answer'", forward(x[0]))
out("prediction", nn.predict(z)); out("prediction'", forward(z))
v = nn.test(x, d)
out("test rows", len(v)); out("test rows'", N)
out("test K", v[K]); out("test K'", d[K] - forward(x[K]))
out("first test", v[0]); out("first test'", d[0] - forward(x[0]))
out("answers again", nn.run(x)); out("answers again'", y)
out("output weights kept", nn.w); out("output weights kept'", V)
for i in range(len(Ls)):
    assert i < 4
out("first hidden weights kept", nn.layers[0].w); out("first hidden weights kept'", Ls[0])
out("last hidden weights kept", nn.layers[-1].w); out("last hidden weights kept'", Ls[-1])
""" % (net(L, o, a), FORWARD % ACT[a])
        ck.pairs(lab(L, o, a), code, mlp_binds(L, o), where=at + tt[:1], rule="answer k is the forward pass of row k; weights are not changed")


def backward(L, o, a, rates):
    """one training step written from the property; V, W1 ... WL are changed in place, q is the error"""
    r = ["import numpy as np", "def act(z):", "    " + ACT[a], "def der(a):", "    " + DER[a]]
    b = ["def step(x, t):", "    a0 = x"]
    for i in range(1, L + 1):
        b.append("    a%d = act(W%d[:, 0] + np.dot(W%d[:, 1:], a%d))" % (i, i, i, i - 1))
    if o == 1:
        b += ["    e = t - (V[0] + np.dot(V[1:], a%d))" % L,
              "    gv = np.zeros(len(V)); gv[0] = e; gv[1:] = e*a%d" % L,
              "    back = e*V[1:]"]
    else:
        b += ["    e = t - (V[:, 0] + np.dot(V[:, 1:], a%d))" % L,
              "    gv = np.zeros(V.shape); gv[:, 0] = e; gv[:, 1:] = np.outer(e, a%d)" % L,
              "    back = np.dot(V[:, 1:].T, e)"]
    for i in range(L, 0, -1):
        b += ["    q%d = der(a%d)*back" % (i, i),
              "    g%d = np.zeros(W%d.shape); g%d[:, 0] = q%d; g%d[:, 1:] = np.outer(q%d, a%d)" % (i, i, i, i, i, i, i - 1)]
        if i > 1:
            b.append("    back = np.dot(W%d[:, 1:].T, q%d)" % (i, i))
    b.append("    V[:] = V + %s*gv" % rates[-1])
    for i in range(1, L + 1):
        b.append("    W%d[:] = W%d + %s*g%d" % (i, i, rates[i - 1], i))
    b.append("    return e")
    w = ["V = nn.w + 0.0"] + ["W%d = nn.layers[%d].w + 0.0" % (i, i - 1) for i in range(1, L + 1)]
    return "\n".join(r + w + b)


def weights(L):
    return "\n".join(["out('output weights', nn.w); out(\"output weights'\", V)"] + [
        "out('weights of hidden layer %d', nn.layers[%d].w); out(\"weights of hidden layer %d'\", W%d)" % (i, i - 1, i, i) for i in range(1, L + 1)])


def C31(ck):
    at = [MLP + "::NetworkMLP.train", MLP + "::NetworkMLP.update", MLP + "::Layer.update"]
    for L, o, a in configs(ck):
        auto = a == "tanh" and L < 3
        hs = ["n"] + ["h%d" % (i + 1) for i in range(L)]
        rates = ["%s**(-0.5)" % h for h in hs] if auto else ["mu"] * (L + 1)
        ref = backward(L, o, a, rates)
        code = """
import padasip as pa
%s
%s
e, mse = nn.train(xh[:1], dh[:1], epochs=1)
q = step(xh[0], dh[0])
out("error of a step", e[0]); out("error of a step'", q)
out("mean error", mse[0]); out("mean error'", np.sum(q*q))
%s
""" % (net(L, o, a, "auto" if auto else "mu"), ref, weights(L))
        ck.pairs(lab(L, o, a) + ", one step", code, mlp_binds(L, o), where=at, rule="rate times the negative gradient at the weights before the step")
        if L > 2 and not ck.thorough:
            continue
        code = """
import padasip as pa
%s
%s
e, mse = nn.train(xh, dh, epochs=E)
e2 = np.zeros(%s)
m2 = np.zeros(E)
for p in range(E):
    for k in range(M):
        e2[p*M+k] = step(xh[k], dh[k])
    m2[p] = np.sum(e2[p*M:(p+1)*M]**2)/M
out("errors", e); out("errors'", e2)
out("mean errors", mse); out("mean errors'", m2)
%s
""" % (net(L, o, a, "auto" if auto else "mu"), ref, "E*M" if o == 1 else "(E*M, o)", weights(L))
        ck.pairs(lab(L, o, a) + ", training", code, mlp_binds(L, o), where=at, rule="the same weights and errors after any number of samples and epochs")
    shuffled(ck, at)


def shuffled(ck, at):
    """shuffled training: every epoch visits every pair once, in an order drawn anew from the global generator"""
    for L, o, a in [(1, 1, "sigmoid"), (1, 2, "tanh"), (2, 1, "tanh"), (2, 2, "sigmoid")]:
        head = "import padasip as pa\nimport numpy as np\n" + net(L, o, a).replace("mu=mu", "mu=0.") + "\n"
        rows = "M" if o == 1 else "(M, o)"
        ck.pairs(lab(L, o, a) + ", shuffled, rate 0", head + """
V = nn.w + 0.0
y = np.zeros(%s)
for k in range(M):
    y[k] = nn.predict(xh[k])
e, mse = nn.train(xh, y + 3.0, epochs=2, shuffle=True)
out("rows", len(e)); out("rows'", 2*M)
out("input-target pairs stay together in the first epoch", e[:M]); out("input-target pairs stay together in the first epoch'", 0*y + 3.0)
out("input-target pairs stay together in the next epoch", e[M:]); out("input-target pairs stay together in the next epoch'", 0*y + 3.0)
""" % rows, mlp_binds(L, o), where=at, rule="with a rate of 0 and targets 3 above the outputs every recorded error is 3")
        ck.pairs(lab(L, o, a) + ", shuffled, every sample once", head + """
y = np.zeros(%s)
for k in range(M):
    y[k] = nn.predict(xh[k])
e, mse = nn.train(xh, dh, epochs=2, shuffle=True)
out("first epoch", mse[0]); out("first epoch'", np.sum((dh - y)**2)/M)
out("second epoch", mse[1]); out("second epoch'", np.sum((dh - y)**2)/M)
out("sum of the errors", np.sum(e[:M])); out("sum of the errors'", np.sum(dh - y))
""" % rows, mlp_binds(L, o), where=at, rule="with a rate of 0 the sums over the samples do not depend on their order")
        if L == 1:
            ck.pairs(lab(L, o, a) + ", the same data in both cases", head + """
x1 = xh + 0.0; d1 = dh + 0.0
e, mse = nn.train(xh, dh, epochs=2, shuffle=True)
out("inputs", xh); out("inputs'", x1)
out("targets", dh); out("targets'", d1)
""", mlp_binds(L, o), where=at, rule="shuffling leaves the caller's arrays in order")

            def differ(A, one, two, name, same, pl, rule):
                o1, o2 = A.obs.get(one), A.obs.get(two)
                if o1 is None or o2 is None:
                    ck.add(name, "undecided", "not reached", pl, rule)
                    return
                res = ck.cmp_val(A.session, o1.val, o1.st, o2.val, o2.st)
                vs = {r[1] for r in res}
                ck.add(name, "refuted" if vs == {"equal"} else ("proved" if "different" in vs else "undecided"),
                       same if vs == {"equal"} else "; ".join(str(r[2]) for r in res if r[1] == "unknown")[:400], pl, rule)

            def go(L=L, o=o, a=a, head=head, rows=rows, differ=differ):
                A = ck.run(head + """
y = np.zeros(%s)
for k in range(M):
    y[k] = nn.predict(xh[k])
e, mse = nn.train(xh, dh, epochs=2, shuffle=True)
out("plain", dh - y)
out("first", e[:M])
out("second", e[M:])
""" % rows, mlp_binds(L, o), lab(L, o, a))
                pl = ck.places(at, A)
                differ(A, "first", "second", lab(L, o, a) + ", shuffled: a new order in every epoch",
                       "the errors of the second epoch come in the same order as those of the first, whatever the generator yields", pl,
                       "recorded errors of two epochs at rate 0 are different functions of the generator")
                differ(A, "first", "plain", lab(L, o, a) + ", shuffled: the first epoch too",
                       "the first epoch takes the samples in the order of the data, whatever the generator yields", pl,
                       "recorded errors of the first epoch at rate 0 depend on the generator")
            ck.guardrun(lab(L, o, a) + ", shuffled: a new order in every epoch", go)
        # one sample: shuffling has no effect
        ref = backward(L, o, a, ["mu"] * (L + 1))
        ck.pairs(lab(L, o, a) + ", shuffled, one sample", """
import padasip as pa
%s
%s
xs, ds = xh[:1], dh[:1]
e, mse = nn.train(xs, ds, epochs=E, shuffle=True)
e2 = np.zeros(%s)
m2 = np.zeros(E)
for p in range(E):
    e2[p] = step(xs[0], ds[0])
    m2[p] = np.sum(e2[p:p+1]**2)
out("errors", e); out("errors'", e2)
out("mean errors", mse); out("mean errors'", m2)
%s
""" % (net(L, o, a), ref, "E" if o == 1 else "(E, o)", weights(L)), mlp_binds(L, o), where=at, rule="with a single sample shuffled training is plain training")
        ck.pairs(lab(L, o, a) + ", not shuffled: the generator is left alone", """
import padasip as pa
import numpy as np
%s
s = np.random.get_state()
e, mse = nn.train(xh, dh, epochs=E)
e, mse = nn.train(xh, dh, epochs=E, shuffle=False)
y = nn.run(xh); v = nn.test(xh, dh); p = nn.predict(z)
out("generator", np.random.get_state()); out("generator'", s)
""" % net(L, o, a), mlp_binds(L, o), where=at, rule="state of the global generator")

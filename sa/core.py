"""Obligations, verdicts and reports.

An obligation is discharged by comparing the value graphs of two programs computed by the same abstract interpreter (the code
under analysis called by a driver, and a reference written from the property), or by a rule over the effects the interpreter
records (writes to regions, random draws, divisions ...).  Verdicts: proved, refuted (with the construct and a witness term
assignment) or undecided (reported in the evidence, never an alarm)."""
import ast
import json
import os
import resource
import shutil
import signal
import tempfile
import textwrap
import time
import traceback
import terms as T
import witness as W
from terms import P, P1, ONE, ZERO
from values import *
import harness as H

REPO = os.environ.get("VERIF_REPO", "/repo")


class Ob:
    def __init__(self, name, verdict, detail="", where=(), rule="", driver=""):
        self.name, self.verdict, self.detail, self.where, self.rule, self.driver = name, verdict, detail, list(where), rule, driver

    def json(self):
        d = {"obligation": self.name, "verdict": self.verdict, "rule": self.rule}
        if self.detail:
            d["detail"] = self.detail
        if self.where:
            d["constructs"] = self.where
        return d


_sessions = {}


def session(scipy=True, nonce=0):
    """the package as loaded by the interpreter; another nonce: another hash seed, time and entropy, from the import on"""
    s = _sessions.get((scipy, nonce))
    if s is None:
        s = _sessions[(scipy, nonce)] = H.Session(REPO, scipy, nonce=nonce)
    return s


def drop_sessions():
    _sessions.clear()


class Check:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obs = []
        self.touched = set()
        self.drivers = 0
        self.refs = 0
        self.events = {}
        self.unsupported = {}
        self.assumptions = []
        self.samples = []
        self.t0 = time.time()
        self.known = []
        self.deadline = self.t0 + (600 if tier == "quick" else 780)
        self.item_limit = 240 if tier == "quick" else 500
        self.jobs, self.inside, self.live, self.broken = 0, False, {}, []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -------------------------------------------------------------------------------------------- verdicts
    def add(self, name, verdict, detail="", where=(), rule="", driver=""):
        o = Ob(name, verdict, detail, where, rule, driver)
        self.obs.append(o)
        return o

    def guardrun(self, name, f, then=None):
        """one piece of work; in parallel mode it runs in a process of its own with a time and memory limit"""
        if self.jobs and not self.inside:
            self.spawn(name, lambda: self.attempt(name, f, then))
            return None
        return self.attempt(name, f, then)

    def attempt(self, name, f, then=None):
        """an internal failure of the analysis leaves the obligation undecided"""
        try:
            r = f()
            if then is not None and r is not None:
                then(r)
            return r
        except Vanished:
            raise
        except (T.TooBig, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, MemoryError,
                ZeroDivisionError, ArithmeticError, NotImplementedError, UnboundLocalError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.add(name, "undecided", "analysis failed: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:100], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return None

    # -------------------------------------------------------------------------------------------- processes
    def parallel(self, jobs):
        self.jobs = jobs
        self.tmp = tempfile.mkdtemp(prefix="verif-")

    def spawn(self, name, f):
        self.reap(self.jobs - 1)
        slot = len(self.obs)
        self.obs.append(None)
        path = os.path.join(self.tmp, "%d.json" % slot)
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                self.inside = True
                self.obs, self.touched, self.drivers, self.refs, self.events, self.unsupported, self.samples = [], set(), 0, 0, {}, {}, []
                rc = 0
                try:
                    f()
                except SystemExit as e:
                    self.obs = [Ob(name, "undecided", str(e))]
                    rc = 4
                except Exception as e:
                    self.obs = [Ob(name, "undecided", "analysis failed: %s" % (e,))]
                with open(path, "w", encoding="utf-8") as out:
                    json.dump({"obs": [[o.name, o.verdict, o.detail, [str(w) for w in o.where], o.rule, o.driver] for o in self.obs],
                               "touched": sorted([str(t[0]), str(t[1])] for t in self.touched), "drivers": self.drivers, "refs": self.refs,
                               "events": self.events, "unsupported": self.unsupported, "samples": self.samples}, out, default=str)
            except BaseException:
                rc = 3
            finally:
                os._exit(rc)
        self.live[pid] = (slot, name, path, time.time())

    def reap(self, most):
        """wait until at most `most` processes are left"""
        while len(self.live) > most:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (slot, name, path, t0) in list(self.live.items()):
                    if now > self.deadline or now - t0 > self.item_limit:
                        try:
                            os.kill(p, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                time.sleep(0.01)
                continue
            if pid not in self.live:
                continue
            slot, name, path, t0 = self.live.pop(pid)
            code = os.waitstatus_to_exitcode(status)
            try:
                with open(path, encoding="utf-8") as f:
                    r = json.load(f)
            except (OSError, ValueError):
                r = None
            if r is None:
                self.obs[slot] = [Ob(name, "undecided", "the analysis of this driver did not finish (%s, %.0f s)" % (
                    "stopped" if code < 0 else "exit %d" % code, time.time() - t0))]
                continue
            if code == 4:
                self.broken.append(r["obs"][0][2])
            self.obs[slot] = [Ob(*o) for o in r["obs"]]
            self.touched |= {tuple(t) for t in r["touched"]}
            self.drivers += r["drivers"]
            self.refs += r["refs"]
            for k, v in r["events"].items():
                self.events[k] = self.events.get(k, 0) + v
            for k, v in r["unsupported"].items():
                self.unsupported[k] = self.unsupported.get(k, 0) + v
            self.samples = (self.samples + r["samples"])[:6]

    def finish(self):
        if self.jobs:
            self.reap(0)
            out = []
            for o in self.obs:
                out += o if isinstance(o, list) else [o]
            self.obs = out
            shutil.rmtree(self.tmp, ignore_errors=True)

    def run(self, src, binds, name, scipy=True, S=None, env=None):
        S = S or session(scipy)
        r = S.run(src, binds, name=name)
        r.session = S
        for o in r.raises:
            if isinstance(o.val, ExcV) and "NameError" in o.val.names and o.node and o.node[0].startswith("<"):
                raise SystemExit("driver %s is broken: NameError at line %s" % (name, o.node[1]))
        self.drivers += 1
        self.touched |= r.touched
        for e in r.events:
            self.events[e["kind"]] = self.events.get(e["kind"], 0) + 1
        for k, v in r.unsupported.items():
            self.unsupported[k] = self.unsupported.get(k, 0) + v
        return r

    # -------------------------------------------------------------------------------------------- comparisons
    def cmp_poly(self, a, b, g=ONE, budget=None):
        if a is b:
            return "equal", None
        try:
            if g is not ONE:
                a, b = T.mul(a, g), T.mul(b, g)
            return W.compare(a, b, self.seed, budget)
        except T.TooBig:
            return "unknown", "too big"

    def cmp_val(self, S, va, sa, vb, sb, g=ONE, path=""):
        """-> list of (path, verdict, detail)"""
        it = S.it
        if isinstance(va, Opq) or isinstance(vb, Opq):
            return [(path, "unknown", "not modelled: %s" % ((va if isinstance(va, Opq) else vb).why,))]
        if isinstance(va, (Choice,)) or isinstance(vb, (Choice,)):
            na, nb = self._flat(S, va, sa), self._flat(S, vb, sb)
            if na is not None and nb is not None:
                va, vb = na, nb
            else:
                c, x, y = (va.c, va.a, va.b) if isinstance(va, Choice) else (vb.c, vb.a, vb.b)
                if isinstance(va, Choice):
                    r = self.cmp_val(S, x, sa, vb, sb, T.mul(g, c), path) + self.cmp_val(S, y, sa, vb, sb, T.mul(g, ONE - c), path)
                else:
                    r = self.cmp_val(S, va, sa, x, sb, T.mul(g, c), path) + self.cmp_val(S, va, sa, y, sb, T.mul(g, ONE - c), path)
                return r
        if isinstance(va, Num) and isinstance(vb, Num):
            v, d = self.cmp_poly(va.p, vb.p, g)
            return [(path, v, d)]
        if isinstance(va, Str) and isinstance(vb, Str):
            return [(path, "equal" if va.s == vb.s else "different", "%r instead of %r" % (va.s, vb.s))]
        if isinstance(va, NoneT) and isinstance(vb, NoneT):
            return [(path, "equal", None)]
        if isinstance(va, SymStr) and isinstance(vb, SymStr) and va.name == vb.name and va.form == vb.form:
            return [(path, "equal", None)]
        if isinstance(va, (ClassV, ExcClass, TypeV, FuncV, ModuleV)) or isinstance(vb, (ClassV, ExcClass, TypeV, FuncV, ModuleV)):
            return [(path, "equal" if same(va, vb) else "different", "%s instead of %s" % (va, vb))]
        arr = (Arr, Masked, Frozen, ListRef, Tup)
        if isinstance(va, Tup) and isinstance(vb, Tup):
            if len(va.items) != len(vb.items):
                return [(path, "different", "%d values instead of %d" % (len(va.items), len(vb.items)))]
            out = []
            for i, (x, y) in enumerate(zip(va.items, vb.items)):
                out += self.cmp_val(S, x, sa, y, sb, g, path + "[%d]" % i)
            return out
        if isinstance(va, Obj) and isinstance(vb, Obj):
            if va.cls is not vb.cls:
                return [(path, "different", "object of class %s instead of %s" % (va.cls.name, vb.cls.name))]
            return [(path, "equal", None)]
        if isinstance(va, arr) and isinstance(vb, arr):
            a, b = self._ac(S, va, sa), self._ac(S, vb, sb)
            if a is None or b is None:
                return [(path, "unknown", "container not modelled")]
            return self.cmp_ac(a, b, g, path)
        if isinstance(va, (Num,) + arr) and isinstance(vb, (Num,) + arr):
            a, b = self._ac(S, va, sa), self._ac(S, vb, sb)
            if a is None or b is None:
                return [(path, "unknown", "container not modelled")]
            return self.cmp_ac(a, b, g, path)
        known = (Num, Str, NoneT, Arr, Tup, Obj, ListRef, DictRef)
        if isinstance(va, known) and isinstance(vb, known):
            gv = self.cmp_poly(ONE, ZERO, g)[0]
            if gv == "different":
                return [(path, "different", "%s instead of %s" % (self.show(S, va, sa), self.show(S, vb, sb)))]
        return [(path, "unknown", "values of kind %s and %s" % (type(va).__name__, type(vb).__name__))]

    def _flat(self, S, v, st):
        """a number if v is a choice of numbers"""
        if isinstance(v, Num):
            return v
        if isinstance(v, Choice):
            a, b = self._flat(S, v.a, st), self._flat(S, v.b, st)
            if a is None or b is None:
                return None
            return Num(T.ite(v.c, a.p, b.p), S.it.join_dt(a.dt, b.dt))
        return None

    def _ac(self, S, v, st):
        try:
            return S.it.np.ac(st, v)
        except PyExc:
            return None
        except Exception as e:
            if type(e).__name__ == "Unsup":
                return None
            raise

    def cmp_ac(self, a, b, g=ONE, path=""):
        if (a.mask is None) != (b.mask is None):
            return [(path, "unknown", "selected by a condition")]
        if len(a.shape) != len(b.shape):
            # a size one axis more or less is still a different result
            gv = self.cmp_poly(ONE, ZERO, g)[0]
            return [(path, "different" if gv == "different" and not a.body.opq else "unknown",
                     "%d-dimensional instead of %d-dimensional" % (len(a.shape), len(b.shape)))]
        out = []
        for i, (x, y) in enumerate(zip(a.shape, b.shape)):
            v, d = self.cmp_poly(x, y, g)
            if v != "equal":
                out.append((path + ".shape[%d]" % i, v, "%s instead of %s; %s" % (T.short(x, 80), T.short(y, 80), d)))
        if out:
            return out
        vs = [T.new_var(s) for s in b.shape]
        V = [P1(v) for v in vs]
        if a.mask is not None:
            ca = T.subst(a.mask[1], dict(zip(a.vars, V)))
            cb = T.subst(b.mask[1], dict(zip(b.vars, V)))
            v, d = self.cmp_poly(ca, cb, g)
            if v != "equal":
                return [(path + ".selected", v, d)]
            g = T.mul(g, cb)
        x, y = a.at(V), b.at(V)
        v, d = self.cmp_poly(x, y, g)
        return [(path, v, d if v == "equal" else "%s; computed: %s; expected: %s" % (d, T.short(x, 260), T.short(y, 260)))]

    def show(self, S, v, st, n=200):
        if isinstance(v, Num):
            return T.short(v.p, n)
        a = self._ac(S, v, st) if isinstance(v, (Arr, Masked, Frozen, ListRef, Tup)) else None
        if a is not None:
            return "array(%s) %s" % (",".join(T.short(s, 30) for s in a.shape), T.short(a.body, n))
        return repr(v)[:n]

    # -------------------------------------------------------------------------------------------- twin programs
    def twin(self, label, code, ref, binds, keys=None, where=(), rule="value graph of the code equals that of the reference",
             no_raise=True, S=None, scipy=True, needs=None, ref_same=True, then=None, nonce=0):
        """run driver `code` and reference `ref` on the same symbolic inputs and compare every observation"""
        def go():
            S2 = S or session(scipy)
            A = self.run(code, binds, label, S=S2)
            B = (session(scipy, nonce) if nonce else S2).run(ref, binds, name=label + " (reference)")
            self.refs += 1
            self.judge(label, S2, A, B, code, keys, where, rule, no_raise)
            return A, B
        return self.guardrun(label, go, then)

    def places(self, where, A=None):
        """resolve anchors 'file::Class.func' in the current source; functions that were analysed as a fallback"""
        out = []
        for w in where:
            r = locate(w)
            if r:
                out.append(r)
        if A is not None and not out:
            out = sorted({"%s:%s" % (t[0], t[1]) for t in A.touched})[:8]
        return out

    def judge(self, label, S, A, B, code, keys=None, where=(), rule="", no_raise=True):
        pl = self.places(where, A)
        if no_raise:
            self.judge_raises(label, A, B, code, pl)
        for key, ob in B.obs.items():
            if key.startswith("@") or (keys and key not in keys):
                continue
            oa = A.obs.get(key)
            name = "%s: %s" % (label, key)
            if oa is None:
                if A.end is None and A.raises and not any(self.opq_out(o) for o in A.raises):
                    self.add(name, "refuted", "the driver never gets to this point: " + self.show_raises(A), pl, rule, code)
                else:
                    self.add(name, "undecided", "not reached in the analysis", pl, rule)
                continue
            try:
                res = self.cmp_val(S, oa.val, oa.st, ob.val, ob.st, T.mul(oa.guard, ob.guard))
            except T.TooBig:
                res = [("", "unknown", "too big")]
            bad = [r for r in res if r[1] == "different"]
            unk = [r for r in res if r[1] == "unknown"]
            if bad:
                self.add(name, "refuted", "; ".join("%s%s" % (key, p + ": " + str(d)) for p, v, d in bad)[:1500], pl, rule, code)
            elif unk:
                self.add(name, "undecided", "; ".join("%s%s" % (key, p + ": " + str(d)) for p, v, d in unk)[:600], pl, rule)
            else:
                self.add(name, "proved", "", pl, rule)
                if len(self.samples) < 6:
                    self.samples.append({"obligation": name, "value": self.show(S, oa.val, oa.st, 160)})

    def opq_out(self, o):
        g = o.st.abs()
        return g.opq

    def show_raises(self, A):
        return ", ".join(sorted({"%s at %s" % (o.val, ":".join(map(str, (o.node or ("?",))[:2]))) for o in A.raises}))[:300]

    def judge_raises(self, label, A, B=None, code="", pl=(), allowed=()):
        """no path raises on admissible input"""
        name = label + ": accepted"
        bad, unk = [], []
        for o in A.raises:
            if set(o.val.names if isinstance(o.val, ExcV) else ()) & set(allowed):
                continue
            v, d = self.cmp_poly(o.st.abs(), ZERO)
            if v == "different":
                bad.append("%s raised at %s under %s (%s)" % (o.val, ":".join(map(str, (o.node or ("?",))[:2])), T.short(o.st.abs(), 160), d))
            elif v == "unknown":
                unk.append("%s at %s: %s" % (o.val, ":".join(map(str, (o.node or ("?",))[:2])), d))
        rule = "no exception for admissible input"
        if bad:
            self.add(name, "refuted", "; ".join(bad)[:900], pl, rule, code)
        elif unk:
            self.add(name, "undecided", "; ".join(unk)[:400], pl, rule)
        else:
            self.add(name, "proved", "", pl, rule)


# ------------------------------------------------------------------------------------------------ source anchors
_src = {}


def tree_of(path):
    if path not in _src:
        try:
            _src[path] = ast.parse(open(os.path.join(REPO, path), encoding="utf-8", newline=None).read())
        except (OSError, SyntaxError):
            _src[path] = None
    return _src[path]


def locate(w):
    """'padasip/x.py::A.b' -> 'padasip/x.py:12 A.b' in the current source (None if it is not there)"""
    path, _, q = w.partition("::")
    t = tree_of(path)
    if t is None:
        return None
    if not q:
        return path
    body = t.body
    node = None
    for part in q.split("."):
        node = next((n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part), None)
        if node is None:
            return None
        body = node.body
    return "%s:%d %s" % (path, node.lineno, q)


def _pairs(self, label, code, binds, where=(), rule="two values of the same analysed program are equal", S=None, scipy=True, no_raise=True,
           allowed=(), then=None):
    """observations X and X' of one driver must agree"""
    def go():
        S2 = S or session(scipy)
        A = self.run(code, binds, label, S=S2)
        pl = self.places(where, A)
        if no_raise:
            self.judge_raises(label, A, None, code, pl, allowed)
        names = [k for k in expected_outs(code) if k.endswith("'")]
        for k2 in names:
            key = k2[:-1]
            name = "%s: %s" % (label, key)
            oa, ob = A.obs.get(key), A.obs.get(k2)
            if oa is None or ob is None:
                if A.end is None and A.raises and not any(self.opq_out(o) for o in A.raises):
                    self.add(name, "refuted", "the driver never gets to this point: " + self.show_raises(A), pl, rule, code)
                else:
                    self.add(name, "undecided", "not reached in the analysis", pl, rule)
                continue
            try:
                res = self.cmp_val(S2, oa.val, oa.st, ob.val, ob.st, T.mul(oa.guard, ob.guard))
            except T.TooBig:
                res = [("", "unknown", "too big")]
            self.settle(name, key, res, pl, rule, code, S2, oa)
        return A
    return self.guardrun(label, go, then)


def _settle(self, name, key, res, pl, rule, code, S=None, oa=None):
    bad = [r for r in res if r[1] == "different"]
    unk = [r for r in res if r[1] == "unknown"]
    if bad:
        self.add(name, "refuted", "; ".join("%s%s" % (key, p + ": " + str(d)) for p, v, d in bad)[:1500], pl, rule, code)
    elif unk:
        self.add(name, "undecided", "; ".join("%s%s" % (key, p + ": " + str(d)) for p, v, d in unk)[:600], pl, rule)
    else:
        self.add(name, "proved", "", pl, rule)
        if S is not None and len(self.samples) < 6:
            self.samples.append({"obligation": name, "value": self.show(S, oa.val, oa.st, 160)})


def expected_outs(code):
    out = []
    for n in ast.walk(ast.parse(textwrap.dedent(code))):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "out" and n.args and isinstance(n.args[0], ast.Constant):
            out.append(n.args[0].value)
    return out


def _distinct(ck, label, code, binds, where, pairs, rule="different draws of NumPy's global generator: a witness on which the two values differ", undefined=False):
    """two observations of one program are different draws: their values must not be equal
    (undefined: a value that exists nowhere, being divided by zero, differs from one that exists)"""

    def go():
        S2 = session()
        A = ck.run(code, binds, label, S=S2)
        pl = ck.places(where, A)
        for k, k2 in pairs:
            name = "%s: %s / %s" % (label, k, k2)
            oa, ob = A.obs.get(k), A.obs.get(k2)
            if oa is None or ob is None:
                ck.add(name, "undecided", "not reached in the analysis", pl, rule)
                continue
            try:
                res = ck.cmp_val(S2, oa.val, oa.st, ob.val, ob.st, T.mul(oa.guard, ob.guard))
            except T.TooBig:
                res = [("", "unknown", "too big")]
            if any(r[1] == "different" or undefined and r[1] == "unknown" and "(undefined)" in str(r[2]) for r in res):
                ck.add(name, "proved", "", pl, rule)
            elif any(r[1] == "unknown" for r in res):
                ck.add(name, "undecided", "; ".join(str(r[2]) for r in res if r[1] == "unknown")[:300], pl, rule)
            else:
                ck.add(name, "refuted", "always the same values", pl, rule, code)
    ck.guardrun(label, go)


Check.pairs = _pairs
Check.distinct = _distinct
Check.settle = _settle


def _raises(self, label, code, binds, expected, exc="ValueError", where=(), rule="the exact condition under which it raises", S=None,
            scipy=True, allowed=(), then=None):
    """the driver raises `exc` exactly under the condition `expected` and nothing else ever (except `allowed`)"""
    def go():
        S2 = S or session(scipy)
        n0 = sum(S2.it.unsupported.values())
        A = self.run(code, binds, label, S=S2)
        A.gaps = sum(S2.it.unsupported.values()) - n0
        pl = self.places(where, A)
        exp = expected(S2) if callable(expected) else expected
        return self.judge_guard(label, S2, A, exp, exc, pl, rule, code, allowed)
    return self.guardrun(label, go, then)


def _judge_guard(self, label, S, A, exp, exc, pl, rule, code, allowed=()):
    tot, other, unk = ZERO, [], []
    for o in A.raises:
        names = set(o.val.names) if isinstance(o.val, ExcV) else {"?"}
        g = o.st.abs()
        for k, n in o.exists or ():
            # some iteration raises: the same condition in every iteration, and there is an iteration
            if k in g.leaf or any(k in m.leaf for _, m in o.exists):
                unk.append("raised inside a loop at %s" % (o.node,))
                break
            g = T.mul(g, T.ge(n - 1))
        else:
            unk = unk
        if unk:
            continue
        if any(H.I.exc_is(n, exc) for n in names):
            tot = tot + g
        elif not names & set(allowed):
            other.append((o, g))
    name = "%s: %s exactly when it should" % (label, exc)
    if A.end is None and not A.raises:
        self.add(name, "undecided", "no end of the analysis", pl, rule)
        return A
    bad = None
    for o, g in other:
        v, d = self.cmp_poly(g, ZERO)
        if v == "different":
            bad = "%s raised at %s instead of %s, under %s" % (o.val, ":".join(map(str, (o.node or ("?",))[:2])), exc, T.short(g, 160))
        elif v == "unknown":
            unk.append("%s at %s" % (o.val, o.node))
    if bad:
        self.add(name, "refuted", bad, pl, rule, code)
        return A
    v, d = self.cmp_poly(tot, exp)
    if v == "different" and getattr(A, "gaps", 0) and self.cmp_poly(T.mul(tot, ONE - exp), ZERO)[0] != "different":
        unk.append("a construct that is not modelled may raise")
    if v == "different" and not unk:
        self.add(name, "refuted", "%s is raised under %s instead of %s (%s)" % (exc, T.short(tot, 240), T.short(exp, 160), d), pl, rule, code)
    elif v == "equal" and not unk:
        self.add(name, "proved", "", pl, rule)
        if len(self.samples) < 6:
            self.samples.append({"obligation": name, "value": "raises under " + T.short(tot, 160)})
    else:
        self.add(name, "undecided", "; ".join(unk + [str(d or "")])[:400], pl, rule)
    return A


Check.raises = _raises
Check.judge_guard = _judge_guard

"""Deciding whether two value numbers differ.

`compare(a, b)` returns ('equal', None), ('different', witness text) or ('unknown', reason).  Equality is decided by the normal
form (after clearing denominators); a difference is only claimed with an assignment of the symbols under which the two *terms*
have different values.  Only terms are evaluated here, never code of the analysed program."""
import decimal
import hashlib
import math
import random
import struct
import time
from decimal import Decimal as D
from fractions import Fraction
import terms as T
import recs
from terms import P, P1, ONE, ZERO, Poly, Lam

CTX = decimal.Context(prec=50, Emax=999999, Emin=-999999, traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])


class NoValue(Exception):
    pass


class OutOfTime(Exception):
    pass


def hnum(seed, *key):
    h = hashlib.md5(repr((seed,) + key).encode()).digest()
    return int.from_bytes(h[:8], "big") / 2.0 ** 64


PROFILES = ["normal", "normal", "ints", "zero_x", "tiny", "normal", "big", "const", "ints"]
LATER = ["scales", "intsp", "scales", "intsp", "normal", "scales", "ints", "scales", "intsp", "const"]
FAR = 8       # seconds for the evaluations of many iterations
SCALES = [D("1e-7"), D("1e-4"), D("0.01"), D(1), D(1), D(1), D(30), D(1000), D("1e6")]


NIL = decimal.Decimal("1e-35")


class Env:
    def __init__(self, seed, profile, deadline, overrides=None):
        self.seed, self.profile, self.deadline = seed, profile, deadline
        self.dims = {}
        self.ov = overrides or {}
        self.symv = {}
        self.memo = {}
        self.n = 0
        self.mats = {}
        self.elv = {}
        self.words = {}
        self.gv = {}
        self.far = False

    def ordered(self, dims):
        """sizes that increase along a random order of the dimensions, the last one much larger"""
        size = 1
        for i, a in enumerate(sorted(dims, key=lambda a: hnum(self.seed, "order", a.args))):
            u = hnum(self.seed, "dim", a.args)
            size += int(u * 2) if i == 0 else 1 + int(u * 2) if i < len(dims) - 1 else 3 + int(u * 12)
            size = max(size, T.DIM_MIN[a])
            self.dims[a] = size

    def note(self, a, env, v):
        """the value a condition compares with zero, at this place"""
        if len(self.gv) < 400:
            self.gv[(a, tuple(env.get(x) for x in a.leaf if isinstance(x, T.Atom) and x.kind in ("bv", "var")))] = v

    def scale(self, name):
        return SCALES[int(hnum(self.seed, "scale", str(name)) * len(SCALES))]

    # ---- leaves
    def symval(self, a):
        v = self.symv.get(a)
        if v is None:
            if a in self.ov:
                v = D(self.ov[a])
            elif a in T.DIM_MIN:
                lo = T.DIM_MIN[a]
                if a in self.dims:
                    v = D(self.dims[a])
                else:
                    v = D(lo + int(hnum(self.seed, "dim", a.args) * 4))
            elif a.is_int:
                v = D(int(hnum(self.seed, "i", a.args) * 7) - (0 if a.nn else 3) + (1 if a.pos else 0))
            else:
                r = RANGES.get(a)
                u = hnum(self.seed, "s", a.args)
                if r:
                    v = D(repr(r[0] + (r[1] - r[0]) * u))
                else:
                    pr = self.profile
                    if pr == "ints":
                        v = D(int(u * 3) + (1 if a.pos else 0) - (0 if a.nn else 1))
                    else:
                        v = D(repr(0.1 + 1.4 * u))
                        if not a.nn and hnum(self.seed, "sg", a.args) < 0.5:
                            v = -v
                        if pr == "scales":
                            v = CTX.multiply(v, self.scale(a.args))
            self.symv[a] = v
        return v

    def elval(self, a, name, idx):
        key = (name, idx)
        v = self.elv.get(key)
        if v is None:
            inf = T.EL_INFO.get(name, {})
            if inf.get("sym2") and len(idx) == 2 and idx[0] > idx[1]:
                idx = (idx[1], idx[0])
            u = hnum(self.seed, "el", str(name), tuple(str(i) for i in idx))
            pr = self.profile
            if inf.get("is_int"):
                v = D(int(u * 5) - (0 if inf.get("nn") else 2))
            elif inf.get("labels"):
                v = D(int(u * 3))
            else:
                if pr == "ints":
                    v = D(int(u * 3) - 1)
                elif pr == "intsp":
                    v = D(int(u * 4) - 1)
                elif pr == "const":
                    v = D(repr(0.3 + hnum(self.seed, "c", str(name)))) if u < 0.9 else D(repr(u))
                elif pr == "zero_x" and inf.get("input"):
                    v = D(0)
                else:
                    v = D(repr(u * 3 - 1.5))
                    if pr == "tiny":
                        v = v * D("1e-9")
                    elif pr == "big":
                        v = v * D("1e5")
                    elif pr == "scales":
                        v = CTX.multiply(v, self.scale(name))
                if inf.get("nn") or inf.get("pos"):
                    v = abs(v)
                if inf.get("pos"):
                    v = v + D("0.01")
            self.elv[key] = v
        return v

    # ---- evaluation
    def poly(self, p, env):
        self.n += 1
        if self.n % 256 == 0 and time.time() > self.deadline:
            raise OutOfTime()
        c = p.const
        if c is not None:
            return frac(c)
        key = None
        if p.size > 3:
            key = (p, tuple(env.get(a) for a in free_bound(p)))
            r = self.memo.get(key)
            if r is not None:
                return r
        # the conditions of all terms with the same other factors first: a false condition hides undefined factors
        groups = {}
        for m, c in p.t:
            v = c
            rest = m.f
            if m.bools:
                rest = []
                for a, e in m.f:
                    if a.is_bool:
                        if v != 0 and self.boolean(a, env) == 0:
                            v = 0
                    else:
                        rest.append((a, e))
                rest = tuple(rest)
            if v != 0:
                groups[rest] = groups.get(rest, 0) + v
        tot = D(0)
        for rest, c in groups.items():
            if c == 0:
                continue
            v = frac(c)
            for a, e in rest:
                x = self.atom(a, env)
                if e != 1:
                    x = self.pw(x, e)
                v = CTX.multiply(v, x)
            tot = CTX.add(tot, v)
        if key is not None:
            self.memo[key] = tot
        return tot

    def pw(self, x, e):
        if isinstance(e, int):
            if e < 0:
                if x == 0:
                    raise NoValue("division by zero")
                return CTX.divide(D(1), CTX.power(x, -e))
            return CTX.power(x, e)
        if x < 0:
            raise NoValue("root of a negative number")
        if x == 0:
            if e < 0:
                raise NoValue("division by zero")
            return D(0)
        return CTX.power(x, CTX.divide(D(e.numerator), D(e.denominator)))

    def integer(self, p, env):
        v = self.poly(p, env)
        r = v.to_integral_value()
        if abs(v - r) > D("1e-20"):
            raise NoValue("non-integer index")
        return int(r)

    def boolean(self, a, env):
        k = a.kind
        if k in ("ge", "gt", "eq"):
            v = self.poly(a.args[0], env)
            self.note(a, env, v)
            if abs(v) < NIL:        # rounding must not make the comparisons and the sign of one value contradict each other
                return 0 if k == "gt" else 1
        if k == "ge":
            return 1 if v >= 0 else 0
        if k == "gt":
            return 1 if v > 0 else 0
        if k == "eq":
            return 0
        if k == "tag":
            note_tag(a)
            subj, full = T.tag_word(a.args[0]), a.args[0]
            v = self.words.get(subj)
            if v is None:
                pool = TAGS[subj]
                v = self.words[subj] = pool[int(hnum(self.seed, "tag", repr(subj)) * len(pool))]
            if full is not subj:
                v = T.str_ops(v, full[2] if full[1] == "ops" else (("upper", ()),))
            return 1 if v == a.args[1] else 0
        if k == "flag":
            args = tuple(str(self.poly(x, env)) if isinstance(x, Poly) else str(x) for x in a.args)
            return 1 if hnum(self.seed, "flag", args) < 0.5 else 0
        raise NoValue(k)

    def atom(self, a, env):
        k = a.kind
        if a.is_bool:
            return D(self.boolean(a, env))
        if k == "sym":
            if a.args[0] == "undefined":
                raise NoValue("undefined")
            return self.symval(a)
        if k in ("bv", "var"):
            v = env.get(a)
            if v is None:
                raise NoValue("free variable")
            return v
        if k == "el":
            return self.elval(a, a.args[0], tuple(int(self.integer(i, env)) for i in a.args[1]))
        if k == "sum":
            h, his, body = a.args
            return self.sum_(h, his, body, env)
        if k == "par":
            return self.poly(a.args[0], env)
        if k == "exp":
            x = self.poly(a.args[0], env)
            if x > 2000000:
                raise NoValue("exp out of range")
            if x < -2000000:
                return D(0)
            return CTX.exp(x)
        if k == "log":
            x = self.poly(a.args[0], env)
            if x <= 0:
                raise NoValue("log of non-positive")
            return CTX.ln(x)
        if k == "abs":
            return abs(self.poly(a.args[0], env))
        if k == "sign":
            x = self.poly(a.args[0], env)
            self.note(a, env, x)
            return D(0) if abs(x) < NIL else D((x > 0) - (x < 0))
        if k == "max":
            v = [self.poly(x, env) for x in a.args[0]]
            if len(v) == 2:
                self.note(a, env, v[0] - v[1])
            return max(v)
        if k == "cst":
            return frac(a.args[0])
        if k == "spow":
            b = self.atom(a.args[0], env)
            e = self.poly(a.args[1], env)
            if b < 0 and e != e.to_integral_value():
                raise NoValue("power of negative")
            if b == 0:
                if e < 0:
                    raise NoValue("0**negative")
                return D(1) if e == 0 else D(0)
            return CTX.power(b, e)
        if k == "red":
            h, name, (hi,), body = a.args
            n = self.integer(hi, env)
            self.cap(n)
            vals = []
            b = T.bv(h, 0)
            for i in range(n):
                e2 = dict(env)
                e2[b] = D(i)
                vals.append(self.poly(body, e2))
            if name == "max":
                if not vals:
                    raise NoValue("max of nothing")
                return max(vals)
            r = D(1)
            for v in vals:
                r = CTX.multiply(r, v)
            return r
        if k == "rec":
            h, s, c, it, idx = a.args
            return self.rec(s, c, self.integer(it, env), tuple(self.integer(i, env) for i in idx), env)
        if k == "bref":
            f = env.get(("bref", a.args[0]))
            if f is None:
                raise NoValue("bref")
            return f(a.args[1], tuple(self.integer(i, env) for i in a.args[2]))
        if k == "fn":
            return self.fn(a, env)
        if k == "fa":
            return self.fa(a, env)
        raise NoValue(k)

    def cap(self, n):
        if n > 3000:
            raise NoValue("range too large")

    def sum_(self, h, his, body, env):
        tot = D(0)
        order = list(range(len(his)))

        def go(done, env, left):
            nonlocal tot
            if not left:
                tot = CTX.add(tot, self.poly(body, env))
                return
            # next variable whose range is known
            for i in left:
                fb = free_bound(his[i])
                if all(not (isinstance(x, T.Atom) and x.kind == "bv" and x.args[0] == h and x.args[1] in left) for x in fb):
                    break
            n = self.integer(his[i], env)
            self.cap(n)
            rest = [x for x in left if x != i]
            b = T.bv(h, i)
            for v in range(n):
                e2 = dict(env)
                e2[b] = D(v)
                go(done, e2, rest)
        go(None, env, order)
        return tot

    def rec(self, s, c, it, idx, env):
        fb = sys_bound(s)
        base = tuple(env.get(a) for a in fb)
        memo = self.memo
        if it > (3000 if self.far else 400):
            raise NoValue("too many iterations")

        def val(c, it, idx):
            key = (s, base, c, it, idx)
            r = memo.get(key)
            if r is not None:
                return r
            rank, init, step, _, _ = s.comps[c]
            e2 = dict(env)
            for i, x in enumerate(idx):
                e2[T.bv(s.h, i)] = D(x)
            if it <= 0:
                r = self.poly(init, e2)
            else:
                e2[T.bv(s.h, recs.KBV)] = D(it - 1)
                # values of the previous iteration are keyed by iteration: the tag is part of every memo key
                e2[("bref", s.h)] = lambda cc, ii: val(cc, it - 1, ii)
                e2[("btag", s.h)] = (s.id, base, it)
                r = self.poly(step, e2)
            memo[key] = r
            return r
        return val(c, it, idx)

    def lam(self, l, env):
        """evaluate an array argument to nested dict {idx: value} and shape"""
        key = ("lam", l, tuple(env.get(a) for a in free_bound_lam(l)))
        r = self.mats.get(key)
        if r is not None:
            return r
        shape = tuple(self.integer(s, env) for s in l.shape)
        n = 1
        for s in shape:
            n *= max(s, 0)
        self.cap(n)
        out = {}

        def go(i, idx, env):
            if i == len(shape):
                out[idx] = self.poly(l.body, env)
                return
            for v in range(shape[i]):
                e2 = dict(env)
                e2[T.bv(l.h, i)] = D(v)
                go(i + 1, idx + (v,), e2)
        go(0, (), env)
        self.mats[key] = (shape, out)
        return shape, out

    def smooth(self, *vals):
        """a fixed smooth function of numbers and constants: stands for an uninterpreted function"""
        tot = D(0)
        for i, v in enumerate(vals):
            if isinstance(v, D):
                w = D(repr(0.5 + hnum("w", i)))
                q = CTX.multiply(v, w)
                tot = CTX.add(tot, CTX.divide(CTX.add(q, D(repr(hnum("b", i)))), CTX.add(D(1), CTX.multiply(q, q))))
            else:
                tot = CTX.add(tot, D(repr(hnum("k", i, str(v)))))
        # spread
        q = CTX.multiply(tot, D("1.7"))
        return CTX.divide(CTX.add(q, D("0.3")), CTX.add(D(1), CTX.divide(CTX.multiply(q, q), D(9))))

    def args(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, Poly):
                out.append(self.poly(x, env))
            elif isinstance(x, Lam):
                shape, vals = self.lam(x, env)
                out.append(str(shape))
                out.extend(v for _, v in sorted(vals.items()))
            elif isinstance(x, tuple):
                out.extend(self.args(x, env))
            else:
                out.append(str(x))
        return out

    def fn(self, a, env):
        name = a.args[0]
        xs = a.args[1:]
        if name == "single":
            v = self.poly(xs[0], env)
            try:
                return D(struct.unpack("f", struct.pack("f", float(v)))[0])
            except OverflowError:
                raise NoValue("single precision")
        if name in ("int", "floor", "ceil", "round"):
            v = self.poly(xs[0], env)
            if name == "round" and len(xs) > 1:
                q = D(10) ** self.integer(xs[1], env)
                v = CTX.multiply(v, q)
                return CTX.divide(v.to_integral_value(rounding=decimal.ROUND_HALF_EVEN), q)
            h = (v * 2).to_integral_value(rounding=decimal.ROUND_HALF_EVEN) / 2
            if abs(v - h) < D("1e-25"):
                v = h           # 1/3 + 2/3 in decimals
            return v.to_integral_value(rounding={"int": decimal.ROUND_DOWN, "floor": decimal.ROUND_FLOOR, "ceil": decimal.ROUND_CEILING,
                                                 "round": decimal.ROUND_HALF_EVEN}[name])
        if name in ("fdiv", "mod"):
            x, y = self.poly(xs[0], env), self.poly(xs[1], env)
            if y == 0:
                raise NoValue("division by zero")
            q = CTX.divide(x, y).to_integral_value(rounding=decimal.ROUND_FLOOR)
            return q if name == "fdiv" else CTX.subtract(x, CTX.multiply(q, y))
        if name == "copysign":
            return D(1 if self.poly(xs[0], env) >= 0 else -1)
        if name in ("arctan", "arcsinh", "tan"):
            return D(repr(getattr(math, {"arctan": "atan", "arcsinh": "asinh", "tan": "tan"}[name])(float(self.poly(xs[0], env)))))
        if name in ("sin", "cos"):
            return D(repr(__import__("math").sin(float(self.poly(xs[0], env)) + (0 if name == "sin" else 1.5707963267948966))))
        v = self.smooth(name, *self.args(xs, env))
        if a.pos or a.nn:
            v = abs(v) + D("0.01")
        if a.is_int:
            v = D(int(v * 7))
        return v

    def fa(self, a, env):
        name, args, idx = a.args
        ix = tuple(self.integer(i, env) for i in idx)
        if name == "inv" and len(ix) == 2:
            m = self.inv(args[0], env)
            if not (0 <= ix[0] < len(m) and 0 <= ix[1] < len(m)):
                raise NoValue("index")
            return m[ix[0]][ix[1]]
        if name in ("det", "matrix_rank", "cond") or name == "pinv":
            return self.linalg(name, args[0], env)
        if name in ("sort", "argsort"):
            shape, vals = self.lam(args[0], env)
            v = [vals[(i,)] for i in range(shape[0])]
            o = sorted(range(len(v)), key=lambda i: v[i])
            if not 0 <= ix[0] < len(v):
                raise NoValue("index")
            return D(o[ix[0]]) if name == "argsort" else v[o[ix[0]]]
        if name in ("argmax", "argmin"):
            shape, vals = self.lam(args[0], env)
            v = [vals[(i,)] for i in range(shape[0])]
            if not v:
                raise NoValue("empty")
            return D(v.index(max(v) if name == "argmax" else min(v)))
        if name == "uniq_inv":
            shape, vals = self.lam(args[0], env)
            v = [vals[(i,)] for i in range(shape[0])]
            if not 0 <= ix[0] < len(v):
                raise NoValue("index")
            return D(sorted(set(v)).index(v[ix[0]]))
        if name in ("uniq_first", "uniq_sorted", "uniq_set", "uniq_set2", "nuniq"):
            shape, vals = self.lam(args[0], env)
            if len(shape) != 1:
                raise NoValue("distinct values")
            u = list(dict.fromkeys(vals[(i,)] for i in range(shape[0])))
            if name == "nuniq":
                return D(len(u))
            if name == "uniq_sorted":
                u.sort()
            elif name != "uniq_first":
                u.sort(key=lambda x: hnum(self.seed, name, "%.30g" % x))
            if not 0 <= ix[0] < len(u):
                raise NoValue("index")
            return u[ix[0]]
        if name == "randint":
            n = self.integer(args[1], env)
            if n <= 0:
                raise NoValue("randint")
            return D(int(hnum(self.seed, "randint", tuple("%.12g" % x for x in self.args(args[:1], env)), ix) * n))
        if name == "perm":
            n = self.integer(args[1], env)
            seedv = self.args(args[:1], env)
            o = sorted(range(n), key=lambda i: hnum(self.seed, "perm", i, tuple("%.12g" % x for x in seedv)))
            if not 0 <= ix[0] < n:
                raise NoValue("index")
            return D(o[ix[0]])
        v = self.smooth(name, *(self.args(args, env) + [D(i) for i in ix]))
        if a.pos or a.nn:
            v = abs(v) + D("0.01")
        if name == "stdnormal":
            v = CTX.multiply(v, D((1, 1, 3, 12)[int(hnum(self.seed, "tails") * 4)]))
        elif name in ("gp_scale", "gp_shape"):
            v = CTX.multiply(v, (D(1), D(1), D("1e-3"), D("1e-15"), D("1e3"))[int(hnum(self.seed, name) * 5)])
        if a.is_int:
            v = D(int(v * 7))
        return v

    def linalg(self, name, l, env):
        """determinant, rank and condition of a matrix of numbers"""
        shape, vals = self.lam(l, env)
        if name == "pinv" or max(shape) > 8:
            raise NoValue(name)
        n, m = shape
        A = [[vals[(i, j)] for j in range(m)] for i in range(n)]
        if name == "cond":
            G = [[sum((CTX.multiply(A[k][i], A[k][j]) for k in range(n)), D(0)) for j in range(m)] for i in range(m)]
            ev = jacobi(G)
            if min(ev) <= max(ev) * D("1e-30"):
                raise NoValue("singular")
            return CTX.sqrt(CTX.divide(max(ev), min(ev)))
        big = max((abs(x) for r in A for x in r), default=D(0))
        det, rank, rows = D(1), 0, list(range(n))
        for c in range(m):
            p = max(rows, key=lambda r: abs(A[r][c]), default=None)
            if p is None or abs(A[p][c]) <= big * D("1e-30"):
                det = D(0)
                continue
            if name == "matrix_rank" and abs(A[p][c]) < big * D("1e-11"):
                raise NoValue("numerical rank")
            if rows[0] != p:
                i = rows[0]
                A[i], A[p] = A[p], A[i]
                det, p = -det, i
            rank += 1
            det = CTX.multiply(det, A[p][c])
            rows.remove(p)
            for r in rows:
                f = CTX.divide(A[r][c], A[p][c])
                if f:
                    A[r] = [CTX.subtract(x, CTX.multiply(f, y)) for x, y in zip(A[r], A[p])]
        return det if name == "det" else D(rank)

    def inv(self, l, env):
        key = ("inv", l, tuple(env.get(a) for a in free_bound_lam(l)))
        r = self.mats.get(key)
        if r is not None:
            return r
        shape, vals = self.lam(l, env)
        n = shape[0]
        if n > 8:
            raise NoValue("large inverse")
        A = [[vals[(i, j)] for j in range(n)] + [D(1) if i == j else D(0) for j in range(n)] for i in range(n)]
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(A[r][c]))
            if abs(A[p][c]) < D("1e-25"):
                raise NoValue("singular")
            A[c], A[p] = A[p], A[c]
            d = A[c][c]
            A[c] = [CTX.divide(x, d) for x in A[c]]
            for r in range(n):
                if r != c and A[r][c] != 0:
                    f = A[r][c]
                    A[r] = [CTX.subtract(x, CTX.multiply(f, y)) for x, y in zip(A[r], A[c])]
        m = [row[n:] for row in A]
        self.mats[key] = m
        return m


def jacobi(G):
    """eigenvalues of a symmetric matrix of numbers"""
    n = len(G)
    for _ in range(60):
        off = max((abs(G[i][j]) for i in range(n) for j in range(i)), default=D(0))
        if off <= D("1e-40") * max((abs(G[i][i]) for i in range(n)), default=D(1)):
            break
        for p in range(n):
            for q in range(p + 1, n):
                if not G[p][q]:
                    continue
                th = CTX.divide(G[q][q] - G[p][p], 2 * G[p][q])
                t = CTX.divide(D(1 if th >= 0 else -1), CTX.add(abs(th), CTX.sqrt(CTX.add(CTX.multiply(th, th), D(1)))))
                c = CTX.divide(D(1), CTX.sqrt(CTX.add(CTX.multiply(t, t), D(1))))
                s = CTX.multiply(t, c)
                for k in range(n):
                    x, y = G[k][p], G[k][q]
                    G[k][p], G[k][q] = CTX.subtract(CTX.multiply(c, x), CTX.multiply(s, y)), CTX.add(CTX.multiply(s, x), CTX.multiply(c, y))
                for k in range(n):
                    x, y = G[p][k], G[q][k]
                    G[p][k], G[q][k] = CTX.subtract(CTX.multiply(c, x), CTX.multiply(s, y)), CTX.add(CTX.multiply(s, x), CTX.multiply(c, y))
    return [G[i][i] for i in range(n)]


TAGS = {}
RANGES = {}     # symbol atom -> (lo, hi) for sampling
_fb = {}


def free_bound(p):
    r = _fb.get(p)
    if r is None:
        # bound variables, and the iteration of every enclosing recurrence whose previous values occur
        r = _fb[p] = tuple(sorted((x for x in p.leaf if isinstance(x, T.Atom) and x.kind in ("bv", "var")), key=lambda x: x.id)) + \
            tuple(sorted((("btag", x[1]) for x in p.leaf if isinstance(x, tuple) and x[0] == "bref"), key=repr))
    return r


def free_bound_lam(l):
    return free_bound(l)


def sys_bound(s):
    return free_bound(s)


def frac(c):
    if isinstance(c, int):
        return D(c)
    return CTX.divide(D(c.numerator), D(c.denominator))


# ------------------------------------------------------------------------------------------------ comparison
def clear_denominators(d):
    for _ in range(6):
        worst = {}
        for m, c in d.t:
            for a, e in m.f:
                if a.kind == "par" and isinstance(e, (int, Fraction)) and e < 0:
                    k = -(e.numerator // e.denominator) if isinstance(e, Fraction) else -e
                    worst[a] = max(worst.get(a, 0), k)
        if not worst:
            return d
        a = min(worst, key=lambda x: x.id)
        q = T.power(a.args[0], worst[a])
        parts = []
        for m, c in d.t:
            f = dict(m.f)
            e = f.pop(a, 0) + worst[a]
            base = T.mk_poly({T.mk_mono(tuple(sorted(f.items(), key=lambda x: x[0].id))): c})
            parts.append(T.mul(base, T.power(a.args[0], e) if e else ONE))
        d = T.addn(parts)
    return d


def expand_abs(d):
    """|p| = p[p>0] - p[-p>0], sign(p) = [p>0] - [-p>0], max(a,b) = b + (a-b)[a-b>0]"""
    memo = {}

    class RW(T.Rewriter):
        pass

    def walk(p):
        parts = []
        for m, c in p.t:
            r = P(c)
            for a, e in m.f:
                if a.kind == "abs" and isinstance(e, int) and e > 0:
                    q = a.args[0]
                    x = T.mul(q, T.gt(q)) - T.mul(q, T.gt(T.neg(q)))
                elif a.kind == "sign" and isinstance(e, int) and e > 0:
                    q = a.args[0]
                    x = T.gt(q) - T.gt(T.neg(q))
                elif a.kind == "max":
                    its = list(a.args[0])
                    x = its[0]
                    for y in its[1:]:
                        x = y + T.mul(x - y, T.gt(x - y))
                else:
                    x = P1(a)
                r = T.mul(r, T.power(x, e) if e != 1 else x)
            parts.append(r)
        return T.addn(parts)
    return walk(d)


class _All:
    """the key set of a rewriting of every part of a term"""

    def __contains__(self, x):
        return True

    def __rand__(self, other):
        return True


class Deep(T.Rewriter):
    """|p|, sign(p), max and p >= 0 spelled out with p > 0 and p == 0 everywhere, inside sums and recurrences too"""

    def __init__(self):
        self.m, self.keys, self.memo, self.changed = {}, _All(), {}, False
        self.t_end = time.time() + 5

    def _atom(self, a):
        if time.time() > self.t_end:
            raise T.TooBig()
        k = a.kind
        if k in ("abs", "sign", "max") or k == "ge" and not a.args[0].is_int:
            self.changed = True
        if k == "abs":
            q = self.poly(a.args[0])
            return T.mul(q, T.gt(q)) * 2 - q
        if k == "sign":
            q = self.poly(a.args[0])
            return T.gt(q) * 2 + T.eq(q) - ONE
        if k == "ge" and not a.args[0].is_int:
            q = self.poly(a.args[0])
            return T.gt(q) + T.eq(q)
        if k == "gt":
            q = self.poly(a.args[0])
            if q.t and q.const is None and not T.lead_pos(q):
                self.changed = True
                return ONE - T.gt(T.neg(q)) - T.eq(q)
            return T.gt(q)
        if k == "max":
            its = [self.poly(x) for x in a.args[0]]
            x = its[0]
            for y in its[1:]:
                x = y + T.mul(x - y, T.gt(x - y))
            return x
        return super()._atom(a)


def deep_equal(a, b):
    r = Deep()
    try:
        a, b = r.poly(a), r.poly(b)
        if not r.changed:
            return False
        return a is b or not (a - b).t or not clear_denominators(a - b).t
    except (T.TooBig, RecursionError):
        return False


BUDGET = [6.0]


def compare(a, b, seed=0, budget=None):
    if a is b:
        return "equal", None
    try:
        d = a - b
        if not d.t:
            return "equal", None
        d2 = clear_denominators(d)
        if not d2.t:
            return "equal", None
        d3 = clear_denominators(expand_abs(d2))
        if not d3.t:
            return "equal", None
    except T.TooBig:
        pass
    if deep_equal(a, b):
        return "equal", None
    return witness(a, b, seed, budget)


def guards(p, out=None, seen=None):
    """all condition atoms inside a term"""
    if out is None:
        out, seen = [], set()

    def walk(x):
        if isinstance(x, (Poly, T.Mono, T.Atom, Lam, recs.Sys)):
            if x in seen:
                return
            seen.add(x)
        if isinstance(x, Poly):
            for m, c in x.t:
                walk(m)
        elif isinstance(x, T.Mono):
            for a, e in x.f:
                walk(a)
        elif isinstance(x, T.Atom):
            if x.kind in ("ge", "gt", "eq"):
                out.append(x)
            for y in x.args:
                walk(y)
        elif isinstance(x, Lam):
            walk(x.body)
            for s in x.shape:
                walk(s)
        elif isinstance(x, recs.Sys):
            for r, i, st, _, _ in x.comps:
                walk(i)
                walk(st)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(p)
    return out


def directed(d):
    """assignments of single symbols that flip a condition which is linear in that symbol and otherwise constant"""
    out = []
    for g in guards(d):
        p = g.args[0]
        for m, c in p.t:
            if len(m.f) == 1 and m.f[0][1] == 1 and m.f[0][0].kind == "sym":
                a = m.f[0][0]
                k = dict(p.t).get(T.M1, 0)
                others = [mm for mm, cc in p.t if mm.f and mm is not m]
                base = Fraction(-k) / Fraction(c)
                cand = [base, base + 1, base - 1] if a.is_int else [base, base + Fraction(1, 1000), base - Fraction(1, 1000)]
                if others:
                    cand = [base + i for i in (0, 1, 2, 3)] if abs(base) > 3 else []
                for v in cand:
                    if a.is_int and Fraction(v).denominator != 1:
                        continue
                    if a in T.DIM_MIN and v < T.DIM_MIN[a]:
                        continue
                    if (a.nn and v < 0) or (a.pos and v <= 0):
                        continue
                    if a in RANGES and not (RANGES[a][0] <= v <= RANGES[a][1]):
                        continue
                    if a.is_int and abs(v) > 10**6:
                        continue
                    out.append({a: (int(v) if a.is_int else float(v))})
    uniq = []
    for o in out:
        if o not in uniq:
            uniq.append(o)
    return uniq[:24]


def far(a, b):
    """numbers of iterations that pass the constants which conditions inside a loop compare with, all other sizes least"""
    ks, its, seen = [], [], set()

    def num(p):
        for m, c in p.t:
            for v in (abs(Fraction(c)), 1 / abs(Fraction(c))):
                if 9 <= v <= 2500 and v.denominator == 1 and int(v) not in ks:
                    ks.append(int(v))
            for f, e in m.f:
                if f.kind in ("floor", "fn") or f.kind == "par":
                    for q in f.args:
                        if isinstance(q, Poly):
                            num(q)

    def walk(x):
        if isinstance(x, (Poly, T.Mono, T.Atom, Lam, recs.Sys)):
            if x in seen:
                return
            seen.add(x)
        if isinstance(x, Poly):
            for m, c in x.t:
                walk(m)
        elif isinstance(x, T.Mono):
            for f, e in x.f:
                walk(f)
        elif isinstance(x, T.Atom):
            if x.kind == "rec":
                for q in x.args:
                    if isinstance(q, Poly):
                        its.extend(y for y in q.leaf if y in T.DIM_MIN and y not in its)
            for y in x.args:
                walk(y)
        elif isinstance(x, Lam):
            walk(x.body)
        elif isinstance(x, recs.Sys):
            for g in guards(x):
                num(g.args[0])
            for c in x.comps:
                walk(c[1])
                walk(c[2])
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(a)
    walk(b)
    dims = {x for x in (a.leaf | b.leaf) if x in T.DIM_MIN}
    out = []
    for q in (a, b):
        for m, _ in q.t:
            for g, _ in m.f:
                if g.kind in ("ge", "eq"):
                    loop, ks[:] = list(ks), []
                    num(g.args[0])
                    for t in [x for x in g.leaf if x in T.DIM_MIN][:3]:
                        for k in ks[:2]:
                            for v in (k - 1, k, k + 1):
                                ov = {d: T.DIM_MIN[d] for d in dims}
                                ov[t] = max(v, T.DIM_MIN[t])
                                if ov not in out:
                                    out.append(ov)
                    ks[:] = loop
    out = out[:9]
    for k in sorted(ks)[:6]:
        for t in its[:3]:
            ov = {d: T.DIM_MIN[d] for d in dims}
            ov[t] = max(k + 3, T.DIM_MIN[t])
            out.append(ov)
    return out[:15]


def eval_pair(a, b, env):
    x = env.poly(a, {})
    y = env.poly(b, {})
    return x, y


def differs(x, y):
    s = max(abs(x), abs(y))
    return abs(x - y) > D("1e-18") * s and abs(x - y) > D("1e-30")


STATS = {"proved": 0, "refuted": 0, "unknown": 0}


def note_tag(a):
    """the words a symbolic string may be: those it is compared with, in several letter cases, and another one"""
    subj, w = a.args
    if isinstance(subj, tuple) and len(subj) == 2 and subj[1] == "fold":
        subj, ws = subj[0], [w, w.lower(), w.capitalize()]
    elif isinstance(subj, tuple) and len(subj) == 3 and subj[1] == "ops":
        ws = [w] if isinstance(w, str) else []
        for op, args in subj[2]:
            for x in args:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, str):
                        ws += [y, y + "x", "x" + y, "x" + y + "x", y[:1], y[:len(y) // 2], y[1:]]
                        if op == "prefix" and isinstance(w, str):
                            ws.append(w[len(y):])
                        if op == "suffix" and isinstance(w, str):
                            ws.append(w[:len(w) - len(y)])
                        if op == "replace" and isinstance(w, str) and args[1]:
                            ws.append(w.replace(args[1], args[0]))
                        elif op in ("replace", "removesuffix", "removeprefix", "strip", "lstrip", "rstrip") and isinstance(w, str):
                            ws += [w + y, y + w, w[:1] + y + w[1:]]
            if op in ("strip", "lstrip", "rstrip", "slice", "item") and isinstance(w, str):
                ws += [" " + w + " ", w + " ", " " + w, w + "x", "x" + w]
        subj, ws = subj[0], [z for y in ws for z in (y, y.upper(), y.lower())] + ["", "X", "7"]
    else:
        ws = [w] if isinstance(w, str) else [str(w)]
    pool = TAGS.setdefault(subj, ["another word"])
    for x in ws:
        if x not in pool:
            pool.append(x)


def witness(a, b, seed=0, budget=None):
    for x in (a.leaf | b.leaf):
        if isinstance(x, T.Atom) and x.kind == "tag":
            note_tag(x)
    subjects = sorted({T.tag_word(x.args[0]) for x in (a.leaf | b.leaf) if isinstance(x, T.Atom) and x.kind == "tag"}, key=repr)
    n_words = max([len(TAGS[s]) for s in subjects] or [0])
    if a.opq or b.opq:
        return "unknown", "contains values the analysis does not model"
    t_end = time.time() + (budget or BUDGET[0])
    rnd = random.Random(seed)
    free = sorted({x for x in (a.leaf | b.leaf) if isinstance(x, T.Atom) and x.kind == "var"}, key=lambda v: v.id)
    search = Search(a, b, free, t_end)
    dirs = None
    dims = [x for x in (a.leaf | b.leaf) if x in T.DIM_MIN]
    trial = 0
    decimal.setcontext(CTX)
    t_more = time.time() + 2 if dims else 0         # cheap evaluations are repeated more often
    while (trial < 240 + n_words or trial < 4000 and time.time() < t_more) and time.time() < t_end:
        ov = None
        profile = PROFILES[trial % len(PROFILES)] if trial < 9 else LATER[trial % len(LATER)]
        if trial >= 9:
            if dirs is None:
                dirs = directed(a - b)
            if trial - 9 < len(dirs):
                ov = dirs[trial - 9]
                profile = PROFILES[trial % len(PROFILES)]
            elif trial >= 9 + len(dirs) + 40 + n_words and (search.n_ok >= 90 and time.time() > t_more or not dims):
                break
        def make(seed=(seed, trial), profile=profile, ov=ov, trial=trial):
            env = Env(seed, profile, min(t_end, time.time() + 2.5), ov)
            if trial % 2 and trial >= 9 and dims:
                env.deadline = min(t_end, time.time() + 0.8)
                env.ordered(dims)
            for s in subjects:
                env.words[s] = TAGS[s][trial % len(TAGS[s])] if s == subjects[0] else TAGS[s][int(hnum(env.seed, "tag", repr(s)) * len(TAGS[s]))]
            return env
        trial += 1
        w = search.attempt(make, {})
        if w is not None and w[0]:
            return "different", w[1]
        if trial >= 12 and w is not None:
            r = search.flip(make, w[1], rnd)
            if r:
                return "different", r
    t_far = time.time() + FAR
    for i, ov in enumerate(far(a, b)):
        left = t_far - time.time()
        if left < 0.2:
            break
        env = Env((seed, "far", i), "normal", time.time() + min(left, 6), ov)
        env.far = True
        w = search.attempt(lambda: env, {})
        if w is not None and w[0]:
            return "different", w[1]
    return "unknown", "normal forms differ but no witness in %d evaluations (%s)" % (search.n_ok, ",".join(sorted(set(search.reasons)))[:80])


class Search:
    """evaluations of two terms under assignments of their leaves"""

    def __init__(self, a, b, free, t_end):
        self.a, self.b, self.free, self.t_end = a, b, free, t_end
        self.n_ok, self.reasons, self.pol = 0, [], {}

    def place(self, env):
        """random admissible values of the free index variables"""
        ev = {}
        for v in self.free:
            ev[v] = D(0)
        for v in self.free:
            hi = T.VAR_HI.get(v)
            lo = T.VAR_LO.get(v, ZERO)
            l = env.integer(lo, ev)
            h = env.integer(hi, ev) if hi is not None else l + 5
            if h <= l:
                return None
            u = hnum(env.seed, "v", self.free.index(v))
            ev[v] = D(l + int(u * (h - l)))
            if env.dims and hnum(env.seed, "end", self.free.index(v)) < 0.3:    # near the end of a long range
                ev[v] = D(max(l, h - 1 - int(u * 3)))
        for f in GLOBAL_FACTS:
            try:
                if env.poly(f, ev) < 0:
                    return None
            except NoValue:
                pass
        return ev

    def attempt(self, make, leaves):
        """None: no value; (True, text): the terms differ; (False, env): they agree here"""
        try:
            env = make()
            self.preset(env, leaves)
            ev = self.place(env)
            if ev is None:
                return None
            x = env.poly(self.a, ev)
            y = env.poly(self.b, ev)
            self.n_ok += 1
            for (g, _), v in env.gv.items():
                self.pol.setdefault(g, set()).add((v > 0) - (v < 0))
            if not differs(x, y):
                return False, env
            # the difference must not be an effect of rounding: same evaluation with many more digits
            env2 = make()
            self.preset(env2, leaves)
            env2.deadline = min(self.t_end + 4, time.time() + 6)
            CTX.prec = 130
            try:
                x2, y2 = env2.poly(self.a, ev), env2.poly(self.b, ev)
            finally:
                CTX.prec = 50
            if not differs(x2, y2) or abs((x2 - y2) - (x - y)) > D("1e-6") * abs(x - y):
                self.reasons.append("rounding")
                return False, env
            w = {str(k.args[0]): str(v)[:8] for k, v in env.symv.items()}
            for v in self.free:
                w["index%d" % self.free.index(v)] = str(ev[v])
            return True, "%s: %.10g instead of %.10g" % (", ".join("%s=%s" % kv for kv in sorted(w.items())), x, y)
        except (NoValue, decimal.DecimalException, ZeroDivisionError, IndexError) as ex:
            self.reasons.append(str(ex)[:40])
        except OutOfTime:
            pass
        except RecursionError:
            self.reasons.append("recursion")
        return None

    def preset(self, env, leaves):
        for (kind, key), v in leaves.items():
            if kind == "el":
                env.elv[key] = v
            else:
                env.symv[key] = v

    def flip(self, make, env, rnd):
        """move single leaves so that a condition that has always had the same outcome gets another one"""
        todo = [(k, v) for k, v in env.gv.items() if v != 0 and self.wanted(k[0])]
        rnd.shuffle(todo)
        for key, g0 in todo[:4]:
            names = [("el", k) for k in env.elv if not any(T.EL_INFO.get(k[0], {}).get(q) for q in ("is_int", "labels"))]
            names += [("sym", k) for k in env.symv if not k.is_int and k not in T.DIM_MIN]
            rnd.shuffle(names)
            for leaf in names[:5]:
                if time.time() > self.t_end:
                    return None
                v0 = (env.elv if leaf[0] == "el" else env.symv)[leaf[1]]
                d = v0 * D("0.01") if v0 != 0 else D("0.01")
                r = self.attempt(make, {leaf: v0 + d})
                if r is None or r[0] or key not in r[1].gv:
                    if r is not None and r[0]:
                        return r[1]
                    continue
                v1, g1 = v0 + d, r[1].gv[key]
                last = (v0, g0)
                for _ in range(3):
                    if g1 == last[1]:
                        break
                    exact = key[0].kind in ("eq", "sign")
                    goal = D(0) if exact else -last[1] / 4
                    v2 = v1 + CTX.divide((goal - g1) * (v1 - last[0]), g1 - last[1])
                    if not self.admissible(leaf, v2):
                        break
                    r = self.attempt(make, {leaf: v2})
                    if r is None:
                        break
                    if r[0]:
                        return r[1]
                    g2 = r[1].gv.get(key)
                    if g2 is None or abs(g2) < D("1e-35") or (not exact and (g2 > 0) != (g0 > 0)):
                        break
                    last, v1, g1 = (v1, g1), v2, g2
        return None

    def wanted(self, g):
        seen = self.pol.get(g, ())
        return 0 not in seen if g.kind in ("eq", "sign") else len(seen) < 2

    def admissible(self, leaf, v):
        if leaf[0] == "el":
            inf = T.EL_INFO.get(leaf[1][0], {})
            return not ((inf.get("nn") and v < 0) or (inf.get("pos") and v <= 0))
        a = leaf[1]
        if (a.nn and v < 0) or (a.pos and v <= 0):
            return False
        r = RANGES.get(a)
        return not r or r[0] <= v <= r[1]


GLOBAL_FACTS = []

"""Value numbers in index notation.

A value number is an interned polynomial (`Poly`): a sum of monomials with rational coefficients over interned
atoms.  Two expressions with the same value number compute the same real-valued function of their symbols.
Arrays are handled pointwise: an array is a `Poly` in index variables, a reduction is a `sum` atom with bound
variables, a condition is a 0/1-valued polynomial over boolean atoms, and a branch `c ? a : b` is c*a + (1-c)*b.
"""
import struct
import itertools
import random
from fractions import Fraction
from functools import reduce
from itertools import permutations
from math import gcd
import sys

sys.setrecursionlimit(20000)


class TooBig(Exception):
    """The value graph outgrew its budget; the caller treats the value as unknown."""


LIMIT_TERMS = 4000
LIMIT_BOOLS = 9

# ---------------------------------------------------------------------------------------------------- interning
_atoms = {}
_monos = {}
_polys = {}
_lams = {}
_uid = [0]
VAR_LO = {}   # var uid -> lower bound Poly (default 0)
VAR_HI = {}   # var uid -> upper bound Poly, exclusive (or None)


def fresh():
    _uid[0] += 1
    return _uid[0]


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Atom:
    __slots__ = ("kind", "args", "id", "h", "leaf", "is_bool", "is_int", "nn", "pos", "opq", "special", "size")

    def __repr__(self):
        return show_atom(self)


class Mono:
    __slots__ = ("f", "id", "h", "leaf", "is_int", "nn", "pos", "opq", "special", "bools", "size")

    def __repr__(self):
        return show_mono(self)


class Poly:
    __slots__ = ("t", "id", "h", "leaf", "opq", "_nn", "_pos", "_int", "size", "_bools")

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, P(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(P(o)))

    def __rsub__(self, o):
        return add(P(o), neg(self))

    def __mul__(self, o):
        return mul(self, P(o))

    __rmul__ = __mul__

    def __neg__(self):
        return neg(self)

    def __truediv__(self, o):
        return mul(self, power(P(o), -1))

    def __rtruediv__(self, o):
        return mul(P(o), power(self, -1))

    @property
    def is_const(self):
        return not self.t or (len(self.t) == 1 and not self.t[0][0].f)

    @property
    def const(self):
        """rational value of a constant polynomial, else None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and not self.t[0][0].f:
            return self.t[0][1]
        return None

    @property
    def nn(self):
        if self._nn is None:
            self._nn = all(c > 0 and m.nn for m, c in self.t)
        return self._nn

    @property
    def pos(self):
        if self._pos is None:
            self._pos = bool(self.t) and self.nn and any(m.pos for m, c in self.t)
        return self._pos

    @property
    def is_int(self):
        if self._int is None:
            self._int = all(isinstance(c, int) and m.is_int for m, c in self.t)
        return self._int

    @property
    def bools(self):
        if self._bools is None:
            s = set()
            for m, c in self.t:
                s.update(m.bools)
            self._bools = frozenset(s)
        return self._bools

    @property
    def is_boolean(self):
        """a 0/1 condition: every factor is one, and no assignment of them gives anything else"""
        r = _is01.get(self)
        if r is None:
            r = _is01[self] = all(all(a.is_bool for a, e in m.f) for m, c in self.t) and zero_one(self)
        return r


_is01 = {}


def zero_one(p):
    ats = sorted({a for m, c in p.t for a, e in m.f}, key=lambda a: a.id)
    if len(p.t) == 1:
        return p.t[0][1] == 1
    if len(ats) <= 8:
        cases = itertools.product((0, 1), repeat=len(ats))
    else:       # each condition alone and in pairs, and random ones
        r = random.Random(len(ats))
        cases = [tuple(int(k in (i, j)) for k in range(len(ats))) for i in range(len(ats)) for j in range(i + 1)][:400] + \
            [tuple(int(r.random() < q) for _ in ats) for q in (0.5, 0.8, 0.95) for _ in range(100)]
    pos = {a: i for i, a in enumerate(ats)}
    ms = [([pos[a] for a, e in m.f], c) for m, c in p.t]
    return all(sum(c for ix, c in ms if all(v[i] for i in ix)) in (0, 1) for v in cases)


SPECIAL = {"exp", "par", "spow", "abs", "sign", "cst", "log"}
BOOL = {"ge", "gt", "eq", "tag", "flag"}


def atom(kind, args, is_int=False, nn=False, pos=False, opq=False):
    key = (kind, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.args, a.id = kind, args, len(_atoms)
    a.is_bool = kind in BOOL
    a.is_int = is_int or a.is_bool
    a.nn = nn or pos or a.is_bool
    a.pos = pos
    a.special = kind in SPECIAL or a.is_bool
    h, leaf, o, size = 0, set(), opq or kind == "opq", 1
    for x in flat(args):
        if isinstance(x, (Poly, Lam, Atom)):
            h = max(h, x.h)
            leaf |= x.leaf
            o = o or x.opq
            size += x.size
        elif kind == "rec" and hasattr(x, "comps"):
            leaf |= x.leaf
            o = o or x.opq
            size += x.size
    if kind in ("sym", "var"):
        leaf = {a}
    elif kind == "bv":
        leaf = {a}
    elif kind == "el":
        leaf = set(leaf) | {("el", args[0])}
    elif kind == "lv":
        leaf = set(leaf) | {("lv", args[0])}
    elif kind == "bref":
        leaf = set(leaf) | {("bref", args[0])}
    elif kind in ("fa", "fn"):
        leaf = set(leaf) | {("fa", args[0])}
    elif kind == "opq":
        leaf = set(leaf) | {("opq",)}
    a.h, a.leaf, a.opq, a.size = h, frozenset(leaf), o, size
    if kind in ("sum", "lamatom", "rec", "red"):
        a.h = max(a.h, args[0])
    _atoms[key] = a
    return a


def flat(x):
    if isinstance(x, tuple):
        for y in x:
            yield from flat(y)
    else:
        yield x


class Lam:
    """closed array-valued argument: rank, shape, body with bound variables ('bv', h, i)"""
    __slots__ = ("shape", "body", "h", "leaf", "opq", "id", "size")

    def __repr__(self):
        return "\\" + ",".join(map(show, self.shape)) + "." + show(self.body)


def lam(shape, uids, body):
    """close body over the index variables uids"""
    h = body.h + 1
    for s in shape:
        h = max(h, s.h + 1)
    m = {var_atom(u): P1(bv(h, i)) for i, u in enumerate(uids)}
    b = subst(body, m)
    return mk_lam(tuple(shape), h, b)


def mk_lam(shape, h, body):
    key = (shape, h, body)
    l = _lams.get(key)
    if l is None:
        l = Lam()
        l.shape, l.body, l.h = shape, body, h
        lf = set(body.leaf)
        for i in range(len(shape)):
            lf.discard(bv(h, i))
        size = body.size
        for s in shape:
            lf |= s.leaf
        l.leaf, l.opq, l.id, l.size = frozenset(lf), body.opq or any(s.opq for s in shape), len(_lams), size
        _lams[key] = l
    return l


def lam_apply(l, idx):
    m = {bv(l.h, i): P(x) for i, x in enumerate(idx)}
    return subst(l.body, m)


def lam_open(l):
    us = []
    for i, s in enumerate(l.shape):
        us.append(new_var(s))
    return us, lam_apply(l, [P1(u) for u in us])


def bv(h, i):
    return atom("bv", (h, i), is_int=True)


_var_atoms = {}


def var_atom(u):
    if isinstance(u, Atom):
        return u
    a = _var_atoms.get(u)
    if a is None:
        a = _var_atoms[u] = atom("var", (u,), is_int=True, nn=True)
    return a


def new_var(hi, lo=0):
    """a fresh integer variable with lo <= v < hi; returns its atom"""
    u = fresh()
    nn = not isinstance(lo, Poly) or lo.nn
    a = atom("var", (u,), is_int=True, nn=nn)
    _var_atoms[u] = a
    VAR_LO[a] = P(lo)
    VAR_HI[a] = None if hi is None else P(hi)
    return a


def mk_mono(f):
    m = _monos.get(f)
    if m is not None:
        return m
    m = Mono()
    m.f, m.id = f, len(_monos)
    h, leaf, o, sp, nn, pos, isint, size = 0, set(), False, False, True, True, True, 1
    bools = []
    for a, e in f:
        h = max(h, a.h)
        leaf |= a.leaf
        o = o or a.opq
        sp = sp or a.special
        size += a.size
        if a.is_bool:
            bools.append(a)
        even = isinstance(e, int) and e % 2 == 0
        nn = nn and (a.nn or even)
        pos = pos and a.pos
        isint = isint and a.is_int and isinstance(e, int) and e > 0
    m.h, m.leaf, m.opq, m.special, m.nn, m.pos, m.is_int, m.bools, m.size = h, frozenset(leaf), o, sp, nn, pos, isint, tuple(bools), size
    _monos[f] = m
    return m


def mk_poly(d):
    """d: dict Mono -> coefficient"""
    items = [(m, norm_c(c)) for m, c in d.items() if c != 0]
    if len(items) > LIMIT_TERMS:
        raise TooBig()
    items.sort(key=lambda x: x[0].id)
    t = tuple(items)
    p = _polys.get(t)
    if p is not None:
        return p
    p = Poly()
    p.t, p.id = t, len(_polys)
    h, leaf, o, size = 0, frozenset(), False, 1
    if len(t) == 1:
        m = t[0][0]
        h, leaf, o, size = m.h, m.leaf, m.opq, m.size
    else:
        s = set()
        for m, c in t:
            h = max(h, m.h)
            s |= m.leaf
            o = o or m.opq
            size += m.size
        leaf = frozenset(s)
    p.h, p.leaf, p.opq, p.size = h, leaf, o, size
    p._nn = p._pos = p._int = p._bools = None
    _polys[t] = p
    return p


M1 = mk_mono(())
ZERO = mk_poly({})
ONE = mk_poly({M1: 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return P1(x)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return mk_poly({M1: x})
    if isinstance(x, Fraction):
        return mk_poly({M1: x})
    if isinstance(x, float):
        return mk_poly({M1: Fraction(repr(x))})
    raise TypeError(x)


def P1(a):
    return mk_poly({mk_mono(((a, 1),)): 1})


def sym(name, is_int=False, nn=False, pos=False, opq=False):
    return P1(atom("sym", (name,), is_int=is_int, nn=nn, pos=pos, opq=opq))


DIM_MIN = {}


def dim(name, lo=1):
    p = P1(atom("sym", (name,), is_int=True, nn=True, pos=lo >= 1))
    DIM_MIN[p.t[0][0].f[0][0]] = lo
    return p


def flag(*name):
    """an uninterpreted boolean"""
    return P1(atom("flag", tuple(name)))


def str_ops(w, ops):
    """the operations of a symbolic string carried out on the word w; None where they fail"""
    for op, args in ops:
        try:
            if op == "item":
                w = w[args[0]]
            elif op == "slice":
                w = w[slice(*args)]
            elif op == "longer":
                w = len(w) > args[0]
            elif op == "has":
                w = args[0] in w
            elif op == "within":
                w = w in args[0]
            elif op == "prefix":
                w = args[0] + w
            elif op == "suffix":
                w = w + args[0]
            else:
                w = getattr(w, op)(*args)
        except (IndexError, ValueError, TypeError):
            return None
    return w


def tag_word(subject):
    return subject[0] if isinstance(subject, tuple) and len(subject) > 1 and subject[1] in ("fold", "ops") else subject


def brel_tags(a, b):
    """two comparisons of one symbolic string, or of what operations make of it"""
    s, t = a.args[0], b.args[0]
    if s == t:
        return "zero"
    if tag_word(s) != tag_word(t):
        return None
    for x, y, r in ((a, b, "first"), (b, a, "second")):
        sx, sy = x.args[0], y.args[0]
        if isinstance(sx, tuple) and sx[1] == "ops":
            continue
        ops = (("upper", ()),) if isinstance(sy, tuple) and sy[1] == "fold" else sy[2] if isinstance(sy, tuple) and sy[1] == "ops" else None
        w = x.args[1]
        if isinstance(sx, tuple) and sx[1] == "fold":
            if ops is None or not ops or ops[0][0] not in ("upper", "lower"):
                continue
            w = w.upper() if ops[0][0] == "upper" else w.lower()
            ops = ops[1:]
        elif ops is None:
            continue
        return r if str_ops(w, ops) == y.args[1] else "zero"
    return None


def tag(subject, value):
    """subject == value, exclusive between different values of one subject"""
    return P1(atom("tag", (subject, value)))


_opq_n = [0]


def opaque(why="", deps=()):
    """a value the analysis does not model; equal only to itself"""
    _opq_n[0] += 1
    return P1(atom("opq", (why, _opq_n[0]) + tuple(deps)))


# ---------------------------------------------------------------------------------------------------- arithmetic
def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0) + c
    return mk_poly(d)


def addn(ps):
    d = {}
    for p in ps:
        for m, c in p.t:
            d[m] = d.get(m, 0) + c
    return mk_poly(d)


def neg(a):
    return scale(a, -1)


def scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    return mk_poly({m: c * k for m, c in a.t})


_mm = {}
FACT_VERSION = [0]


def mmul(x, y):
    """product of two monomials, a Poly"""
    if not x.f:
        return mk_poly({y: 1})
    if not y.f:
        return mk_poly({x: 1})
    if x.id > y.id:
        x, y = y, x
    key = (x, y)
    r = _mm.get(key)
    if r is not None:
        return r
    d = dict(x.f)
    for a, e in y.f:
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = norm_c(n)
    r = from_factors(d)
    if not (x.bools or y.bools):
        _mm[key] = r
    return r


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if len(a.t) * len(b.t) > LIMIT_TERMS * 4:
        raise TooBig()
    d = {}
    for m, c in a.t:
        for n, e in b.t:
            r = mmul(m, n)
            k = c * e
            for q, f in r.t:
                d[q] = d.get(q, 0) + f * k
    return mk_poly(d)


def prodn(ps):
    return reduce(mul, ps, ONE)


def from_factors(d):
    """normalise a product of atom powers (dict atom -> exponent) to a Poly"""
    if not any(a.special for a in d):
        return mk_poly({mk_mono(tuple(sorted(d.items(), key=_fkey))): 1})
    return _special(d)


def _fkey(x):
    return x[0].id


def _special(d):
    coef = 1
    extra = []          # polys to multiply
    plain = {}
    exps = []
    spows = {}
    bools = []
    absign = {}
    for a, e in d.items():
        k = a.kind
        if a.is_bool:
            bools.append(a)
        elif k == "exp":
            exps.append(scale(a.args[0], e))
        elif k == "par":
            if isinstance(e, int) and e > 0:
                extra.append(power(a.args[0], e))
            else:
                plain[a] = e
        elif k == "spow":
            spows[a.args[0]] = spows.get(a.args[0], ZERO) + scale(a.args[1], e)
        elif k == "cst":
            fl = e.numerator // e.denominator if isinstance(e, Fraction) else e
            coef = coef * Fraction(a.args[0]) ** fl
            if e - fl:
                plain[a] = e - fl
        elif k in ("abs", "sign"):
            absign.setdefault(a.args[0], {})[k] = e
        else:
            plain[a] = e
    for b in list(spows):
        if b in plain:
            spows[b] = spows[b] + P(plain.pop(b))
        if b.kind in ("abs", "sign") and b.args[0] in absign and "abs" in absign[b.args[0]] and b.kind == "abs":
            spows[b] = spows[b] + P(absign[b.args[0]].pop("abs"))
            if not absign[b.args[0]]:
                absign.pop(b.args[0])
        pw = spows[b]
        if pw.const is not None:
            extra.append(apow(b, pw.const))
        else:
            sa = atom("spow", (b, pw), nn=b.nn, pos=b.pos)
            plain[sa] = 1
    # |p| and sign(p), possibly together with powers of p itself (p a Poly)
    for p, ks in absign.items():
        k = ks.get("abs", 0)
        s = ks.get("sign", 0)
        base = None
        if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0].f) == 1 and p.t[0][0].f[0][1] == 1:
            base = p.t[0][0].f[0][0]
        if not isinstance(s, int):
            s = 1
        if s < 0:
            s = -s      # 1/sign(p) = sign(p) wherever it is defined
        be = plain.get(base, 0) if base is not None else 0
        if isinstance(k, int) and isinstance(be, int) and (k or s):
            par = (s + be) % 2
            tot = k + be
            if base is not None and base in plain:
                del plain[base]
            if tot == 0:
                if par:
                    plain[sign_atom(p)] = 1
                elif s >= 2 and be == 0 and k == 0:
                    plain[sign_atom(p)] = 2
                continue
            if par == tot % 2:
                left = tot
            else:
                plain[abs_atom(p)] = 1 if tot > 0 else -1
                left = tot - plain[abs_atom(p)]
            if left and base is not None:
                plain[base] = left
            elif left:
                extra.append(power(p, left))
        else:
            if k:
                plain[abs_atom(p)] = k
            if s:
                plain[sign_atom(p)] = 1 if s % 2 else 2
    if exps:
        p = addn(exps)
        # exp(r*log a) = a**r
        rest = {}
        for m, c in p.t:
            if len(m.f) == 1 and m.f[0][0].kind == "log" and m.f[0][1] == 1:
                extra.append(power(m.f[0][0].args[0], c))
            else:
                rest[m] = c
        p = mk_poly(rest)
        if p.t:
            r = _partial_fraction(p, plain)
            if r is not None:
                extra.append(r)
            else:
                plain[atom("exp", (p,), pos=True)] = 1
    if bools:
        bools = list(set(bools))
        bools.sort(key=lambda a: a.id)
        out = []
        for a in bools:
            keep = True
            for b in list(out):
                r = brel(a, b)
                if r == "zero":
                    return ZERO
                if r == "first":        # a implies b
                    out.remove(b)
                elif r == "second":     # b implies a
                    keep = False
                    break
                elif isinstance(r, Poly):
                    out.remove(b)
                    keep = False
                    extra.append(r)
                    break
            if keep:
                out.append(a)
        # equality: substitute the solved atom in the other factors
        for a in out:
            if a.kind != "eq":
                continue
            s = solve_eq(a.args[0])
            if s is None:
                continue
            v, val = s
            hit = [x for x in plain if v in x.leaf] + [x for x in out if x is not a and v in x.leaf]
            hitx = [x for x in extra if v in x.leaf]
            if hit or hitx:
                m = {v: val}
                r = P1(a) * coef
                for x, e in plain.items():
                    q = P1(x) if v not in x.leaf else subst(P1(x), m)
                    r = r * (power(q, e) if e != 1 else q)
                for x in out:
                    if x is not a:
                        r = r * (subst(P1(x), m) if v in x.leaf else P1(x))
                for x in extra:
                    r = r * (subst(x, m) if v in x.leaf else x)
                return r
        for a in out:
            plain[a] = 1
    base = mk_poly({mk_mono(tuple(sorted(plain.items(), key=_fkey))): coef})
    for x in extra:
        base = mul(base, x)
    return base


def _partial_fraction(p, plain):
    """exp(k q) / (c0 + c1 exp(q))**n in partial fractions; removes the denominator from plain"""
    for a, e in plain.items():
        if a.kind != "par" or not isinstance(e, int) or e >= 0:
            continue
        Q = a.args[0]
        if len(Q.t) != 2:
            continue
        c0 = q = c1 = None
        for m, c in Q.t:
            if not m.f:
                c0 = c
            elif len(m.f) == 1 and m.f[0][0].kind == "exp":
                q, c1 = m.f[0][0].args[0], c
        if c0 is None or q is None:
            continue
        if len(p.t) != len(q.t):
            continue
        k = Fraction(p.t[0][1]) / Fraction(q.t[0][1])
        if k.denominator != 1 or scale(q, k) is not p or abs(k) > 4:
            continue
        k = int(k)
        del plain[a]
        E = lambda n: exp(scale(q, n))
        D = lambda n: from_factors({a: n}) if n else ONE
        if k > 0:
            # E^k D^e = E^(k-1) (D - c0)/c1 D^e
            return scale(mul(E(k - 1), D(e + 1)) - scale(mul(E(k - 1), D(e)), c0), Fraction(1) / c1)
        # E^k D^e = (E^k D^(e+1) - c1 E^(k+1) D^e) / c0
        return scale(mul(E(k), D(e + 1)) - scale(mul(E(k + 1), D(e)), c1), Fraction(1) / c0)
    return None


def solve_eq(p):
    """p == 0 solved for its highest-ranked atom that occurs linearly with coefficient +-1: (atom, value)"""
    best = None
    for m, c in p.t:
        if len(m.f) == 1 and m.f[0][1] == 1 and c in (1, -1):
            a = m.f[0][0]
            if a.kind not in ("var", "bv", "sym"):
                continue
            if a.kind == "sym" and not a.is_int:
                pass
            if sum(1 for mm, cc in p.t if a in mm.leaf) != 1:
                continue
            rank = ({"bv": 3, "var": 2, "sym": 1}[a.kind], a.id if a.kind != "bv" else (a.args[0] * 1000 + a.args[1]))
            if best is None or rank > best[0]:
                best = (rank, a, c)
    if best is None:
        return None
    _, a, c = best
    rest = p - P1(a) * c
    return a, scale(rest, -1 if c == 1 else 1)


def brel(a, b):
    """relation of two boolean atoms"""
    ka, kb = a.kind, b.kind
    if ka == "tag" and kb == "tag":
        return brel_tags(a, b)
    if ka == "flag" or kb == "flag" or ka == "tag" or kb == "tag":
        return None
    p, q = a.args[0], b.args[0]
    d = (q - p).const
    s = (q + p).const
    if d is None and s is None:
        return None
    if ka == "eq" and kb == "eq":
        return "zero"
    if ka == "eq" or kb == "eq":
        if kb == "eq":
            r = brel(b, a)
            return {"first": "second", "second": "first"}.get(r, r)
        # a: p == 0; b: q = d + p or s - p
        val = d if d is not None else s
        ok = val >= 0 if kb == "ge" else val > 0
        return "first" if ok else "zero"
    if ka != kb:
        return None
    if ka == "ge":
        if d is not None:
            return "first" if d >= 0 else "second"
        if s < 0:
            return "zero"
        if s == 0:
            return eq(p)
        return None
    if ka == "gt":
        if d is not None:
            return "first" if d >= 0 else "second"
        if s <= 0:
            return "zero"
    return None


# ---------------------------------------------------------------------------------------------------- powers
def content(p):
    """(c, common monomial factors dict, rest) with p = c * common * rest, c > 0"""
    if not p.t:
        return 1, {}, p
    nums = [Fraction(c) for m, c in p.t]
    g = reduce(gcd, [abs(x.numerator) for x in nums])
    l = reduce(lambda a, b: a * b // gcd(a, b), [x.denominator for x in nums])
    c = Fraction(g, l)
    common = dict(p.t[0][0].f)
    for m, _ in p.t[1:]:
        dm = dict(m.f)
        for a in list(common):
            if a in dm and not a.is_bool:
                e1, e2 = common[a], dm[a]
                common[a] = min(e1, e2) if True else 0
            else:
                # an atom absent here but present with a negative exponent elsewhere
                e1 = common[a]
                common[a] = min(e1, 0)
            if common[a] == 0:
                del common[a]
        for a, e in dm.items():
            if a not in common and e < 0 and a not in dict(p.t[0][0].f):
                common[a] = e
    for m, _ in p.t:
        for a, e in m.f:
            if e < 0:
                common[a] = min(common.get(a, 0), e)
    # exp atoms: pull out the smallest argument
    args = []
    for m, _ in p.t:
        x = [a for a, e in m.f if a.kind == "exp"]
        args.append(x[0].args[0] if x else ZERO)
    common = {a: e for a, e in common.items() if a.kind != "exp" and not a.is_bool and e != 0}
    if any(x.t for x in args):
        mn = args[0]
        for x in args[1:]:
            if lead_pos(mn - x):
                mn = x
        if mn.t:
            common[atom("exp", (mn,), pos=True)] = 1
    if c == 1 and not common:
        return 1, {}, p
    if any(a.kind == "par" for a in common):
        # exponents are subtracted term by term, so that nothing is multiplied out and left undivided
        ex = {a: 1 for a in common if a.kind == "exp"}
        parts = []
        for m, k in p.t:
            f = dict(m.f)
            for a, e in common.items():
                if a.kind != "exp":
                    f[a] = f.get(a, 0) - e
            parts.append(scale(from_factors({a: e for a, e in f.items() if e != 0}), k / c))
        q = addn(parts)
        if ex:
            q = mul(q, from_factors({a: -1 for a in ex}))
    else:
        inv = from_factors({a: (-e if a.kind != "exp" else -1) for a, e in common.items()}) if common else ONE
        q = mul(scale(p, 1 / c), inv)
    return norm_c(c), common, q


def lead_pos(p):
    """sign of the leading coefficient; a translation invariant total order of polynomials"""
    for m, c in p.t:
        if m.f:
            return c > 0
    return bool(p.t) and p.t[0][1] > 0


def apow(a, e):
    """atom ** rational"""
    e = norm_c(Fraction(e))
    if e == 0:
        return ONE
    if a.is_bool:
        return P1(a)
    return from_factors({a: e})


def cpow(c, e):
    """positive rational ** rational"""
    if isinstance(e, int) or e.denominator == 1:
        return P(Fraction(c) ** int(e))
    c = Fraction(c)
    if c == 1:
        return ONE
    r = rational_root(c, e.denominator)
    if r is not None:
        return P(r ** e.numerator)
    return from_factors({atom("cst", (c,), pos=True): e})


def rational_root(c, n):
    def iroot(x):
        if x < 0:
            return None
        lo = round(x ** (1.0 / n)) if x < 10 ** 300 else None
        if lo is None:
            return None
        for k in (lo - 1, lo, lo + 1):
            if k >= 0 and k ** n == x:
                return k
        return None
    a, b = iroot(c.numerator), iroot(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b)


UNDEF = None


def undef():
    return sym("undefined")


def power(p, e):
    """p ** e for a rational e"""
    if isinstance(e, Poly):
        return power_poly(p, e)
    e = norm_c(Fraction(e)) if not isinstance(e, int) else e
    if e == 1:
        return p
    if e == 0:
        return ONE
    if isinstance(e, int) and e > 0:
        if len(p.t) > 1 and e > 2 and p.bools:
            return lift(lambda q: power(q[0], e), [p])
        if len(p.t) > 1 and e > 6:
            raise TooBig()
        r = ONE
        for _ in range(e) if e <= 6 or len(p.t) > 1 else ():
            r = mul(r, p)
        if e > 6 and len(p.t) == 1:
            m, c = p.t[0]
            return scale(from_factors({a: x * e for a, x in m.f}), Fraction(c) ** e)
        return r
    if not p.t:
        return ZERO if e > 0 else undef()
    if p.bools:
        return lift(lambda q: power(q[0], e), [p])
    c = p.const
    if c is not None:
        if c > 0:
            return cpow(c, e)
        if isinstance(e, int):
            return P(Fraction(c) ** e)
        return P1(atom("fn", ("undefpow", p, P(e))))
    if len(p.t) == 1:
        m, c = p.t[0]
        if isinstance(e, int):
            return scale(from_factors({a: x * e for a, x in m.f}), Fraction(c) ** e)
        d, left = {}, {}
        for a, x in m.f:
            if a.nn:
                d[a] = norm_c(Fraction(x) * e)
            elif isinstance(x, int) and x % 2 == 0:
                b = abs_atom_of(a)
                d[b] = norm_c(d.get(b, 0) + Fraction(x) * e)
            elif isinstance(x, int) and abs(x) > 1:
                b = abs_atom_of(a)
                d[b] = norm_c(d.get(b, 0) + Fraction(x - 1) * e)
                left[a] = 1
            else:
                left[a] = x
        r = ONE
        if d:
            r = from_factors(d)
        if left or c < 0:
            q = from_factors(left) if left else ONE
            q = scale(q, 1 if c > 0 else -1)
            r = mul(r, from_factors({atom("par", (q,), nn=True): e}))
        return mul(r, cpow(abs(Fraction(c)), e))
    c, common, q = content(p)
    if not isinstance(e, int):
        d = {a: x for a, x in common.items() if a.nn}
        if len(d) != len(common):
            q = mul(q, from_factors({a: x for a, x in common.items() if not a.nn}))
        common = d
        r = mul(cpow(c, e), from_factors({a: norm_c(Fraction(x) * e) for a, x in common.items()}) if common else ONE)
        return mul(r, from_factors({atom("par", (q,), nn=True, pos=q.pos): e}))
    sgn = 1
    if not lead_pos(q) and not q.nn:
        q, sgn = neg(q), -1
    r = scale(from_factors({a: x * e for a, x in common.items()}) if common else ONE, Fraction(c * sgn) ** e)
    if len(q.t) == 1:
        return mul(r, power(q, e))
    return mul(r, from_factors({atom("par", (q,), nn=q.nn, pos=q.pos): e}))


def power_poly(p, e):
    if e.const is not None:
        return power(p, e.const)
    if p.bools or e.bools:
        return lift(lambda q: power_poly(q[0], q[1]), [p, e])
    if p is ONE:
        return ONE
    c = p.const
    if c is not None and c > 0:
        return exp(mul(e, log(p)))
    if len(p.t) == 1:
        m, c = p.t[0]
        if c > 0:
            r = exp(mul(e, log(P(c)))) if c != 1 else ONE
            for a, x in m.f:
                if a.kind == "exp":
                    r = mul(r, exp(mul(e, scale(a.args[0], x))))
                else:
                    r = mul(r, from_factors({atom("spow", (a, scale(e, x)), nn=a.nn, pos=a.pos): 1}))
            return r
    pa = atom("par", (p,), nn=p.nn, pos=p.pos)
    return from_factors({atom("spow", (pa, e), nn=p.nn, pos=p.pos): 1})


def sqrt(p):
    return power(p, Fraction(1, 2))


# ---------------------------------------------------------------------------------------------------- functions
def lift(f, ps):
    """f over polynomials with boolean factors: case split on the conditions"""
    bs = set()
    for p in ps:
        bs |= p.bools
    if not bs:
        return f(ps)
    return _lift(f, list(ps), 0)


def _lift(f, ps, depth):
    bs = set()
    for p in ps:
        bs |= p.bools
    if not bs:
        return f(ps)
    if depth > LIMIT_BOOLS:
        raise TooBig()
    b = min(bs, key=lambda a: a.id)
    B = P1(b)
    p1 = [given(p, b, True) for p in ps]
    p0 = [given(p, b, False) for p in ps]
    return mul(B, _lift(f, p1, depth + 1)) + mul(ONE - B, _lift(f, p0, depth + 1))


def lift_facts(f, ps, depth=0):
    """lift, with the conditions on integers of each case as facts for what is proved inside"""
    bs = set()
    for p in ps:
        bs |= p.bools
    if not bs:
        return f(ps)
    if depth > LIMIT_BOOLS:
        raise TooBig()
    b = min(bs, key=lambda a: a.id)
    B = P1(b)
    r = ZERO
    for val in (True, False):
        n = len(FACTS)
        FACTS.extend(case_facts(b, val))
        try:
            x = lift_facts(f, [given(p, b, val) for p in ps], depth + 1)
        finally:
            del FACTS[n:]
        r = r + mul(B if val else ONE - B, x)
    return r


def case_facts(b, val, facts=()):
    if b.kind == "ge":
        return (b.args[0] if val else neg(b.args[0]) - 1,) if b.args[0].is_int else ()
    if b.kind == "eq" and b.args[0].is_int:
        d = b.args[0]
        if val:
            return d, neg(d)
        if _prove(d, 2, facts, 0):
            return (d - 1,)
        if _prove(neg(d), 2, facts, 0):
            return (neg(d) - 1,)
    return ()


def mod(a, b):
    """a - b*floor(a/b)"""
    if UP and a.is_int and b.is_int and b.pos:
        if a.bools:
            return lift_facts(lambda q: mod(q[0], b), [a])
        if a.const is None and any(x in UP for x in direct_atoms(a)) and prove_ge(a):
            if prove_ge(b - 1 - a):
                return a
            if prove_ge(b - a):
                return mul(a, ONE - eq(a - b))
    return a - mul(b, floor(mul(a, power(b, -1))))


def given(p, b, val):
    """p simplified under the assumption that the boolean atom b is val"""
    if b not in p.bools:
        touch = any(brel(b, x) is not None for x in p.bools if x.kind != "flag")
        if not touch:
            if not (val and b.kind == "eq"):
                return p
    B = P1(b)
    if val:
        q = mul(B, p)
        d = {}
        for m, c in q.t:
            f = tuple((a, e) for a, e in m.f if a is not b)
            mm = mk_mono(f)
            d[mm] = d.get(mm, 0) + c
        return mk_poly(d)
    q = p - mul(B, p)
    return mk_poly({m: c for m, c in q.t if b not in m.bools})


def ite(c, a, b):
    if a is b:
        return a
    if c is ONE:
        return a
    if c is ZERO:
        return b
    # absorb: [v == t] A + (1 - [v == t]) B with A == B[v := t]
    if len(c.t) == 1 and c.t[0][1] == 1 and len(c.t[0][0].f) == 1:
        x = c.t[0][0].f[0][0]
        if x.kind == "eq":
            s = solve_eq(x.args[0])
            if s is not None:
                v, val = s
                try:
                    if subst(b, {v: val}) is subst(a, {v: val}):
                        return b
                except TooBig:
                    pass
    elif len(c.t) == 2 and c.t[0][0] is M1 and c.t[0][1] == 1 and c.t[1][1] == -1 and len(c.t[1][0].f) == 1:
        x = c.t[1][0].f[0][0]
        if x.kind == "eq":
            return ite(P1(x), b, a)
    return mul(c, a) + mul(ONE - c, b)


def land(a, b):
    return mul(a, b)


def lnot(a):
    return ONE - a


def lor(a, b):
    return a + b - mul(a, b)


def abs_atom(p):
    return atom("abs", (p,), nn=True, is_int=p.is_int)


def abs_atom_of(a):
    return a if a.nn else abs_atom(P1(a))


def sign_atom(p):
    return atom("sign", (p,), is_int=True)


def split_sign(p):
    """(coefficient, factors, rest): p = c * prod(factors) * rest for the multiplicative functions |.| and sign"""
    if len(p.t) == 1:
        m, c = p.t[0]
        return c, list(m.f), ONE
    c, common, q = content(p)
    if not lead_pos(q):
        q, c = neg(q), -c
    return c, list(common.items()), q


def absf(p):
    if not p.t:
        return ZERO
    if p.bools:
        return lift(lambda q: absf(q[0]), [p])
    if p.nn:
        return p
    if neg(p).nn:
        return neg(p)
    c, fs, q = split_sign(p)
    r = P(abs(c))
    for a, e in fs:
        if a.nn or (isinstance(e, int) and e % 2 == 0):
            r = mul(r, from_factors({a: e}))
        elif a.kind == "sign":
            r = mul(r, from_factors({a: 2}))
        elif isinstance(e, int):
            r = mul(r, from_factors({abs_atom(P1(a)): e}))
        else:
            r = mul(r, from_factors({a: e}))
    if q is not ONE:
        r = mul(r, q if q.nn else (neg(q) if neg(q).nn else P1(abs_atom(q))))
    return r


def signf(p):
    if not p.t:
        return ZERO
    if p.bools:
        return lift(lambda q: signf(q[0]), [p])
    if p.pos:
        return ONE
    if neg(p).pos:
        return neg(ONE)
    c, fs, q = split_sign(p)
    r = P(1 if c > 0 else -1)
    for a, e in fs:
        if a.pos:
            continue
        if a.kind == "sign":
            r = mul(r, from_factors({a: 1 if (isinstance(e, int) and e % 2) else 2}))
        elif isinstance(e, int) and e % 2:
            r = mul(r, P1(sign_atom(P1(a))))
        else:
            r = mul(r, from_factors({sign_atom(P1(a)): 2}))
    if q is not ONE:
        if q.pos:
            pass
        elif neg(q).pos:
            r = neg(r)
        else:
            r = mul(r, P1(sign_atom(q)))
    return r


def exp(p):
    if not p.t:
        return ONE
    if p.bools:
        return lift(lambda q: exp(q[0]), [p])
    return from_factors({atom("exp", (p,), pos=True): 1})


def log(p):
    if p.bools:
        return lift(lambda q: log(q[0]), [p])
    c = p.const
    if c is not None:
        if c == 1:
            return ZERO
        if c > 0:
            c = Fraction(c)
            r = ZERO
            for n, s in ((c.numerator, 1), (c.denominator, -1)):
                for q, k in factorint(n):
                    r = r + P(k * s) * P1(atom("log", (P(q),), nn=q >= 1, pos=q > 1))
            return r
        return P1(atom("log", (p,)))
    c, common, q = content(p) if len(p.t) > 1 else (p.t[0][1], dict(p.t[0][0].f), ONE)
    if c < 0:
        if len(common) == 1 and q is ONE:
            return P1(atom("log", (p,)))
        # the sign must be carried by some factor; keep the argument whole
        return P1(atom("log", (p,)))
    r = log(P(c)) if c != 1 else ZERO
    for a, e in common.items():
        if a.kind == "exp":
            r = r + scale(a.args[0], e)
        elif a.kind == "red" and a.args[1] == "prod" and e == 1:
            us, b = open_bound(a)
            r = r + mksum(us, log(b))
        elif a.kind == "spow":
            r = r + mul(scale(a.args[1], e), log(absf(P1(a.args[0])) if not a.args[0].nn else P1(a.args[0])))
        elif a.kind == "abs" and 1 < len(a.args[0].t) <= 6:
            # log|u| = log(u^2)/2, with the square multiplied out: one normal form for both spellings
            r = r + P(Fraction(e) / 2) * log(mul(a.args[0], a.args[0]))
        else:
            r = r + P(e) * P1(atom("log", (P1(a if a.nn else abs_atom(P1(a))),)))
    if q is not ONE:
        r = r + P1(atom("log", (q,)))
    return r


def factorint(n):
    out, k = [], 2
    n = int(n)
    while k * k <= n and k < 40000:
        e = 0
        while n % k == 0:
            n //= k
            e += 1
        if e:
            out.append((k, e))
        k += 1
    if n > 1:
        out.append((n, 1))
    return out


def tanh(p):
    # 1 - 2/(exp(2p)+1)
    if p.bools:
        return lift(lambda q: tanh(q[0]), [p])
    if not p.t:
        return ZERO
    return ONE - mul(P(2), power(exp(scale(p, 2)) + ONE, -1))


def fn(name, *ps, is_int=False, nn=False, pos=False):
    """uninterpreted scalar function"""
    ps = [P(p) for p in ps]
    if any(p.bools for p in ps):
        return lift(lambda q: fn(name, *q, is_int=is_int, nn=nn, pos=pos), ps)
    return P1(atom("fn", (name,) + tuple(ps), is_int=is_int, nn=nn, pos=pos))


INTS = {}       # terms whose integer part is known: term -> integer part


def trunc(p):
    """int(p)"""
    if p.is_int:
        return p
    if p in INTS:
        return INTS[p]
    c = p.const
    if c is not None:
        return P(int(c))
    s = _int_plus(p)
    if s is not None and p.nn:
        return floor(p)
    if p.bools:
        return (lift_facts if UP else lift)(lambda q: trunc(q[0]), [p])
    if p.nn and any(m is not M1 and m.is_int and isinstance(c, int) for m, c in p.t):
        return floor(p)
    if p.nn:
        for y, m in quotients(p):
            if prove_ge(m - 1 - y):
                return ZERO
            if prove_ge(m * 2 - 1 - y):
                return ge(y - m)
            if prove_ge(m + 1 - y):
                return ge(y - m) + ge(y - m * 2)
    return P1(atom("fn", ("int", p), is_int=True, nn=p.nn))


def round32(p):
    """p in single precision"""
    if p.is_int:
        return p
    c = p.const
    if c is not None:
        try:
            return P(norm_c(Fraction(struct.unpack("f", struct.pack("f", float(c)))[0])))
        except OverflowError:
            return undef()
    if p.bools:
        return lift(lambda q: round32(q[0]), [p])
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0].f) == 1 and p.t[0][0].f[0][0].kind == "fn" and p.t[0][0].f[0][0].args[0] == "single":
        return p
    return P1(atom("fn", ("single", p), nn=p.nn))


def _int_plus(p):
    """p = q + c with q integer and c a constant: (q, c)"""
    q = mk_poly({m: c for m, c in p.t if m is not M1})
    return (q, P(p.t and dict(p.t).get(M1, 0))) if q.is_int else None


def floor(p):
    if p.is_int:
        return p
    s = _int_plus(p)
    if s is not None:
        c = s[1].const
        return s[0] + (c.numerator // c.denominator if isinstance(c, Fraction) else c)
    if p in INTS:
        return INTS[p]
    c = p.const
    if c is not None:
        return P(c.numerator // c.denominator if isinstance(c, Fraction) else c)
    whole = mk_poly({m: c for m, c in p.t if m is not M1 and m.is_int and isinstance(c, int)})
    if whole.t:
        return whole + floor(p - whole)
    if p.nn:
        return trunc(p)
    return fn("floor", p, is_int=True)


def maxf(a, b):
    if a is b:
        return a
    d = (a - b)
    if d.nn or (d.is_int and prove_ge(d)):
        return a
    if neg(d).nn or (d.is_int and prove_ge(neg(d))):
        return b
    if a.bools or b.bools:
        return lift(lambda q: maxf(q[0], q[1]), [a, b])
    if (a + b) is ZERO:
        return absf(a)
    items = set()
    for p in (a, b):
        if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0].f) == 1 and p.t[0][0].f[0][0].kind == "max" and p.t[0][0].f[0][1] == 1:
            items |= set(p.t[0][0].f[0][0].args[0])
        else:
            items.add(p)
    c = [p for p in items if p.const is not None]
    if len(c) > 1:
        best = max(c, key=lambda p: p.const)
        items -= set(c)
        items.add(best)
    its = tuple(sorted(items, key=lambda p: p.id))
    return P1(atom("max", (its,), is_int=all(p.is_int for p in its), nn=any(p.nn for p in its), pos=any(p.pos for p in its)))


def minf(a, b):
    return neg(maxf(neg(a), neg(b)))


# ---------------------------------------------------------------------------------------------------- conditions
SQUARES = set()   # values that cannot be negative by the way they were computed
FACTS = []     # polynomials known to be >= 0 on the current path (integers)


def bounds_of(a):
    """(lo, hi inclusive) of an atom as Polys or None"""
    if a.kind == "var":
        h = VAR_HI.get(a)
        return VAR_LO.get(a, ZERO), (h - 1 if h is not None else None)
    if a.kind == "sym":
        if a in DIM_MIN:
            return P(DIM_MIN[a]), None
    if a.is_bool:
        return ZERO, ONE
    if a.kind == "max":
        return None, None
    if a.pos and a.is_int:
        return ONE, None
    if a.nn:
        return ZERO, None
    return None, None


UP = {}     # atom -> largest value (proved by induction for the location it stands for)


def bound(p, b):
    """registers b as the upper bound of p, if p is an atom"""
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0].f) == 1 and p.t[0][0].f[0][1] == 1:
        a = p.t[0][0].f[0][0]
        if a.kind in ("lv", "rec") and a not in b.leaf and UP.get(a) is None:
            UP[a] = b
    return p


def inner_atoms(p):
    """all atoms inside a term"""
    seen, out, todo = set(), [], [p]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
            continue
        if x in seen if isinstance(x, (Poly, Lam, Atom)) else True:
            continue
        seen.add(x)
        if isinstance(x, Poly):
            for m, c in x.t:
                for a, e in m.f:
                    todo.append(a)
                    if isinstance(e, Poly):
                        todo.append(e)
        elif isinstance(x, Lam):
            todo.append(x.body)
            todo += list(x.shape)
        else:
            out.append(x)
            todo += list(x.args)
    return out


def direct_atoms(p):
    return {a for m, c in p.t for a, e in m.f}


def quotients(p):
    """(y, m) with p = y/m, y and m integer and m a positive size or number"""
    if not p.t or p.is_int:
        return []
    l = reduce(lambda a, b: a * b // gcd(a, b), [Fraction(c).denominator for m, c in p.t])
    if l > 1:
        q = scale(p, l)
        return [(q, P(l))] if q.is_int else []
    out = []
    for a in {a for m, c in p.t for a, e in m.f if e == -1}:
        b = a.args[0] if a.kind == "par" else P1(a)
        if b.is_int and (a.pos or b.pos or prove_ge(b - 1)):
            y = mul(p, b)
            if y.is_int:
                out.append((y, b))
    return out


def prove_ge(p, depth=3, facts=None):
    """sound, incomplete: is p >= 0 under the variable ranges and the path facts?"""
    if not p.t:
        return True
    c = p.const
    if c is not None:
        return c >= 0
    if p.nn:
        return True
    if facts is None:
        facts = FACTS
    return _prove(p, depth, facts, 0)


def _prove(p, depth, facts, guard):
    if guard > 12:
        return False
    c = p.const
    if c is not None:
        return c >= 0
    if p.nn:
        return True
    # eliminate the youngest range variable
    vs = [a for a in p.leaf if isinstance(a, Atom) and a.kind == "var"]
    vs.sort(key=lambda a: -a.id)
    for v in vs:
        cf, rest, ok = ZERO, ZERO, True
        for m, c in p.t:
            d = dict(m.f)
            if v in d:
                if d[v] != 1:
                    ok = False
                    break
                d.pop(v)
                mm = mk_poly({mk_mono(tuple(sorted(d.items(), key=_fkey))): c})
                if v in mm.leaf:
                    ok = False
                    break
                cf = cf + mm
            elif v in m.leaf:
                ok = False
                break
            else:
                rest = rest + mk_poly({m: c})
        if not ok or not cf.t:
            continue
        lo, hi = bounds_of(v)
        if cf.nn and lo is not None:
            if _prove(rest + mul(cf, lo), depth, facts, guard + 1):
                return True
        if neg(cf).nn and hi is not None:
            if _prove(rest + mul(cf, hi), depth, facts, guard + 1):
                return True
        break
    # locations with a known largest value; remainders y - m*int(y/m) between 0 and m - 1
    for m, c in p.t:
        if UP and c < 0 and len(m.f) == 1 and m.f[0][1] == 1 and m.f[0][0] in UP:
            if _prove(p - mk_poly({m: c}) + scale(UP[m.f[0][0]], c), depth, facts, guard + 1):
                return True
        for a, e in m.f:
            if a.kind == "fn" and e == 1 and a.args[0] in ("int", "floor") and (a.nn or a.args[0] == "floor"):
                d = dict(m.f)
                d.pop(a)
                o = mk_poly({mk_mono(tuple(sorted(d.items(), key=_fkey))): c})
                for y, b in quotients(a.args[1]):
                    if neg(o) is b:
                        if _prove(p - (y - mul(b, P1(a))), depth, facts, guard + 1):
                            return True
                    elif o is b:
                        if _prove(p + (y - mul(b, P1(a))) - (b - 1), depth, facts, guard + 1):
                            return True
    # maxima: max(a, ..) >= a
    for m, c in p.t:
        if len(m.f) == 1 and m.f[0][0].kind == "max" and m.f[0][1] == 1 and c > 0:
            base = p - mk_poly({m: c})
            if any(_prove(base + scale(q, c), depth, facts, guard + 1) for q in m.f[0][0].args[0]):
                return True
        if len(m.f) == 1 and m.f[0][0].kind == "max" and m.f[0][1] == 1 and c < 0:
            base = p - mk_poly({m: c})
            if all(_prove(base + scale(q, c), depth, facts, guard + 1) for q in m.f[0][0].args[0]):
                return True
    # constant lower bounds of the remaining atoms
    tot, ok = 0, True
    for m, c in p.t:
        if not m.f:
            tot += c
            continue
        if c > 0 and m.nn:
            lb = 1
            for a, e in m.f:
                l = bounds_of(a)[0]
                l = l.const if l is not None else None
                if l is None or not isinstance(e, int) or e < 0:
                    lb = 0
                    break
                lb *= l ** e
            tot += c * lb
        else:
            ok = False
            break
    if ok and tot >= 0:
        return True
    if depth > 0:
        for f in facts:
            if any(m in dict(p.t) for m, _ in f.t if m.f):
                if _prove(p - f, depth - 1, facts, guard + 1):
                    return True
    return False


def prove_cases(p, depth=6):
    """prove_ge with a case distinction on the conditions in p"""
    def go(q, depth, facts):
        if _prove(q, 3, facts, 0):
            return True
        bs = [b for b in q.bools]
        if not bs or depth == 0:
            return False
        b = min(bs, key=lambda x: x.id)
        for val in (True, False):
            f = facts
            f = f + case_facts(b, val, facts)
            if f is not facts and _prove(neg(f[-1]) - 1, 2, facts, 0):
                continue
            if not go(given(q, b, val), depth - 1, f):
                return False
        return True
    return go(p, depth, tuple(FACTS))


def int_prim(p):
    """integer polynomial divided by the gcd of its non-constant coefficients, rounding the constant down (for >= 0)"""
    g = 0
    for m, c in p.t:
        if m.f:
            g = gcd(g, abs(c))
    if g > 1:
        return mk_poly({m: (c // g if not m.f else c // g) for m, c in p.t})
    return p


def ge(p):
    """condition p >= 0"""
    c = p.const
    if c is not None:
        return ONE if c >= 0 else ZERO
    if p.bools:
        return lift(lambda q: ge(q[0]), [p])
    if p.nn:
        return ONE
    if not p.is_int:
        l = reduce(lambda a, b: a * b // gcd(a, b), [Fraction(c).denominator for m, c in p.t])
        q = scale(p, l)
        if not q.is_int:
            return ONE - gt(neg(p))
        p = q
    p = int_prim(drop_pos(p))
    if prove_ge(p):
        return ONE
    if prove_ge(neg(p) - 1):
        return ZERO
    if prove_ge(neg(p)):
        return eq(p)
    if prove_ge(p + 1):
        return ONE - eq(p + 1)
    if lead_pos(p):
        return P1(atom("ge", (p,)))
    return ONE - P1(atom("ge", (neg(p) - 1,)))


def drop_pos(p):
    """an integer polynomial without the positive sizes that are factors of all its terms: the sign stays the same"""
    if len(p.t) < 2:
        return p
    m0 = p.t[0][0]
    keep = [(a, e) for a, e in m0.f if a.pos and a.is_int and isinstance(e, int) and e > 0 and all(dict(m.f).get(a) == e for m, c in p.t)]
    if not keep:
        return p
    return mul(p, from_factors({a: -e for a, e in keep}))


def gt(p):
    """condition p > 0"""
    c = p.const
    if c is not None:
        return ONE if c > 0 else ZERO
    if p.bools:
        return lift(lambda q: gt(q[0]), [p])
    if p.pos:
        return ONE
    if neg(p).nn:
        return ZERO
    if p.is_int:
        return ge(drop_pos(p) - 1)
    l = reduce(lambda a, b: a * b // gcd(a, b), [Fraction(c).denominator for m, c in p.t])
    q = scale(p, l)
    if q.is_int:
        return ge(q - 1)
    c, common, q = content(p)
    keep = {a: e for a, e in common.items() if not a.pos}
    if len(keep) != len(common) or c != 1:
        p = mul(q, from_factors(keep)) if keep else q
        if p.const is not None:
            return gt(p)
    # even powers / |.| / nonneg single factors: positive iff not zero
    return P1(atom("gt", (p,)))


def eq(p):
    """condition p == 0"""
    c = p.const
    if c is not None:
        return ONE if c == 0 else ZERO
    if p.bools:
        return lift(lambda q: eq(q[0]), [p])
    if p.pos or neg(p).pos:
        return ZERO
    if not p.is_int:
        l = reduce(lambda a, b: a * b // gcd(a, b), [Fraction(c).denominator for m, c in p.t])
        q = scale(p, l)
        if q.is_int:
            p = q
    if p.is_int:
        g = 0
        for m, c in p.t:
            if m.f:
                g = gcd(g, abs(c))
        if g > 1:
            k = dict(p.t).get(M1, 0)
            if k % g:
                return ZERO
            p = scale(p, Fraction(1, g))
        p = drop_pos(p)
        if prove_ge(p - 1) or prove_ge(neg(p) - 1):
            return ZERO
        if prove_ge(p) and prove_ge(neg(p)):
            return ONE
    else:
        c, common, q = content(p)
        r = ONE
        if common or c != 1:
            # a product is zero iff a factor is
            res = eq_atom(q) if q.const is None else ZERO
            for a, e in common.items():
                if a.pos or (isinstance(e, (int, Fraction)) and e < 0):
                    continue
                if a.kind in ("abs", "sign"):
                    z = eq(a.args[0])
                else:
                    z = eq_atom(P1(a))
                res = lor(res, z)
            return res
    return eq_atom(p)


def eq_atom(p):
    if p.const is not None:
        return ONE if p.const == 0 else ZERO
    if p.pos or neg(p).pos:
        return ZERO
    if len(p.t) == 1 and not p.is_int:
        m, c = p.t[0]
        if len(m.f) == 1:
            a = m.f[0][0]
            if a.kind in ("abs", "sign"):
                return eq(a.args[0])
            p = P1(a)
    if not lead_pos(p):
        p = neg(p)
    return P1(atom("eq", (p,)))


# ---------------------------------------------------------------------------------------------------- sums
def linear_in(p, v):
    """(coef, rest) if p = coef*v + rest with a constant coef and rest free of v, else None"""
    cf, rest = 0, {}
    for m, c in p.t:
        if v not in m.leaf:
            rest[m] = c
        elif len(m.f) == 1 and m.f[0] == (v, 1):
            cf = c
        else:
            return None
    return cf, mk_poly(rest)


def mksum(vs, body):
    """sum of body over the integer variables vs (atoms), each in its registered range"""
    out = {}
    tot = ZERO
    parts = []
    for m, c in body.t:
        parts.append(scale(_sum_mono(tuple(vs), m), c))
    return addn(parts)


def _perm_sum(vs, m):
    """a sum over all k of g(permutation(k)) is the sum over all k of g(k)"""
    for v in vs:
        if v not in m.leaf or any(v in VAR_HI[x].leaf for x in vs):
            continue
        w = new_var(VAR_HI[v])
        if VAR_LO.get(v, ZERO).t:
            continue

        def f(a, rest, rw):
            (s, n), (i,) = a.args[1], a.args[2]
            return P1(w) if i is P1(v) and n is VAR_HI[v] and v not in s.leaf else None
        r = subst(mk_poly({m: 1}), {("fa", "perm"): f})
        if v not in r.leaf and w in r.leaf:
            return mksum([w if x is v else x for x in vs], r)
    return None


def _sum_mono(vs, m):
    if not vs:
        return mk_poly({m: 1})
    if ("fa", "perm") in m.leaf:
        r = _perm_sum(vs, m)
        if r is not None:
            return r
    vset = set(vs)
    # later variables whose ranges depend on others are summed first; here the set is treated jointly
    for v in vs:
        lo = VAR_LO.get(v, ZERO)
        if lo.t:
            # shift to a zero based range
            w = new_var(VAR_HI[v] - lo)
            r = subst(mk_poly({m: 1}), {v: P1(w) + lo})
            return mksum([w if x is v else x for x in vs], r)
    # a range of p + c terms: the first c terms are taken out
    for v in vs:
        hi = VAR_HI[v]
        c = dict(hi.t).get(M1, 0)
        if 1 <= c <= 2 and len(hi.t) > 1 and c == int(c) and v in m.leaf and (hi - c).nn and not any(v in VAR_HI[x].leaf for x in vs):
            p = mk_poly({m: 1})
            w = new_var(hi - c)
            others = [x for x in vs if x is not v]
            r = mksum([w if x is v else x for x in vs], subst(p, {v: P1(w) + c}))
            for i in range(int(c)):
                r = r + mksum(others, subst(p, {v: P(i)}))
            return r
    # delta contraction and range restriction
    for a in m.bools:
        if not (a.leaf & vset):
            continue
        if a.kind == "eq" and ("fa", "uniq_first") in a.leaf or ("fa", "uniq_sorted") in a.leaf or ("fa", "uniq_set") in a.leaf or ("fa", "uniq_set2") in a.leaf:
            r = _class_sum(vs, m, a)
            if r is not None:
                return r
        p = a.args[0] if a.kind in ("ge", "eq") else None
        if p is None:
            continue
        cand = [v for v in vs if v in a.leaf]
        cand.sort(key=lambda v: -v.id)
        for v in cand:
            l = linear_in(p, v)
            if l is None or l[0] not in (1, -1):
                continue
            cf, rest = l
            others = [x for x in vs if x is not v]
            hi = VAR_HI[v]
            if any(v in VAR_HI[x].leaf for x in others):
                continue
            mm = mk_poly({mk_mono(tuple(f for f in m.f if f[0] is not a)): 1})
            if a.kind == "eq":
                val = neg(rest) if cf == 1 else rest
                r = subst(mm, {v: val})
                r = mul(r, mul(ge(val), ge(hi - 1 - val)))
                return mksum(others, r)
            # ge: v >= -rest  or  v <= rest
            if cf == 1:
                b = neg(rest)         # v >= b
                if prove_ge(neg(b)):
                    return mksum(vs, mm)
                if prove_ge(b) and prove_ge(hi - b):
                    w = new_var(hi - b)
                    return mksum([w if x is v else x for x in vs], subst(mm, {v: P1(w) + b}))
            else:
                b = rest              # v <= b
                if prove_ge(b - hi + 1):
                    return mksum(vs, mm)
                if prove_ge(b + 1) and prove_ge(hi - 1 - b):
                    w = new_var(b + 1)
                    return mksum([w if x is v else x for x in vs], subst(mm, {v: P1(w)}))
    inside, outside = [], []
    for a, e in m.f:
        (inside if a.leaf & vset else outside).append((a, e))
    if not inside:
        r = mk_poly({m: 1})
        # variables do not occur: multiply by the size of the ranges
        vs2 = sorted(vs, key=lambda v: -v.id)
        v = vs2[0]
        for v in vs2:
            if not any(v in VAR_HI[x].leaf for x in vs if x is not v):
                break
        hi = VAR_HI[v]
        return mksum([x for x in vs if x is not v], mul(r, hi))
    # flatten inner sums
    for a, e in inside:
        if a.kind == "sum" and isinstance(e, int) and 1 <= e <= 3:
            rest = [(b, x) for b, x in m.f if b is not a]
            p = mk_poly({mk_mono(tuple(rest)): 1})
            nv = list(vs)
            for _ in range(e):
                us, b = open_bound(a)
                nv += us
                p = mul(p, b)
            return mksum(nv, p)
    out = mk_poly({mk_mono(tuple(outside)): 1})
    # connected components
    comps = []
    for a, e in inside:
        s = set(a.leaf & vset)
        comps.append((s, [(a, e)]))
    for v in vs:
        s = {v} | {x for x in vset if x in VAR_HI[v].leaf}
        comps.append((s, []))
    merged = []
    for s, fs in comps:
        hit = [c for c in merged if c[0] & s]
        ns, nf = set(s), list(fs)
        for c in hit:
            ns |= c[0]
            nf = c[1] + nf
            merged.remove(c)
        merged.append((ns, nf))
    if len(merged) > 1:
        r = out
        for s, fs in merged:
            mm = mk_mono(tuple(sorted(fs, key=_fkey)))
            r = mul(r, _sum_mono(tuple(v for v in vs if v in s), mm))
        return r
    mm = mk_mono(tuple(sorted(inside, key=_fkey)))
    mm = _equal_names(vs, mm)
    a, mp = sum_atom(vs, mm)
    # a condition keeps the polarity that it has under the names of the bound variables
    for c, e in inside:
        if len(vs) == 1 and c.kind == "ge" and c.leaf & vset:
            q = raw_subst(c.args[0], mp)
            if not lead_pos(q):
                rest = mk_mono(tuple(f for f in mm.f if f[0] is not c))
                nc = atom("ge", (neg(c.args[0]) - 1,))
                fl = mk_mono(tuple(sorted(rest.f + ((nc, 1),), key=_fkey))) if (nc, 1) not in rest.f else rest
                return mul(out, _sum_mono(vs, rest) - _sum_mono(vs, fl))
    return mul(out, P1(a))


def _equal_names(vs, m):
    """under [a[i] == a[j]] the two elements are the same value: of the terms that write one for the other the least is taken"""
    vset = set(vs)
    best = None
    for c, e in m.f:
        if c.kind != "eq" or len(c.leaf & vset) < 2 or len(c.args[0].t) != 2:
            continue
        u, w = [mo.f[0][0] if len(mo.f) == 1 and mo.f[0][1] == 1 else None for mo, _ in c.args[0].t]
        if u is None or w is None or u.kind != "el" or w.kind != "el" or {co for _, co in c.args[0].t} != {1, -1}:
            continue
        rest = mk_poly({mk_mono(tuple(f for f in m.f if f[0] is not c)): 1})
        for old, val in ((u, P1(w)), (w, P1(u))):
            r = subst(rest, {("el", old.args[0]): lambda at, rs, rw, old=old, val=val: val if at is old else None})
            if r is rest or len(r.t) != 1 or r.t[0][1] != 1:
                continue
            n = mk_mono(tuple(sorted(r.t[0][0].f + ((c, 1),), key=_fkey)))
            if n.leaf & vset != m.leaf & vset:
                continue
            if best is None:
                best = [_sum_key(vs, m), m]
            k = _sum_key(vs, n)
            if k < best[0]:
                best = [k, n]
    return m if best is None else best[1]


def _sum_key(vs, m):
    a = sum_atom(vs, m)[0]
    return (a.args[0], tuple((f.id, float(e)) for q, _ in a.args[2].t for f, e in q.f), a.id)


UNIQ = ("uniq_first", "uniq_sorted", "uniq_set", "uniq_set2")


def _class_sum(vs, m, a):
    """a sum over the distinct values c of an array under [c == label of r] has exactly one term: c is the label of r"""
    p = a.args[0]
    for mo, co in p.t:
        if len(mo.f) != 1 or mo.f[0][1] != 1 or co not in (1, -1):
            continue
        u = mo.f[0][0]
        if u.kind != "fa" or u.args[0] not in UNIQ or len(u.args[2]) != 1:
            continue
        j = next((v for v in vs if u.args[2][0] is P1(v)), None)
        if j is None or any(j in VAR_HI[x].leaf for x in vs if x is not j):
            continue
        L = u.args[1][0]
        hi = VAR_HI[j]
        if hi is not fa("nuniq", (L,), (), is_int=True, nn=True, pos=True) or (VAR_LO.get(j) or ZERO).t:
            continue
        val = P1(u) - p if co == 1 else P1(u) + p
        if j in val.leaf or not _instance(val, L):
            continue
        rest = mk_poly({mk_mono(tuple(f for f in m.f if f[0] is not a)): 1})

        def f(at, rs, rw, u=u, val=val):
            return val if at is u else None
        r = subst(rest, {("fa", u.args[0]): f})
        if j in r.leaf:
            continue
        return mksum([x for x in vs if x is not j], r)
    return None


def _instance(val, L):
    """is the term an element of the one-dimensional array L?"""
    if len(L.shape) != 1:
        return False
    for r in val.leaf:
        if isinstance(r, Atom) and r.kind == "var" and VAR_HI.get(r) is L.shape[0] and lam(L.shape, [r.args[0]], val) is L:
            return True
    if len(val.t) == 1 and val.t[0][1] == 1 and len(val.t[0][0].f) == 1:
        e = val.t[0][0].f[0][0]
        if e.kind == "el" and len(e.args[1]) == 1:
            w = new_var(L.shape[0])
            return lam(L.shape, [w.args[0]], el(e.args[0], [P1(w)])) is L
    return False


def _sig(v, m, vs):
    """a renaming invariant signature of a bound variable, to cut down the permutations"""
    wild = atom("sym", ("*",), is_int=True)
    hole = atom("sym", ("@",), is_int=True)
    mp = {x: P1(hole if x is v else wild) for x in vs}
    out = []
    for a, e in m.f:
        if v in a.leaf:
            out.append((raw_subst_atom(a, mp).id, e.numerator if not isinstance(e, int) else e, 1 if isinstance(e, int) else e.denominator))
    out.sort()
    return (raw_subst(VAR_HI[v], mp).id, tuple(out))


def sum_atom(vs, m):
    h = m.h + 1
    for v in vs:
        h = max(h, VAR_HI[v].h + 1)
    vs = list(vs)
    if len(vs) == 1:
        perms = [vs]
    else:
        sig = {v: _sig(v, m, vs) for v in vs}
        groups = {}
        for v in vs:
            groups.setdefault(sig[v], []).append(v)
        perms = [[]]
        for s in sorted(groups):
            g = groups[s]
            if len(g) > 5:
                raise TooBig()
            perms = [p + list(q) for p in perms for q in permutations(g)]
            if len(perms) > 800:
                raise TooBig()
    best = None
    for pv in perms:
        mp = {v: P1(bv(h, i)) for i, v in enumerate(pv)}
        b = raw_subst_mono(m, mp)
        his = tuple(raw_subst(VAR_HI[v], mp) for v in pv)
        key = (tuple((a.id, float(e)) for a, e in b.f), tuple(x.id for x in his))
        if best is None or key < best[0]:
            best = (key, b, his, mp)
    _, b, his, mp = best
    return atom("sum", (h, his, b_poly(b)), nn=m.nn, is_int=m.is_int), mp


def b_poly(m):
    return mk_poly({m: 1})


def open_bound(a):
    """fresh variables and the body of a sum or red atom"""
    if a.kind == "sum":
        h, his, body = a.args
    else:
        h, _, his, body = a.args
    us = [new_var(ONE) for _ in his]
    mp = {bv(h, i): P1(u) for i, u in enumerate(us)}
    for u, hi in zip(us, his):
        VAR_HI[u] = subst(hi, mp)
    return us, subst(body, mp)


def red(name, v, body):
    """reduction max / prod over variable v"""
    hi = VAR_HI[v]
    lo = VAR_LO.get(v, ZERO)
    if lo.t:
        w = new_var(hi - lo)
        body = subst(body, {v: P1(w) + lo})
        v, hi = w, hi - lo
    if v not in body.leaf:
        return body if name == "max" else power_poly(body, hi)
    if name == "min":
        return neg(red("max", v, neg(body)))
    out = [a for a in body.bools if v not in a.leaf]
    if out:
        a = min(out, key=lambda x: x.id)
        return ite(P1(a), red(name, v, given(body, a, True)), red(name, v, given(body, a, False)))
    if name == "prod" and len(body.t) == 1 and not body.bools:
        m, c = body.t[0]
        r = power_poly(P(c), hi) if c != 1 else ONE
        for a, e in m.f:
            if v not in a.leaf:
                r = mul(r, power_poly(from_factors({a: e}), hi))
            else:
                r = mul(r, power(_red1("prod", v, P1(a)), e))
        return r
    if name == "max":
        c, common, q = content(body)
        out = {a: e for a, e in common.items() if v not in a.leaf and (a.nn or (isinstance(e, int) and e % 2 == 0))}
        if out or c != 1:
            inner = mul(scale(body, Fraction(1) / c), from_factors({a: -e for a, e in out.items()}) if out else ONE)
            return mul(scale(from_factors(out) if out else ONE, c), red("max", v, inner) if out or c != 1 else None)
        # constant offsets
        off = mk_poly({m: k for m, k in body.t if v not in m.leaf})
        if off.t and not body.bools:
            return off + red("max", v, body - off)
    return _red1(name, v, body)


def _red1(name, v, body):
    hi = VAR_HI[v]
    h = max(body.h, hi.h) + 1
    b = raw_subst(body, {v: P1(bv(h, 0))})
    return P1(atom("red", (h, name, (hi,), b), nn=body.nn, pos=body.pos, is_int=body.is_int))


# ---------------------------------------------------------------------------------------------------- arrays, functions
EL_INFO = {}    # array name -> dict(is_int=, nn=, pos=)


def el(name, idx):
    idx = [P(i) for i in idx]
    if any(i.bools for i in idx):
        return lift(lambda q: el(name, q), idx)
    inf = EL_INFO.get(name, {})
    if inf.get("sym2") and len(idx) == 2 and idx[0].id > idx[1].id:
        idx = [idx[1], idx[0]]
    return P1(atom("el", (name, tuple(idx)), is_int=inf.get("is_int", False), nn=inf.get("nn", False), pos=inf.get("pos", False)))


def fa(name, args, idx, **fl):
    """element idx of an array-valued function of arrays (Lam), scalars (Poly) and constants"""
    idx = [P(i) for i in idx]
    ps = list(idx)
    if any(p.bools for p in ps):
        return lift(lambda q: fa(name, args, q, **fl), ps)
    args = tuple(args)
    if name == "perm" and args[1] is ONE:
        return ZERO
    if name in ("sort", "argsort") and isinstance(args[0], Lam) and args[0].body.t and args[0].body.t[0][1] < 0:
        # ascending order of the negated values
        l = args[0]
        r = fa(name, (mk_lam(l.shape, l.h, neg(l.body)),) + args[1:], (l.shape[0] - 1 - idx[0],), **fl)
        return neg(r) if name == "sort" else r
    if name in ("eigval", "eigvec", "sort", "argsort") and isinstance(args[0], Lam):
        # a common factor of all entries does not turn the eigenvectors, scales the eigenvalues, and keeps an order if positive
        s = scale_out(args[0])
        if s is not None and (name[0] == "e" or s[0].pos):
            r = fa(name, (s[1],) + args[1:], idx, **fl)
            return mul(s[0], r) if name in ("eigval", "sort") else r
    if name == "sort" and isinstance(args[0], Lam) and len(args[0].shape) == 1:
        # sorting values that are sorted already
        l = args[0]
        f = l.body.t[0][0].f if len(l.body.t) == 1 and l.body.t[0][1] == 1 else ()
        if len(f) == 1 and f[0][1] == 1 and f[0][0].kind == "fa" and f[0][0].args[0] == "sort" and f[0][0].args[1][0].shape[0] is l.shape[0]:
            k = f[0][0].args[2][0]
            if k is P1(bv(l.h, 0)) or k is l.shape[0] - 1 - P1(bv(l.h, 0)):
                return fa("sort", f[0][0].args[1], idx, **fl)
    if name in SYMMETRIC_FA and len(idx) == 2 and isinstance(args[0], Lam) and lam_symmetric(args[0]):
        if idx[0].id > idx[1].id:
            idx = [idx[1], idx[0]]
    return P1(atom("fa", (name, args, tuple(idx)), **fl))


_so = {}


def scale_out(l):
    """(factor, rest) with l = factor * rest, the factor the same for all entries; None if there is none"""
    if l in _so:
        return _so[l]
    own = {x for x in l.body.leaf if isinstance(x, Atom) and x.kind == "bv" and x.args[0] == l.h} | {("bref", l.h)}
    common = None
    for m, _ in l.body.t:
        f = {a: e for a, e in m.f if isinstance(e, int) and a.kind != "exp" and not a.is_bool and not (a.leaf & own)}
        common = f if common is None else {a: min(e, f[a]) if e > 0 else max(e, f[a]) for a, e in common.items() if a in f and (f[a] > 0) == (e > 0)}
        if not common:
            break
    r = None
    if common:
        t = {}
        for m, c in l.body.t:
            f = dict(m.f)
            for a, e in common.items():
                f[a] -= e
            t[mk_mono(tuple(sorted(((a, e) for a, e in f.items() if e != 0), key=lambda x: x[0].id)))] = c
        r = from_factors(common), mk_lam(l.shape, l.h, mk_poly(t))
    _so[l] = r
    return r


SYMMETRIC_FA = {"inv"}
_sym_cache = {}


def lam_symmetric(l):
    r = _sym_cache.get(l)
    if r is None:
        if len(l.shape) != 2:
            r = False
        else:
            a, b = bv(l.h, 0), bv(l.h, 1)
            r = subst(l.body, {a: P1(b), b: P1(a)}) is l.body
        _sym_cache[l] = r
    return r


# ---------------------------------------------------------------------------------------------------- substitution
def keys_of(m):
    return frozenset(m)


class Rewriter:
    """Substitution. `m` maps atoms (sym, var, bv) to Poly and ('el', name) / ('lv', loop) / ('bref', h) / ('fa', name) /
    ('opq',) keys to functions (atom, rewritten index polys, rewriter) -> Poly or None."""

    def __init__(self, m):
        self.m = m
        self.keys = frozenset(m)
        self.memo = {}

    def poly(self, p):
        if not (p.leaf & self.keys):
            return p
        r = self.memo.get(p)
        if r is not None:
            return r
        parts = []
        for m, c in p.t:
            parts.append(scale(self.mono(m), c))
        r = addn(parts)
        self.memo[p] = r
        return r

    def mono(self, m):
        if not (m.leaf & self.keys):
            return mk_poly({m: 1})
        r = self.memo.get(m)
        if r is not None:
            return r
        stay, moved = [], []
        # conditions first: they may make the rest irrelevant
        r = ONE
        for a, e in m.f:
            if a.leaf & self.keys:
                moved.append((a, e))
            else:
                stay.append((a, e))
        moved.sort(key=lambda x: not x[0].is_bool)
        r = mk_poly({mk_mono(tuple(stay)): 1})
        for a, e in moved:
            q = self.atom(a)
            if e != 1:
                q = power(q, e)
            r = mul(r, q)
            if not r.t:
                break
        self.memo[m] = r
        return r

    def arg(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Lam):
            return self.lam(x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x

    def lam(self, l):
        if not (l.leaf & self.keys):
            return l
        r = self.memo.get(l)
        if r is None:
            us, b = lam_open(l)
            shape = tuple(self.poly(s) for s in l.shape)
            for u, s in zip(us, shape):
                VAR_HI[u] = s
            b = self.poly(b)
            r = lam(shape, us, b)
            self.memo[l] = r
        return r

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        r = self._atom(a)
        self.memo[a] = r
        return r

    def _atom(self, a):
        m = self.m
        if a in m:
            return m[a]
        k = a.kind
        A = self.arg
        if k == "el":
            f = m.get(("el", a.args[0]))
            idx = tuple(self.poly(i) for i in a.args[1])
            if f is not None:
                r = f(a, idx, self)
                if r is not None:
                    return r
            return el(a.args[0], idx)
        if k in ("lv", "bref"):
            f = m.get((k, a.args[0]))
            rest = tuple(A(x) for x in a.args[1:])
            if f is not None:
                r = f(a, rest, self)
                if r is not None:
                    return r
            if k == "lv":
                return lv_mk(a.args[0], rest, a.is_int, a.nn)
            return bref_mk(a.args[0], rest, a.is_int, a.nn)
        if k == "exp":
            return exp(A(a.args[0]))
        if k == "log":
            return log(A(a.args[0]))
        if k == "par":
            return A(a.args[0])
        if k == "abs":
            return absf(A(a.args[0]))
        if k == "sign":
            return signf(A(a.args[0]))
        if k == "spow":
            return power_poly(self.atom(a.args[0]) if a.args[0].leaf & self.keys else P1(a.args[0]), A(a.args[1]))
        if k == "cst":
            return P1(a)
        if k == "ge":
            return ge(A(a.args[0]))
        if k == "gt":
            return gt(A(a.args[0]))
        if k == "eq":
            return eq(A(a.args[0]))
        if k == "max":
            return reduce(maxf, [A(x) for x in a.args[0]])
        if k == "fn":
            if a.args[0] == "int":
                return trunc(A(a.args[1]))
            f = m.get(("fa", a.args[0]))
            rest = tuple(A(x) for x in a.args[1:])
            if f is not None:
                r = f(a, rest, self)
                if r is not None:
                    return r
            return fn(a.args[0], *rest, is_int=a.is_int, nn=a.nn, pos=a.pos)
        if k == "fa":
            f = m.get(("fa", a.args[0]))
            args = A(a.args[1])
            idx = A(a.args[2])
            if f is not None:
                r = f(a, (args, idx), self)
                if r is not None:
                    return r
            return fa(a.args[0], args, idx, is_int=a.is_int, nn=a.nn, pos=a.pos)
        if k == "sum":
            us, b = open_bound(a)
            for u in us:
                VAR_HI[u] = self.poly(VAR_HI[u])
            return mksum(us, self.poly(b))
        if k == "red":
            us, b = open_bound(a)
            VAR_HI[us[0]] = self.poly(VAR_HI[us[0]])
            return red(a.args[1], us[0], self.poly(b))
        if k == "rec":
            return REC_REWRITE(a, self)
        if k == "opq":
            f = m.get(("opq",))
            args = tuple(A(x) for x in a.args)
            if f is not None:
                r = f(a, args, self)
                if r is not None:
                    return r
            return P1(atom("opq", args))
        if k in ("tag", "flag"):
            return P1(atom(k, tuple(A(x) for x in a.args)))
        if k in ("var", "bv", "sym"):
            return P1(a)
        raise TypeError(k)


REC_REWRITE = None


def subst(p, m):
    if not m or not (p.leaf & frozenset(m)):
        return p
    return Rewriter(m).poly(p)


# renaming of variables to bound variables inside already normalised terms: no simplification can apply, except ordering
def raw_subst(p, m):
    return RawRenamer(m).poly(p)


def raw_subst_mono(mo, m):
    return RawRenamer(m).mono(mo)


def raw_subst_atom(a, m):
    return RawRenamer(m).atom(a)


class RawRenamer:
    def __init__(self, m):
        self.m, self.keys, self.memo = m, frozenset(m), {}

    def poly(self, p):
        if not (p.leaf & self.keys):
            return p
        r = self.memo.get(p)
        if r is None:
            d = {}
            for m, c in p.t:
                n = self.mono(m)
                d[n] = d.get(n, 0) + c
            r = self.memo[p] = mk_poly(d)
        return r

    def mono(self, m):
        if not (m.leaf & self.keys):
            return m
        r = self.memo.get(m)
        if r is None:
            d = {}
            for a, e in m.f:
                b = self.atom(a) if a.leaf & self.keys else a
                d[b] = d.get(b, 0) + e
            r = self.memo[m] = mk_mono(tuple(sorted(((a, norm_c(e)) for a, e in d.items() if e != 0), key=_fkey)))
        return r

    def arg(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Atom):
            return self.atom(x) if x.leaf & self.keys else x
        if isinstance(x, Lam):
            if not (x.leaf & self.keys):
                return x
            return mk_lam(tuple(self.poly(s) for s in x.shape), x.h, self.poly(x.body))
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            if a in self.m:
                r = self.m[a].t[0][0].f[0][0]
            else:
                args = tuple(self.arg(x) for x in a.args)
                if a.kind == "el" and EL_INFO.get(args[0], {}).get("sym2") and args[1][0].id > args[1][1].id:
                    args = (args[0], (args[1][1], args[1][0]))
                elif a.kind == "fa" and args[0] in SYMMETRIC_FA and len(args[2]) == 2 and isinstance(args[1][0], Lam) \
                        and lam_symmetric(args[1][0]) and args[2][0].id > args[2][1].id:
                    args = (args[0], args[1], (args[2][1], args[2][0]))
                elif a.kind in ("abs", "eq"):
                    if not lead_pos(args[0]):
                        args = (neg(args[0]),)
                elif a.kind == "max":
                    args = (tuple(sorted(args[0], key=lambda p: p.id)),)
                r = atom(a.kind, args, is_int=a.is_int, nn=a.nn, pos=a.pos)
            self.memo[a] = r
        return r


def lv_mk(loop, rest, is_int=False, nn=False):
    """('lv', loop, comp, iter, idx)"""
    comp, it, idx = rest
    if it.bools or any(i.bools for i in idx):
        return lift(lambda q: lv_mk(loop, (comp, q[0], tuple(q[1:])), is_int, nn), [it] + list(idx))
    return P1(atom("lv", (loop, comp, it, tuple(idx)), is_int=is_int, nn=nn))


def bref_mk(h, rest, is_int=False, nn=False):
    comp, idx = rest
    if any(i.bools for i in idx):
        return lift(lambda q: bref_mk(h, (comp, tuple(q)), is_int, nn), list(idx))
    return P1(atom("bref", (h, comp, tuple(idx)), is_int=is_int, nn=nn))


# ---------------------------------------------------------------------------------------------------- printing
def show_atom(a):
    k, x = a.kind, a.args
    if k == "sym":
        return str(x[0])
    if k == "var":
        return "v%d" % x[0]
    if k == "bv":
        return "b%d.%d" % x
    if k == "el":
        return "%s[%s]" % (x[0], ",".join(map(show, x[1])))
    if k == "sum":
        return "S{%s|%s}" % (",".join("b%d.%d<%s" % (x[0], i, show(h)) for i, h in enumerate(x[1])), show(x[2]))
    if k == "red":
        return "%s{b%d.0<%s|%s}" % (x[1], x[0], show(x[2][0]), show(x[3]))
    if k in ("ge", "gt", "eq"):
        return "[%s%s0]" % (show(x[0]), {"ge": ">=", "gt": ">", "eq": "=="}[k])
    if k == "par":
        return "(%s)" % show(x[0])
    if k == "fa":
        return "%s(%s)[%s]" % (x[0], ",".join(map(str, x[1])), ",".join(map(show, x[2])))
    if k == "fn":
        return "%s(%s)" % (x[0], ",".join(map(show, x[1:])))
    if k == "lv":
        return "L%s.%s@%s[%s]" % (x[0], x[1], show(x[2]), ",".join(map(show, x[3])))
    if k == "bref":
        return "r%s.%s[%s]" % (x[0], x[1], ",".join(map(show, x[2])))
    if k == "max":
        return "max(%s)" % ",".join(map(show, x[0]))
    if k == "spow":
        return "%s^(%s)" % (show_atom(x[0]), show(x[1]))
    if k == "rec":
        return "rec#%s.%s@%s[%s]" % (x[1].id, x[2], show(x[3]), ",".join(map(show, x[4])))
    return "%s(%s)" % (k, ",".join(show(y) if isinstance(y, Poly) else str(y) for y in x))


def show_mono(m):
    return "*".join(show_atom(a) + ("" if e == 1 else "^%s" % (e,)) for a, e in m.f) or "1"


def show(p):
    if isinstance(p, Poly):
        if not p.t:
            return "0"
        out = []
        for m, c in p.t:
            s = show_mono(m)
            if c != 1:
                s = "%s*%s" % (c, s) if m.f else str(c)
            out.append(s)
        return " + ".join(out)
    return str(p)


def short(p, n=300):
    s = show(p)
    return s if len(s) <= n else s[:n] + "..."

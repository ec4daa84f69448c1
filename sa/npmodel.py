"""Model of NumPy (and the part of SciPy the package uses) on abstract array contents."""
import math
from fractions import Fraction
import terms as T
from terms import P, P1, ONE, ZERO, Poly
from values import *
import npfuncs


class Unsup(Exception):
    """the model does not cover this use"""


DTYPE_OF = {
    "float": "f", "float64": "f", "double": "f", "float_": "f", "f8": "f", "d": "f", "longdouble": "f", "float128": "f", "floating": "f",
    "<f8": "f", "float32": "f4", "float16": "f4", "single": "f4", "half": "f4", "f4": "f4", "f": "f4", "f2": "f4",
    "int": "i", "int64": "i", "intp": "i", "int_": "i", "i8": "i", "longlong": "i", "l": "i", "uint64": "i", "uint": "i", "integer": "i",
    "int32": "i", "int16": "i4", "int8": "i4", "uint32": "i", "uint16": "i4", "uint8": "i4", "i4": "i", "intc": "i", "i": "i",
    "bool": "b", "bool_": "b", "?": "b", "object": "o", "object_": "o", "O": "o", "str": "s", "str_": "s", "complex": "o", "complex128": "o",
}

BINARY = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow", "float_power": "Pow",
          "floor_divide": "FloorDiv", "mod": "Mod", "remainder": "Mod", "less": "Lt", "less_equal": "LtE", "greater": "Gt",
          "greater_equal": "GtE", "equal": "Eq", "not_equal": "NotEq", "logical_and": "land", "logical_or": "lor",
          "logical_xor": "lxor", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "maximum": "maximum", "minimum": "minimum",
          "fmax": "maximum", "fmin": "minimum", "hypot": "hypot", "copysign": "copysign", "pow": "Pow", "arctan2": "arctan2",
          "logaddexp": "logaddexp", "bitwise_xor": "BitXor"}
UNARY = {"sqrt", "exp", "log", "log10", "log2", "log1p", "expm1", "tanh", "sinh", "cosh", "absolute", "abs", "fabs", "sign", "square",
         "reciprocal", "floor", "ceil", "trunc", "fix", "rint", "negative", "positive", "invert", "logical_not", "isnan", "isinf",
         "isfinite", "sin", "cos", "tan", "arctan", "arcsin", "arccos", "arcsinh", "arccosh", "arctanh", "cbrt", "exp2", "conj",
         "conjugate", "real", "bitwise_not", "signbit", "isreal", "nan_to_num", "degrees", "radians", "deg2rad", "rad2deg", "erf", "expit",
         "softplus", "iscomplex", "imag", "logical_not"}
COMPARE = {"Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"}
ALIAS = {"abs": "absolute", "amax": "max", "amin": "min", "asanyarray": "asarray", "conjugate": "conj", "bitwise_not": "invert",
         "fabs": "absolute", "row_stack": "vstack", "product": "prod", "alltrue": "all", "sometrue": "any", "concat": "concatenate",
         "permute_dims": "transpose", "matrix_transpose": "transpose", "random.random_sample": "random.random",
         "random.ranf": "random.random", "random.sample": "random.random",
         "lib.stride_tricks.sliding_window_view": "sliding_window_view", "special.expit": "expit", "round_": "round", "around": "round",
         "linalg.eigvals": "eigvals", "linalg.eigvalsh": "eigvalsh", "absolute_": "absolute"}


def truthp(p):
    return p if p.is_boolean else ONE - T.eq(p)


class NP(npfuncs.Funcs):
    DTYPES = DTYPE_OF

    def __init__(self, it):
        self.it = it

    # ------------------------------------------------------------------------------------------------ contents
    def ac(self, st, v):
        it = self.it
        if isinstance(v, Num):
            return AC((), (), v.p, v.dt)
        if isinstance(v, Arr):
            a = it.read(st, v)
            return a
        if isinstance(v, (Frozen, Masked)):
            return v.ac
        if isinstance(v, (Tup, ListRef, SeqV, SetV)) or type(v).__name__ == "DictView":
            return self.list_ac(st, v)
        if isinstance(v, Choice):
            return self.choice_ac(st, v)
        raise Unsup("array from " + type(v).__name__)

    def choice_ac(self, st, v):
        """the contents of one of two arrays, whose sizes agree wherever either can be meant"""
        v = self.it.narrow_val(v, st)
        if not isinstance(v, Choice):
            return self.ac(st, v)
        a, b = self.ac(st, v.a), self.ac(st, v.b)
        no = ONE - v.c
        shape = []
        for x, y in zip(a.shape, b.shape):
            if x is y or T.mul(v.c, x - y) is ZERO:
                shape.append(y)
            elif T.mul(no, x - y) is ZERO:
                shape.append(x)
            else:
                raise Unsup("array from arrays of different sizes")
        if len(a.shape) != len(b.shape) or (a.dt != b.dt and set(a.dt + b.dt) - set("fib")):
            raise Unsup("array from arrays of different kinds")
        vs = [T.new_var(x) for x in shape]
        V = [P1(x) for x in vs]
        return AC(tuple(shape), vs, T.ite(v.c, a.at(V), b.at(V)), self.it.join_dt(a.dt, b.dt), a.taint | b.taint, a.conv or b.conv)

    def list_ac(self, st, v):
        it = self.it
        if isinstance(v, ListRef) and not st.cells[("l", v.lid)].concrete:
            d = st.cells[("l", v.lid)]
            parts = []
            for s in d.segs:
                if s[0] == "it":
                    parts.append((ONE, None, self.ac(st, s[1])))
                elif s[0] == "seg" and len(s[3]) == 1:
                    parts.append((s[2], s[1], self.ac(st, s[3][0])))
                else:
                    raise Unsup("list of unknown content")
            return self.piecewise(st, parts)
        seq = it.iterate(st, v, None)
        if seq is None or seq.guard is not None:
            raise Unsup("array from an iterator")
        if seq.items is None:
            k = T.new_var(seq.n)
            a = self.ac(st, seq.get(st, P1(k)))
            return self.piecewise(st, [(seq.n, k, a)])
        items = [self.ac(st, x) for x in seq.items]
        if not items:
            u = T.new_var(ZERO)
            return AC((ZERO,), (u,), ZERO, "f")
        return self.piecewise(st, [(ONE, None, a) for a in items])

    def piecewise(self, st, parts):
        """stack contents along a new first axis; parts: (count, index variable or None, content)"""
        rk = parts[0][2].rank
        sh = parts[0][2].shape
        for n, k, a in parts:
            if a.rank != rk or a.mask is not None:
                raise Unsup("ragged list")
            for x, y in zip(a.shape, sh):
                if not self.same_dim(x, y):
                    raise Unsup("ragged list")
        total = ZERO
        for n, k, a in parts:
            total = total + n
        u = T.new_var(total)
        vs = [T.new_var(s) for s in sh]
        idx = [P1(x) for x in vs]
        dt = parts[0][2].dt
        taint = frozenset()
        conv = None
        off = ZERO
        body = None
        pieces = []
        for n, k, a in parts:
            b = a.at(idx)
            if k is not None:
                b = T.subst(b, {k: P1(u) - off})
            pieces.append((off, n, b))
            off = off + n
            dt = self.it.join_dt(dt, a.dt)
            conv = conv or a.conv
        for off, n, b in reversed(pieces):
            body = b if body is None else T.ite(T.ge(off + n - 1 - P1(u)), b, body)
        # every element may carry the conversion failure of the caller's data
        return AC((total,) + tuple(sh), (u,) + tuple(vs), body, dt, taint, conv)

    def same_dim(self, x, y):
        if x is y:
            return True
        d = x - y
        return not d.t or (T.prove_ge(d) and T.prove_ge(T.neg(d)))

    def fresh_vars(self, a):
        vs = [T.new_var(s) for s in a.shape]
        m = {x: P1(y) for x, y in zip(a.vars, vs)}
        return AC(a.shape, vs, T.subst(a.body, m), a.dt, a.taint, a.conv,
                  None if a.mask is None else (a.mask[0], T.subst(a.mask[1], m)))

    def use(self, st, a, node, what=None):
        """the content takes part in arithmetic"""
        if a.conv:
            self.it.may_raise(st, T.lor(*a.conv), "TypeError", node)

    # ------------------------------------------------------------------------------------------------ broadcasting
    def bshape(self, st, shapes, node):
        rk = max(len(s) for s in shapes)
        out = []
        for i in range(rk):
            d = ONE
            for s in shapes:
                j = i - (rk - len(s))
                if j < 0:
                    continue
                x = s[j]
                if x is ONE or self.same_dim(d, x):
                    continue
                if d is ONE:
                    d = x
                    continue
                bad = T.mul(ONE - T.eq(d - x), T.mul(ONE - T.eq(d - 1), ONE - T.eq(x - 1)))
                self.it.may_raise(st, bad, "ValueError", node)
                # dimensions of one of them may be 1: the result has the other
                if d.const is not None and x.const is None:
                    d = d
                elif x.const is not None:
                    d = x
            out.append(d)
        return tuple(out)

    def spread(self, a, shape, vs):
        """body of content a at the index vs of the broadcast shape"""
        m = {}
        off = len(shape) - a.rank
        for i in range(a.rank):
            if a.shape[i] is ONE and shape[off + i] is not ONE:
                m[a.vars[i]] = ZERO
            else:
                m[a.vars[i]] = P1(vs[off + i])
        return m, T.subst(a.body, m)

    def broadcast_to(self, st, a, shape, node):
        shape = tuple(shape)
        if a.rank > len(shape):
            lead = a.shape[:a.rank - len(shape)]
            if all(s is ONE for s in lead):
                a = AC(a.shape[len(lead):], a.vars[len(lead):], T.subst(a.body, {v: ZERO for v in a.vars[:len(lead)]}), a.dt,
                       a.taint, a.conv, a.mask)
            else:
                self.it.raise_(st, "ValueError", node)
        off = len(shape) - a.rank
        for i, s in enumerate(a.shape):
            t = shape[off + i]
            if s is not ONE and not self.same_dim(s, t):
                self.it.may_raise(st, T.mul(ONE - T.eq(s - t), ONE - T.eq(s - 1)), "ValueError", node)
        vs = [T.new_var(s) for s in shape]
        m, b = self.spread(a, shape, vs)
        mask = None
        if a.mask is not None:
            mask = (a.mask[0] + off, T.subst(a.mask[1], m))
        return AC(shape, vs, b, a.dt, a.taint, a.conv, mask)

    # ------------------------------------------------------------------------------------------------ elementwise
    def elementwise(self, st, op, vals, node, kw=None):
        it = self.it
        for i, v in enumerate(vals):
            if isinstance(v, Choice):
                return it.choice_map(st, v, lambda s, x: self.elementwise(s, op, vals[:i] + [x] + vals[i + 1:], node, kw))
        if any(isinstance(v, Opq) for v in vals):
            return [v for v in vals if isinstance(v, Opq)][0]
        if any(isinstance(v, NoneT) for v in vals):
            it.raise_(st, "TypeError", node)
        op = ALIAS.get(op, op)
        op = BINARY.get(op, op)
        try:
            if all(isinstance(v, Num) for v in vals):
                py = all(v.py for v in vals) and (op in COMPARE or op[0].isupper())
                p, dt = self.apply(st, op, [v.p for v in vals], [(v.dt, v.py) for v in vals], node)
                return Num(p, dt, py)
            acs = [self.ac(st, v) for v in vals]
            flags = [isinstance(v, Num) and v.py for v in vals]
            return it.alloc(st, self.elementwise_ac(st, op, acs, flags, node))
        except Unsup as e:
            return it.note("numpy " + op + ": " + str(e))

    def elementwise_ac(self, st, op, acs, flags, node):
        for a in acs:
            self.use(st, a, node)
        acs = [a if a.conv is None else AC(a.shape, a.vars, a.body, a.dt, a.taint, None, a.mask) for a in acs]
        shape = self.bshape(st, [a.shape for a in acs], node)
        vs = [T.new_var(s) for s in shape]
        bodies, mask = [], None
        for a in acs:
            m, b = self.spread(a, shape, vs)
            bodies.append(b)
            if a.mask is not None:
                mk = (a.mask[0] + len(shape) - a.rank, T.subst(a.mask[1], m))
                if mask is not None and mk != mask:
                    raise Unsup("different selections")
                mask = mk
        if mask is not None:
            for a in acs:
                i = mask[0] - (len(shape) - a.rank)
                if a.mask is None and i >= 0 and a.rank and a.shape[i] is not ONE:
                    raise Unsup("selection combined with a whole array")
        T.FACTS[:] = st.facts
        p, dt = self.apply(st, op, bodies, [(a.dt, f) for a, f in zip(acs, flags)], node)
        return AC(shape, vs, p, dt, frozenset(), None, mask)

    def num_op(self, st, op, a, b, node):
        return self.elementwise(st, op, [a, b], node)

    def rdt(self, dts):
        """storage class of an arithmetic result"""
        ds = [d for d, py in dts]
        if "o" in ds:
            return "o"
        if "f" in ds:
            return "f"
        if "s" in ds:
            return "o"
        if "C" in ds:
            return "C"
        if "c" in ds:
            if any(d == "i" and not py for d, py in dts):
                return "C"
            return "c"
        if "i" in ds:
            return "i"
        return "b"

    def apply(self, st, op, ps, dts, node):
        """one elementary operation on value numbers"""
        it = self.it
        try:
            return self._apply(st, op, ps, dts, node)
        except T.TooBig:
            return T.opaque("too big"), ("b" if op in COMPARE else self.rdt(dts))

    def narrow(self, st, dt, op, node):
        if dt == "c" or (dt == "C" and op in ("Sub", "negative", "difference")):
            self.it.event("narrow", st, node, what=op)

    def _apply(self, st, op, ps, dts, node):
        it = self.it
        dt = self.rdt(dts)
        a = ps[0]
        b = ps[1] if len(ps) > 1 else None
        if op in ("Add", "Sub", "Mult"):
            if dt == "b":
                if all(py for d, py in dts) or op == "Sub":
                    dt = "i"
                else:
                    return (T.lor(a, b) if op == "Add" else T.mul(a, b)), "b"
            self.narrow(st, dt, op, node)
            r = a + b if op == "Add" else a - b if op == "Sub" else T.mul(a, b)
            if not r.nn and r.t and (op == "Mult" and a is b or op != "Sub" and (a.nn or a in T.SQUARES) and (b.nn or b in T.SQUARES)):
                self.square_seen(r)
            return r, dt
        if op == "Div":
            it.event("div", st, node, by=b)
            return T.mul(a, T.power(b, -1)), ("o" if dt == "o" else "f")
        if op == "Pow":
            self.narrow(st, dt, op, node)
            c = b.const
            if c is not None and c < 0:
                it.event("div", st, node, by=a)
                if dt in "ib" and not isinstance(c, Fraction):
                    dt = "f"
            if dt == "b":
                dt = "i"
            r = T.power_poly(a, b)
            if c == 2 and not r.nn:
                self.square_seen(r)
            return r, dt
        if op in ("FloorDiv", "Mod"):
            self.narrow(st, dt, op, node)
            it.event("div", st, node, by=b)
            q = T.floor(T.mul(a, T.power(b, -1)))
            if op == "FloorDiv":
                return q, dt if dt != "b" else "i"
            return T.mod(a, b), dt if dt != "b" else "i"
        if op in COMPARE:
            return self.it.py.CMP[op](a, b), "b"
        if op in ("land", "BitAnd", "lor", "BitOr", "lxor", "BitXor"):
            if op[0] == "l" or all(d == "b" for d, py in dts):
                a, b = truthp(a), truthp(b)
                if op in ("land", "BitAnd"):
                    return T.mul(a, b), "b"
                if op in ("lor", "BitOr"):
                    return T.lor(a, b), "b"
                return a + b - T.scale(T.mul(a, b), 2), "b"
            return T.fn(op, a, b, is_int=True), "i"
        if op in ("LShift", "RShift"):
            if b.const is not None and b.const >= 0:
                if op == "LShift":
                    return T.scale(a, 2 ** int(b.const)), dt
                return T.floor(T.scale(a, Fraction(1, 2 ** int(b.const)))), dt
            return T.fn(op, a, b, is_int=True), dt
        if op == "maximum":
            return T.maxf(a, b), dt
        if op == "minimum":
            return T.minf(a, b), dt
        if op == "hypot":
            return T.sqrt(T.mul(a, a) + T.mul(b, b)), "f"
        if op == "copysign":
            return T.mul(T.absf(a), T.fn("copysign", b)), "f"
        if op == "logaddexp":
            return T.log(T.exp(a) + T.exp(b)), "f"
        if op == "positive":
            return a, dt
        if op == "negative":
            self.narrow(st, dt, op, node)
            return T.neg(a), dt
        if op == "absolute":
            if dt == "c":
                self.narrow(st, dt, op, node)
            return T.absf(a), dt
        if op == "sign":
            return T.signf(a), dt
        if op == "square":
            self.narrow(st, dt, op, node)
            return T.mul(a, a), dt
        if op == "reciprocal":
            self.narrow(st, dt, op, node)
            it.event("div", st, node, by=a)
            return T.power(a, -1), "f" if dt == "f" else dt
        if op in ("invert", "logical_not"):
            if dt == "b" or op == "logical_not":
                return ONE - truthp(a), "b"
            return T.neg(a) - 1, dt
        if op == "isnan" or op == "isinf":
            return ZERO, "b"
        if op in ("isfinite", "isreal"):
            return ONE, "b"
        if op in ("conj", "real", "nan_to_num"):
            return a, dt
        if op == "imag" or op == "iscomplex":
            return ZERO, dt
        if op == "floor":
            return T.floor(a), "f" if dt == "f" else dt
        if op == "ceil":
            return T.neg(T.floor(T.neg(a))), "f" if dt == "f" else dt
        if op in ("trunc", "fix"):
            return T.trunc(a), "f" if dt == "f" else dt
        if op == "rint":
            return T.fn("round", a, is_int=True), "f" if dt == "f" else dt
        # transcendental functions compute in half precision for one byte integers
        self.narrow(st, dt if dt == "c" else "f", op, node)
        if op == "sqrt":
            return T.sqrt(a), "f"
        if op == "exp":
            return T.exp(a), "f"
        if op in ("log", "log10", "log2"):
            it.event("log", st, node, of=a)
            r = T.log(a)
            if op == "log10":
                r = T.mul(r, T.power(T.log(P(10)), -1))
            elif op == "log2":
                r = T.mul(r, T.power(T.log(P(2)), -1))
            return r, "f"
        if op == "log1p":
            it.event("log", st, node, of=a + 1)
            return T.log(a + 1), "f"
        if op == "expm1":
            return T.exp(a) - 1, "f"
        if op == "exp2":
            return T.power_poly(P(2), a), "f"
        if op == "tanh":
            return T.tanh(a), "f"
        if op == "sinh":
            return T.scale(T.exp(a) - T.exp(T.neg(a)), Fraction(1, 2)), "f"
        if op == "cosh":
            return T.scale(T.exp(a) + T.exp(T.neg(a)), Fraction(1, 2)), "f"
        if op == "expit":
            return T.power(ONE + T.exp(T.neg(a)), -1), "f"
        if op == "cbrt":
            return T.mul(T.signf(a), T.power(T.absf(a), Fraction(1, 3))), "f"
        if op == "signbit":
            return T.gt(T.neg(a)), "b"
        return T.fn(op, *ps), "f"

    # ------------------------------------------------------------------------------------------------ indexing
    def wrap(self, i, n):
        c = i.const
        if c is not None:
            return i if c >= 0 else i + n
        if T.prove_ge(i):
            return i
        if T.prove_ge(T.neg(i) - 1):
            return i + n
        return T.ite(T.ge(i), i, i + n)

    def clip_bound(self, a, n, lo, hi):
        """slice bound a clipped into [lo, hi] after adding n if negative"""
        a = self.wrap(a, n)
        if not T.prove_ge(a - lo):
            a = T.maxf(a, lo)
        if not T.prove_ge(hi - a):
            a = T.minf(a, hi)
        return a

    def slice_range(self, s, n):
        """(start, length, step) of a slice over n elements"""
        n = P(n)
        step = 1
        if not isinstance(s.step, NoneT):
            if not isinstance(s.step, Num) or not isinstance(s.step.p.const, int) or s.step.p.const == 0:
                return None
            step = s.step.p.const
        for x in (s.lo, s.hi):
            if not isinstance(x, NoneT) and not (isinstance(x, Num) and x.dt in "bicCo"):
                return None
        if step > 0:
            lo = ZERO if isinstance(s.lo, NoneT) else self.clip_bound(s.lo.p, n, ZERO, n)
            hi = n if isinstance(s.hi, NoneT) else self.clip_bound(s.hi.p, n, ZERO, n)
            ln = hi - lo
        else:
            lo = n - 1 if isinstance(s.lo, NoneT) else self.clip_bound(s.lo.p, n, P(-1), n - 1)
            hi = P(-1) if isinstance(s.hi, NoneT) else self.clip_bound(s.hi.p, n, P(-1), n - 1)
            ln = lo - hi
        if not T.prove_ge(ln):
            ln = T.maxf(ln, ZERO)
        k = abs(step)
        if k > 1:
            ln = T.floor(T.scale(ln + (k - 1), Fraction(1, k)))
        return lo, ln, step

    def index_items(self, st, i):
        items = list(i.items) if isinstance(i, Tup) else [i]
        for j, x in enumerate(items):
            if isinstance(x, Masked) and x.ac.rank == 1 and x.ac.dt == "i" and x.ac.body is P1(x.ac.vars[0]):
                # the positions where a condition holds select what the condition selects
                items[j] = Frozen(AC(x.ac.shape, x.ac.vars, x.ac.mask[1], "b"))
        return items

    def kind(self, st, x):
        """classification of one index item"""
        it = self.it
        if isinstance(x, Num):
            if x.dt == "b" :
                return "boolscalar" if not x.py or True else "int"
            return "int"
        if isinstance(x, SliceV):
            return "slice"
        if isinstance(x, NoneT):
            return "new"
        if isinstance(x, EllipsisT):
            return "ell"
        if isinstance(x, (Arr, Masked, Frozen, ListRef, SeqV, Tup)):
            return "fancy"
        return "?"

    def getitem(self, st, o, i, node):
        it = self.it
        if isinstance(i, Choice):
            return it.choice_map(st, i, lambda s, x: self.getitem(s, o, x, node))
        if isinstance(i, Tup):
            for j, x in enumerate(i.items):
                if isinstance(x, Choice):
                    return it.choice_map(st, x, lambda s, y: self.getitem(
                        s, o, Tup(i.items[:j] + (y,) + i.items[j + 1:]), node))
        if isinstance(o, Masked):
            return self.getitem_masked(st, o, i, node)
        items = self.index_items(st, i)
        if any(isinstance(x, Opq) for x in items):
            return it.note("unknown index")
        if any(isinstance(x, (Str, SymStr)) for x in items):
            it.raise_(st, "IndexError", node)
        try:
            v, fancy = self.view(st, o, items, node)
            if fancy:
                return self.fancy_get(st, v, fancy, node)
            if not v.shape and not (o.lst and False):
                a = it.read(st, v)
                if a.conv and o.rid in it.conv:
                    pass
                return Num(a.body, a.dt, o.lst and a.dt != "c" or o.lst)
            return v
        except Unsup as e:
            return it.note("index: " + str(e))
        except T.TooBig:
            return it.note("index: too big")

    def view(self, st, o, items, node):
        """basic indexing; returns (view, [(axis of the view, fancy index value), ...])"""
        it = self.it
        kinds = [self.kind(st, x) for x in items]
        if "?" in kinds:
            raise Unsup("index of type " + type(items[kinds.index("?")]).__name__)
        used = 0
        for x, k in zip(items, kinds):
            if k in ("int", "slice"):
                used += 1
            elif k == "fancy":
                used += self.fancy_rank(st, x)
        rank = len(o.shape)
        if used > rank:
            it.raise_(st, "IndexError", node)
        if "ell" not in kinds:
            items = items + [ELL]
            kinds = kinds + ["ell"]
        m, shape, vs, fancy = {}, [], [], []
        ax = 0
        for x, k in zip(items, kinds):
            if k == "ell":
                for _ in range(rank - used):
                    shape.append(o.shape[ax])
                    v = T.new_var(o.shape[ax])
                    vs.append(v)
                    m[o.vars[ax]] = P1(v)
                    ax += 1
            elif k == "new":
                shape.append(ONE)
                vs.append(T.new_var(ONE))
            elif k == "int":
                if x.dt == "f":
                    it.raise_(st, "IndexError", node)
                n = o.shape[ax]
                j = self.wrap(x.p, n)
                if T.prove_ge(j - n) or T.prove_ge(T.neg(j) - 1):
                    it.raise_(st, "IndexError", node)
                it.event("index", st, node, i=j, n=n)
                m[o.vars[ax]] = j
                ax += 1
            elif k == "slice":
                for b in (x.lo, x.hi, x.step):
                    if isinstance(b, Num) and b.dt == "f":
                        it.raise_(st, "TypeError", node)
                r = self.slice_range(x, o.shape[ax])
                if r is None:
                    raise Unsup("slice")
                lo, ln, step = r
                v = T.new_var(ln)
                shape.append(ln)
                vs.append(v)
                m[o.vars[ax]] = lo + T.scale(P1(v), step)
                ax += 1
            elif k == "boolscalar":
                raise Unsup("boolean index")
            else:
                fr = self.fancy_rank(st, x)
                fancy.append((len(shape), x))
                for _ in range(fr):
                    shape.append(o.shape[ax])
                    v = T.new_var(o.shape[ax])
                    vs.append(v)
                    m[o.vars[ax]] = P1(v)
                    ax += 1
        idx = [T.subst(x, m) for x in o.idx]
        if len(o.idx) == 0:
            idx = []
        return Arr(o.rid, shape, vs, idx, o.lst), fancy

    def fancy_rank(self, st, x):
        a = self.ac(st, x)
        return a.rank if a.dt == "b" and a.rank else 1

    def fancy_get(self, st, v, fancy, node):
        it = self.it
        a = self.fresh_vars(it.read(st, v))
        acs = [(ax, self.ac(st, x)) for ax, x in fancy]
        if len(acs) == 1:
            ax, x = acs[0]
            if x.dt == "b" and x.rank:
                if x.rank == 1:
                    cond = x.at([P1(a.vars[ax])])
                    if a.mask is not None:
                        raise Unsup("selection of a selection")
                    return Masked(AC(a.shape, a.vars, a.body, a.dt, frozenset(), None, (ax, cond)))
                if x.rank == a.rank and a.rank == 2:
                    raise Unsup("two-dimensional selection")
                raise Unsup("boolean index")
            if x.mask is not None:
                raise Unsup("selection as index")
            x = self.fresh_vars(x)
            n = a.shape[ax]
            j = self.wrap(x.body, n)
            body = T.subst(a.body, {a.vars[ax]: j})
            # sorting permutations
            if x.rank == 1 and a.rank == 1:
                s = self.sorted_by(a, x, j)
                if s is not None:
                    body = s
            shape = a.shape[:ax] + x.shape + a.shape[ax + 1:]
            vs = a.vars[:ax] + x.vars + a.vars[ax + 1:]
            return it.alloc(st, AC(shape, vs, body, a.dt))
        # several integer arrays: broadcast together
        if any(x.dt == "b" or x.mask is not None for ax, x in acs):
            raise Unsup("mixed advanced index")
        axes = [ax for ax, x in acs]
        if axes != list(range(axes[0], axes[0] + len(axes))):
            raise Unsup("separated advanced indexes")
        sh = self.bshape(st, [x.shape for ax, x in acs], node)
        vs = [T.new_var(s) for s in sh]
        m = {}
        for ax, x in acs:
            mm, b = self.spread(x, sh, vs)
            m[a.vars[ax]] = self.wrap(b, a.shape[ax])
        body = T.subst(a.body, m)
        shape = a.shape[:axes[0]] + tuple(sh) + a.shape[axes[-1] + 1:]
        vv = a.vars[:axes[0]] + tuple(vs) + a.vars[axes[-1] + 1:]
        return it.alloc(st, AC(shape, vv, body, a.dt))

    def sorted_by(self, a, x, j):
        """v[argsort(v)] = sort(v)"""
        ats = [j.t[0][0].f[0][0]] if len(j.t) == 1 and len(j.t[0][0].f) == 1 else []
        ats = [m for m in ats if m.kind == "fa" and m.args[0] == "argsort"]
        for at in ats:
            l = at.args[1][0]
            if l is T.lam(a.shape, [v.args[0] for v in a.vars], a.body):
                if len(j.t) == 1 and j.t[0][1] == 1 and j.t[0][0].f == ((at, 1),):
                    return T.fa("sort", (l,), at.args[2])
            elif l is T.lam(a.shape, [v.args[0] for v in a.vars], T.neg(a.body)):
                if len(j.t) == 1 and j.t[0][1] == 1 and j.t[0][0].f == ((at, 1),):
                    return T.neg(T.fa("sort", (l,), at.args[2]))
        return None

    def getitem_masked(self, st, o, i, node):
        it = self.it
        items = self.index_items(st, i)
        a = o.ac
        ax = a.mask[0]
        try:
            # only indexes that leave the selected axis alone
            full = []
            pos = 0
            ell = [k for k, x in enumerate(items) if isinstance(x, EllipsisT)]
            if ell:
                k = ell[0]
                fill = a.rank - (len(items) - 1)
                items = items[:k] + [SliceV(NONE, NONE, NONE)] * fill + items[k + 1:]
            for x in items:
                if isinstance(x, NoneT):
                    raise Unsup("selection")
            sel = items[ax] if ax < len(items) else SliceV(NONE, NONE, NONE)
            if not (isinstance(sel, SliceV) and isinstance(sel.lo, NoneT) and isinstance(sel.hi, NoneT) and isinstance(sel.step, NoneT)):
                raise Unsup("element of a selection")
            rest = [x for k, x in enumerate(items)]
            b = self.fresh_vars(a)
            r = it.alloc(st, AC(b.shape, b.vars, b.body, b.dt))
            v, fancy = self.view(st, r, rest, node)
            if fancy:
                raise Unsup("selection")
            c = it.read(st, v)
            nax = sum(1 for k in range(ax) if not (k < len(items) and isinstance(items[k], Num)))
            m = {b.vars[ax]: P1(c.vars[nax])}
            return Masked(AC(c.shape, c.vars, c.body, c.dt, frozenset(), None, (nax, T.subst(b.mask[1], m))))
        except Unsup as e:
            return it.note("index: " + str(e))

    def setitem(self, st, o, i, v, node):
        it = self.it
        if isinstance(i, Choice):
            it.choice_map(st, i, lambda s, x: (self.setitem(s, o, x, v, node), NONE)[1])
            return
        if isinstance(v, Choice):
            it.choice_map(st, v, lambda s, x: (self.setitem(s, o, i, x, node), NONE)[1])
            return
        if isinstance(o, Masked):
            it.note("store into a selection (has no effect)")
            return
        items = self.index_items(st, i)
        try:
            if any(isinstance(x, Opq) for x in items):
                raise Unsup("unknown index")
            w, fancy = self.view(st, o, items, node)
            if isinstance(v, Opq):
                raise Unsup(v.why)
            if isinstance(v, NoneT):
                d = st.cells.get(("r", o.rid))
                if d is not None and d.dt == "o":
                    raise Unsup("object array")
                # float(None) is nan for element stores of arrays, a TypeError for scalars
                it.raise_(st, "TypeError", node)
            if isinstance(v, (Str, SymStr)):
                it.raise_(st, "ValueError", node)
            a = self.ac(st, v)
            if o.lst:
                if w.shape == () and not fancy:
                    it.write(st, w, AC((), (), a.body, a.dt) if a.rank == 0 else a, node)
                    return
                raise Unsup("slice store into a list")
            if not fancy:
                if a.mask is not None:
                    raise Unsup("store of a selection")
                a = self.squeeze_lead(st, a, len(w.shape), node)
                b = self.broadcast_to(st, a, w.shape, node)
                m = {x: P1(y) for x, y in zip(b.vars, w.vars)}
                it.write(st, w, AC(w.shape, w.vars, T.subst(b.body, m), b.dt, b.taint, b.conv), node)
                return
            if len(fancy) == 1:
                ax, x = fancy[0]
                x = self.ac(st, x)
                if x.dt == "b" and x.rank >= 1:
                    cond = x.at([P1(w.vars[ax + j]) for j in range(x.rank)])
                    if a.mask is not None:
                        m = {p: P1(q) for p, q in zip(a.vars, w.vars)}
                        if a.rank != len(w.shape) or a.mask[0] != ax or T.subst(a.mask[1], m) is not cond:
                            raise Unsup("store of a different selection")
                        body, dt = T.subst(a.body, m), a.dt
                    elif a.rank == 0:
                        body, dt = a.body, a.dt
                    elif a.rank < len(w.shape) - ax and a.rank <= len(w.shape) - x.rank - ax:
                        b = self.broadcast_to(st, a, w.shape, node)
                        body, dt = T.subst(b.body, {p: P1(q) for p, q in zip(b.vars, w.vars)}), b.dt
                    else:
                        raise Unsup("store at selected positions")
                    it.write(st, w, AC(w.shape, w.vars, body, dt, a.taint, a.conv), node, cond)
                    return
                if x.rank == 1 and x.mask is None:
                    # distinct positions k -> start +- k
                    r = T.linear_in(x.body, x.vars[0])
                    if r is not None and r[0] in (1, -1):
                        n = x.shape[0]
                        k = P1(w.vars[ax]) - r[1] if r[0] == 1 else r[1] - P1(w.vars[ax])
                        cond = T.mul(T.ge(k), T.ge(n - 1 - k))
                        b = self.broadcast_to(st, a, w.shape[:ax] + (n,) + w.shape[ax + 1:], node)
                        m = {p: P1(q) for p, q in zip(b.vars, w.vars)}
                        m[b.vars[ax]] = k
                        it.write(st, w, AC(w.shape, w.vars, T.subst(b.body, m), b.dt, b.taint, b.conv), node, cond)
                        return
                    if x.body.const is not None or x.shape[0].const == 1:
                        j = self.wrap(x.at([ZERO]), w.shape[ax])
                        b = self.broadcast_to(st, a, w.shape[:ax] + (ONE,) + w.shape[ax + 1:], node)
                        m = {p: P1(q) for p, q in zip(b.vars, w.vars)}
                        m[b.vars[ax]] = ZERO
                        it.write(st, w, AC(w.shape, w.vars, T.subst(b.body, m), b.dt, b.taint, b.conv), node,
                                 T.eq(P1(w.vars[ax]) - j))
                        return
            raise Unsup("advanced store")
        except Unsup as e:
            it.note("store: " + str(e))
            self.touch(st, o, node)
        except T.TooBig:
            it.note("store: too big")
            self.touch(st, o, node)

    def touch(self, st, o, node):
        it = self.it
        it.event("write", st, node, rid=o.rid, owner=it.owner.get(o.rid, "fresh"))
        it.writes.setdefault(("r", o.rid), set()).add(it.where(node))
        it.smash(st, o.rid, "store")

    def squeeze_lead(self, st, a, rank, node):
        return a

    def masked_dim(self, a, axis):
        if a.mask is None or a.mask[0] != axis:
            return a.shape[axis]
        return T.mksum([a.vars[axis]], a.mask[1])

    def masked_row(self, st, a, k):
        m = {a.vars[0]: k}
        vs = [T.new_var(s) for s in a.shape[1:]]
        m.update({x: P1(y) for x, y in zip(a.vars[1:], vs)})
        b = T.subst(a.body, m)
        if not vs:
            return Num(b, a.dt)
        return self.it.alloc(st, AC(a.shape[1:], vs, b, a.dt))

    # ------------------------------------------------------------------------------------------------ classes
    def lam_of(self, a):
        return T.lam(a.shape, [v.args[0] for v in a.vars], a.body)

    def nuniq(self, l):
        return T.fa("nuniq", (l,), (), is_int=True, nn=True, pos=True)

    def classes(self, st, name, n, l, as_seq=False):
        if as_seq:
            return SeqV(n=n, get=lambda s, k: Num(T.fa(name, (l,), (k,)), "o"))
        u = T.new_var(n)
        return self.it.alloc(st, AC((n,), (u,), T.fa(name, (l,), (P1(u),)), "o"))

    def class_set(self, st, v):
        a = self.ac(st, v)
        if a.rank != 1 or a.mask is not None:
            raise Unsup("distinct values")
        l = self.lam_of(a)
        return SetV((), (self.nuniq(l), "uniq_set2" if self.it.nonce else "uniq_set", l))

    # ------------------------------------------------------------------------------------------------ attributes
    def arr_attr(self, st, o, name, node, default):
        it = self.it
        masked = isinstance(o, Masked)
        shape = o.ac.shape if masked else o.shape
        if name == "shape":
            return Tup(Num(self.masked_dim(o.ac, i) if masked else s, "i", True) for i, s in enumerate(shape))
        if name == "ndim":
            return Num(P(len(shape)), "i", True)
        if name == "size":
            p = ONE
            for i, s in enumerate(shape):
                p = T.mul(p, self.masked_dim(o.ac, i) if masked else s)
            return Num(p, "i", True)
        if name == "T":
            return self.call(st, "transpose", [o], {}, node)
        if name == "dtype":
            d = o.ac.dt if masked else (st.cells[("r", o.rid)].dt if ("r", o.rid) in st.cells else "f")
            return TypeV("dtype:" + d)
        if name in ("real",):
            return o
        if name == "flat":
            return self.call(st, "ravel", [o], {}, node)
        if name in ("itemsize", "nbytes", "strides", "flags", "base", "data", "ctypes"):
            return Opq("array attribute " + name)
        if name in self.METHODS or name in ("__len__", "__getitem__", "__setitem__", "__iter__", "__array__", "__copy__"):
            return Method(o, name)
        if name in ("choose", "mT", "device", "to_device", "dump", "dumps", "getfield", "setfield", "imag") or name.startswith("__"):
            it.note("array attribute " + name)
            return Opq("array attribute " + name)
        if default is not None:
            return default
        it.raise_(st, "AttributeError", node, name)

    METHODS = {"sum", "mean", "std", "var", "max", "min", "prod", "any", "all", "argmax", "argmin", "dot", "copy", "reshape", "ravel",
               "flatten", "transpose", "astype", "fill", "sort", "argsort", "tolist", "item", "squeeze", "swapaxes", "clip", "round",
               "conj", "conjugate", "cumsum", "cumprod", "nonzero", "take", "repeat", "diagonal", "trace", "view", "put", "resize",
               "tobytes", "searchsorted", "compress", "ptp", "partition", "argpartition", "byteswap", "setflags", "tofile", "itemset",
               "__array_wrap__"}

    def arr_method(self, st, o, name, a, kw, node):
        it = self.it
        if name == "copy" or name == "__copy__" or name == "__array__":
            return self.call(st, "copy", [o], {}, node)
        if name == "__len__":
            return it.py.length(st, o, node)
        if name == "__getitem__":
            return self.getitem(st, o, a[0], node)
        if name == "__setitem__":
            self.setitem(st, o, a[0], a[1], node)
            return NONE
        if name == "astype":
            return self.call(st, "astype", [o] + list(a), kw, node)
        if name == "flatten":
            return self.call(st, "copy", [self.call(st, "ravel", [o], {}, node)], {}, node)
        if name == "reshape":
            if len(a) > 1:
                a = [Tup(a)]
            return self.call(st, "reshape", [o] + list(a), kw, node)
        if name == "transpose":
            if len(a) > 1:
                a = [Tup(a)]
            return self.call(st, "transpose", [o] + list(a), kw, node)
        if name == "tolist":
            r = self.call(st, "copy", [o], {}, node)
            if isinstance(r, Arr):
                return Arr(r.rid, r.shape, r.vars, r.idx, True)
            return r
        if name == "item":
            if a:
                return self.getitem(st, o, a[0] if len(a) == 1 else Tup(a), node)
            x = self.ac(st, o)
            return Num(x.at([ZERO] * x.rank), x.dt, True)
        if name == "fill":
            x = self.ac(st, a[0])
            if isinstance(o, Arr):
                b = self.broadcast_to(st, x, o.shape, node)
                m = {p: P1(q) for p, q in zip(b.vars, o.vars)}
                it.write(st, o, AC(o.shape, o.vars, T.subst(b.body, m), b.dt), node)
            return NONE
        if name == "sort":
            r = self.call(st, "sort", [o] + list(a), kw, node)
            if isinstance(o, Arr):
                if isinstance(r, Arr):
                    self.setitem(st, o, ELL, r, node)
                else:
                    self.touch(st, o, node)
            return NONE
        if name in ("put", "resize", "partition", "byteswap", "setflags", "itemset"):
            if isinstance(o, Arr):
                self.touch(st, o, node)
            it.note("array method " + name)
            return NONE
        if name == "view":
            return o if not a and not kw else it.note("view")
        if name in ("tobytes", "tofile"):
            return Opq(name)
        return self.call(st, ALIAS.get(name, name), [o] + list(a), kw, node)

    def scalar_attr(self, st, o, name, node, default):
        if name == "shape":
            return Tup(())
        if name == "ndim":
            return Num(ZERO, "i", True)
        if name == "size":
            return Num(ONE, "i", True)
        if name in ("T", "real"):
            return o
        if name == "dtype":
            return TypeV("dtype:" + o.dt)
        if name in self.METHODS or name in ("is_integer", "__len__"):
            return Method(o, name)
        if name in ("imag", "flat", "itemsize", "nbytes", "strides", "flags", "base", "data", "device", "mT") or hasattr(float, name):
            self.it.note("scalar attribute " + name)
            return Opq("attribute")
        if default is not None:
            return default
        self.it.raise_(st, "AttributeError", node, name)

    def scalar_method(self, st, o, name, a, kw, node):
        if name in ("item", "tolist"):
            return Num(o.p, o.dt, True)
        if name == "is_integer":
            return Num(T.eq(o.p - T.floor(o.p)), "b", True)
        if name in ("copy", "conjugate", "conj", "squeeze"):
            return o
        if name in ("bit_length", "as_integer_ratio"):
            return Opq(name)
        return self.arr_method(st, o, name, a, kw, node)

    def scalar_type(self, st, name, a, node):
        it = self.it
        if not a:
            return Num(ZERO, DTYPE_OF[name][0])
        if isinstance(a[0], (Arr, ListRef, Tup, Masked)):
            return self.call(st, "array", [a[0]], {"dtype": TypeV(name)}, node)
        d = DTYPE_OF[name]
        if d[0] == "f":
            r = it.py.ty_float(st, a, {}, node)
            if len(d) > 1:
                it.event("narrow", st, node, what="conversion to " + name)
        elif d[0] == "i":
            r = it.py.ty_int(st, a, {}, node)
            if len(d) > 1:
                it.event("narrow", st, node, what="conversion to " + name)
        elif d[0] == "b":
            r = it.py.ty_bool(st, a, {}, node)
        else:
            return it.note("type " + name)
        return Num(r.p, r.dt) if isinstance(r, Num) else r

    # ------------------------------------------------------------------------------------------------ dtypes
    def dtype_attr(self, st, d, name):
        """attribute of the element type d; the caller's type 'c' is a signed or an unsigned integer"""
        if name == "kind":
            if d == "c":
                return Choice(T.flag("signed data"), Str("i"), Str("u"))
            return Str({"f": "f", "i": "i", "b": "b", "o": "O", "s": "U"}[d]) if d in "fibos" else Opq("kind")
        full = {"f": "float64", "i": "int64", "b": "bool"}.get(d)
        if full:
            if name == "name":
                return Str(full)
            if name == "type":
                return TypeV(full)
            if name == "itemsize":
                return Num(P(1 if d == "b" else 8), "i", True)
            if name == "char":
                return Str({"f": "d", "i": "l", "b": "?"}[d])
            if name == "str":
                return Str({"f": "<f8", "i": "<i8", "b": "|b1"}[d])
        if name in ("shape", "names", "fields", "subdtype"):
            return Tup(()) if name == "shape" else NONE
        if name == "hasobject" and d in "fibc":
            return Num(ZERO, "b", True)
        return Opq("dtype attribute " + name)

    def dtype_code(self, v):
        """(class, full name) of a type named by v; (None, None) if not modelled"""
        if isinstance(v, TypeV) and v.name.startswith("dtype:"):
            d = v.name[6:]
            return d, {"f": "float64", "i": "int64", "b": "bool"}.get(d)
        n = v.s if isinstance(v, Str) else v.name if isinstance(v, (TypeV, Builtin)) else v.path.split(".")[-1] if isinstance(v, Ext) else None
        if n not in DTYPE_OF:
            return None, None
        full = {"float": "float64", "double": "float64", "float_": "float64", "f8": "float64", "d": "float64", "<f8": "float64", "int": "int64",
                "int_": "int64", "intp": "int64", "i8": "int64", "l": "int64", "longlong": "int64", "bool_": "bool", "?": "bool"}.get(n, n)
        return DTYPE_OF[n], full

    def dtype_eq(self, st, a, b, node):
        (x, fx), (y, fy) = self.dtype_code(a), self.dtype_code(b)
        if fx is not None and fx == fy:
            return ONE
        if x is None or y is None:
            if isinstance(a, (NoneT, Num, Tup)) or isinstance(b, (NoneT, Num, Tup)):
                return ZERO
            return T.P1(T.atom("flag", ("eq", self.it.fresh()), opq=True))
        for u, fv, v in ((x, fy, y), (y, fx, x)):
            if u == "c":
                if v[0] != "i" or v == "c":
                    return ONE if v == "c" else ZERO
                return T.tag("type of the data", fv) if fv != "int64" else ZERO
        if x != y or fx and fy:
            return ZERO
        return T.P1(T.atom("flag", ("eq", self.it.fresh()), opq=True))

    SUBTYPES = {"number": "fic", "integer": "ic", "floating": "f", "inexact": "f", "generic": "ficbos", "bool": "b", "bool_": "b", "object_": "o",
                "object": "o", "complexfloating": "", "flexible": "s", "character": "s", "str_": "s", "float": "f", "float64": "f",
                "float32": "", "float16": "", "complex128": "", "complex": ""}

    def f_issubdtype(self, st, a, kw, node):
        v, t = self.bind(st, a, kw, ["arg1", "arg2"], node, 2)
        if isinstance(t, (Choice, Opq)) or isinstance(v, (Choice, Opq)):
            raise Unsup("issubdtype")
        d, full = self.dtype_code(v)
        n = t.name if isinstance(t, (TypeV, Builtin)) else t.path.split(".")[-1] if isinstance(t, Ext) else None
        if d is None or n is None:
            raise Unsup("issubdtype")
        if d == "c" and n in ("signedinteger", "unsignedinteger"):
            c = T.flag("signed data")
            return Num(c if n[0] == "s" else ONE - c, "b")
        if d == "i" and n in ("signedinteger", "int", "int64"):
            return Num(ONE, "b")
        if n not in self.SUBTYPES or full is None and d != "c":
            raise Unsup("issubdtype")
        return Num(ONE if d in self.SUBTYPES[n] else ZERO, "b")

    def dtype(self, st, v, node):
        """storage class named by a dtype argument, None if absent"""
        it = self.it
        if v is None or isinstance(v, NoneT):
            return None
        if isinstance(v, Str) and v.s is not None:
            d = DTYPE_OF.get(v.s)
            if d is None:
                it.raise_(st, "TypeError", node)
        elif isinstance(v, TypeV):
            if v.name.startswith("dtype:"):
                return v.name[6:]
            d = DTYPE_OF.get(v.name)
        elif isinstance(v, Ext):
            d = DTYPE_OF.get(v.path.split(".")[-1])
        elif isinstance(v, Builtin) or isinstance(v, Opq):
            d = None
        else:
            d = None
        if d is None:
            raise Unsup("dtype")
        if d in ("f4", "i4"):
            it.event("narrow", st, node, what="storage in a narrow type")
        return F4 if d == "f4" else d[0]

    # ------------------------------------------------------------------------------------------------ modules
    CONSTS = {"pi": math.pi, "e": math.e, "inf": math.inf, "Inf": math.inf, "infty": math.inf, "nan": math.nan, "NaN": math.nan,
              "NAN": math.nan, "euler_gamma": 0.5772156649015329, "tau": math.tau}

    def ext_attr(self, m, name):
        path = m.path + "." + name
        top = m.path.split(".")[0]
        if m.path in ("numpy", "math"):
            if name in self.CONSTS:
                return self.const(name)
            if m.path == "numpy":
                if name == "newaxis":
                    return NONE
                if name in DTYPE_OF or name in ("ndarray", "number", "integer", "floating", "generic", "signedinteger", "unsignedinteger", "inexact", "complexfloating", "flexible", "character"):
                    return TypeV(name)
                if name in ("LinAlgError",):
                    return ExcClass("LinAlgError")
                if name == "False_" or name == "True_":
                    return Num(ONE if name[0] == "T" else ZERO, "b")
        if name == "LinAlgError":
            return ExcClass("LinAlgError")
        if name == "AxisError":
            return ExcClass("AxisError")
        if m.path.startswith("numpy.finfo()"):
            f = {"eps": 2.0 ** -52, "tiny": 2.0 ** -1022, "max": 1.7976931348623157e308, "min": -1.7976931348623157e308}
            if name in f:
                return Num(P(Fraction(f[name])), "f")
            return Opq("finfo")
        if path in ("sys.version_info", "sys.argv", "sys.modules", "sys.path", "os.environ"):
            return Opq(path)
        if path == "sys.maxsize":
            return Num(P(2 ** 63 - 1), "i", True)
        if path == "sys.float_info":
            return Ext("numpy.finfo()")
        if path.endswith(".__version__"):
            return Str(None)
        if name == "__name__":
            return Str(m.path)
        return Ext(path)

    def const(self, name):
        v = self.CONSTS[name]
        if math.isinf(v) or math.isnan(v):
            return self.it.py.constant(v)
        return Num(P1(T.atom("sym", ("const " + {"infty": "inf"}.get(name, name),), nn=True, pos=True)), "f", True)

    def call_ext(self, st, path, args, kw, node):
        it = self.it
        top, _, rest = path.partition(".")
        if top == "numpy":
            return self.call(st, rest, args, kw, node)
        if top == "scipy":
            if rest.startswith("special.") or rest.startswith("linalg."):
                return self.call(st, rest, args, kw, node)
            return self.call(st, rest, args, kw, node)
        return it.py.std_call(st, path, args, kw, node)

    def call(self, st, name, args, kw, node):
        it = self.it
        args = list(args)
        name = ALIAS.get(name, name)
        # alternatives are analysed separately
        for i, v in enumerate(args):
            if isinstance(v, Choice):
                return it.choice_map(st, v, lambda s, x: self.call(s, name, args[:i] + [x] + args[i + 1:], kw, node))
        for k, v in kw.items():
            if isinstance(v, Choice):
                return it.choice_map(st, v, lambda s, x: self.call(s, name, args, dict(kw, **{k: x}), node))
        kw = dict(kw)
        out = kw.pop("out", None)
        if out is not None and isinstance(out, Tup) and len(out.items) == 1:
            out = out.items[0]
        if isinstance(out, NoneT):
            out = None
        where = kw.pop("where", None) if name != "where" else None
        for k in ("casting", "order", "subok", "like"):
            kw.pop(k, None)
        if name == "copy" or True:
            pass
        try:
            if where is not None and not (isinstance(where, Num) and where.p is ONE):
                return self.where_call(st, name, args, kw, out, where, node)
            r = self.dispatch(st, name, args, kw, node)
        except Unsup as e:
            r = it.note("numpy %s: %s" % (name, e))
        except T.TooBig:
            r = it.note("numpy %s: too big" % name)
        if out is not None:
            if isinstance(out, Arr):
                self.setitem(st, out, ELL, r, node)
            return out
        return r

    def where_call(self, st, name, args, kw, out, where, node):
        it = self.it
        if (name in BINARY or name in UNARY) and isinstance(out, Arr):
            n0 = len(it.events)
            r = self.dispatch(st, name, args, kw, node)
            w = self.broadcast_to(st, self.ac(st, where), out.shape, node)
            cond = truthp(w.at([P1(v) for v in out.vars]))
            for e in it.events[n0:]:
                if e["kind"] == "div":
                    e["cond"] = cond
            b = self.broadcast_to(st, self.ac(st, r), out.shape, node)
            it.write(st, out, AC(out.shape, out.vars, b.at([P1(v) for v in out.vars]), b.dt), node, cond)
            return out
        if name in ("sum", "mean", "max", "min"):
            raise Unsup("where argument")
        raise Unsup("where argument")

    def dispatch(self, st, name, args, kw, node):
        it = self.it
        if any(isinstance(v, Opq) for v in args):
            if name in self.INPLACE:
                for v in args:
                    it.havoc_value(st, v, "unknown argument")
            if name.startswith("random."):
                self.random_unknown(st, name)
            return [v for v in args if isinstance(v, Opq)][0]
        if name in BINARY:
            kw.pop("dtype", None)
            if len(args) != 2:
                it.raise_(st, "TypeError", node)
            return self.elementwise(st, BINARY[name], args, node)
        if name in UNARY:
            d = self.dtype(st, kw.pop("dtype", None), node)
            if len(args) != 1:
                it.raise_(st, "TypeError", node)
            v = args[0]
            if d == "f":
                v = self.astype(st, v, "f", node)
            return self.elementwise(st, name, [v], node)
        parts = name.split(".")
        if len(parts) == 2 and parts[0] in BINARY and parts[1] in ("reduce", "outer", "accumulate"):
            return self.ufunc_method(st, parts[0], parts[1], args, kw, node)
        f = getattr(self, "f_" + name.replace(".", "_"), None)
        if f is None:
            if name in self.INPLACE:
                for v in args:
                    it.havoc_value(st, v, "unknown numpy function")
            if name.startswith("random."):
                self.random_unknown(st, name)
            return it.note("numpy function " + name)
        return f(st, args, kw, node)

    INPLACE = {"put", "copyto", "place", "putmask", "fill_diagonal", "random.shuffle", "put_along_axis"}

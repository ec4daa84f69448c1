"""NumPy functions on abstract contents (mixin of npmodel.NP)."""
import itertools
from functools import reduce
from fractions import Fraction
import terms as T
from terms import P, P1, ONE, ZERO, Poly
from values import *


def _unsup(s):
    import npmodel
    return npmodel.Unsup(s)


def _truthp(p):
    import npmodel
    return npmodel.truthp(p)


class Funcs:
    def bind(self, st, args, kw, names, node, req=1):
        out = list(args) + [None] * (len(names) - len(args))
        if len(args) > len(names):
            raise _unsup("arguments")
        for k, v in kw.items():
            if k not in names:
                raise _unsup("argument " + k)
            out[names.index(k)] = v
        for i in range(req):
            if out[i] is None:
                self.it.raise_(st, "TypeError", node)
        return out

    def axis_of(self, v, rank):
        """axis number, tuple of numbers or None"""
        if v is None or isinstance(v, NoneT):
            return None
        if isinstance(v, Tup):
            return tuple(self.axis_of(x, rank) for x in v.items)
        if not isinstance(v, Num) or not isinstance(v.p.const, int):
            raise _unsup("axis")
        c = v.p.const
        if c < -rank or c >= rank:
            raise _unsup("axis out of range")
        return c % rank

    def flag_of(self, v, default):
        if v is None:
            return default
        if isinstance(v, Num) and v.p in (ONE, ZERO):
            return v.p is ONE
        raise _unsup("option")

    def val(self, st, v, node):
        """content used in arithmetic"""
        a = self.ac(st, v)
        self.use(st, a, node)
        if a.conv:
            a = AC(a.shape, a.vars, a.body, a.dt, a.taint, None, a.mask)
        return self.fresh_vars(a)

    def out(self, st, a):
        return self.it.alloc(st, a)

    # ------------------------------------------------------------------------------------------------ creation
    def shape_arg(self, st, v, node):
        it = self.it
        if isinstance(v, Num):
            if v.dt == "f":
                it.raise_(st, "TypeError", node)
            return (v.p,)
        if isinstance(v, (Tup, ListRef)):
            seq = it.iterate(st, v, node)
            if seq is None or seq.items is None or not all(isinstance(x, Num) for x in seq.items):
                raise _unsup("shape")
            for x in seq.items:
                if x.dt == "f":
                    it.raise_(st, "TypeError", node)
            return tuple(x.p for x in seq.items)
        if isinstance(v, (NoneT, Str, SymStr)):
            it.raise_(st, "TypeError", node)
        raise _unsup("shape")

    def filled(self, st, shape, body, dt):
        vs = [T.new_var(s) for s in shape]
        if callable(body):
            body = body([P1(v) for v in vs])
        elif isinstance(dt, Narrow):
            body = T.round32(P(body))
        r = self.it.alloc(st, AC(shape, vs, body, dt))
        if not shape:
            rid = self.it.fresh()
            st.cells[("r", rid)] = ArrD((), (), P(body), dt)
            self.it.owner[rid] = "fresh"
            return Arr(rid, (), (), ())
        return r

    def neg_shape(self, st, shape, node):
        for s in shape:
            if not T.prove_ge(s):
                self.it.may_raise(st, ONE - T.ge(s), "ValueError", node)

    def f_zeros(self, st, a, kw, node, fill=ZERO):
        sh, dt = self.bind(st, a, kw, ["shape", "dtype"], node)
        sh = self.shape_arg(st, sh, node)
        self.neg_shape(st, sh, node)
        return self.filled(st, sh, fill, self.dtype(st, dt, node) or "f")

    def f_ones(self, st, a, kw, node):
        return self.f_zeros(st, a, kw, node, ONE)

    def f_empty(self, st, a, kw, node):
        sh, dt = self.bind(st, a, kw, ["shape", "dtype"], node)
        sh = self.shape_arg(st, sh, node)
        self.neg_shape(st, sh, node)
        self.it.event("uninit", st, node)
        return self.filled(st, sh, lambda ix: T.opaque("uninitialised memory", tuple(ix)), self.dtype(st, dt, node) or "f")

    def f_full(self, st, a, kw, node):
        sh, v, dt = self.bind(st, a, kw, ["shape", "fill_value", "dtype"], node, 2)
        sh = self.shape_arg(st, sh, node)
        x = self.ac(st, v)
        d = self.dtype(st, dt, node) or x.dt
        if x.rank:
            x = self.broadcast_to(st, x, sh, node)
            return self.out(st, AC(x.shape, x.vars, x.body, d))
        return self.filled(st, sh, x.body, d)

    def _like(self, st, a, kw, node, fill):
        v, dt, shp = self.bind(st, a, kw, ["a", "dtype", "shape"], node)
        x = self.ac(st, v)
        sh = x.shape if shp is None else self.shape_arg(st, shp, node)
        d = self.dtype(st, dt, node) or x.dt
        return self.filled(st, sh, fill, d)

    def f_zeros_like(self, st, a, kw, node):
        return self._like(st, a, kw, node, ZERO)

    def f_ones_like(self, st, a, kw, node):
        return self._like(st, a, kw, node, ONE)

    def f_empty_like(self, st, a, kw, node):
        return self._like(st, a, kw, node, lambda ix: T.opaque("uninitialised memory", tuple(ix)))

    def f_full_like(self, st, a, kw, node):
        v, f, dt = self.bind(st, a, kw, ["a", "fill_value", "dtype"], node, 2)
        x = self.ac(st, v)
        y = self.ac(st, f)
        d = self.dtype(st, dt, node) or x.dt
        if y.rank:
            raise _unsup("full_like")
        body = y.body
        if d == "i" and y.dt == "f":
            body = T.trunc(body)
        if d in "cC" and y.dt == "f":
            self.it.event("narrow", st, node, what="float stored in an array of the caller's type")
        return self.filled(st, x.shape, body, d)

    def f_identity(self, st, a, kw, node):
        n, dt = self.bind(st, a, kw, ["n", "dtype"], node)
        n = self.shape_arg(st, n, node)[0]
        return self.filled(st, (n, n), lambda ix: T.eq(ix[0] - ix[1]), self.dtype(st, dt, node) or "f")

    def f_eye(self, st, a, kw, node):
        n, m, k, dt = self.bind(st, a, kw, ["N", "M", "k", "dtype"], node)
        n = self.shape_arg(st, n, node)[0]
        m = n if m is None or isinstance(m, NoneT) else self.shape_arg(st, m, node)[0]
        off = ZERO if k is None else k.p
        return self.filled(st, (n, m), lambda ix: T.eq(ix[0] + off - ix[1]), self.dtype(st, dt, node) or "f")

    def f_arange(self, st, a, kw, node):
        lo, hi, step, dt = self.bind(st, a, kw, ["start", "stop", "step", "dtype"], node)
        if not all(x is None or isinstance(x, (Num, NoneT)) for x in (lo, hi, step)):
            raise _unsup("arange")
        if hi is None or isinstance(hi, NoneT):
            lo, hi = Num(ZERO, "i", True), lo
        s = step.p if isinstance(step, Num) else ONE
        d = self.dtype(st, dt, node) or ("f" if any(isinstance(x, Num) and x.dt == "f" for x in (lo, hi, step)) else "i")
        n = hi.p - lo.p
        if s is not ONE:
            if s.const is None:
                raise _unsup("arange step")
            n = T.neg(T.floor(T.neg(T.mul(n, T.power(s, -1)))))
        elif not n.is_int:
            n = T.neg(T.floor(T.neg(n)))
        if not T.prove_ge(n):
            n = T.maxf(n, ZERO)
        return self.filled(st, (n,), lambda ix: lo.p + T.mul(s, ix[0]), d)

    def f_linspace(self, st, a, kw, node):
        lo, hi, num, end, ret, dt = self.bind(st, a, kw, ["start", "stop", "num", "endpoint", "retstep", "dtype"], node, 2)
        n = P(50) if num is None else num.p
        if not isinstance(lo, Num) or not isinstance(hi, Num):
            raise _unsup("linspace")
        k = n - 1 if self.flag_of(end, True) else n
        return self.filled(st, (n,), lambda ix: lo.p + T.mul(T.mul(hi.p - lo.p, T.power(k, -1)), ix[0]), "f")

    def f_array(self, st, a, kw, node, alias=False):
        it = self.it
        kw.pop("ndmin", None) if isinstance(kw.get("ndmin"), Num) and kw["ndmin"].p is ZERO else None
        v, dt, cp = self.bind(st, a, kw, ["object", "dtype", "copy"], node)
        if "a" in kw and v is None:
            v = kw["a"]
        if cp is not None and not alias:
            if isinstance(cp, NoneT) or not self.flag_of(cp, True):
                alias = True
        return self.convert(st, v, self.dtype(st, dt, node), node, alias)

    def convert(self, st, v, d, node, alias=False):
        """array from a value, converted to storage class d"""
        it = self.it
        if isinstance(v, (Str, SymStr)):
            if d in ("f", "i"):
                if isinstance(v, SymStr):
                    it.may_raise(st, T.flag("float", "ValueError", v.name), "ValueError", node)
                    return Num(T.sym("float(%s)" % v.name), d)
                try:
                    return Num(P(float(v.s)), d)
                except (TypeError, ValueError):
                    it.raise_(st, "ValueError", node)
            raise _unsup("array of a string")
        if isinstance(v, NoneT):
            if d in ("f",):
                return Num(T.sym("float nan", opq=True), "f")
            raise _unsup("array of None")
        if isinstance(v, AnyV):
            if d in ("f", "i"):
                return it.py.convert(st, v, node, "float" if d == "f" else "int")
            raise _unsup("array of an arbitrary object")
        if isinstance(v, Obj) or isinstance(v, DictRef):
            if d in ("f", "i"):
                it.raise_(st, "TypeError", node)
            raise _unsup("array of an object")
        x = self.ac(st, v)
        src = None
        if isinstance(v, Arr) and not v.lst:
            src = st.cells.get(("r", v.rid))
            if alias and (d is None or d == x.dt and isinstance(d, Narrow) == isinstance(x.dt, Narrow)):
                return v
        if isinstance(v, Masked) and (d is None or d == x.dt):
            return v
        conv, body, dt = x.conv, x.body, x.dt
        if d is not None and d != "o":
            if conv:
                it.may_raise(st, conv[0], "ValueError", node)
                it.may_raise(st, conv[1], "TypeError", node)
            conv = None
            body, dt = self.cast(st, body, dt, d, node)
        taint = frozenset()
        if alias and isinstance(v, Arr) and not v.lst and x.dt in ("c", "C") and d == "f":
            taint = frozenset([v.rid]) | x.taint
        r = AC(x.shape, x.vars, body, dt, taint, conv, x.mask)
        if not x.shape:
            return Num(body, dt) if not isinstance(v, Arr) or True else None
        return it.alloc(st, r)

    def cast(self, st, body, dt, d, node):
        if isinstance(d, Narrow) and not isinstance(dt, Narrow):
            return T.round32(body), d
        if d == dt:
            return body, d
        if d == "i" and dt in ("f", "c", "C"):
            if not body.is_int:
                self.it.event("truncate", st, node, rid=None)
                return T.trunc(body), "i"
        if d == "b":
            return _truthp(body), "b"
        if d in ("c", "C") and dt == "f":
            self.it.event("narrow", st, node, what="float converted to the caller's type")
        return body, d

    def astype(self, st, v, d, node):
        if isinstance(v, Num):
            return Num(self.cast(st, v.p, v.dt, d, node)[0], d)
        return self.convert(st, v, d, node)

    def f_astype(self, st, a, kw, node):
        v, dt, cp = self.bind(st, a, kw, ["a", "dtype", "copy"], node, 2)
        d = self.dtype(st, dt, node)
        if isinstance(v, Num):
            return Num(self.cast(st, v.p, v.dt, d, node)[0], d)
        return self.convert(st, v, d, node, alias=cp is not None and not self.flag_of(cp, True))

    def f_asarray(self, st, a, kw, node):
        return self.f_array(st, a, kw, node, True)

    def f_ascontiguousarray(self, st, a, kw, node):
        return self.f_array(st, a, kw, node, True)

    f_asfortranarray = f_ascontiguousarray
    f_require = f_ascontiguousarray

    def f_asarray_chkfinite(self, st, a, kw, node):
        return self.f_array(st, a, kw, node, True)

    def f_copy(self, st, a, kw, node):
        v, = self.bind(st, a, kw, ["a"], node)
        return self.convert(st, v, None, node)

    def f_fromiter(self, st, a, kw, node):
        v, dt, n = self.bind(st, a, kw, ["iter", "dtype", "count"], node, 2)
        return self.convert(st, v, self.dtype(st, dt, node), node)

    def f_float64(self, st, a, kw, node):
        return self.scalar_type(st, "float64", a, node)

    def f_dtype(self, st, a, kw, node):
        return TypeV("dtype:" + (self.dtype(st, a[0], node) or "f"))

    def f_diag(self, st, a, kw, node):
        v, k = self.bind(st, a, kw, ["v", "k"], node)
        x = self.val(st, v, node)
        if k is not None and k.p is not ZERO:
            raise _unsup("diagonal offset")
        if x.rank == 1:
            return self.filled(st, (x.shape[0], x.shape[0]), lambda ix: T.mul(T.eq(ix[0] - ix[1]), x.at([ix[0]])), x.dt)
        if x.rank == 2:
            n = T.minf(x.shape[0], x.shape[1])
            return self.filled(st, (n,), lambda ix: x.at([ix[0], ix[0]]), x.dt)
        raise _unsup("diag")

    def f_diagflat(self, st, a, kw, node):
        return self.f_diag(st, a, kw, node)

    def f_diagonal(self, st, a, kw, node):
        v, = self.bind(st, a[:1], kw, ["a"], node)
        x = self.val(st, v, node)
        if x.rank != 2:
            raise _unsup("diagonal")
        n = T.minf(x.shape[0], x.shape[1])
        return self.filled(st, (n,), lambda ix: x.at([ix[0], ix[0]]), x.dt)

    # ------------------------------------------------------------------------------------------------ reductions
    def reduce_axes(self, x, axis):
        ax = self.axis_of(axis, x.rank)
        if ax is None:
            axes = list(range(x.rank))
        elif isinstance(ax, tuple):
            axes = list(ax)
        else:
            axes = [ax]
        return axes

    def _reduce(self, st, v, axis, keep, node, f):
        """f(content, axes) -> (body, storage class)"""
        x = self.val(st, v, node)
        axes = self.reduce_axes(x, axis)
        if x.mask is not None and x.mask[0] not in axes:
            rest = None
        T.FACTS[:] = st.facts
        try:
            body, dt = f(x, axes)
        except T.TooBig:
            body, dt = T.opaque("too big", tuple(P1(w) for i, w in enumerate(x.vars) if i not in axes)), "f"
        shape = [s for i, s in enumerate(x.shape) if i not in axes]
        vs = [w for i, w in enumerate(x.vars) if i not in axes]
        mask = None
        if x.mask is not None and x.mask[0] not in axes:
            mask = (len([i for i in range(x.mask[0]) if i not in axes]), x.mask[1])
        if self.flag_of(keep, False):
            shape, vs2, j = [], [], 0
            for i, s in enumerate(x.shape):
                if i in axes:
                    shape.append(ONE)
                    vs2.append(T.new_var(ONE))
                else:
                    shape.append(s)
                    vs2.append(x.vars[i])
            vs = vs2
            if mask is not None:
                mask = x.mask
        return self.out(st, AC(shape, vs, body, dt, frozenset(), None, mask))

    def sum_of(self, x, axes, body=None):
        body = x.body if body is None else body
        if x.mask is not None and x.mask[0] in axes:
            body = T.mul(x.mask[1], body)
        r = T.mksum([x.vars[i] for i in axes], body)
        if body in T.SQUARES and not r.nn:
            self.square_seen(r)
        return r

    def square_seen(self, p):
        """a value that cannot be negative by the way it is computed"""
        T.SQUARES.add(p)
        self.it.event("square", None, None, of=p)

    def count_of(self, x, axes):
        n = ONE
        for i in axes:
            n = T.mul(n, self.masked_dim(x, i))
        return n

    def f_sum(self, st, a, kw, node):
        v, ax, dt, _, keep, ini = self.bind(st, a, kw, ["a", "axis", "dtype", "out", "keepdims", "initial"], node)
        d = self.dtype(st, dt, node)

        def f(x, axes):
            t = {"b": "i", "c": "C"}.get(x.dt, x.dt)
            r = self.sum_of(x, axes)
            if ini is not None:
                r = r + ini.p
            return r, d or t
        return self._reduce(st, v, ax, keep, node, f)

    f_nansum = f_sum

    def f_mean(self, st, a, kw, node):
        v, ax, dt, _, keep = self.bind(st, a, kw, ["a", "axis", "dtype", "out", "keepdims"], node)

        def f(x, axes):
            n = self.count_of(x, axes)
            self.it.event("div", st, node, by=n, count=True)
            return T.mul(self.sum_of(x, axes), T.power(n, -1)), "f"
        return self._reduce(st, v, ax, keep, node, f)

    f_nanmean = f_mean

    def f_average(self, st, a, kw, node):
        v, ax, w = self.bind(st, a, kw, ["a", "axis", "weights"], node)
        if w is None or isinstance(w, NoneT):
            return self.f_mean(st, [v] + ([ax] if ax is not None else []), {}, node)
        p = self.elementwise(st, "Mult", [v, w], node)
        r = self.f_sum(st, [p] + ([ax] if ax is not None else []), {}, node)
        s = self.f_sum(st, [w], {}, node)
        return self.elementwise(st, "Div", [r, s], node)

    def _var(self, st, a, kw, node, root):
        v, ax, dt, _, ddof, keep = self.bind(st, a, kw, ["a", "axis", "dtype", "out", "ddof", "keepdims"], node)

        def f(x, axes):
            n = self.count_of(x, axes)
            m = T.mul(self.sum_of(x, axes), T.power(n, -1))
            d = x.body - m
            s = self.sum_of(x, axes, T.mul(d, d))
            dn = n - (ddof.p if ddof is not None else ZERO)
            if ddof is not None:
                self.it.event("div", st, node, by=dn)
            r = T.mul(s, T.power(dn, -1))
            return (T.sqrt(self.nonneg(r)) if root else r), "f"
        return self._reduce(st, v, ax, keep, node, f)

    def nonneg(self, p):
        return p

    def f_var(self, st, a, kw, node):
        return self._var(st, a, kw, node, False)

    def f_std(self, st, a, kw, node):
        return self._var(st, a, kw, node, True)

    f_nanstd = f_std
    f_nanvar = f_var

    def _minmax(self, st, a, kw, node, which):
        v, ax, _, keep, ini = self.bind(st, a, kw, ["a", "axis", "out", "keepdims", "initial"], node)

        def f(x, axes):
            if x.mask is not None and x.mask[0] in axes:
                raise _unsup("maximum of a selection")
            r = x.body
            for i in axes:
                n = x.shape[i]
                if n.const is not None and n.const <= 8:
                    if n.const == 0:
                        self.it.raise_(st, "ValueError", node)
                    q = None
                    for k in range(int(n.const)):
                        y = T.subst(r, {x.vars[i]: P(k)})
                        q = y if q is None else (T.maxf(q, y) if which == "max" else T.minf(q, y))
                    r = q
                else:
                    r = T.red(which, x.vars[i], r)
            if ini is not None:
                r = T.maxf(r, ini.p) if which == "max" else T.minf(r, ini.p)
            return r, x.dt
        return self._reduce(st, v, ax, keep, node, f)

    def f_max(self, st, a, kw, node):
        return self._minmax(st, a, kw, node, "max")

    def f_min(self, st, a, kw, node):
        return self._minmax(st, a, kw, node, "min")

    f_nanmax = f_max
    f_nanmin = f_min

    def f_ptp(self, st, a, kw, node):
        return self.elementwise(st, "Sub", [self.f_max(st, a, dict(kw), node), self.f_min(st, a, dict(kw), node)], node)

    def f_prod(self, st, a, kw, node):
        v, ax, dt, _, keep = self.bind(st, a, kw, ["a", "axis", "dtype", "out", "keepdims"], node)

        def f(x, axes):
            r = x.body
            if x.mask is not None and x.mask[0] in axes:
                r = T.ite(x.mask[1], r, ONE)
            for i in axes:
                n = x.shape[i]
                if n.const is not None and n.const <= 8:
                    q = ONE
                    for k in range(int(n.const)):
                        q = T.mul(q, T.subst(r, {x.vars[i]: P(k)}))
                    r = q
                else:
                    r = T.red("prod", x.vars[i], r)
            return r, {"b": "i", "c": "C"}.get(x.dt, x.dt)
        return self._reduce(st, v, ax, keep, node, f)

    def f_all(self, st, a, kw, node):
        v, ax, _, keep = self.bind(st, a, kw, ["a", "axis", "out", "keepdims"], node)

        def f(x, axes):
            r = _truthp(x.body)
            if x.mask is not None and x.mask[0] in axes:
                r = T.ite(x.mask[1], r, ONE)
            return self.quant(x, axes, r, True), "b"
        return self._reduce(st, v, ax, keep, node, f)

    def f_any(self, st, a, kw, node):
        v, ax, _, keep = self.bind(st, a, kw, ["a", "axis", "out", "keepdims"], node)

        def f(x, axes):
            r = _truthp(x.body)
            if x.mask is not None and x.mask[0] in axes:
                r = T.mul(x.mask[1], r)
            return self.quant(x, axes, r, False), "b"
        return self._reduce(st, v, ax, keep, node, f)

    def quant(self, x, axes, r, univ):
        """a quantifier over conditions is an uninterpreted boolean of the condition"""
        for i in axes:
            if x.vars[i] not in r.leaf:
                continue
            n = x.shape[i]
            if n.const is not None and n.const <= 8:
                q = ONE if univ else ZERO
                for k in range(int(n.const)):
                    y = T.subst(r, {x.vars[i]: P(k)})
                    q = T.mul(q, y) if univ else T.lor(q, y)
                r = q
                continue
            b = r if not univ else ONE - r
            s = T.mksum([x.vars[i]], b)      # number of elements
            e = T.ge(s - 1)
            r = ONE - e if univ else e
        return r

    def f_count_nonzero(self, st, a, kw, node):
        v, ax, keep = self.bind(st, a, kw, ["a", "axis", "keepdims"], node)
        return self._reduce(st, v, ax, keep, node, lambda x, axes: (self.sum_of(x, axes, _truthp(x.body)), "i"))

    def _arg(self, st, a, kw, node, name):
        v, ax, _, keep = self.bind(st, a, kw, ["a", "axis", "out", "keepdims"], node)
        x = self.val(st, v, node)
        if x.mask is not None:
            raise _unsup(name)
        if x.rank != 1:
            axn = self.axis_of(ax, x.rank)
            if axn is None or isinstance(axn, tuple):
                raise _unsup(name)
        else:
            axn = 0
        l = T.lam((x.shape[axn],), [x.vars[axn].args[0]], x.body)
        body = T.fa(name, (l,), (), is_int=True, nn=True)
        shape = [s for i, s in enumerate(x.shape) if i != axn]
        vs = [w for i, w in enumerate(x.vars) if i != axn]
        return self.out(st, AC(shape, vs, body, "i"))

    def f_argmax(self, st, a, kw, node):
        return self._arg(st, a, kw, node, "argmax")

    def f_argmin(self, st, a, kw, node):
        return self._arg(st, a, kw, node, "argmin")

    def _opaque_reduce(self, st, a, kw, node, name):
        if len(a) > 1 or kw:
            raise _unsup(name)
        x = self.val(st, a[0], node)
        if x.mask is not None:
            raise _unsup(name)
        return Num(T.fa(name, (self.lam_of(x),), ()), "f")

    def f_median(self, st, a, kw, node):
        v, ax = self.bind(st, a, dict(kw), ["a", "axis"], node) if set(kw) <= {"a", "axis"} else (None, None)
        if v is None or isinstance(v, Masked):
            return self._opaque_reduce(st, a, kw, node, "median")
        if ax is None or isinstance(ax, NoneT):
            v, ax = self.f_ravel(st, [v], {}, node), Num(ZERO, "i", True)
        x = self.fresh_vars(self.ac(st, self.f_sort(st, [v, ax], {}, node)))
        axn = self.axis_of(ax, x.rank)
        w, n = x.vars[axn], x.shape[axn]
        lo, hi = T.floor(T.scale(n - 1, Fraction(1, 2))), T.floor(T.scale(n, Fraction(1, 2)))
        body = T.scale(T.subst(x.body, {w: lo}) + T.subst(x.body, {w: hi}), Fraction(1, 2))
        vs, sh = list(x.vars), list(x.shape)
        del vs[axn], sh[axn]
        if not vs:
            return Num(body, "f")
        return self.out(st, AC(tuple(sh), tuple(vs), body, "f"))

    def f_cumsum(self, st, a, kw, node):
        v, ax = self.bind(st, a, kw, ["a", "axis"], node)
        x = self.val(st, v, node)
        axn = self.axis_of(ax, x.rank)
        if axn is None:
            if x.rank != 1:
                raise _unsup("cumsum")
            axn = 0
        if x.mask is not None:
            raise _unsup("cumsum")
        k = T.new_var(P1(x.vars[axn]) + 1)
        body = T.mksum([k], T.subst(x.body, {x.vars[axn]: P1(k)}))
        return self.out(st, AC(x.shape, x.vars, body, {"b": "i", "c": "C"}.get(x.dt, x.dt)))

    def ufunc_method(self, st, uf, m, args, kw, node):
        if m == "outer":
            x, y = self.val(st, args[0], node), self.val(st, args[1], node)
            a = self.out(st, AC(x.shape + (ONE,) * y.rank, x.vars + tuple(T.new_var(ONE) for _ in y.shape), x.body, x.dt))
            return self.call(st, uf, [a, args[1]], {}, node)
        f = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_and": "all", "logical_or": "any"}.get(uf)
        if f is None or m != "reduce":
            raise _unsup("ufunc method")
        kw = dict(kw)
        if len(args) < 2 and "axis" not in kw:
            kw["axis"] = Num(ZERO, "i", True)
        return self.call(st, f, args, kw, node)

    # ------------------------------------------------------------------------------------------------ products
    def prod_dt(self, st, x, y, node, what):
        dt = self.rdt([(x.dt, False), (y.dt, False)])
        self.narrow(st, dt, what, node)
        return "i" if dt == "b" else dt

    def f_dot(self, st, a, kw, node, matmul=False):
        it = self.it
        u, v = self.bind(st, a, kw, ["a", "b"], node, 2)
        x, y = self.val(st, u, node), self.val(st, v, node)
        if x.mask is not None or y.mask is not None:
            return self.masked_dot(st, x, y, node)
        if x.rank == 0 or y.rank == 0:
            if matmul:
                it.raise_(st, "ValueError", node)
            return self.elementwise(st, "Mult", [u, v], node)
        ca = x.rank - 1
        cb = 0 if y.rank == 1 else y.rank - 2
        n, m = x.shape[ca], y.shape[cb]
        if not self.same_dim(n, m):
            it.may_raise(st, ONE - T.eq(n - m), "ValueError", node)
        dt = self.prod_dt(st, x, y, node, "product")
        T.FACTS[:] = st.facts
        if matmul and (x.rank > 2 or y.rank > 2):
            if x.rank == y.rank == 3:
                k = x.vars[2]
                b = T.subst(y.body, {y.vars[1]: P1(k), y.vars[0]: P1(x.vars[0])})
                return self.out(st, AC((x.shape[0], x.shape[1], y.shape[2]), (x.vars[0], x.vars[1], y.vars[2]),
                                       T.mksum([k], T.mul(x.body, b)), dt))
            if y.rank == 1 or y.rank == 2:
                pass
            else:
                raise _unsup("stacked matrix product")
        k = x.vars[ca]
        b = T.subst(y.body, {y.vars[cb]: P1(k)})
        try:
            body = T.mksum([k], T.mul(x.body, b))
            if x.rank == y.rank == 1 and b is x.body and not body.nn:
                self.square_seen(body)
            elif x.rank == y.rank == 2 and T.subst(x.body, {x.vars[0]: P1(y.vars[1])}) is b:
                it.event("gram", st, node, matrix=T.fa("matrix", (T.lam((x.shape[0], y.shape[1]), [x.vars[0].args[0], y.vars[1].args[0]], body),), ()))
        except T.TooBig:
            body = T.opaque("too big", tuple(P1(w) for w in x.vars[:ca] + y.vars[:cb] + y.vars[cb + 1:]))
        shape = x.shape[:ca] + y.shape[:cb] + y.shape[cb + 1:]
        vs = x.vars[:ca] + y.vars[:cb] + y.vars[cb + 1:]
        return self.out(st, AC(shape, vs, body, dt))

    def masked_dot(self, st, x, y, node):
        """products that sum over the same selection"""
        ca = x.rank - 1
        cb = 0 if y.rank == 1 else y.rank - 2
        dt = self.prod_dt(st, x, y, node, "product")
        k = x.vars[ca]
        yb = T.subst(y.body, {y.vars[cb]: P1(k)})
        masks = []
        mask = None
        if x.mask is not None:
            if x.mask[0] == ca:
                masks.append(x.mask[1])
            else:
                mask = x.mask
        if y.mask is not None:
            ym = T.subst(y.mask[1], {y.vars[cb]: P1(k)})
            if y.mask[0] == cb:
                masks.append(ym)
            else:
                raise _unsup("selection in a product")
        if len(masks) == 2 and masks[0] is not masks[1]:
            raise _unsup("different selections in a product")
        if len(masks) == 1 and (x.mask is None or x.mask[0] != ca or y.mask is None or y.mask[0] != cb):
            raise _unsup("selection and whole array in a product")
        body = T.mul(x.body, yb)
        if masks:
            body = T.mul(masks[0], body)
        body = T.mksum([k], body)
        shape = x.shape[:ca] + y.shape[:cb] + y.shape[cb + 1:]
        vs = x.vars[:ca] + y.vars[:cb] + y.vars[cb + 1:]
        return self.out(st, AC(shape, vs, body, dt, frozenset(), None, mask))

    def f_matmul(self, st, a, kw, node):
        return self.f_dot(st, a, kw, node, True)

    def f_vdot(self, st, a, kw, node):
        u, v = self.bind(st, a, kw, ["a", "b"], node, 2)
        if isinstance(u, Num) and isinstance(v, Num):
            return self.elementwise(st, "Mult", [u, v], node)
        x, y = self.f_ravel(st, [u], {}, node), self.f_ravel(st, [v], {}, node)
        return self.f_dot(st, [x, y], {}, node)

    def f_inner(self, st, a, kw, node):
        u, v = self.bind(st, a, kw, ["a", "b"], node, 2)
        if isinstance(v, Arr) and len(v.shape) == 2:
            v = self.f_transpose(st, [v], {}, node)
        return self.f_dot(st, [u, v], {}, node)

    def f_outer(self, st, a, kw, node):
        u, v = self.bind(st, a, kw, ["a", "b"], node, 2)
        x, y = [self.val(st, w if isinstance(w, Num) else self.f_ravel(st, [w], {}, node), node) for w in (u, v)]
        dt = self.prod_dt(st, x, y, node, "product")
        if x.rank == 0:
            x = AC((ONE,), (T.new_var(ONE),), x.body, x.dt)
        if y.rank == 0:
            y = AC((ONE,), (T.new_var(ONE),), y.body, y.dt)
        if x.mask is not None or y.mask is not None:
            raise _unsup("outer product of a selection")
        return self.out(st, AC(x.shape + y.shape, x.vars + y.vars, T.mul(x.body, y.body), dt))

    def f_tensordot(self, st, a, kw, node):
        u, v, ax = self.bind(st, a, kw, ["a", "b", "axes"], node, 2)
        x, y = self.val(st, u, node), self.val(st, v, node)
        if x.mask is not None or y.mask is not None:
            raise _unsup("tensordot")
        if ax is None:
            xs, ys = list(range(x.rank))[-2:], [0, 1]
        elif isinstance(ax, Num) and isinstance(ax.p.const, int):
            n = ax.p.const
            xs, ys = list(range(x.rank - n, x.rank)), list(range(n))
        else:
            seq = self.it.iterate(st, ax, node)
            if seq is None or seq.items is None or len(seq.items) != 2:
                raise _unsup("tensordot axes")
            def lst(q, r):
                if isinstance(q, Num):
                    return [self.axis_of(q, r)]
                s = self.it.iterate(st, q, node)
                return [self.axis_of(w, r) for w in s.items]
            xs, ys = lst(seq.items[0], x.rank), lst(seq.items[1], y.rank)
        m = {}
        for i, j in zip(xs, ys):
            if not self.same_dim(x.shape[i], y.shape[j]):
                self.it.may_raise(st, ONE - T.eq(x.shape[i] - y.shape[j]), "ValueError", node)
            m[y.vars[j]] = P1(x.vars[i])
        body = T.mksum([x.vars[i] for i in xs], T.mul(x.body, T.subst(y.body, m)))
        rx = [i for i in range(x.rank) if i not in xs]
        ry = [j for j in range(y.rank) if j not in ys]
        return self.out(st, AC([x.shape[i] for i in rx] + [y.shape[j] for j in ry], [x.vars[i] for i in rx] + [y.vars[j] for j in ry],
                               body, self.prod_dt(st, x, y, node, "product")))

    def f_einsum(self, st, a, kw, node):
        kw.pop("optimize", None)
        if kw or not a or not isinstance(a[0], Str) or a[0].s is None or "." in a[0].s:
            raise _unsup("einsum")
        spec = a[0].s.replace(" ", "")
        ins, arrow, out = spec.partition("->")
        ins = ins.split(",")
        if not arrow:
            cnt = "".join(ins)
            out = "".join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
        if len(ins) != len(a) - 1:
            self.it.raise_(st, "ValueError", node)
        var, dims, body, dts = {}, {}, ONE, []
        for s, v in zip(ins, a[1:]):
            x = self.val(st, v, node)
            if x.mask is not None or len(s) != x.rank:
                raise _unsup("einsum operand")
            m = {}
            for c, w, n in zip(s, x.vars, x.shape):
                if c in var:
                    if not self.same_dim(dims[c], n):
                        if dims[c] is ONE or n is ONE:
                            raise _unsup("einsum broadcasting")
                        self.it.may_raise(st, ONE - T.eq(dims[c] - n), "ValueError", node)
                    m[w] = P1(var[c])
                else:
                    var[c], dims[c] = w, n
            body = T.mul(body, T.subst(x.body, m))
            dts.append((x.dt, False))
        dt = self.rdt(dts)
        if len(dts) > 1 or any(c not in out for c in var):
            self.narrow(st, dt, "einsum", node)
        body = T.mksum([var[c] for c in var if c not in out], body)
        return self.out(st, AC([dims[c] for c in out], [var[c] for c in out], body, dt))

    def f_trace(self, st, a, kw, node):
        v, = self.bind(st, a, kw, ["a"], node)
        x = self.val(st, v, node)
        if x.rank != 2 or x.mask is not None:
            raise _unsup("trace")
        return Num(T.mksum([x.vars[0]], T.subst(x.body, {x.vars[1]: P1(x.vars[0])})), x.dt)

    def f_linalg_multi_dot(self, st, a, kw, node):
        seq = self.it.iterate(st, a[0], node)
        if seq is None or seq.items is None:
            raise _unsup("multi_dot")
        r = seq.items[0]
        for x in seq.items[1:]:
            r = self.f_dot(st, [r, x], {}, node)
        return r

    def f_linalg_norm(self, st, a, kw, node):
        v, o, ax, keep = self.bind(st, a, kw, ["x", "ord", "axis", "keepdims"], node)
        x = self.val(st, v, node)
        p = 2
        if o is not None and not isinstance(o, NoneT):
            inf = T.P1(T.atom("sym", ("float inf",), opq=True))
            if isinstance(o, Num) and (o.p.const in (1, 2) or o.p is inf or o.p is T.neg(inf)):
                p = o.p.const
                if x.rank != 1 and (ax is None or not isinstance(ax, Num)):
                    raise _unsup("matrix norm")
                if p is None:
                    a = self.elementwise(st, "absolute", [v], node)
                    kk = {"keepdims": keep} if keep is not None else {}
                    return (self.f_max if o.p is inf else self.f_min)(st, [a] + ([ax] if ax is not None else []), kk, node)
            elif isinstance(o, Str) and o.s == "fro":
                p = 2
            else:
                raise _unsup("norm")

        def f(y, axes):
            if p == 1:
                return self.sum_of(y, axes, T.absf(y.body)), "f"
            return T.sqrt(self.sum_of(y, axes, T.mul(y.body, y.body))), "f"
        return self._reduce(st, v, ax, keep, node, f)

    def square(self, st, v, node, name):
        x = self.val(st, v, node)
        if x.rank != 2 or x.mask is not None:
            if x.rank < 2 and x.mask is None:
                self.it.raise_(st, "LinAlgError", node)
            raise _unsup(name)
        if not self.same_dim(x.shape[0], x.shape[1]):
            self.it.may_raise(st, ONE - T.eq(x.shape[0] - x.shape[1]), "LinAlgError", node)
        return x

    def inv_of(self, st, x, node, kind="inv"):
        """entries of the inverse of content x"""
        l = self.lam_of(x)
        self.it.event("solve", st, node, matrix=T.fa("matrix", (l,), ()), how=kind)
        # a multiple of the identity
        i, j = P1(x.vars[0]), P1(x.vars[1])
        return lambda p, q: T.fa(kind, (l,), (p, q))

    def f_linalg_inv(self, st, a, kw, node):
        v, = self.bind(st, a[:1], kw if "a" in kw else {}, ["a"], node)
        x = self.square(st, v, node, "inv")
        f = self.inv_of(st, x, node)
        return self.filled(st, x.shape, lambda ix: f(ix[0], ix[1]), "f")

    def f_linalg_pinv(self, st, a, kw, node):
        v, = self.bind(st, a[:1], {}, ["a"], node)
        x = self.val(st, v, node)
        if x.rank != 2 or x.mask is not None:
            raise _unsup("pinv")
        l = self.lam_of(x)
        if self.same_dim(x.shape[0], x.shape[1]):       # of a regular matrix it is the inverse
            return self.filled(st, x.shape, lambda ix: T.fa("inv", (l,), (ix[0], ix[1])), "f")
        return self.filled(st, (x.shape[1], x.shape[0]), lambda ix: T.fa("pinv", (l,), (ix[0], ix[1])), "f")

    def f_linalg_solve(self, st, a, kw, node):
        kw.pop("assume_a", None)
        kw.pop("check_finite", None)
        u, v = self.bind(st, a, kw, ["a", "b"], node, 2)
        x = self.square(st, u, node, "solve")
        y = self.val(st, v, node)
        if y.mask is not None or y.rank not in (1, 2):
            raise _unsup("solve")
        if not self.same_dim(x.shape[1], y.shape[0]):
            self.it.may_raise(st, ONE - T.eq(x.shape[1] - y.shape[0]), "ValueError", node)
        f = self.inv_of(st, x, node)
        k = y.vars[0]
        w = T.new_var(x.shape[0])
        body = T.mksum([k], T.mul(f(P1(w), P1(k)), y.body))
        return self.out(st, AC((x.shape[0],) + y.shape[1:], (w,) + y.vars[1:], body, "f"))

    def f_linalg_det(self, st, a, kw, node):
        x = self.square(st, a[0], node, "det")
        return Num(T.fa("det", (self.lam_of(x),), ()), "f")

    def f_linalg_eig(self, st, a, kw, node):
        x = self.square(st, a[0], node, "eig")
        l = self.lam_of(x)
        n = x.shape[0]
        return Tup([self.filled(st, (n,), lambda ix: T.fa("eigval", (l,), (ix[0],)), "f"),
                    self.filled(st, (n, n), lambda ix: T.fa("eigvec", (l,), (ix[0], ix[1])), "f")])

    def f_linalg_eigh(self, st, a, kw, node):
        x = self.square(st, a[0], node, "eigh")
        l = self.lam_of(x)
        if not T.lam_symmetric(l):
            raise _unsup("eigh of a matrix not known to be symmetric")
        n = x.shape[0]
        vals = T.lam((n,), *self._lamvar(n, lambda k: T.fa("eigval", (l,), (k,))))
        order = lambda k: T.fa("argsort", (vals,), (k,), is_int=True, nn=True)
        return Tup([self.filled(st, (n,), lambda ix: T.fa("sort", (vals,), (ix[0],)), "f"),
                    self.filled(st, (n, n), lambda ix: T.fa("eigvec", (l,), (ix[0], order(ix[1]))), "f")])

    def _lamvar(self, n, f):
        v = T.new_var(n)
        return [v.args[0]], f(P1(v))

    def f_eigvals(self, st, a, kw, node):
        return self.f_linalg_eig(st, a, kw, node).items[0]

    def f_eigvalsh(self, st, a, kw, node):
        return self.f_linalg_eigh(st, a, kw, node).items[0]

    def f_cov(self, st, a, kw, node):
        v, y, rowvar, bias, ddof = self.bind(st, a, kw, ["m", "y", "rowvar", "bias", "ddof"], node)
        if y is not None and not isinstance(y, NoneT):
            raise _unsup("cov")
        x = self.val(st, v, node)
        if x.rank == 1:
            x = AC((ONE,) + x.shape, (T.new_var(ONE),) + x.vars, x.body, x.dt)
        elif x.rank != 2 or x.mask is not None:
            raise _unsup("cov")
        if not self.flag_of(rowvar, True):
            x = AC(x.shape[::-1], x.vars[::-1], x.body, x.dt)
        n = x.shape[1]
        dd = P(0 if self.flag_of(bias, False) else 1)
        if ddof is not None and not isinstance(ddof, NoneT):
            dd = ddof.p
        k = x.vars[1]
        m = T.mul(T.mksum([k], x.body), T.power(n, -1))
        d = x.body - m
        w = T.new_var(x.shape[0])
        e = T.subst(d, {x.vars[0]: P1(w)})
        body = T.mul(T.mksum([k], T.mul(d, e)), T.power(n - dd, -1))
        return self.out(st, AC((x.shape[0], x.shape[0]), (x.vars[0], w), body, "f"))

    # ------------------------------------------------------------------------------------------------ shape
    def f_transpose(self, st, a, kw, node):
        v, axes = self.bind(st, a, kw, ["a", "axes"], node)
        if isinstance(v, Num):
            return v
        if isinstance(v, (ListRef, Tup)) or (isinstance(v, Arr) and v.lst):
            v = self.convert(st, v, None, node)
        masked = isinstance(v, Masked)
        rk = v.ac.rank if masked else len(v.shape)
        if axes is None or isinstance(axes, NoneT):
            perm = list(range(rk))[::-1]
        else:
            seq = self.it.iterate(st, axes, node)
            if seq is None or seq.items is None:
                raise _unsup("transpose axes")
            perm = [self.axis_of(x, rk) for x in seq.items]
        if masked:
            x = v.ac
            return Masked(AC([x.shape[i] for i in perm], [x.vars[i] for i in perm], x.body, x.dt, frozenset(), None,
                             (perm.index(x.mask[0]), x.mask[1])))
        return Arr(v.rid, [v.shape[i] for i in perm], [v.vars[i] for i in perm], v.idx)

    def f_swapaxes(self, st, a, kw, node):
        v, i, j = self.bind(st, a, kw, ["a", "axis1", "axis2"], node, 3)
        rk = self.ac(st, v).rank
        i, j = self.axis_of(i, rk), self.axis_of(j, rk)
        perm = list(range(rk))
        perm[i], perm[j] = perm[j], perm[i]
        return self.f_transpose(st, [v, Tup(Num(P(k), "i", True) for k in perm)], {}, node)

    def f_moveaxis(self, st, a, kw, node):
        v, i, j = self.bind(st, a, kw, ["a", "source", "destination"], node, 3)
        rk = self.ac(st, v).rank
        i, j = self.axis_of(i, rk), self.axis_of(j, rk)
        perm = list(range(rk))
        perm.remove(i)
        perm.insert(j, i)
        return self.f_transpose(st, [v, Tup(Num(P(k), "i", True) for k in perm)], {}, node)

    def asview(self, st, v, node):
        if isinstance(v, Num):
            return self.filled(st, (), v.p, v.dt)
        if isinstance(v, Arr) and not v.lst:
            return v
        if isinstance(v, Masked):
            raise _unsup("reshape of a selection")
        return self.convert(st, v, None, node)

    def f_reshape(self, st, a, kw, node):
        kw.pop("order", None)
        v, shp = self.bind(st, a, {("shape" if k == "newshape" else k): x for k, x in kw.items()}, ["a", "shape"], node, 2)
        v = self.asview(st, v, node)
        new = list(self.shape_arg(st, shp, node))
        old = list(v.shape)
        neg = [i for i, s in enumerate(new) if s.const == -1]
        if len(neg) > 1:
            self.it.raise_(st, "ValueError", node)
        po = ONE
        for s in old:
            po = T.mul(po, s)
        if neg:
            rest = ONE
            for i, s in enumerate(new):
                if i != neg[0]:
                    rest = T.mul(rest, s)
            q = T.mul(po, T.power(rest, -1))
            if not self.dimlike(q):
                # cancel factor by factor
                raise _unsup("reshape")
            new[neg[0]] = q
        pn = ONE
        for s in new:
            pn = T.mul(pn, s)
        if pn is not po:
            self.it.may_raise(st, ONE - T.eq(pn - po), "ValueError", node)
        # match non-unit dimensions in order
        on = [(i, s) for i, s in enumerate(old) if s is not ONE]
        nn = [(i, s) for i, s in enumerate(new) if s is not ONE]
        m = {}
        vs = [T.new_var(s) for s in new]
        for i, s in enumerate(old):
            if s is ONE:
                m[v.vars[i]] = ZERO
        if len(on) == len(nn) and (len(on) == 1 or all(self.same_dim(x[1], y[1]) for x, y in zip(on, nn))):
            for (i, s), (j, t) in zip(on, nn):
                m[v.vars[i]] = P1(vs[j])
        elif len(nn) == 1 and len(on) == 2 and on[1][1].const is not None:
            c = on[1][1]
            q = T.floor(T.scale(P1(vs[nn[0][0]]), Fraction(1, c.const)))
            m[v.vars[on[0][0]]] = q
            m[v.vars[on[1][0]]] = P1(vs[nn[0][0]]) - T.mul(c, q)
        elif len(nn) == 2 and len(on) == 1:
            m[v.vars[on[0][0]]] = T.mul(P1(vs[nn[0][0]]), nn[1][1]) + P1(vs[nn[1][0]])
        elif not nn and len(on) == 0:
            pass
        else:
            raise _unsup("reshape")
        return Arr(v.rid, new, vs, [T.subst(x, m) for x in v.idx])

    def dimlike(self, q):
        return all(e > 0 and isinstance(e, int) for mo, c in q.t for a, e in mo.f) and all(isinstance(c, int) for mo, c in q.t)

    def f_ravel(self, st, a, kw, node):
        v, = self.bind(st, a, kw, ["a"], node)
        if isinstance(v, Masked) and v.ac.rank == 1:
            return v
        v = self.asview(st, v, node)
        if len(v.shape) == 1:
            return v
        return self.f_reshape(st, [v, Num(P(-1), "i", True)], {}, node)

    def f_squeeze(self, st, a, kw, node):
        v, ax = self.bind(st, a, kw, ["a", "axis"], node)
        v = self.asview(st, v, node)
        axn = self.axis_of(ax, len(v.shape))
        drop = [i for i, s in enumerate(v.shape) if s is ONE] if axn is None else [axn] if isinstance(axn, int) else list(axn)
        if axn is None and any(s is not ONE and not T.prove_ge(s - 2) for s in v.shape):
            raise _unsup("squeeze of dimensions that may be one")
        for i in drop:
            if v.shape[i] is not ONE:
                self.it.may_raise(st, ONE - T.eq(v.shape[i] - 1), "ValueError", node)
        m = {v.vars[i]: ZERO for i in drop}
        r = Arr(v.rid, [s for i, s in enumerate(v.shape) if i not in drop], [w for i, w in enumerate(v.vars) if i not in drop],
                [T.subst(x, m) for x in v.idx])
        return r

    def f_expand_dims(self, st, a, kw, node):
        v, ax = self.bind(st, a, kw, ["a", "axis"], node, 2)
        v = self.asview(st, v, node)
        axn = self.axis_of(ax, len(v.shape) + 1)
        sh, vs = list(v.shape), list(v.vars)
        sh.insert(axn, ONE)
        vs.insert(axn, T.new_var(ONE))
        return Arr(v.rid, sh, vs, v.idx)

    def f_atleast_1d(self, st, a, kw, node):
        if len(a) != 1:
            raise _unsup("atleast_1d")
        v = a[0]
        if isinstance(v, Num):
            return self.filled(st, (ONE,), v.p, v.dt)
        v = self.f_asarray(st, [v], {}, node)
        if not self.ac(st, v).rank:
            return self.f_reshape(st, [v, Num(ONE, "i", True)], {}, node)
        return v

    def f_atleast_2d(self, st, a, kw, node):
        v = self.f_atleast_1d(st, a, kw, node)
        if self.ac(st, v).rank == 1:
            return self.f_expand_dims(st, [v, Num(ZERO, "i", True)], {}, node)
        return v

    def f_broadcast_to(self, st, a, kw, node):
        v, shp = self.bind(st, a, kw, ["array", "shape"], node, 2)
        x = self.broadcast_to(st, self.ac(st, v), self.shape_arg(st, shp, node), node)
        return self.out(st, AC(x.shape, x.vars, x.body, x.dt, x.taint))

    def seq_of(self, st, v, node):
        """list of (count, index variable or None, content) for the arrays to be joined"""
        it = self.it
        if isinstance(v, Arr) and not v.lst:
            x = self.fresh_vars(self.ac(st, v))
            return [(x.shape[0], x.vars[0], AC(x.shape[1:], x.vars[1:], x.body, x.dt, x.taint, x.conv))]
        if isinstance(v, ListRef) and not st.cells[("l", v.lid)].concrete:
            out = []
            for s in st.cells[("l", v.lid)].segs:
                if s[0] == "it":
                    out.append((ONE, None, self.ac(st, s[1])))
                elif s[0] == "seg" and len(s[3]) == 1:
                    out.append((s[2], s[1], self.ac(st, s[3][0])))
                else:
                    raise _unsup("list of unknown content")
            return out
        seq = it.iterate(st, v, node)
        if seq is None or seq.guard is not None:
            raise _unsup("sequence")
        if seq.items is not None:
            return [(ONE, None, self.ac(st, x)) for x in seq.items]
        k = T.new_var(seq.n)
        return [(seq.n, k, self.ac(st, seq.get(st, P1(k))))]

    def f_stack(self, st, a, kw, node):
        kw.pop("dtype", None)
        v, ax = self.bind(st, a, kw, ["arrays", "axis"], node)
        x = self.piecewise(st, self.seq_of(st, v, node))
        axn = 0 if ax is None else self.axis_of(ax, x.rank)
        perm = list(range(1, x.rank))
        perm.insert(axn, 0)
        x = AC([x.shape[i] for i in perm], [x.vars[i] for i in perm], x.body, x.dt, frozenset(), x.conv)
        return self.out(st, x)

    def join(self, st, parts, axis, node):
        """concatenate contents along an existing axis"""
        acs = []
        for n, k, x in parts:
            if x.mask is not None:
                raise _unsup("joining selections")
            if k is None:
                acs.append(x)
                continue
            # n equal blocks: flat index q = k * len + r
            if x.rank == 0:
                raise _unsup("joining scalars")
            ln = x.shape[axis]
            if ln is ONE:
                b = T.subst(x.body, {x.vars[axis]: ZERO})
                vs = list(x.vars)
                u = T.new_var(n)
                vs[axis] = u
                sh = list(x.shape)
                sh[axis] = n
                acs.append(AC(sh, vs, T.subst(b, {k: P1(u)}), x.dt, x.taint, x.conv))
            elif ln.const is not None:
                u = T.new_var(T.mul(n, ln))
                q = T.floor(T.scale(P1(u), Fraction(1, ln.const)))
                vs, sh = list(x.vars), list(x.shape)
                b = T.subst(x.body, {x.vars[axis]: P1(u) - T.mul(q, ln), k: q})
                vs[axis], sh[axis] = u, T.mul(n, ln)
                acs.append(AC(sh, vs, b, x.dt, x.taint, x.conv))
            else:
                raise _unsup("joining a list of arrays")
        rk = acs[0].rank
        if rk == 0:
            self.it.raise_(st, "ValueError", node)
        if any(x.rank != rk for x in acs):
            self.it.raise_(st, "ValueError", node)
        total = ZERO
        for x in acs:
            total = total + x.shape[axis]
        sh = list(acs[0].shape)
        for x in acs[1:]:
            for i in range(rk):
                if i != axis and not self.same_dim(x.shape[i], sh[i]):
                    self.it.may_raise(st, ONE - T.eq(x.shape[i] - sh[i]), "ValueError", node)
        sh[axis] = total
        vs = [T.new_var(s) for s in sh]
        off = ZERO
        pieces = []
        dt, conv = acs[0].dt, None
        for x in acs:
            ix = [P1(v) for v in vs]
            ix[axis] = ix[axis] - off
            pieces.append((off, x.shape[axis], x.at(ix)))
            off = off + x.shape[axis]
            dt = self.rdt([(dt, False), (x.dt, False)]) if dt != x.dt else dt
            conv = conv or x.conv
        body = None
        for off, n, b in reversed(pieces):
            if n is ZERO:
                continue
            body = b if body is None else T.ite(T.ge(off + n - 1 - P1(vs[axis])), b, body)
        return self.out(st, AC(sh, vs, ZERO if body is None else body, dt, frozenset(), conv))

    def f_concatenate(self, st, a, kw, node):
        d = self.dtype(st, kw.pop("dtype", None), node)
        v, ax = self.bind(st, a, kw, ["arrays", "axis"], node)
        parts = self.seq_of(st, v, node)
        if ax is not None and isinstance(ax, NoneT):
            parts = [(n, k, self.ac(st, self.f_ravel(st, [self.it.alloc(st, x)], {}, node))) for n, k, x in parts]
            axn = 0
        else:
            axn = 0 if ax is None else self.axis_of(ax, max(1, parts[0][2].rank))
        r = self.join(st, parts, axn, node)
        return self.astype(st, r, d, node) if d else r

    def lift2(self, x, how):
        """at least two-dimensional content"""
        while x.rank < 2:
            if x.rank == 0:
                x = AC((ONE,), (T.new_var(ONE),), x.body, x.dt, x.taint, x.conv)
            elif how == "row":
                x = AC((ONE,) + x.shape, (T.new_var(ONE),) + x.vars, x.body, x.dt, x.taint, x.conv)
            else:
                x = AC(x.shape + (ONE,), x.vars + (T.new_var(ONE),), x.body, x.dt, x.taint, x.conv)
        return x

    def f_vstack(self, st, a, kw, node):
        parts = [(n, k, self.lift2(x, "row")) for n, k, x in self.seq_of(st, a[0], node)]
        return self.join(st, parts, 0, node)

    def f_hstack(self, st, a, kw, node):
        parts = self.seq_of(st, a[0], node)
        parts = [(n, k, AC((ONE,), (T.new_var(ONE),), x.body, x.dt) if x.rank == 0 else x) for n, k, x in parts]
        return self.join(st, parts, 0 if parts[0][2].rank == 1 else 1, node)

    def f_column_stack(self, st, a, kw, node):
        parts = [(n, k, self.lift2(x, "col")) for n, k, x in self.seq_of(st, a[0], node)]
        return self.join(st, parts, 1, node)

    def f_append(self, st, a, kw, node):
        v, w, ax = self.bind(st, a, kw, ["arr", "values", "axis"], node, 2)
        x, y = self.ac(st, v), self.ac(st, w)
        if ax is None or isinstance(ax, NoneT):
            x = self.flat(st, x, node)
            y = self.flat(st, y, node)
            return self.join(st, [(ONE, None, x), (ONE, None, y)], 0, node)
        return self.join(st, [(ONE, None, x), (ONE, None, y)], self.axis_of(ax, x.rank), node)

    def flat(self, st, x, node):
        if x.rank == 1:
            return x
        if x.rank == 0:
            return AC((ONE,), (T.new_var(ONE),), x.body, x.dt, x.taint, x.conv)
        return self.ac(st, self.f_ravel(st, [self.it.alloc(st, x)], {}, node))

    def f_insert(self, st, a, kw, node):
        v, i, w, ax = self.bind(st, a, kw, ["arr", "obj", "values", "axis"], node, 3)
        x = self.fresh_vars(self.ac(st, v))
        if not isinstance(i, Num):
            raise _unsup("insert")
        if ax is None or isinstance(ax, NoneT):
            x = self.flat(st, x, node)
            axn = 0
        else:
            axn = self.axis_of(ax, x.rank)
        n = x.shape[axn]
        pos = self.wrap(i.p, n)
        y = self.ac(st, w)
        if y.rank not in (0, x.rank - 1):
            raise _unsup("insert of several rows")
        rest = x.shape[:axn] + x.shape[axn + 1:]
        y = self.broadcast_to(st, y, rest, node)
        sh = x.shape[:axn] + (n + 1,) + x.shape[axn + 1:]
        vs = [T.new_var(s) for s in sh]
        k = P1(vs[axn])
        ix = [P1(u) for u in vs]
        yb = y.at(ix[:axn] + ix[axn + 1:])
        lo, hi = list(ix), list(ix)
        hi[axn] = k - 1
        body = T.ite(T.eq(k - pos), yb, T.ite(T.ge(pos - 1 - k), x.at(lo), x.at(hi)))
        if x.dt in ("i",) and y.dt == "f":
            body = T.ite(T.eq(k - pos), T.trunc(yb), T.ite(T.ge(pos - 1 - k), x.at(lo), x.at(hi)))
        if x.dt in "cC" and y.dt == "f":
            self.it.event("narrow", st, node, what="float inserted into an array of the caller's type")
        return self.out(st, AC(sh, vs, body, x.dt))

    def f_delete(self, st, a, kw, node):
        v, i, ax = self.bind(st, a, kw, ["arr", "obj", "axis"], node, 2)
        x = self.fresh_vars(self.ac(st, v))
        if isinstance(i, (Tup, ListRef, Arr)):
            y = self.ac(st, i)
            if y.rank == 1 and y.shape[0] is ONE:
                i = Num(y.at([ZERO]), "i")
        if not isinstance(i, Num):
            raise _unsup("delete")
        if ax is None or isinstance(ax, NoneT):
            x = self.flat(st, x, node)
            axn = 0
        else:
            axn = self.axis_of(ax, x.rank)
        n = x.shape[axn]
        pos = self.wrap(i.p, n)
        sh = x.shape[:axn] + (n - 1,) + x.shape[axn + 1:]
        vs = [T.new_var(s) for s in sh]
        ix = [P1(u) for u in vs]
        jx = list(ix)
        jx[axn] = ix[axn] + 1
        body = T.ite(T.ge(pos - 1 - ix[axn]), x.at(ix), x.at(jx))
        return self.out(st, AC(sh, vs, body, x.dt, frozenset(), x.conv))

    def f_roll(self, st, a, kw, node):
        v, s, ax = self.bind(st, a, kw, ["a", "shift", "axis"], node, 2)
        x = self.fresh_vars(self.ac(st, v))
        if not isinstance(s, Num) or not isinstance(s.p.const, int) or x.mask is not None:
            raise _unsup("roll")
        if ax is None or isinstance(ax, NoneT):
            if x.rank == 2 and abs(s.p.const) == 1:
                # the rows one after the other
                (i, j), (n0, n1) = [P1(v) for v in x.vars], x.shape
                if s.p.const == 1:
                    inner, first, i2, j2 = T.ge(j - 1), T.ge(i - 1), i - 1, n1 - 1
                    i3, jj, = n0 - 1, j - 1
                else:
                    inner, first, i2, j2 = T.ge(n1 - 2 - j), T.ge(n0 - 2 - i), i + 1, ZERO
                    i3, jj = ZERO, j + 1
                at = lambda a, b: T.subst(x.body, {x.vars[0]: a, x.vars[1]: b})
                body = T.ite(inner, at(i, jj), T.ite(first, at(i2, j2), at(i3, j2)))
                return self.out(st, AC(x.shape, x.vars, body, x.dt, frozenset(), x.conv))
            if x.rank != 1:
                raise _unsup("roll of a matrix without axis")
            axn = 0
        else:
            axn = self.axis_of(ax, x.rank)
        n, c = x.shape[axn], s.p.const
        k = P1(x.vars[axn])
        if c == 0:
            return self.out(st, AC(x.shape, x.vars, x.body, x.dt))
        if abs(c) > 1 and not T.prove_ge(n - abs(c)):
            raise _unsup("roll by more than the length")
        src = k - c
        if c > 0:
            src = T.ite(T.ge(src), src, src + n)
        else:
            src = T.ite(T.ge(n - 1 - src), src, src - n)
        body = T.subst(x.body, {x.vars[axn]: src})
        return self.out(st, AC(x.shape, x.vars, body, x.dt, frozenset(), x.conv))

    def f_flip(self, st, a, kw, node):
        v, ax = self.bind(st, a, kw, ["m", "axis"], node)
        v = self.asview(st, v, node)
        axn = self.axis_of(ax, len(v.shape))
        axes = list(range(len(v.shape))) if axn is None else [axn] if isinstance(axn, int) else list(axn)
        m = {v.vars[i]: v.shape[i] - 1 - P1(v.vars[i]) for i in axes}
        vs = [T.new_var(s) for s in v.shape]
        idx = [T.subst(x, m) for x in v.idx]
        mm = {p: P1(q) for p, q in zip(v.vars, vs)}
        return Arr(v.rid, v.shape, vs, [T.subst(x, mm) for x in idx])

    def f_flipud(self, st, a, kw, node):
        return self.f_flip(st, [a[0], Num(ZERO, "i", True)], {}, node)

    def f_fliplr(self, st, a, kw, node):
        return self.f_flip(st, [a[0], Num(ONE, "i", True)], {}, node)

    def f_tile(self, st, a, kw, node):
        v, reps = self.bind(st, a, kw, ["A", "reps"], node, 2)
        x = self.fresh_vars(self.ac(st, v))
        r = list(self.shape_arg(st, reps, node))
        if x.rank == 1 and len(r) == 2 and r[1] is ONE:
            return self.out(st, AC((r[0],) + x.shape, (T.new_var(r[0]),) + x.vars, x.body, x.dt))
        if x.rank == 0 and len(r) == 1:
            return self.filled(st, (r[0],), x.body, x.dt)
        if x.rank == 1 and len(r) == 1 and x.shape[0] is ONE:
            return self.filled(st, (r[0],), x.at([ZERO]), x.dt)
        raise _unsup("tile")

    def f_repeat(self, st, a, kw, node):
        v, reps, ax = self.bind(st, a, kw, ["a", "repeats", "axis"], node, 2)
        x = self.fresh_vars(self.ac(st, v))
        if isinstance(reps, Num) and x.rank == 0:
            return self.filled(st, (reps.p,), x.body, x.dt)
        axn = self.axis_of(ax, x.rank) if ax is not None else (0 if x.rank == 1 else None)
        if isinstance(reps, Num) and axn is not None and x.shape[axn] is ONE:
            sh, vs = list(x.shape), list(x.vars)
            b = T.subst(x.body, {x.vars[axn]: ZERO})
            sh[axn] = reps.p
            vs[axn] = T.new_var(reps.p)
            return self.out(st, AC(sh, vs, b, x.dt))
        raise _unsup("repeat")

    def f_take(self, st, a, kw, node):
        kw.pop("mode", None)
        v, i, ax = self.bind(st, a, kw, ["a", "indices", "axis"], node, 2)
        v = self.asview(st, v, node)
        if ax is None or isinstance(ax, NoneT):
            if len(v.shape) != 1:
                raise _unsup("take")
            axn = 0
        else:
            axn = self.axis_of(ax, len(v.shape))
        full = SliceV(NONE, NONE, NONE)
        r = self.getitem(st, v, Tup([full] * axn + [i]), node)
        if isinstance(i, Num) and isinstance(r, Arr):
            return self.f_copy(st, [r], {}, node)
        return r

    def f_compress(self, st, a, kw, node):
        c, v, ax = self.bind(st, a, kw, ["condition", "a", "axis"], node, 2)
        axn = 0 if ax is None else self.axis_of(ax, self.ac(st, v).rank)
        full = SliceV(NONE, NONE, NONE)
        return self.getitem(st, v, Tup([full] * axn + [c]), node)

    def f_sliding_window_view(self, st, a, kw, node):
        kw.pop("writeable", None)
        v, w, ax = self.bind(st, a, kw, ["x", "window_shape", "axis"], node, 2)
        v = self.asview(st, v, node)
        w = self.shape_arg(st, w, node)
        if len(w) != 1 or (len(v.shape) != 1 and ax is None):
            raise _unsup("windows")
        axn = 0 if ax is None else self.axis_of(ax, len(v.shape))
        n = v.shape[axn]
        if not T.prove_ge(n - w[0]):
            self.it.may_raise(st, ONE - T.ge(n - w[0]), "ValueError", node)
        sh = list(v.shape)
        sh[axn] = n - w[0] + 1
        vs = [T.new_var(s) for s in sh] + [T.new_var(w[0])]
        m = {p: P1(q) for p, q in zip(v.vars, vs)}
        m[v.vars[axn]] = P1(vs[axn]) + P1(vs[-1])
        return Arr(v.rid, sh + [w[0]], vs, [T.subst(x, m) for x in v.idx])

    def f_pad(self, st, a, kw, node):
        v, w, mode, cv = self.bind(st, a, kw, ["array", "pad_width", "mode", "constant_values"], node, 2)
        if mode is not None and not (isinstance(mode, Str) and mode.s == "constant"):
            raise _unsup("pad")
        x = self.fresh_vars(self.ac(st, v))
        c = cv.p if isinstance(cv, Num) else ZERO
        if cv is not None and not isinstance(cv, Num):
            raise _unsup("pad")

        def pair(q):
            if isinstance(q, Num):
                return q.p, q.p
            s = self.it.iterate(st, q, node)
            if s is None or s.items is None or not all(isinstance(y, Num) for y in s.items):
                raise _unsup("pad")
            ps = [y.p for y in s.items]
            return (ps[0], ps[0]) if len(ps) == 1 else (ps[0], ps[1])
        if isinstance(w, Num):
            prs = [pair(w)] * x.rank
        else:
            s = self.it.iterate(st, w, node)
            if s is None or s.items is None:
                raise _unsup("pad")
            if all(isinstance(y, Num) for y in s.items):
                prs = [pair(w)] * x.rank
            else:
                prs = [pair(y) for y in s.items]
                if len(prs) == 1:
                    prs = prs * x.rank
        sh = [n + p + q for n, (p, q) in zip(x.shape, prs)]
        vs = [T.new_var(n) for n in sh]
        cond, ix = ONE, []
        for u, n, (p, q) in zip(vs, x.shape, prs):
            k = P1(u) - p
            ix.append(k)
            if p is not ZERO:
                cond = T.mul(cond, T.ge(k))
            if q is not ZERO:
                cond = T.mul(cond, T.ge(n - 1 - k))
        return self.out(st, AC(sh, vs, T.ite(cond, x.at(ix), c), x.dt))

    def f_c_(self, st, a, kw, node):
        raise _unsup("c_")

    def f_split(self, st, a, kw, node):
        v, at, ax = self.bind(st, a, kw, ["ary", "indices_or_sections", "axis"], node, 2)
        if ax is not None and self.axis_of(ax, 9) != 0 or isinstance(at, Num) or not isinstance(v, Arr):
            raise _unsup("split")
        cuts = self.it.iterate(st, at, node)
        if cuts is None or cuts.items is None:
            raise _unsup("split")
        b = [NONE] + list(cuts.items) + [NONE]
        return Tup([self.getitem(st, v, SliceV(p, q, NONE), node) for p, q in zip(b, b[1:])])

    f_array_split = f_vsplit = f_split

    # ------------------------------------------------------------------------------------------------ misc
    def f_diff(self, st, a, kw, node):
        v, n, ax, pre, post = self.bind(st, a, kw, ["a", "n", "axis", "prepend", "append"], node)
        x = self.val(st, v, node)
        if x.mask is not None:
            raise _unsup("diff of a selection")
        axn = x.rank - 1 if ax is None else self.axis_of(ax, x.rank)
        for q, first in ((post, False), (pre, True)):
            if q is not None and not isinstance(q, NoneT):
                y = self.ac(st, q)
                if y.rank == 0:
                    sh = list(x.shape)
                    sh[axn] = ONE
                    y = AC(sh, [T.new_var(s) for s in sh], y.body, y.dt)
                ps = [(ONE, None, y), (ONE, None, x)] if first else [(ONE, None, x), (ONE, None, y)]
                x = self.val(st, self.join(st, ps, axn, node), node)
        self.narrow(st, x.dt, "difference", node)
        k = P1(x.vars[axn])
        sh, vs = list(x.shape), list(x.vars)
        c = ONE if n is None else n.p if isinstance(n, Num) else None
        if c is None:
            raise _unsup("diff order")
        if isinstance(c.const, int):
            if c.const < 0:
                self.it.raise_(st, "ValueError", node)
            if c.const > 6:
                raise _unsup("diff order")
            b = x.body
            for _ in range(c.const):
                b = T.subst(b, {x.vars[axn]: k + 1}) - b
            m = sh[axn] - c
            if not T.prove_ge(m):
                m = T.maxf(m, ZERO)
            u = T.new_var(m)
            sh[axn], vs[axn] = m, u
            return self.out(st, AC(sh, vs, T.subst(b, {x.vars[axn]: P1(u)}), x.dt))
        l = T.lam((x.shape[axn],), [x.vars[axn].args[0]], x.body)
        m = sh[axn] - c
        if not T.prove_ge(m):
            m = T.maxf(m, ZERO)
        u = T.new_var(m)
        sh[axn], vs[axn] = m, u
        return self.out(st, AC(sh, vs, T.fa("diff", (l, c), (P1(u),)), x.dt))

    def f_where(self, st, a, kw, node):
        if len(a) == 1:
            return self.f_nonzero(st, a, kw, node)
        if len(a) != 3:
            raise _unsup("where")
        c, x, y = a
        if all(isinstance(q, Num) for q in a):
            d = self.rdt([(x.dt, x.py), (y.dt, y.py)])
            return Num(T.ite(_truthp(c.p), x.p, y.p), d)
        acs = [self.val(st, q, node) for q in a]
        sh = self.bshape(st, [q.shape for q in acs], node)
        vs = [T.new_var(s) for s in sh]
        bs, mask = [], None
        for q in acs:
            if q.mask is not None:
                raise _unsup("where on a selection")
            bs.append(self.spread(q, sh, vs)[1])
        d = self.rdt([(q.dt, isinstance(o, Num) and o.py) for q, o in zip(acs[1:], a[1:])])
        return self.out(st, AC(sh, vs, T.ite(_truthp(bs[0]), bs[1], bs[2]), d))

    def f_select(self, st, a, kw, node):
        raise _unsup("select")

    def f_clip(self, st, a, kw, node):
        kw = {{"min": "a_min", "max": "a_max"}.get(k, k): v for k, v in kw.items()}
        v, lo, hi = self.bind(st, a, kw, ["a", "a_min", "a_max"], node)
        if lo is not None and not isinstance(lo, NoneT):
            v = self.elementwise(st, "maximum", [v, lo], node)
        if hi is not None and not isinstance(hi, NoneT):
            v = self.elementwise(st, "minimum", [v, hi], node)
        return v

    def f_round(self, st, a, kw, node):
        v, d = self.bind(st, a, kw, ["a", "decimals"], node)
        x = self.val(st, v, node)
        body = T.fn("round", x.body, *( [d.p] if isinstance(d, Num) and d.p is not ZERO else []))
        return self.out(st, AC(x.shape, x.vars, body, x.dt, frozenset(), None, x.mask))

    def negated(self, x):
        """True if the content is written as the negative of a simpler one"""
        return all(c < 0 for m, c in x.body.t) and bool(x.body.t)

    def f_sort(self, st, a, kw, node):
        kw.pop("kind", None)
        kw.pop("stable", None)
        v, ax = self.bind(st, a, kw, ["a", "axis"], node)
        x = self.val(st, v, node)
        if x.mask is not None or x.rank == 0:
            raise _unsup("sort")
        axn = x.rank - 1 if ax is None else self.axis_of(ax, x.rank)
        if axn is None:
            raise _unsup("sort")
        w, n = x.vars[axn], x.shape[axn]
        u = T.new_var(n)
        if self.negated(x):
            l = T.lam((n,), [w.args[0]], T.neg(x.body))
            body = T.neg(T.fa("sort", (l,), (n - 1 - P1(u),)))
        else:
            l = T.lam((n,), [w.args[0]], x.body)
            body = T.fa("sort", (l,), (P1(u),))
        vs = list(x.vars)
        vs[axn] = u
        return self.out(st, AC(x.shape, vs, body, x.dt))

    def f_argsort(self, st, a, kw, node):
        kw.pop("kind", None)
        kw.pop("stable", None)
        v, ax = self.bind(st, a, kw, ["a", "axis"], node)
        x = self.val(st, v, node)
        if x.mask is not None or x.rank == 0:
            raise _unsup("argsort")
        axn = x.rank - 1 if ax is None else self.axis_of(ax, x.rank)
        w, n = x.vars[axn], x.shape[axn]
        u = T.new_var(n)
        k = P1(u)
        b = x.body
        if self.negated(x):
            b, k = T.neg(b), n - 1 - k
        l = T.lam((n,), [w.args[0]], b)
        vs = list(x.vars)
        vs[axn] = u
        return self.out(st, AC(x.shape, vs, T.fa("argsort", (l,), (k,), is_int=True, nn=True), "i"))

    def f_unique(self, st, a, kw, node):
        v, ri, rv, rc = self.bind(st, a, kw, ["ar", "return_index", "return_inverse", "return_counts"], node)
        x = self.ac(st, v)
        if x.rank != 1 or x.mask is not None:
            raise _unsup("unique")
        if self.flag_of(ri, False):
            raise _unsup("unique indexes")
        l = self.lam_of(x)
        n = self.nuniq(l)
        r = [self.classes(st, "uniq_sorted", n, l)]
        if self.flag_of(rv, False):
            w = T.new_var(x.shape[0])
            r.append(self.out(st, AC(x.shape, (w,), T.fa("uniq_inv", (l,), (P1(w),), is_int=True, nn=True), "i")))
        if self.flag_of(rc, False):
            u = T.new_var(n)
            c = T.mksum([x.vars[0]], T.eq(x.body - T.fa("uniq_sorted", (l,), (P1(u),))))
            r.append(self.out(st, AC((n,), (u,), c, "i")))
        return r[0] if len(r) == 1 else Tup(r)

    def f_shape(self, st, a, kw, node):
        return Tup(Num(s, "i", True) for s in self.ac(st, a[0]).shape)

    def f_ndim(self, st, a, kw, node):
        return Num(P(self.ac(st, a[0]).rank), "i", True)

    def f_size(self, st, a, kw, node):
        v, ax = self.bind(st, a, kw, ["a", "axis"], node)
        x = self.ac(st, v)
        if ax is not None and not isinstance(ax, NoneT):
            return Num(x.shape[self.axis_of(ax, x.rank)], "i", True)
        return Num(self.count_of(x, list(range(x.rank))), "i", True)

    def f_isscalar(self, st, a, kw, node):
        return Num(ONE if isinstance(a[0], (Num, Str)) else ZERO, "b", True)

    def f_array_equal(self, st, a, kw, node):
        x, y = self.ac(st, a[0]), self.ac(st, a[1])
        if x.rank != y.rank:
            return Num(ZERO, "b", True)
        e = self.elementwise(st, "Eq", a[:2], node)
        return self.f_all(st, [e], {}, node)

    def f_isclose(self, st, a, kw, node):
        x, y, rt, at, en = self.bind(st, a, kw, ["a", "b", "rtol", "atol", "equal_nan"], node, 2)
        rt = Num(P(Fraction(1, 10 ** 5)), "f", True) if rt is None else rt
        at = Num(P(Fraction(1, 10 ** 8)), "f", True) if at is None else at
        el = lambda op, *v: self.elementwise(st, op, list(v), node)
        tol = el("Add", at, el("Mult", rt, el("absolute", y)))
        return el("LtE", el("absolute", el("Sub", x, y)), tol)

    def f_allclose(self, st, a, kw, node):
        return self.f_all(st, [self.f_isclose(st, a, kw, node)], {}, node)

    def f_isin(self, st, a, kw, node):
        x, y, au, inv = self.bind(st, a, kw, ["element", "test_elements", "assume_unique", "invert"], node, 2)
        x, y = self.val(st, x, node), self.val(st, y, node)
        if x.mask is not None or y.mask is not None or y.rank > 1:
            raise _unsup("isin")
        hit = T.eq(x.body - y.body) if not y.rank else T.ge(T.mksum([y.vars[0]], T.eq(x.body - y.body)) - 1)
        if self.flag_of(inv, False):
            hit = ONE - hit
        return self.out(st, AC(x.shape, x.vars, hit, "b"))

    f_in1d = f_isin

    def f_nonzero(self, st, a, kw, node):
        x = self.fresh_vars(self.val(st, a[0], node))
        if x.rank != 1 or x.mask is not None:
            raise _unsup("nonzero")
        return Tup([Masked(AC(x.shape, x.vars, P1(x.vars[0]), "i", frozenset(), None, (0, _truthp(x.body))))])

    def f_flatnonzero(self, st, a, kw, node):
        return self.f_nonzero(st, a, kw, node).items[0]

    def f_corrcoef(self, st, a, kw, node):
        x = self.ac(st, self.f_cov(st, a, kw, node))
        d = lambda v: T.power(T.sqrt(x.at([P1(v), P1(v)])), -1)
        return self.out(st, AC(x.shape, x.vars, T.mul(x.body, T.mul(d(x.vars[0]), d(x.vars[1]))), "f"))

    def _slide(self, st, a, kw, node, flip):
        x, y, mode = self.bind(st, a, kw, ["a", "v", "mode"], node, 2)
        m = mode.s if isinstance(mode, Str) else None if mode is not None else "full" if flip else "valid"
        x, y = self.fresh_vars(self.val(st, x, node)), self.fresh_vars(self.val(st, y, node))
        if x.rank != 1 or y.rank != 1 or x.mask is not None or y.mask is not None or m not in ("full", "valid"):
            raise _unsup("convolve")
        n, k, j = x.shape[0], y.shape[0], y.vars[0]
        w = y.body if flip else T.subst(y.body, {j: k - 1 - P1(j)})
        if m == "valid":
            if not T.prove_ge(n - k):
                raise _unsup("convolve of series of unknown lengths")
            i = T.new_var(n - k + 1)
            return self.out(st, AC((n - k + 1,), (i,), T.mksum([j], T.mul(w, x.at([P1(i) + k - 1 - P1(j)]))), "f"))
        i = T.new_var(n + k - 1)
        at = P1(i) - P1(j)
        ins = T.mul(T.ge(at), T.ge(n - 1 - at))
        return self.out(st, AC((n + k - 1,), (i,), T.mksum([j], T.mul(ins, T.mul(w, x.at([at])))), "f"))

    def f_convolve(self, st, a, kw, node):
        return self._slide(st, a, kw, node, True)

    def f_correlate(self, st, a, kw, node):
        return self._slide(st, a, kw, node, False)

    def f_diag_indices(self, st, a, kw, node):
        n, nd = self.bind(st, a, kw, ["n", "ndim"], node)
        k = nd.p.const if nd is not None else 2
        r = self.f_arange(st, [n], {}, node)
        return Tup([r] * int(k))

    def f_linalg_matrix_rank(self, st, a, kw, node):
        x = self.val(st, a[0], node)
        if x.rank != 2 or x.mask is not None or len(a) > 1 or kw:
            raise _unsup("rank")
        return Num(T.fa("matrix_rank", (self.lam_of(x),), (), is_int=True, nn=True), "i")

    def f_linalg_cond(self, st, a, kw, node):
        x = self.square(st, a[0], node, "cond")
        if len(a) > 1 or kw:
            raise _unsup("cond")
        return Num(T.fa("cond", (self.lam_of(x),), (), nn=True, pos=True), "f")

    def f_errstate(self, st, a, kw, node):
        return Opq("errstate")

    def f_seterr(self, st, a, kw, node):
        self.it.event("global_config", st, node)
        return Opq("seterr")

    def f_set_printoptions(self, st, a, kw, node):
        self.it.event("global_config", st, node)
        return NONE

    def f_finfo(self, st, a, kw, node):
        return Ext("numpy.finfo()")

    def f_copyto(self, st, a, kw, node):
        self.setitem(st, a[0], ELL, a[1], node)
        return NONE

    def f_fill_diagonal(self, st, a, kw, node):
        v, x = a[0], a[1]
        if not isinstance(v, Arr) or len(v.shape) != 2 or not isinstance(x, Num):
            if isinstance(v, Arr):
                self.touch(st, v, node)
            raise _unsup("fill_diagonal")
        cond = T.eq(P1(v.vars[0]) - P1(v.vars[1]))
        self.it.write(st, v, AC(v.shape, v.vars, x.p, x.dt), node, cond)
        return NONE

    def f_apply_along_axis(self, st, a, kw, node):
        it = self.it
        if kw or len(a) != 3:
            raise _unsup("apply_along_axis")
        x = self.val(st, a[2], node)
        axn = self.axis_of(a[1], x.rank)
        if x.rank != 2 or x.mask is not None:
            raise _unsup("apply_along_axis")
        row = it.alloc(st, AC((x.shape[axn],), (x.vars[axn],), x.body, x.dt))
        r = self.val(st, it.call(st, a[0], [row], {}, node), node)
        o = x.vars[1 - axn]
        if r.rank == 0:
            return self.out(st, AC((x.shape[1 - axn],), (o,), r.body, r.dt))
        if r.rank == 1:
            sh, vs = [x.shape[1 - axn], r.shape[0]], [o, r.vars[0]]
            if axn == 0:
                sh, vs = sh[::-1], vs[::-1]
            return self.out(st, AC(sh, vs, r.body, r.dt))
        raise _unsup("apply_along_axis")

    def f_vectorize(self, st, a, kw, node):
        raise _unsup("vectorize")

    def f_meshgrid(self, st, a, kw, node):
        raise _unsup("meshgrid")

    def half(self, st, a, kw, node, low):
        m, k = self.bind(st, a, kw, ["m", "k"], node)
        x = self.val(st, m, node)
        if x.rank != 2:
            raise _unsup("triangle of a vector")
        off = ZERO if k is None else k.p
        d = P1(x.vars[1]) - P1(x.vars[0]) - off
        return self.out(st, AC(x.shape, x.vars, T.mul(T.ge(T.neg(d) if low else d), x.body), x.dt))

    def f_triu(self, st, a, kw, node):
        return self.half(st, a, kw, node, False)

    def f_tril(self, st, a, kw, node):
        return self.half(st, a, kw, node, True)

    def f_tri(self, st, a, kw, node):
        n, m, k, dt = self.bind(st, a, kw, ["N", "M", "k", "dtype"], node)
        n = self.shape_arg(st, n, node)[0]
        m = n if m is None or isinstance(m, NoneT) else self.shape_arg(st, m, node)[0]
        off = ZERO if k is None else k.p
        return self.filled(st, (n, m), lambda ix: T.ge(ix[0] + off - ix[1]), self.dtype(st, dt, node) or "f")

    # ------------------------------------------------------------------------------------------------ random numbers
    def rng(self, st):
        c = st.cells.get(self.rngkey)
        if c is None:
            c = Num(T.sym("rng state") if self.rngkey == ("rng",) else T.opaque("random generator"), "o")
            st.cells[self.rngkey] = c
        return c.p

    rngkey = ("rng",)            # the generator in use: NumPy's global one or that of an object

    def new_generator(self, st, seed, kind, node):
        it = self.it
        g = GenV(it.fresh())
        if seed is None or isinstance(seed, NoneT):
            it.event("nondet", st, node, what=kind + "() without a seed")
            p = T.sym("entropy at %s run %d" % (":".join(map(str, it.loc[:2])), it.nonce))
        elif isinstance(seed, Num):
            p = T.fn("rng_seed" if kind == "RandomState" else "generator_seed", seed.p)
        else:
            p = T.opaque("seed")
        st.cells[("rng", g.gid)] = Num(p, "o")
        return g

    def generator_method(self, st, o, name, a, kw, node):
        old, self.rngkey = self.rngkey, ("rng", o.gid)
        try:
            return self.call_ext(st, "numpy.random." + {"integers": "randint"}.get(name, name), a, kw, node)
        finally:
            self.rngkey = old

    def f_random_RandomState(self, st, a, kw, node):
        return self.new_generator(st, a[0] if a else kw.get("seed"), "RandomState", node)

    def advance(self, st, node, kind, n):
        self.it.event("rng", st, node, what=kind)
        self.it.writes.setdefault(self.rngkey, set()).add(self.it.where(node))
        st.cells[self.rngkey] = Num(T.fn("rng_next_" + kind, self.rng(st), n), "o")

    def random_unknown(self, st, name):
        self.it.event("nondet" if name.startswith("random.default_rng") else "rng", st, None, what=name)
        if not name.startswith(("random.default_rng", "random.RandomState", "random.Generator")):
            st.cells[self.rngkey] = Num(T.opaque("random generator"), "o")

    def draw(self, st, size, node, kind):
        """standard draws of a kind with the given size"""
        s = self.rng(st)
        if size is None or isinstance(size, NoneT):
            self.advance(st, node, kind, ONE)
            return Num(T.fa(kind, (s,), ()), "f")
        sh = self.shape_arg(st, size, node)
        n = ONE
        for d in sh:
            n = T.mul(n, d)
        self.advance(st, node, kind, n)
        if not sh:
            return Num(T.fa(kind, (s,), ()), "f")
        return self.filled(st, sh, lambda ix: T.fa(kind, (s,), tuple(ix)), "f")

    def f_random_normal(self, st, a, kw, node):
        loc, sc, size = self.bind(st, a, kw, ["loc", "scale", "size"], node, 0)
        if size is None and any(isinstance(v, (Arr, ListRef)) for v in (loc, sc)):
            raise _unsup("normal with array parameters")
        d = self.draw(st, size, node, "stdnormal")
        if sc is not None:
            d = self.elementwise(st, "Mult", [d, sc], node)
        if loc is not None:
            d = self.elementwise(st, "Add", [d, loc], node)
        return d

    def f_random_standard_normal(self, st, a, kw, node):
        size, = self.bind(st, a, kw, ["size"], node, 0)
        return self.draw(st, size, node, "stdnormal")

    def f_random_randn(self, st, a, kw, node):
        return self.draw(st, Tup(a) if a else None, node, "stdnormal")

    def f_random_random(self, st, a, kw, node):
        size, = self.bind(st, a, kw, ["size"], node, 0)
        return self.draw(st, size, node, "u01")

    def f_random_rand(self, st, a, kw, node):
        return self.draw(st, Tup(a) if a else None, node, "u01")

    def f_random_uniform(self, st, a, kw, node):
        lo, hi, size = self.bind(st, a, kw, ["low", "high", "size"], node, 0)
        d = self.draw(st, size, node, "u01")
        lo = lo or Num(ZERO, "f", True)
        hi = hi or Num(ONE, "f", True)
        return self.elementwise(st, "Add", [lo, self.elementwise(st, "Mult", [self.elementwise(st, "Sub", [hi, lo], node), d], node)], node)

    def f_random_permutation(self, st, a, kw, node):
        v = a[0]
        s = self.rng(st)
        if isinstance(v, Num):
            n = v.p
            self.advance(st, node, "perm", n)
            return self.filled(st, (n,), lambda ix: T.fa("perm", (s, n), (ix[0],), is_int=True, nn=True), "i")
        x = self.fresh_vars(self.ac(st, v))
        n = x.shape[0]
        self.advance(st, node, "perm", n)
        u = T.new_var(n)
        b = T.subst(x.body, {x.vars[0]: T.fa("perm", (s, n), (P1(u),), is_int=True, nn=True)})
        return self.out(st, AC(x.shape, (u,) + x.vars[1:], b, x.dt))

    def f_random_randint(self, st, a, kw, node):
        lo, hi, size = self.bind(st, a, kw, ["low", "high", "size"], node, 0)
        if hi is None or isinstance(hi, NoneT):
            lo, hi = Num(ZERO, "i", True), lo
        if not isinstance(lo, Num) or not isinstance(hi, Num):
            raise _unsup("randint with arrays")
        s, n = self.rng(st), hi.p - lo.p
        sh = () if size is None or isinstance(size, NoneT) else self.shape_arg(st, size, node)
        self.advance(st, node, "randint", reduce(T.mul, sh, ONE))
        el = lambda ix: lo.p + T.fa("randint", (s, n), tuple(ix), is_int=True, nn=True)
        return Num(el(()), "i") if not sh else self.filled(st, sh, el, "i")

    def f_random_choice(self, st, a, kw, node):
        v, size, rep, p = self.bind(st, a, kw, ["a", "size", "replace", "p"], node, 0)
        if p is not None and not isinstance(p, NoneT):
            raise _unsup("choice with probabilities")
        x = None if isinstance(v, Num) else self.fresh_vars(self.ac(st, v))
        n = v.p if x is None else x.shape[0]
        sh = () if size is None or isinstance(size, NoneT) else self.shape_arg(st, size, node)
        if rep is None:
            rep = Num(ONE, "b", True)
        if not isinstance(rep, Num) or rep.p not in (ONE, ZERO):
            raise _unsup("choice")
        s = self.rng(st)
        if rep.p is ZERO:
            if len(sh) != 1 or sh[0] is not n:
                raise _unsup("choice of a part")
            kind = "perm"
        else:
            kind = "randint"
        self.advance(st, node, kind, reduce(T.mul, sh, ONE))
        el = lambda ix: T.fa(kind, (s, n), tuple(ix), is_int=True, nn=True)
        if x is None:
            return Num(el(()), "i") if not sh else self.filled(st, sh, el, "i")
        if len(sh) != 1 or x.rank != 1:
            raise _unsup("choice")
        return self.filled(st, sh, lambda ix: T.subst(x.body, {x.vars[0]: el(ix)}), x.dt)

    def f_random_shuffle(self, st, a, kw, node):
        it = self.it
        v = a[0]
        s = self.rng(st)
        if isinstance(v, ListRef) or (isinstance(v, Arr) and v.lst):
            if isinstance(v, ListRef):
                x = self.fresh_vars(self.ac(st, v))
                if x.rank != 1:
                    st.cells[("l", v.lid)] = ListD([("opq",)])
                    self.advance(st, node, "perm", ONE)
                    return NONE
                n = x.shape[0]
                self.advance(st, node, "perm", n)
                u = T.new_var(n)
                b = T.subst(x.body, {x.vars[0]: T.fa("perm", (s, n), (P1(u),), is_int=True, nn=True)})
                d = st.cells[("l", v.lid)]
                st.cells[("l", v.lid)] = ListD([("seg", u, n, (Num(b, x.dt, True),))], d.kind)
                return NONE
        if not isinstance(v, Arr):
            raise _unsup("shuffle")
        x = self.fresh_vars(it.read(st, v))
        n = x.shape[0]
        self.advance(st, node, "perm", n)
        m = {p: P1(q) for p, q in zip(x.vars, v.vars)}
        m[x.vars[0]] = T.fa("perm", (s, n), (P1(v.vars[0]),), is_int=True, nn=True)
        it.write(st, v, AC(v.shape, v.vars, T.subst(x.body, m), x.dt), node)
        return NONE

    def f_random_seed(self, st, a, kw, node):
        self.it.event("rng_seed", st, node)
        s = a[0] if a else kw.get("seed")
        self.it.writes.setdefault(self.rngkey, set()).add(self.it.where(node))
        st.cells[self.rngkey] = Num(T.fn("rng_seed", s.p) if isinstance(s, Num) else T.opaque("seed"), "o")
        return NONE

    def f_random_get_state(self, st, a, kw, node):
        return Num(self.rng(st), "o")

    def f_random_set_state(self, st, a, kw, node):
        self.it.writes.setdefault(("rng",), set()).add(self.it.where(node))
        st.cells[("rng",)] = Num(a[0].p if isinstance(a[0], Num) else T.opaque("random generator"), "o")
        return NONE

    def f_random_default_rng(self, st, a, kw, node):
        if a and isinstance(a[0], GenV):
            return a[0]
        return self.new_generator(st, a[0] if a else kw.get("seed"), "default_rng", node)

    # ------------------------------------------------------------------------------------------------ generalised Pareto distribution
    def f_stats_genpareto_fit(self, st, a, kw, node):
        kw = dict(kw)
        floc = kw.pop("floc", None)
        if len(a) != 1 or kw:
            raise _unsup("genpareto.fit")
        x = self.val(st, a[0], node)
        if x.rank != 1 or x.mask is not None:
            raise _unsup("genpareto.fit")
        l = self.lam_of(x)
        if floc is None or isinstance(floc, NoneT):
            ex = (l,)
            loc = Num(T.fa("gp_loc", ex, ()), "f")
        else:
            if isinstance(floc, Arr):
                y = self.ac(st, floc)
                floc = Num(y.at([ZERO] * y.rank), y.dt)
            ex = (l, floc.p)
            loc = floc
        return Tup([Num(T.fa("gp_shape", ex, ()), "f"), loc, Num(T.fa("gp_scale", ex, (), nn=True, pos=True), "f")])

    def gp_arg(self, st, a, kw, node):
        x, c, loc, sc = self.bind(st, a, kw, ["x", "c", "loc", "scale"], node, 2)
        if loc is not None:
            x = self.elementwise(st, "Sub", [x, loc], node)
        if sc is not None:
            x = self.elementwise(st, "Div", [x, sc], node)
        xa, ca = self.val(st, x, node), self.val(st, c, node)
        return xa, ca

    def gp(self, st, a, kw, node, f):
        x, c = self.gp_arg(st, a, kw, node)
        sh = self.bshape(st, [x.shape, c.shape], node)
        vs = [T.new_var(s) for s in sh]
        bx, bc = self.spread(x, sh, vs)[1], self.spread(c, sh, vs)[1]
        return self.out(st, AC(sh, vs, f(T.fn("gp_sf", bx, bc, nn=True)), "f"))

    def f_stats_genpareto_cdf(self, st, a, kw, node):
        return self.gp(st, a, kw, node, lambda s: ONE - s)

    def f_stats_genpareto_sf(self, st, a, kw, node):
        return self.gp(st, a, kw, node, lambda s: s)

    def f_stats_genpareto_logsf(self, st, a, kw, node):
        return self.gp(st, a, kw, node, lambda s: T.log(s))

    def f_stats_genpareto_logcdf(self, st, a, kw, node):
        return self.gp(st, a, kw, node, lambda s: T.log(ONE - s))

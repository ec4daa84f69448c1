"""Model of Python's builtins, containers, strings and the standard library modules the package may use."""
import ast
import collections
import math
import sys
from fractions import Fraction
import terms as T
from terms import P, P1, ONE, ZERO, Poly
from values import *
import interp as I

STD_PURE = {"math", "warnings", "functools", "itertools", "operator", "typing", "abc", "collections", "numbers", "copy", "types",
            "dataclasses", "enum", "contextlib", "string", "re", "inspect", "logging", "sys", "os", "textwrap", "importlib",
            "numpy"}
ITEMS_LIMIT = 40


class PY:
    def __init__(self, it):
        self.it = it
        self.cache = {}

    def is_std(self, top):
        return top in sys.stdlib_module_names

    # -------------------------------------------------------------------------------------------- constants
    def constant(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return Num(ONE if v else ZERO, "b", True)
        if isinstance(v, int):
            return Num(P(v), "i", True)
        if isinstance(v, float):
            if math.isinf(v) or math.isnan(v):
                return Num(T.P1(T.atom("sym", ("float " + repr(v),), opq=True)), "f", True)
            return Num(P(v), "f", True)
        if isinstance(v, str):
            return Str(v)
        if v is Ellipsis:
            return ELL
        if isinstance(v, bytes):
            return Opq("bytes")
        return Opq("constant")

    def num(self, p, dt="i"):
        return Num(P(p), dt, True)

    def boolean(self, p):
        return Num(P(p), "b", True)

    def new_list(self, st, items, kind="list"):
        lid = self.it.fresh()
        st.cells[("l", lid)] = ListD([("it", x) for x in items], kind)
        return ListRef(lid)

    def new_dict(self, st, items):
        did = self.it.fresh()
        st.cells[("d", did)] = DictD(items)
        return DictRef(did)

    def key(self, v):
        """hashable description of a dictionary key, None if it is not concrete"""
        if isinstance(v, Str) and v.s is not None:
            return ("s", v.s)
        if isinstance(v, Num) and v.p.const is not None:
            return ("n", v.p.const)
        if isinstance(v, Num) and not v.p.opq and v.dt in ("i", "f", "b"):
            return ("p", v.p, v.dt)
        if isinstance(v, SymStr):
            return ("w", v)
        if isinstance(v, NoneT):
            return ("none",)
        if isinstance(v, Tup):
            ks = tuple(self.key(x) for x in v.items)
            return None if any(k is None for k in ks) else ("t",) + ks
        if isinstance(v, ClassV):
            return ("cls", v)
        if isinstance(v, (TypeV, ExcClass)):
            return ("ty", v.name)
        if isinstance(v, FuncV):
            return ("fn", v)
        return None

    def keq(self, a, b):
        """condition that two keys are equal"""
        if a == b:
            return ONE
        if a[0] in ("n", "p") and b[0] in ("n", "p"):
            return T.eq((P(a[1]) if a[0] == "n" else a[1]) - (P(b[1]) if b[0] == "n" else b[1]))
        if a[0] in ("s", "w") and b[0] in ("s", "w"):
            return self.streq(*[Str(k[1]) if k[0] == "s" else k[1] for k in (a, b)]) if "w" in (a[0], b[0]) else ZERO
        if a[0] == b[0] == "t" and len(a) == len(b):
            r = ONE
            for x, y in zip(a[1:], b[1:]):
                r = T.mul(r, self.keq(x, y))
            return r
        return ZERO

    def find(self, st, d, k):
        """[(condition, position)] of the pairs a key may be found at (disjoint), and the condition that it is missing"""
        out, miss = [], ONE
        here = st.abs()
        for i, (x, _) in enumerate(d.items):
            c = T.mul(miss, self.keq(x, k))
            if c is ZERO or T.mul(here, c) is ZERO:
                continue
            out.append((c, i))
            miss = miss - c
            if T.mul(here, miss) is ZERO:
                return out, ZERO
        return out, miss

    def found(self, d, hits, miss, default=None):
        """the value at the pairs found"""
        v = default if miss is not ZERO else None
        for c, i in reversed(hits):
            v = d.items[i][1] if v is None else Choice(c, d.items[i][1], v)
        return v

    def unkey(self, k):
        t = k[0]
        if t == "p":
            return Num(k[1], k[2], True)
        if t == "w":
            return k[1]
        if t == "s":
            return Str(k[1])
        if t == "n":
            return self.num(k[1], "i" if isinstance(k[1], int) else "f")
        if t == "none":
            return NONE
        if t == "t":
            return Tup(self.unkey(x) for x in k[1:])
        if t in ("cls", "fn"):
            return k[1]
        if t == "ty":
            return TypeV(k[1])
        return Opq("key")

    # -------------------------------------------------------------------------------------------- builtins
    def builtin(self, name):
        v = self.cache.get(name)
        if v is not None:
            return v
        if name in I.EXC_PARENT:
            v = ExcClass(name)
        elif name in ("int", "float", "str", "bool", "list", "tuple", "dict", "set", "object", "complex", "bytes", "type", "slice",
                      "frozenset", "range", "enumerate", "zip", "map", "filter", "reversed", "property", "staticmethod",
                      "classmethod", "super"):
            v = TypeV(name)
        elif name == "Ellipsis":
            v = ELL
        elif name == "NotImplemented":
            v = Opq("NotImplemented")
        elif name == "__debug__":
            v = self.boolean(1)
        elif name in ("__file__", "__doc__"):
            v = Str(None)
        elif hasattr(self, "bi_" + name):
            f = getattr(self, "bi_" + name)
            v = Builtin(name, lambda it, st, args, kwargs, node, f=f: f(st, args, kwargs, node))
        elif name in dir(__import__("builtins")):
            v = Builtin(name, lambda it, st, args, kwargs, node: it.note("builtin " + name))
        else:
            return None
        self.cache[name] = v
        return v

    def bi_len(self, st, a, kw, node):
        return self.length(st, a[0], node)

    def length(self, st, v, node):
        it = self.it
        if isinstance(v, Choice):
            return it.choice_map(st, v, lambda s, x: self.length(s, x, node))
        if isinstance(v, Arr):
            return Num(v.shape[0], "i", True)
        if isinstance(v, Masked):
            return Num(it.np.masked_dim(v.ac, 0), "i", True)
        if isinstance(v, Str) and v.s is not None:
            return self.num(len(v.s))
        if isinstance(v, (Tup,)):
            return self.num(len(v.items))
        if isinstance(v, SetV) and v.src is None:
            n = self.set_size(v)
            return it.note("size of a set") if n is None else Num(n, "i", True)
        if isinstance(v, SetV):
            return Num(v.src[0], "i", True)
        if isinstance(v, ListRef):
            n = self.list_len(st, v)
            if n is None:
                return Opq("len")
            return Num(n, "i", True)
        if isinstance(v, DictRef):
            d = st.cells[("d", v.did)]
            return self.num(len(d.items)) if not d.opq and not d.part else Opq("len")
        if isinstance(v, SeqV):
            if v.items is not None:
                return self.num(len(v.items))
            return Num(v.n, "i", True)
        if isinstance(v, (Num, NoneT)):
            it.raise_(st, "TypeError", node, "len()")
        if isinstance(v, Obj):
            f = it.class_attr(st, v.cls, "__len__")
            if f is not None:
                return it.call(st, Bound(f, v), [], {}, node)
            it.raise_(st, "TypeError", node)
        if isinstance(v, AnyV):
            fl = T.flag("has length", v.name)
            it.may_raise(st, ONE - fl, "TypeError", node)
            return Num(T.fn("len", T.sym("any:" + v.name), is_int=True, nn=True), "i", True)
        if isinstance(v, Opq):
            return v
        return it.note("len of " + type(v).__name__)

    def list_len(self, st, v):
        d = st.cells[("l", v.lid)]
        n = ZERO
        for s in d.segs:
            if s[0] == "it":
                n = n + 1
            elif s[0] == "seg":
                n = n + T.scale(s[2], len(s[3]))
            else:
                return None
        return n

    def bi_isinstance(self, st, a, kw, node):
        v, t = a
        if isinstance(v, Choice):
            return self.it.choice_map(st, v, lambda s, x: self.bi_isinstance(s, [x, t], kw, node))
        ts = list(t.items) if isinstance(t, Tup) else [t]
        out = False
        for x in ts:
            r = self.isinst(st, v, x)
            if r is None:
                nm = getattr(x, "name", getattr(x, "path", "?"))
                if isinstance(v, AnyV):
                    return self.boolean(T.flag("isinstance", v.name, nm))
                return Num(T.P1(T.atom("flag", ("isinstance", self.it.fresh()), opq=True)), "b", True)
            out = out or r
        return self.boolean(1 if out else 0)

    def isinst(self, st, v, t):
        name = t.name if isinstance(t, (TypeV, ClassV, ExcClass)) else t.path if isinstance(t, Ext) else None
        if isinstance(v, (Opq, AnyV)):
            return None
        if name == "object":
            return True
        if isinstance(t, ClassV):
            if isinstance(v, Obj):
                return any(isinstance(c, ClassV) and c.oid == t.oid for c in v.cls.mro)
            return False
        if isinstance(t, ExcClass):
            return isinstance(v, ExcV) and all(I.exc_is(n, name) for n in v.names)
        if name is None:
            return None
        last = name.split(".")[-1]
        if isinstance(v, Num):
            if last == "bool":
                return v.dt == "b" and v.py
            if last == "int":
                return v.py and v.dt in ("i", "b")
            if last == "float":
                return v.dt == "f" and True
            if last in ("Number", "Real", "Complex"):
                return True
            if last in ("Integral",):
                return v.dt in ("i", "b")
            if last in ("float64", "floating", "double"):
                return (not v.py) and v.dt == "f"
            if last in ("integer", "int64", "int32", "signedinteger", "int_", "unsignedinteger", "uint8"):
                return (not v.py) and v.dt == "i" and last in ("integer", "int64", "signedinteger", "int_")
            if last in ("bool_", "generic", "number"):
                return (not v.py) and (last != "bool_" or v.dt == "b")
            return False
        if isinstance(v, Arr) and v.lst:
            return last in ("list", "Sequence", "Iterable", "Collection", "Sized")
        if isinstance(v, (Arr, Masked)):
            return last in ("ndarray", "Iterable", "Sized", "Collection")
        if isinstance(v, ListRef):
            return last in ("list", "Sequence", "Iterable", "Collection", "Sized", "MutableSequence")
        if isinstance(v, Tup):
            return last in ("tuple", "Sequence", "Iterable", "Collection", "Sized")
        if isinstance(v, (Str, SymStr)):
            return last in ("str", "Sequence", "Iterable", "Collection", "Sized", "basestring")
        if isinstance(v, DictRef):
            return last in ("dict", "Mapping", "Iterable", "Sized", "MutableMapping")
        if isinstance(v, NoneT):
            return last == "NoneType"
        if isinstance(v, (ClassV, TypeV)):
            return last == "type"
        if isinstance(v, (FuncV, Bound, Builtin)):
            return last in ("Callable", "FunctionType")
        return False

    def bi_issubclass(self, st, a, kw, node):
        if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
            return self.boolean(a[1] in a[0].mro)
        return Opq("issubclass")

    def bi_callable(self, st, a, kw, node):
        return self.boolean(isinstance(a[0], (FuncV, Bound, Builtin, ClassV, Method, Ext, TypeV, Partial)))

    def bi_print(self, st, a, kw, node):
        return NONE

    def bi_hasattr(self, st, a, kw, node):
        if isinstance(a[0], Obj) and isinstance(a[1], Str) and a[1].s:
            c = st.cells.get(("a", a[0].oid, a[1].s))
            if isinstance(c, Choice) and self.it.class_attr(st, a[0].cls, a[1].s) is None:
                return self.boolean(ONE - I.unbound_cond(self.it.narrow_val(c, st)))
        sent = Opq("missing")
        v = self.it.getattr(st, a[0], a[1].s, node, sent) if isinstance(a[1], Str) and a[1].s else Opq("hasattr")
        if isinstance(v, Opq) and v is not sent:
            return Num(T.P1(T.atom("flag", ("hasattr", self.it.fresh()), opq=True)), "b", True)
        return self.boolean(0 if v is sent else 1)

    def bi_getattr(self, st, a, kw, node):
        if isinstance(a[1], Choice):
            return self.it.choice_map(st, a[1], lambda s, x: self.bi_getattr(s, [a[0], x] + list(a[2:]), kw, node))
        if isinstance(a[1], Str) and a[1].s is not None:
            return self.it.getattr(st, a[0], a[1].s, node, a[2] if len(a) > 2 else None)
        return self.it.note("getattr")

    def bi_setattr(self, st, a, kw, node):
        if isinstance(a[1], Str) and a[1].s is not None:
            self.it.setattr(st, a[0], a[1].s, a[2], node)
            return NONE
        self.it.havoc_value(st, a[0], "setattr")
        return self.it.note("setattr")

    def bi_abs(self, st, a, kw, node):
        return self.it.np.elementwise(st, "absolute", a[:1], node)

    def bi_round(self, st, a, kw, node):
        if isinstance(a[0], Num):
            return Num(T.fn("round", a[0].p, *[x.p for x in a[1:] if isinstance(x, Num)], is_int=len(a) == 1), "i" if len(a) == 1 else "f", True)
        return Opq("round")

    def bi_pow(self, st, a, kw, node):
        return self.it.binop(st, "Pow", a[0], a[1], node)

    def bi_divmod(self, st, a, kw, node):
        return Tup([self.it.binop(st, "FloorDiv", a[0], a[1], node), self.it.binop(st, "Mod", a[0], a[1], node)])

    def bi_id(self, st, a, kw, node):
        self.it.event("nondet", st, node, what="id()")
        return Num(T.sym("id() at %s run %d" % (":".join(map(str, self.it.loc[:2])), self.it.nonce)), "i", True)

    def bi_hash(self, st, a, kw, node):
        if isinstance(a[0], (Num, NoneT)):
            return Num(T.fn("hash", a[0].p), "i", True) if isinstance(a[0], Num) else self.num(0)
        self.it.event("nondet", st, node, what="hash()")
        return Num(T.sym("hash() at %s run %d" % (":".join(map(str, self.it.loc[:2])), self.it.nonce)), "i", True)

    def bi_iter(self, st, a, kw, node):
        return a[0]

    def bi_next(self, st, a, kw, node):
        v = a[0]
        seq = self.iterate(st, v, node)
        if seq is not None and isinstance(v, (ListRef,)) and seq.items is not None:
            if not seq.items:
                if len(a) > 1:
                    return a[1]
                self.it.raise_(st, "StopIteration", node)
            d = st.cells[("l", v.lid)]
            st.cells[("l", v.lid)] = ListD(d.segs[1:], d.kind)
            return seq.items[0]
        return self.it.note("next")

    def bi_input(self, st, a, kw, node):
        self.it.event("nondet", st, node, what="input()")
        return Opq("input")

    def bi_open(self, st, a, kw, node):
        self.it.event("nondet", st, node, what="open()")
        return Opq("open")

    def bi_any(self, st, a, kw, node):
        return self._anyall(st, a[0], node, True)

    def bi_all(self, st, a, kw, node):
        return self._anyall(st, a[0], node, False)

    def _anyall(self, st, v, node, isany):
        seq = self.iterate(st, v, node)
        if seq is None:
            return Opq("any")
        if seq.items is not None:
            p = ZERO if isany else ONE
            for x in seq.items:
                c = self.truth(st, x, node)
                p = T.lor(p, c) if isany else T.mul(p, c)
            return self.boolean(p)
        k = T.new_var(seq.n)
        c = self.truth(st, seq.get(st, P1(k)), node)
        if isany:
            return self.boolean(T.red("max", k, c) if k in c.leaf else T.mul(c, T.ge(seq.n - 1)))
        return self.boolean(ONE - T.red("max", k, ONE - c) if k in c.leaf else c)

    def bi_sum(self, st, a, kw, node):
        start = a[1] if len(a) > 1 else kw.get("start", self.num(0))
        seq = self.iterate(st, a[0], node)
        if seq is None:
            return Opq("sum")
        if seq.items is not None:
            r = start
            for x in seq.items:
                r = self.it.binop(st, "Add", r, x, node)
            return r
        k = T.new_var(seq.n)
        v = seq.get(st, P1(k))
        if isinstance(v, Num):
            body = v.p
            g = seq.guard(st, P1(k)) if seq.guard else None
            if g is not None:
                body = T.mul(g, body)
            if isinstance(start, Num):
                return Num(start.p + T.mksum([k], body), self.it.join_dt(start.dt, "i" if v.dt == "b" else v.dt), v.py)
        if isinstance(v, (Arr, Frozen)):
            ac = self.it.np.ac(st, v)
            body = ac.body
            g = seq.guard(st, P1(k)) if seq.guard else None
            if g is not None:
                body = T.mul(g, body)
            r = self.it.alloc(st, AC(ac.shape, ac.vars, T.mksum([k], body), ac.dt))
            return self.it.binop(st, "Add", start, r, node)
        return self.it.note("sum")

    def bi_max(self, st, a, kw, node):
        return self._minmax(st, a, kw, node, "max")

    def bi_min(self, st, a, kw, node):
        return self._minmax(st, a, kw, node, "min")

    def _minmax(self, st, a, kw, node, which):
        f = T.maxf if which == "max" else T.minf
        if len(a) == 1:
            seq = self.iterate(st, a[0], node)
            if seq is None or "key" in kw and not isinstance(kw["key"], NoneT):
                return Opq(which)
            if seq.items is None:
                if "default" in kw:
                    return Opq(which)
                k = T.new_var(seq.n)
                v = seq.get(st, P1(k))
                if isinstance(v, Num):
                    return Num(T.red(which, k, v.p), v.dt, v.py)
                return Opq(which)
            a = seq.items
            if not a and "default" in kw:
                return kw["default"]
        elif "key" in kw and not isinstance(kw["key"], NoneT):
            return Opq(which)
        r = None
        for x in a:
            if not isinstance(x, Num):
                return Opq(which)
            r = x if r is None else Num(f(r.p, x.p), self.it.join_dt(r.dt, x.dt), r.py and x.py)
        if r is None:
            self.it.raise_(st, "ValueError", node)
        return r

    def bi_sorted(self, st, a, kw, node):
        v = a[0]
        if isinstance(v, SetV) and v.src is not None:
            n, name, lam = v.src
            return self.it.np.classes(st, "uniq_sorted", n, lam)
        seq = self.iterate(st, v, node)
        if seq is not None and seq.items is not None and "key" not in kw:
            if all(isinstance(x, Str) and x.s is not None for x in seq.items):
                r = sorted((x.s for x in seq.items))
                return self.new_list(st, [Str(x) for x in r])
            if all(isinstance(x, Num) and x.p.const is not None for x in seq.items):
                return self.new_list(st, sorted(seq.items, key=lambda x: x.p.const))
        if isinstance(v, Arr) and not kw and len(v.shape) == 1:
            return self.it.np.call(st, "sort", [v], {}, node)
        return self.it.note("sorted")

    def bi_vars(self, st, a, kw, node):
        if a and isinstance(a[0], (Obj, ModuleV)):
            return Method(a[0], "__dict__")
        return self.it.note("vars")

    def space_get(self, st, o, i, node, default=None):
        """o.obj.__dict__[i]"""
        it = self.it
        if isinstance(i, Str) and i.s is not None:
            x = o.obj
            v = st.cells.get(("a", x.oid, i.s) if isinstance(x, Obj) else ("v", x.env.eid, i.s))
            if isinstance(v, Choice):
                v = it.narrow_val(v, st)
                if default is not None:
                    return it.choice_map(st, v, lambda s, y: default if isinstance(y, Unbound) else y, node)
                return it.drop_unbound(st, v, node, "KeyError")
            if v is not None and not isinstance(v, Unbound):
                return v
            if default is not None:
                return default
            it.raise_(st, "KeyError", node)
        return it.note("__dict__")

    def bi_dir(self, st, a, kw, node):
        return self.it.note("dir")

    def bi_repr(self, st, a, kw, node):
        return Str(None)

    bi_format = bi_repr
    bi_ascii = bi_repr
    bi_chr = bi_repr

    # -------------------------------------------------------------------------------------------- types as callables
    def call_type(self, st, name, a, kw, node):
        it = self.it
        a = list(a)
        if a and isinstance(a[0], Choice) and name in ("int", "float", "bool", "str", "list", "tuple", "range"):
            return it.choice_map(st, a[0], lambda s, x: self.call_type(s, name, [x] + a[1:], kw, node))
        if name in it.np.DTYPES and name not in ("int", "float", "bool", "str", "object"):
            return it.np.scalar_type(st, name, a, node)
        f = getattr(self, "ty_" + name, None)
        if f is None:
            return it.note("call of type " + name)
        return f(st, a, kw, node)

    def ty_int(self, st, a, kw, node):
        if not a:
            return self.num(0)
        v = a[0]
        if isinstance(v, Num):
            return Num(T.trunc(v.p), "i", True)
        if isinstance(v, Arr) and all(s is ONE for s in v.shape) and not v.lst:
            return Num(T.trunc(self.it.read(st, v).at([ZERO] * len(v.shape))), "i", True)
        if isinstance(v, Str) and v.s is not None:
            try:
                return self.num(int(v.s))
            except ValueError:
                self.it.raise_(st, "ValueError", node)
        if isinstance(v, (NoneT, ListRef, Tup, DictRef, Arr)):
            self.it.raise_(st, "TypeError", node)
        return self.convert(st, v, node, "int")

    def convert(self, st, v, node, what):
        it = self.it
        if isinstance(v, AnyV):
            fv, ft = T.flag(what, "ValueError", v.name), T.flag(what, "TypeError", v.name)
            it.may_raise(st, fv, "ValueError", node)
            it.may_raise(st, ft, "TypeError", node)
            return Num(T.sym("%s(%s)" % (what, v.name)), "f" if what == "float" else "i", True)
        if isinstance(v, SymStr):
            fv = T.flag(what, "ValueError", v.name)
            it.may_raise(st, fv, "ValueError", node)
            return Num(T.sym("%s(%s)" % (what, v.name)), "f" if what == "float" else "i", True)
        if isinstance(v, Opq):
            return v
        return it.note(what + " of " + type(v).__name__)

    def ty_float(self, st, a, kw, node):
        if not a:
            return Num(ZERO, "f", True)
        v = a[0]
        if isinstance(v, Num):
            return Num(v.p, "f", True)
        if isinstance(v, Arr) and all(s is ONE for s in v.shape) and not v.lst:
            return Num(self.it.read(st, v).at([ZERO] * len(v.shape)), "f", True)
        if isinstance(v, Str) and v.s is not None:
            try:
                f = float(v.s)
                return self.constant(f)
            except ValueError:
                self.it.raise_(st, "ValueError", node)
        if isinstance(v, (NoneT, ListRef, Tup, DictRef, Arr)):
            self.it.raise_(st, "TypeError", node)
        return self.convert(st, v, node, "float")

    def ty_bool(self, st, a, kw, node):
        return self.boolean(self.truth(st, a[0], node) if a else 0)

    def ty_str(self, st, a, kw, node):
        if a and isinstance(a[0], (Str, SymStr)):
            return a[0]
        if a and isinstance(a[0], Num) and isinstance(a[0].p.const, int) and a[0].dt == "i":
            return Str(str(a[0].p.const))
        return Str(None)

    def ty_list(self, st, a, kw, node):
        if not a:
            return self.new_list(st, [])
        seq = self.iterate(st, a[0], node)
        if seq is None:
            return Opq("list()")
        if seq.items is not None:
            return self.new_list(st, seq.items)
        l = self.new_list(st, [])
        self.list_extend(st, l, seq, node)
        return l

    def ty_tuple(self, st, a, kw, node):
        if not a:
            return Tup(())
        seq = self.iterate(st, a[0], node)
        if seq is None:
            return Opq("tuple()")
        if seq.items is not None:
            return Tup(seq.items)
        l = self.new_list(st, [], "tuple")
        self.list_extend(st, l, seq, node)
        return l

    def ty_dict(self, st, a, kw, node):
        items = []
        if a:
            if isinstance(a[0], DictRef):
                d = st.cells[("d", a[0].did)]
                items = list(d.items)
                if d.opq or d.part:
                    return Opq("dict()")
            else:
                seq = self.iterate(st, a[0], node)
                if seq is None or seq.items is None:
                    return Opq("dict()")
                dd = {}
                for p in seq.items:
                    s2 = self.iterate(st, p, node)
                    if s2 is None or s2.items is None or len(s2.items) != 2 or self.key(s2.items[0]) is None:
                        return Opq("dict()")
                    dd[self.key(s2.items[0])] = s2.items[1]
                items = list(dd.items())
        dd = dict(items)
        for k, v in kw.items():
            dd[("s", k)] = v
        return self.new_dict(st, dd.items())

    def distinct(self, items):
        out = []
        for x in items:
            if not any(same(x, y) for y in out):
                out.append(x)
        return SetV(out, None, any(not self.surely_different(x, y) for i, x in enumerate(out) for y in out[:i]))

    def surely_different(self, a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            return a.p.const is not None and b.p.const is not None and a.p.const != b.p.const
        if isinstance(a, Str) and isinstance(b, Str):
            return a.s is not None and b.s is not None and a.s != b.s
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) != len(b.items) or any(self.surely_different(x, y) for x, y in zip(a.items, b.items))
        kinds = (Num, Str, SymStr, NoneT, Tup, ClassV, FuncV, TypeV, ExcClass)
        if isinstance(a, kinds) and isinstance(b, kinds) and type(a) is not type(b):
            return not {type(a), type(b)} <= {Str, SymStr}
        return isinstance(a, (ClassV, FuncV)) and a is not b

    def set_size(self, v):
        """the number of different items of a small set of numbers"""
        if not v.maybe:
            return P(len(v.items))
        if len(v.items) > 5 or not all(isinstance(x, Num) for x in v.items):
            return None
        n = ZERO
        for i, x in enumerate(v.items):
            new = ONE
            for y in v.items[:i]:
                new = T.mul(new, ONE - T.eq(x.p - y.p))
            n = n + new
        return n

    def ty_set(self, st, a, kw, node):
        if not a:
            return SetV(())
        v = a[0]
        if isinstance(v, SetV):
            return v
        seq = self.iterate(st, v, node)
        if seq is None:
            return Opq("set()")
        if seq.items is not None:
            return self.distinct(seq.items)
        if isinstance(v, (Arr, ListRef)):
            return self.it.np.class_set(st, v)
        return Opq("set()")

    ty_frozenset = ty_set

    def ty_object(self, st, a, kw, node):
        return Opq("object()")

    def ty_type(self, st, a, kw, node):
        v = a[0]
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Num) and v.py:
            return TypeV({"b": "bool", "i": "int", "f": "float"}.get(v.dt, "float"))
        if isinstance(v, (Str, SymStr)):
            return TypeV("str")
        if isinstance(v, ListRef):
            return TypeV("list")
        if isinstance(v, Tup):
            return TypeV("tuple")
        if isinstance(v, DictRef):
            return TypeV("dict")
        if isinstance(v, NoneT):
            return TypeV("NoneType")
        if isinstance(v, Arr):
            return TypeV("list" if v.lst else "ndarray")
        if isinstance(v, ClassV):
            return TypeV("type")
        if isinstance(v, ExcV):
            return ExcClass(v.names[0])
        if isinstance(v, Num):
            return TypeV({"b": "bool_", "i": "int64", "f": "float64"}.get(v.dt, "?"))
        return Opq("type()")

    def ty_slice(self, st, a, kw, node):
        a = list(a)
        if len(a) == 1:
            return SliceV(NONE, a[0], NONE)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)

    def ty_range(self, st, a, kw, node):
        if not all(isinstance(x, Num) for x in a):
            if any(isinstance(x, (Str, NoneT, Arr, Tup)) for x in a):
                self.it.raise_(st, "TypeError", node)
            return Opq("range")
        for x in a:
            if x.dt == "f":
                self.it.raise_(st, "TypeError", node)
        p = [x.p for x in a]
        lo, hi, stp = (ZERO, p[0], ONE) if len(p) == 1 else (p[0], p[1], p[2] if len(p) > 2 else ONE)
        s = stp.const
        if s is None or s == 0:
            return Opq("range")
        if s == 1:
            n = hi - lo
        elif s == -1:
            n = lo - hi
        else:
            d = hi - lo if s > 0 else lo - hi
            n = T.floor(T.scale(d + (abs(s) - 1), Fraction(1, abs(s))))
        if n.const is not None:
            n = P(max(n.const, 0))
        elif not T.prove_ge(n):
            n = T.maxf(n, ZERO)
        get = lambda st, k: Num(lo + T.scale(k, s), "i", True)
        c = n.const
        if c is not None and c <= ITEMS_LIMIT:
            return SeqV(items=[get(None, P(i)) for i in range(int(c))])
        return SeqV(n=n, get=get)

    def ty_enumerate(self, st, a, kw, node):
        start = a[1].p if len(a) > 1 else kw["start"].p if "start" in kw else ZERO
        seq = self.iterate(st, a[0], node)
        if seq is None:
            return Opq("enumerate")
        if seq.items is not None:
            return SeqV(items=[Tup([Num(start + i, "i", True), x]) for i, x in enumerate(seq.items)])
        if seq.guard is not None:
            return Opq("enumerate over a selection")
        return SeqV(n=seq.n, get=lambda s, k: Tup([Num(start + k, "i", True), seq.get(s, k)]))

    def ty_zip(self, st, a, kw, node):
        if not a:
            return SeqV(items=[])
        seqs = [self.iterate(st, x, node) for x in a]
        if any(s is None or s.guard is not None for s in seqs):
            return Opq("zip")
        if all(s.items is not None for s in seqs):
            return SeqV(items=[Tup(x) for x in zip(*[s.items for s in seqs])])
        ns = [P(len(s.items)) if s.items is not None else s.n for s in seqs]
        n = ns[0]
        for m in ns[1:]:
            n = T.minf(n, m) if m is not n else n
        gets = []
        for s in seqs:
            if s.items is not None:
                gets.append(self.items_getter(s.items))
            else:
                gets.append(s.get)
        if n.const is not None and n.const <= ITEMS_LIMIT:
            return SeqV(items=[Tup(g(st, P(i)) for g in gets) for i in range(int(n.const))])
        return SeqV(n=n, get=lambda s, k: Tup(g(s, k) for g in gets))

    def items_getter(self, items):
        def get(s, k):
            c = k.const
            if c is not None and 0 <= c < len(items):
                return items[int(c)]
            v = items[-1] if items else Opq("empty")
            for i in range(len(items) - 2, -1, -1):
                v = self.it.merge_val(T.eq(k - i), items[i], v, s, s, s, {})
            return v
        return get

    def ty_map(self, st, a, kw, node):
        f = a[0]
        seqs = [self.iterate(st, x, node) for x in a[1:]]
        if any(s is None for s in seqs):
            return Opq("map")
        if all(s.items is not None for s in seqs):
            return self.new_list(st, [self.it.call(st, f, list(x), {}, node) for x in zip(*[s.items for s in seqs])])
        if len(seqs) == 1:
            l = self.new_list(st, [])
            env = None

            def run(s):
                return [I.Out("next", s)]

            def bindk(s, k):
                self.list_append(s, l, self.it.call(s, f, [seqs[0].get(s, k)], {}, node), node)
            e = self.it.new_env(None, None, frozenset(), "func", {"node": None, "first": None})
            e.captured = True
            outs = self.it.sym_loop(st, node, seqs[0].n, bindk, run, e, guard=seqs[0].guard)
            nx = [o for o in outs if o.kind == "next"]
            if nx:
                if nx[0].st is not st:
                    st.become(nx[0].st)
                return l
        return Opq("map")

    def ty_filter(self, st, a, kw, node):
        seq = self.iterate(st, a[1], node)
        if seq is None or seq.items is None:
            return Opq("filter")
        out = []
        for x in seq.items:
            c = self.truth(st, x if isinstance(a[0], NoneT) else self.it.call(st, a[0], [x], {}, node), node)
            if c is ONE:
                out.append(x)
            elif c is not ZERO:
                return Opq("filter")
        return self.new_list(st, out)

    def ty_reversed(self, st, a, kw, node):
        seq = self.iterate(st, a[0], node)
        if seq is None or seq.guard is not None:
            return Opq("reversed")
        if seq.items is not None:
            return SeqV(items=list(reversed(seq.items)))
        return SeqV(n=seq.n, get=lambda s, k: seq.get(s, seq.n - 1 - k))

    def ty_property(self, st, a, kw, node):
        return PropertyV(a[0] if a else kw.get("fget", NONE), a[1] if len(a) > 1 else kw.get("fset"))

    def ty_staticmethod(self, st, a, kw, node):
        return StaticV(a[0])

    def ty_classmethod(self, st, a, kw, node):
        return ClassM(a[0])

    def ty_super(self, st, a, kw, node):
        if len(a) == 2 and isinstance(a[0], ClassV):
            return SuperV(a[0], a[1])
        return self.it.note("super")

    def ty_complex(self, st, a, kw, node):
        return Opq("complex")

    ty_bytes = ty_complex

    # -------------------------------------------------------------------------------------------- truth, comparison
    def truth(self, st, v, node):
        it = self.it
        if isinstance(v, Num):
            if v.dt == "b":
                return v.p
            return ONE - T.eq(v.p)
        if isinstance(v, Choice):
            if isinstance(v.a, Unbound) or isinstance(v.b, Unbound):
                v = it.drop_unbound(st, v, node, "UnboundLocalError")
                return self.truth(st, v, node)
            return T.ite(v.c, self.truth(st, v.a, node), self.truth(st, v.b, node))
        if isinstance(v, NoneT):
            return ZERO
        if isinstance(v, Str):
            if v.s is not None:
                return ONE if v.s else ZERO
            return ONE
        if isinstance(v, SymStr):
            return ONE - self.streq(v, Str(""))
        if isinstance(v, Arr) and v.lst:
            return T.ge(v.shape[0] - 1)
        if isinstance(v, Arr):
            if all(s is ONE for s in v.shape):
                p = it.read(st, v)
                b = p.at([ZERO] * len(v.shape))
                return b if p.dt == "b" else ONE - T.eq(b)
            # the truth value of an array with more than one element is an error
            n = T.prodn(list(v.shape))
            if n.const is not None and n.const > 1:
                it.raise_(st, "ValueError", node)
            many = T.ge(n - 2)
            it.may_raise(st, many, "ValueError", node)
            b = it.read(st, v).at([ZERO] * len(v.shape))
            return ONE - T.eq(b)
        if isinstance(v, Tup):
            return ONE if v.items else ZERO
        if isinstance(v, SetV):
            return (ONE if v.items else ZERO) if v.src is None else T.ge(v.src[0] - 1)
        if isinstance(v, ListRef):
            n = self.list_len(st, v)
            return T.P1(T.atom("flag", ("list", it.fresh()), opq=True)) if n is None else T.ge(n - 1)
        if isinstance(v, DictRef):
            d = st.cells[("d", v.did)]
            return ONE if d.items else ZERO
        if isinstance(v, Obj):
            f = it.class_attr(st, v.cls, "__bool__")
            if f is not None:
                return self.truth(st, it.call(st, Bound(f, v), [], {}, node), node)
            f = it.class_attr(st, v.cls, "__len__")
            if f is not None:
                return self.truth(st, it.call(st, Bound(f, v), [], {}, node), node)
            return ONE
        if isinstance(v, AnyV):
            return T.flag("truth", v.name)
        if isinstance(v, SeqV):
            return T.ge((P(len(v.items)) if v.items is not None else v.n) - 1)
        if isinstance(v, Opq):
            return T.P1(T.atom("flag", ("truth", it.fresh()), opq=True))
        return ONE

    def streq(self, a, b):
        """condition a == b for strings, one of them symbolic"""
        if isinstance(a, SymStr) and isinstance(b, SymStr):
            if a.name == b.name and a.form == b.form:
                return ONE
            return T.P1(T.atom("flag", ("streq", self.it.fresh()), opq=True))
        if isinstance(b, SymStr):
            a, b = b, a
        s = b.s
        if s is None:
            return T.P1(T.atom("flag", ("streq", self.it.fresh()), opq=True))
        if a.form == "upper":
            return T.tag((a.name, "fold"), s.upper()) if s == s.upper() else ZERO
        if a.form in ("lower", "fold"):
            return T.tag((a.name, "fold"), s.upper()) if s == s.lower() else ZERO
        if a.form:
            return T.tag((a.name, "ops", a.ops), s)
        return T.tag(a.name, s)

    def word_test(self, w, op, args):
        """the condition that the operation gives True for the symbolic string"""
        return T.tag((w.name, "ops", w.ops + ((op, tuple(args)),)), True)

    def word_method(self, st, o, name, a, kw, node):
        it = self.it
        if name == "format":
            return Str(None)
        if name in ("upper", "lower", "casefold") and (not o.form or o.form in ("upper", "lower")):
            return SymStr(o.name, "upper" if name == "upper" else "lower")
        args = []
        for x in a:
            x = Tup(x.items) if isinstance(x, Tup) else x
            if isinstance(x, Str) and x.s is not None:
                args.append(x.s)
            elif isinstance(x, Num) and isinstance(x.p.const, int):
                args.append(x.p.const)
            elif isinstance(x, Tup) and all(isinstance(y, Str) and y.s is not None for y in x.items):
                args.append(tuple(y.s for y in x.items))
            else:
                args = None
                break
        if args is None or kw:
            return it.note("str method on a symbolic string")
        if name in ("startswith", "endswith", "isalpha", "isdigit", "isnumeric", "isdecimal", "isspace", "isupper", "islower", "isalnum",
                    "istitle", "isidentifier", "isascii", "isprintable"):
            return self.boolean(self.word_test(o, name, args))
        if name in ("__contains__",) and len(args) == 1:
            return self.boolean(self.word_test(o, "has", args))
        if name in ("__eq__",) and len(args) == 1 and isinstance(args[0], str):
            return self.boolean(self.streq(o, a[0]))
        if name in ("strip", "lstrip", "rstrip", "replace", "upper", "lower", "casefold", "capitalize", "title", "swapcase",
                    "removeprefix", "removesuffix", "zfill", "expandtabs"):
            return o.then(name, args)
        return it.note("str method on a symbolic string")

    def eqv(self, st, a, b, node):
        """condition a == b"""
        it = self.it
        if isinstance(a, Num) and isinstance(b, Num):
            return T.eq(a.p - b.p)
        if isinstance(a, (Str, SymStr)) and isinstance(b, (Str, SymStr)):
            if isinstance(a, Str) and isinstance(b, Str):
                if a.s is None or b.s is None:
                    return T.P1(T.atom("flag", ("streq", it.fresh()), opq=True))
                return ONE if a.s == b.s else ZERO
            return self.streq(a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return T.P1(T.atom("flag", ("eq", it.fresh()), opq=True))
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            if isinstance(b, AnyV):
                a, b = b, a
            k = self.key(b)
            if k is not None and isinstance(a, AnyV):
                return T.tag("any:" + a.name, str(k))
            return T.P1(T.atom("flag", ("eq", it.fresh()), opq=True))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return ZERO
            p = ONE
            for x, y in zip(a.items, b.items):
                p = T.mul(p, self.eqv(st, x, y, node))
            return p
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            da, db = st.cells[("l", a.lid)], st.cells[("l", b.lid)]
            if da.concrete and db.concrete:
                return self.eqv(st, Tup(da.items), Tup(db.items), node)
            return T.P1(T.atom("flag", ("eq", it.fresh()), opq=True))
        if isinstance(a, Obj):
            f = it.class_attr(st, a.cls, "__eq__")
            if f is not None:
                return self.truth(st, it.call(st, Bound(f, a), [b], {}, node), node)
        if any(isinstance(v, TypeV) and v.name.startswith("dtype:") for v in (a, b)):
            return it.np.dtype_eq(st, a, b, node)
        if isinstance(a, (TypeV, Ext)) and isinstance(b, (TypeV, Ext)):
            x = a.name if isinstance(a, TypeV) else a.path.split(".")[-1]
            y = b.name if isinstance(b, TypeV) else b.path.split(".")[-1]
            return ONE if x == y else ZERO
        return ONE if same(a, b) else ZERO

    CMP = {"Lt": lambda a, b: T.gt(b - a), "LtE": lambda a, b: T.ge(b - a), "Gt": lambda a, b: T.gt(a - b),
           "GtE": lambda a, b: T.ge(a - b), "Eq": lambda a, b: T.eq(a - b), "NotEq": lambda a, b: ONE - T.eq(a - b)}

    def compare(self, st, op, a, b, node):
        it = self.it
        if op in ("Is", "IsNot"):
            r = self.identical(st, a, b)
            if r is None:
                r = T.P1(T.atom("flag", ("is", it.fresh()), opq=True))
            return self.boolean(r if op == "Is" else ONE - r)
        if op in ("In", "NotIn"):
            r = self.contains(st, a, b, node)
            return self.boolean(r if op == "In" else ONE - r)
        la = isinstance(a, (Arr, Masked)) and not getattr(a, "lst", False)
        lb = isinstance(b, (Arr, Masked)) and not getattr(b, "lst", False)
        if la or lb:
            o = b if la else a
            if isinstance(o, NoneT) or isinstance(o, (Str, SymStr)):
                if op in ("Eq", "NotEq") and isinstance(o, NoneT):
                    x = it.np.ac(st, a if la else b)
                    return it.alloc(st, AC(x.shape, x.vars, ZERO if op == "Eq" else ONE, "b"))
                return it.note("comparison of an array with a string")
            if isinstance(o, Opq):
                return o
            return it.np.elementwise(st, op, [a, b], node)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Num(T.P1(T.atom("flag", ("cmp", it.fresh()), opq=True)), "b", True)
        if isinstance(a, Num) and isinstance(b, Num):
            return Num(self.CMP[op](a.p, b.p), "b", a.py and b.py)
        if op in ("Eq", "NotEq"):
            r = self.eqv(st, a, b, node)
            return self.boolean(r if op == "Eq" else ONE - r)
        if isinstance(a, Str) and isinstance(b, Str) and a.s is not None and b.s is not None:
            r = {"Lt": a.s < b.s, "LtE": a.s <= b.s, "Gt": a.s > b.s, "GtE": a.s >= b.s}[op]
            return self.boolean(r)
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            return self.boolean(T.P1(T.atom("flag", ("cmp", it.fresh()), opq=True)))
        if isinstance(a, (NoneT, Str, SymStr, ListRef, Tup, DictRef)) != isinstance(b, (NoneT, Str, SymStr, ListRef, Tup, DictRef)) \
                or isinstance(a, NoneT) or isinstance(b, NoneT):
            it.raise_(st, "TypeError", node)
        if isinstance(a, Tup) and isinstance(b, Tup) and all(isinstance(x, Num) and x.p.const is not None for x in a.items + b.items):
            x, y = [q.p.const for q in a.items], [q.p.const for q in b.items]
            return self.boolean({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])
        it.note("comparison")
        return Num(T.P1(T.atom("flag", ("cmp", it.fresh()), opq=True)), "b", True)

    def identical(self, st, a, b):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return None
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            x, y = (a, b) if isinstance(a, AnyV) else (b, a)
            if isinstance(y, NoneT):
                return T.tag("any:" + x.name, "('none',)")
            return None
        if isinstance(a, NoneT) or isinstance(b, NoneT):
            return ONE if a is b else ZERO
        if isinstance(a, Num) and isinstance(b, Num):
            if a.dt != b.dt:
                return ZERO
            if a.dt == "b" and a.py and b.py:
                return T.eq(a.p - b.p)
            if a.py and b.py and a.p.const is not None and b.p.const is not None:
                return T.eq(a.p - b.p)
            return None
        if type(a) is not type(b):
            return ZERO
        if isinstance(a, Str):
            return None if a.s is None or b.s is None else (ONE if a.s == b.s else ZERO)
        if isinstance(a, Arr):
            return ONE if same(a, b) else (ZERO if a.rid != b.rid else None)
        return ONE if same(a, b) else ZERO

    def contains(self, st, a, b, node):
        it = self.it
        if isinstance(b, Method) and b.name == "__dict__" and isinstance(a, Str) and a.s is not None and isinstance(b.obj, (Obj, ModuleV)):
            v = st.cells.get(("a", b.obj.oid, a.s) if isinstance(b.obj, Obj) else ("v", b.obj.env.eid, a.s))
            return ZERO if v is None else ONE - I.unbound_cond(it.narrow_val(v, st) if isinstance(v, Choice) else v)
        if isinstance(b, DictRef):
            d = st.cells[("d", b.did)]
            if d.opq:
                return T.P1(T.atom("flag", ("in", it.fresh()), opq=True))
            items = [self.unkey(k) for k, v in d.items]
        elif isinstance(b, Str) and isinstance(a, Str) and a.s is not None and b.s is not None:
            return ONE if a.s in b.s else ZERO
        elif isinstance(b, SymStr) and isinstance(a, Str) and a.s is not None:
            return self.word_test(b, "has", (a.s,))
        elif isinstance(a, SymStr) and isinstance(b, Str) and b.s is not None:
            return self.word_test(a, "within", (b.s,))
        elif isinstance(b, (Str, SymStr)):
            if not isinstance(a, (Str, SymStr, Opq)):
                it.raise_(st, "TypeError", node)
            return T.P1(T.atom("flag", ("in", it.fresh()), opq=True))
        elif isinstance(b, (Num, NoneT)):
            it.raise_(st, "TypeError", node)
        else:
            seq = self.iterate(st, b, node)
            if seq is None:
                return T.P1(T.atom("flag", ("in", it.fresh()), opq=True))
            if seq.items is None:
                k = T.new_var(seq.n)
                v = seq.get(st, P1(k))
                return T.red("max", k, self.eqv(st, a, v, node)) if isinstance(v, Num) else \
                    T.P1(T.atom("flag", ("in", it.fresh()), opq=True))
            items = seq.items
        r = ZERO
        for x in items:
            r = T.lor(r, self.eqv(st, a, x, node))
        return r

    # -------------------------------------------------------------------------------------------- iteration
    def is_list(self, v):
        return isinstance(v, (ListRef, Tup)) or (isinstance(v, Arr) and v.lst)

    def iterate(self, st, v, node):
        it = self.it
        if isinstance(v, SeqV):
            return v
        if isinstance(v, Tup):
            return SeqV(items=list(v.items))
        if isinstance(v, SetV) and v.maybe:
            return None
        if isinstance(v, SetV):
            if v.src is not None:
                it.event("set_order", st, node)
                n, name, lam = v.src
                return SeqV(n=n, get=lambda s, k: Num(T.fa(name, (lam,), (k,)), "o"))
            if len(v.items) > 1:
                it.event("set_order", st, node, items=len(v.items))
                if it.nonce and not all(isinstance(x, Num) for x in v.items):
                    return SeqV(items=list(v.items)[::-1])
            return SeqV(items=list(v.items))
        if isinstance(v, Str) and v.s is not None:
            return SeqV(items=[Str(c) for c in v.s])
        if isinstance(v, DictRef):
            d = st.cells[("d", v.did)]
            if d.opq or d.part:
                return None
            return SeqV(items=[self.unkey(k) for k, x in d.items])
        if isinstance(v, ListRef):
            d = st.cells[("l", v.lid)]
            if d.concrete:
                return SeqV(items=list(d.items))
            n = self.list_len(st, v)
            if n is None:
                return None
            lid = v.lid

            def get(s, k):
                return self.list_get(s, d, k)
            return SeqV(n=n, get=get)
        if isinstance(v, Arr):
            if not v.shape:
                return None
            n = v.shape[0]
            if n.const is not None and n.const <= ITEMS_LIMIT:
                return SeqV(items=[self.getitem(st, v, Num(P(i), "i", True), node) for i in range(int(n.const))])
            return SeqV(n=n, get=lambda s, k: self.getitem(s, v, Num(k, "i", True), node))
        if isinstance(v, Masked):
            ac = v.ac
            if ac.mask[0] != 0:
                n = ac.shape[0]
                return None
            return SeqV(n=ac.shape[0], get=lambda s, k: it.np.masked_row(s, ac, k),
                        guard=lambda s, k: T.subst(ac.mask[1], {ac.vars[0]: k}))
        if isinstance(v, Frozen):
            return self.iterate(st, it.alloc(st, v.ac), node)
        if isinstance(v, (Num, NoneT)):
            it.raise_(st, "TypeError", node, "not iterable")
        if isinstance(v, Obj):
            f = it.class_attr(st, v.cls, "__iter__")
            if f is not None:
                return self.iterate(st, it.call(st, Bound(f, v), [], {}, node), node)
        return None

    def list_get(self, st, d, k):
        """element k (a Poly) of a list with symbolic segments"""
        it = self.it
        off = ZERO
        cands = []
        for s in d.segs:
            if s[0] == "it":
                cands.append((T.eq(k - off), s[1]))
                off = off + 1
            elif s[0] == "seg":
                c = len(s[3])
                if c != 1:
                    return Opq("list element")
                inside = T.mul(T.ge(k - off), T.ge(off + s[2] - 1 - k))
                cands.append((inside, subst_val(s[3][0], {s[1]: k - off})))
                off = off + s[2]
            else:
                return Opq("list element")
        v = None
        for c, x in reversed(cands):
            x = self.thaw(st, x)
            if c is ZERO:
                continue
            v = x if v is None or c is ONE else it.merge_val(c, x, v, st, st, st, {})
        return v if v is not None else Opq("list element")

    def thaw(self, st, x):
        if isinstance(x, Frozen):
            return self.it.alloc(st, x.ac)
        if isinstance(x, Tup):
            return Tup(self.thaw(st, y) for y in x.items)
        return x

    # -------------------------------------------------------------------------------------------- lists
    def list_append(self, st, l, v, node):
        d = st.cells[("l", l.lid)]
        self.it.writes.setdefault(("l", l.lid), set()).add(self.it.where(node))
        st.cells[("l", l.lid)] = ListD(d.segs + (("it", v),), d.kind)
        self.it.event("grow", st, node, cell=("l", l.lid), by=ONE)

    def list_extend(self, st, l, seq, node):
        d = st.cells[("l", l.lid)]
        if seq is None or seq.items is None or seq.items:
            self.it.event("grow", st, node, cell=("l", l.lid), by=ONE)
        if seq is None or seq.guard is not None:
            st.cells[("l", l.lid)] = ListD([("opq",)], d.kind)
            return
        if seq.items is not None:
            st.cells[("l", l.lid)] = ListD(d.segs + tuple(("it", x) for x in seq.items), d.kind)
            return
        k = T.new_var(seq.n)
        v = I.freeze(self.it, st, seq.get(st, P1(k)))
        st.cells[("l", l.lid)] = ListD(d.segs + (("seg", k, seq.n, (v,)),), d.kind)

    def delitem(self, st, o, i, node):
        if isinstance(o, (DictRef, ListRef)):
            self.it.event("shrink", st, node, cell=("d", o.did) if isinstance(o, DictRef) else ("l", o.lid))
        if isinstance(o, DictRef):
            d = st.cells[("d", o.did)]
            k = self.key(i)
            if k is None or d.part or not any(x == k for x, v in d.items) or any(self.keq(x, k) not in (ONE, ZERO) for x, v in d.items):
                st.cells[("d", o.did)] = DictD(d.items, True)
            else:
                st.cells[("d", o.did)] = DictD([(x, v) for x, v in d.items if x != k], d.opq)
            return
        if isinstance(o, ListRef):
            d = st.cells[("l", o.lid)]
            c = i.p.const if isinstance(i, Num) else None
            if d.concrete and c is not None and -len(d.segs) <= c < len(d.segs):
                segs = list(d.segs)
                del segs[int(c)]
                st.cells[("l", o.lid)] = ListD(segs, d.kind)
            else:
                st.cells[("l", o.lid)] = ListD([("opq",)], d.kind)
            return
        self.it.note("del item")

    # -------------------------------------------------------------------------------------------- subscripts
    def getitem(self, st, o, i, node):
        it = self.it
        if isinstance(o, Method) and o.name == "__dict__" and isinstance(o.obj, (Obj, ModuleV)):
            return self.space_get(st, o, i, node)
        if isinstance(o, Arr) or isinstance(o, Masked):
            return it.np.getitem(st, o, i, node)
        if isinstance(o, Frozen):
            return it.np.getitem(st, it.alloc(st, o.ac), i, node)
        if isinstance(o, (Tup, ListRef)):
            if isinstance(o, ListRef) and not st.cells[("l", o.lid)].concrete:
                return self.getitem_symlist(st, o, i, node)
            items = list(o.items) if isinstance(o, Tup) else st.cells[("l", o.lid)].items
            if isinstance(i, SliceV):
                b = self.slice_const(i, len(items))
                if b is None:
                    return it.note("list slice")
                r = items[b]
                return Tup(r) if isinstance(o, Tup) else self.new_list(st, r)
            if isinstance(i, Num):
                if i.dt == "f":
                    it.raise_(st, "TypeError", node)
                c = i.p.const
                if c is None:
                    n = len(items)
                    k = it.np.wrap(i.p, P(n))
                    return self.items_getter(items)(st, k)
                if not -len(items) <= c < len(items):
                    it.raise_(st, "IndexError", node)
                return items[int(c)]
            if isinstance(i, (Str, NoneT, SymStr, Tup)):
                it.raise_(st, "TypeError", node)
            return it.note("list index")
        if isinstance(o, DictRef):
            d = st.cells[("d", o.did)]
            k = self.key(i)
            if k is None and isinstance(i, (Arr, ListRef, DictRef)):
                it.raise_(st, "TypeError", node)
            if k is None or d.opq:
                return it.note("dict item")
            hits, miss = self.find(st, d, k)
            if not hits:
                it.raise_(st, "KeyError", node, k)
            it.may_raise(st, miss, "KeyError", node)
            return self.found(d, hits, ZERO)
        if isinstance(o, Str):
            if o.s is None:
                return Str(None)
            if isinstance(i, SliceV):
                b = self.slice_const(i, len(o.s))
                return Str(o.s[b]) if b is not None else Str(None)
            if isinstance(i, Num) and i.p.const is not None:
                try:
                    return Str(o.s[int(i.p.const)])
                except IndexError:
                    it.raise_(st, "IndexError", node)
            return Str(None)
        if isinstance(o, SymStr):
            if isinstance(i, Num) and isinstance(i.p.const, int):
                c = i.p.const
                short = self.streq(o, Str("")) if c in (0, -1) else ONE - self.word_test(o, "longer", (c if c >= 0 else -c - 1,))
                it.may_raise(st, short, "IndexError", node)
                return o.then("item", (c,))
            if isinstance(i, SliceV):
                ks = []
                for x in (i.lo, i.hi, i.step):
                    if x is None or isinstance(x, NoneT):
                        ks.append(None)
                    elif isinstance(x, Num) and isinstance(x.p.const, int):
                        ks.append(x.p.const)
                if len(ks) == 3:
                    return o.then("slice", ks)
            return it.note("item of a symbolic string")
        if isinstance(o, SeqV):
            if isinstance(i, Num):
                if o.items is not None:
                    return self.getitem(st, Tup(o.items), i, node)
                return o.get(st, it.np.wrap(i.p, o.n))
        if isinstance(o, (Num, NoneT, Obj)):
            it.raise_(st, "TypeError", node)
        if isinstance(o, (ClassV, TypeV, Ext)):
            return o        # generic alias such as list[int]
        if isinstance(o, Ext):
            return o
        return it.note("item of " + type(o).__name__)

    def getitem_symlist(self, st, o, i, node):
        it = self.it
        d = st.cells[("l", o.lid)]
        if isinstance(i, Num):
            n = self.list_len(st, o)
            if n is None:
                return Opq("list element")
            return self.list_get(st, d, it.np.wrap(i.p, n))
        if isinstance(i, SliceV):
            n = self.list_len(st, o)
            if n is None:
                return Opq("list slice")
            r = it.np.slice_range(i, n)
            if r is None:
                return Opq("list slice")
            lo, ln, step = r
            k = T.new_var(ln)
            v = I.freeze(it, st, self.list_get(st, d, lo + T.scale(P1(k), step)))
            lid = it.fresh()
            st.cells[("l", lid)] = ListD([("seg", k, ln, (v,))], d.kind)
            return ListRef(lid)
        return Opq("list element")

    def slice_const(self, s, n):
        out = []
        for x in (s.lo, s.hi, s.step):
            if isinstance(x, NoneT):
                out.append(None)
            elif isinstance(x, Num) and x.p.const is not None:
                out.append(int(x.p.const))
            else:
                return None
        return slice(*out)

    def setitem(self, st, o, i, v, node):
        it = self.it
        if isinstance(o, Method) and o.name == "__dict__" and isinstance(o.obj, (Obj, ModuleV)):
            if isinstance(i, Str) and i.s is not None:
                it.setattr(st, o.obj, i.s, v, node)
            else:
                it.havoc_value(st, o.obj, "__dict__")
                it.note("__dict__")
            return
        if isinstance(o, Arr):
            it.np.setitem(st, o, i, v, node)
            return
        if isinstance(o, DictRef):
            d = st.cells[("d", o.did)]
            it.writes.setdefault(("d", o.did), set()).add(it.where(node))
            if it.owner.get(("d", o.did)):
                it.event("write", st, node, rid=("d", o.did), owner=it.owner[("d", o.did)])
            k = self.key(i)
            if k is None:
                st.cells[("d", o.did)] = DictD(d.items, True)
                it.event("grow", st, node, cell=("d", o.did), by=None)
                return
            hits, miss = self.find(st, d, k)
            if miss is not ZERO:
                it.event("grow", st, node, cell=("d", o.did), by=miss)
            items = list(d.items)
            for c, j in hits:
                items[j] = (items[j][0], v if c is ONE or miss is ZERO and len(hits) == 1 else Choice(c, v, items[j][1]))
            if miss is not ZERO:
                items.append((k, v))
            st.cells[("d", o.did)] = DictD(items, d.opq, d.part or bool(hits) and miss is not ZERO)
            return
        if isinstance(o, ListRef):
            if isinstance(i, SliceV):
                it.event("shrink", st, node, cell=("l", o.lid))
            d = st.cells[("l", o.lid)]
            it.writes.setdefault(("l", o.lid), set()).add(it.where(node))
            if it.owner.get(("l", o.lid)):
                it.event("write", st, node, rid=("l", o.lid), owner=it.owner[("l", o.lid)])
            if isinstance(i, Num) and i.p.const is not None and d.concrete:
                c = int(i.p.const)
                n = len(d.segs)
                if not -n <= c < n:
                    it.raise_(st, "IndexError", node)
                segs = list(d.segs)
                segs[c] = ("it", v)
                st.cells[("l", o.lid)] = ListD(segs, d.kind)
                return
            if isinstance(i, Num) and d.concrete:
                k = it.np.wrap(i.p, P(len(d.segs)))
                segs = [("it", it.merge_val(T.eq(k - j), v, s[1], st, st, st, {})) for j, s in enumerate(d.segs)]
                st.cells[("l", o.lid)] = ListD(segs, d.kind)
                return
            st.cells[("l", o.lid)] = ListD([("opq",)], d.kind)
            it.note("list store")
            return
        if isinstance(o, (Tup, Str, Num, NoneT)):
            it.raise_(st, "TypeError", node)
        if isinstance(o, Masked):
            return
        it.note("item store")

    # -------------------------------------------------------------------------------------------- operators
    def binop(self, st, op, a, b, node):
        it = self.it
        if isinstance(a, Str) and isinstance(b, Str) and op == "Add":
            return Str(a.s + b.s) if a.s is not None and b.s is not None else Str(None)
        if isinstance(a, (Str, SymStr)) and op in ("Mod", "Add"):
            if op == "Add" and not isinstance(b, (Str, SymStr)):
                it.raise_(st, "TypeError", node)
            if op == "Add" and isinstance(a, SymStr) and isinstance(b, Str) and b.s is not None:
                return a.then("suffix", (b.s,)) if b.s else a
            if op == "Add" and isinstance(b, SymStr) and isinstance(a, Str) and a.s is not None:
                return b.then("prefix", (a.s,)) if a.s else b
            return Str(None)
        if isinstance(b, SymStr) and isinstance(a, Str):
            return Str(None)
        if isinstance(a, Str) and op == "Mult" and isinstance(b, Num):
            return Str(a.s * int(b.p.const)) if a.s is not None and b.p.const is not None else Str(None)
        if isinstance(a, (Str, SymStr)) or isinstance(b, (Str, SymStr)):
            it.raise_(st, "TypeError", node)
        if isinstance(a, NoneT) or isinstance(b, NoneT):
            it.raise_(st, "TypeError", node)
        if op == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if op == "Add" and isinstance(a, ListRef) and isinstance(b, ListRef):
            lid = it.fresh()
            st.cells[("l", lid)] = ListD(st.cells[("l", a.lid)].segs + st.cells[("l", b.lid)].segs)
            return ListRef(lid)
        if op == "Mult":
            l, n = (a, b) if self.is_list(a) else (b, a)
            if isinstance(n, Num):
                c = n.p.const
                if isinstance(l, Tup) and c is not None:
                    return Tup(list(l.items) * int(c))
                if isinstance(l, ListRef):
                    d = st.cells[("l", l.lid)]
                    if d.concrete and c is not None:
                        return self.new_list(st, list(d.items) * int(c))
                    if d.concrete and len(d.segs) == 1:
                        v = I.freeze(it, st, d.items[0])
                        lid = it.fresh()
                        nn = n.p if T.prove_ge(n.p) else T.maxf(n.p, ZERO)
                        st.cells[("l", lid)] = ListD([("seg", T.new_var(nn), nn, (v,))])
                        return ListRef(lid)
        if op == "BitOr" and isinstance(a, DictRef) and isinstance(b, DictRef):
            d = dict(st.cells[("d", a.did)].items)
            d.update(dict(st.cells[("d", b.did)].items))
            return self.new_dict(st, d.items())
        if op in ("BitOr", "BitAnd", "Sub", "BitXor") and isinstance(a, SetV) and isinstance(b, SetV) and a.src is None and b.src is None \
                and not self.distinct(a.items + b.items).maybe:
            ia, ib = list(a.items), list(b.items)
            has = lambda x, s: any(same(x, y) for y in s)
            if op == "BitOr":
                return SetV(ia + [x for x in ib if not has(x, ia)])
            if op == "BitAnd":
                return SetV([x for x in ia if has(x, ib)])
            if op == "Sub":
                return SetV([x for x in ia if not has(x, ib)])
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            return it.note("operator on an arbitrary object")
        if (isinstance(a, Arr) and a.lst) or (isinstance(b, Arr) and b.lst):
            if op in ("Sub", "Div", "Pow", "MatMult") or (isinstance(a, Num) or isinstance(b, Num)) and op == "Add":
                it.raise_(st, "TypeError", node)
            return it.note("operator on a list")
        if isinstance(a, (ListRef, Tup, DictRef, FuncV, ClassV, TypeV)) or isinstance(b, (ListRef, Tup, DictRef, FuncV, ClassV, TypeV)):
            if op == "BitOr":
                return Opq("union type")
            it.raise_(st, "TypeError", node)
        return it.note("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))

    # -------------------------------------------------------------------------------------------- attributes, methods
    STR_METHODS = {m for m in dir(str) if not m.startswith("_")}
    LIST_METHODS = {"append", "extend", "insert", "pop", "remove", "index", "count", "sort", "reverse", "copy", "clear",
                    "appendleft", "popleft", "rotate"}
    DICT_METHODS = {"keys", "values", "items", "get", "pop", "update", "setdefault", "copy", "clear"}

    def getattr(self, st, o, name, node, default=None):
        it = self.it
        if isinstance(o, Arr) and o.lst:
            if name in ("copy", "index", "count", "append", "__len__", "__getitem__"):
                return Method(o, name)
            if default is not None:
                return default
            it.raise_(st, "AttributeError", node, "list has no attribute " + name)
        if isinstance(o, (Arr, Masked)):
            return it.np.arr_attr(st, o, name, node, default)
        if isinstance(o, Num):
            if o.py:
                if name in ("real", "numerator"):
                    return o
                if name == "imag":
                    return self.num(0)
                if name == "denominator" and o.dt in "ib":
                    return self.num(1)
                if name in ("is_integer", "conjugate", "bit_length", "as_integer_ratio"):
                    return Method(o, name)
                if hasattr(float, name) or o.dt in "ib" and hasattr(int, name):
                    it.note("number attribute " + name)
                    return Opq("attribute")
                if default is not None:
                    return default
                it.raise_(st, "AttributeError", node, name)
            return it.np.scalar_attr(st, o, name, node, default)
        if isinstance(o, (Str, SymStr)) and name in self.STR_METHODS:
            return Method(o, name)
        if isinstance(o, ListRef) and name in self.LIST_METHODS:
            return Method(o, name)
        if isinstance(o, Tup) and name in ("index", "count"):
            return Method(o, name)
        if isinstance(o, DictRef) and name in self.DICT_METHODS:
            return Method(o, name)
        if isinstance(o, SetV) and name in ("add", "union", "intersection", "difference", "copy", "issubset", "issuperset"):
            return Method(o, name)
        if isinstance(o, (FuncV, Bound, Builtin)):
            f = o.fn if isinstance(o, Bound) else o
            if name in ("__name__", "__qualname__"):
                return Str(f.name)
            if name == "__doc__":
                return Str(None)
            if name == "__func__" and isinstance(o, Bound):
                return o.fn
            if name == "__self__" and isinstance(o, Bound):
                return o.self
            v = st.cells.get(("fa", id(f), name))
            if v is not None:
                return v
            if default is not None:
                return default
            if isinstance(f, FuncV):
                if name.startswith("__"):
                    return Opq("function attribute")
                it.raise_(st, "AttributeError", node, name)
        if isinstance(o, PropertyV) and name in ("setter", "getter", "deleter"):
            return Method(o, name)
        if isinstance(o, TypeV):
            if o.name == "dict" and name == "fromkeys":
                return Method(o, name)
            if o.name in ("str", "list", "object", "float", "int", "dict", "tuple", "set"):
                return Method(o, name)
            if name == "__name__":
                return Str(o.name)
            if name == "ndarray":
                return Opq("type attribute")
        if isinstance(o, ExcV):
            if name == "args":
                return Tup(o.args)
            return Opq("exception attribute")
        if isinstance(o, AnyV):
            fl = T.flag("has attribute", o.name, name)
            it.may_raise(st, ONE - fl, "AttributeError", node)
            return Method(o, name)
        if isinstance(o, Method) and o.name == "__dict__":
            return Method(o, name)
        if isinstance(o, SeqV):
            return Opq("attribute of an iterator")
        if isinstance(o, (Opq, Method)):
            return Opq("attribute")
        if isinstance(o, TypeV):
            if o.name.startswith("dtype:"):
                return it.np.dtype_attr(st, o.name[6:], name)
            return Opq("type attribute")
        py = str if isinstance(o, (Str, SymStr)) else list if isinstance(o, ListRef) else tuple if isinstance(o, Tup) else \
            dict if isinstance(o, DictRef) else set if isinstance(o, SetV) else None
        if py is not None and hasattr(py, name) or isinstance(o, (ListRef, Tup)) and hasattr(collections.deque(), name):
            it.note("%s.%s" % (py.__name__, name))
            return Opq("attribute")
        if default is not None:
            return default
        if isinstance(o, Unbound):
            it.raise_(st, "UnboundLocalError", node)
        it.raise_(st, "AttributeError", node, "%s has no attribute %s" % (type(o).__name__, name))

    def call_method(self, st, o, name, a, kw, node):
        it = self.it
        if isinstance(o, Arr) and o.lst:
            if name == "copy":
                return it.alloc(st, it.read(st, o), lst=True)
            return it.note("list method")
        if isinstance(o, (Arr, Masked)):
            return it.np.arr_method(st, o, name, a, kw, node)
        if isinstance(o, Num):
            return it.np.scalar_method(st, o, name, a, kw, node)
        if isinstance(o, Str):
            return self.str_method(st, o, name, a, kw, node)
        if isinstance(o, SymStr):
            return self.word_method(st, o, name, a, kw, node)
        if isinstance(o, GenV):
            return it.np.generator_method(st, o, name, a, kw, node)
        if isinstance(o, ListRef):
            return self.list_method(st, o, name, a, kw, node)
        if isinstance(o, Tup):
            if name == "index":
                for i, x in enumerate(o.items):
                    if self.eqv(st, x, a[0], node) is ONE:
                        return self.num(i)
            return it.note("tuple method")
        if isinstance(o, DictRef):
            return self.dict_method(st, o, name, a, kw, node)
        if isinstance(o, PropertyV):
            if name == "setter":
                return PropertyV(o.get, a[0])
            if name == "getter":
                return PropertyV(a[0], o.set)
            return o
        if isinstance(o, SuperV):
            if name == "__setattr__" and isinstance(a[0], Str):
                it.writes.setdefault(("a", o.obj.oid, a[0].s), set()).add(it.where(node))
                st.cells[("a", o.obj.oid, a[0].s)] = a[1]
                return NONE
            if name == "__new__":
                return Obj(it.fresh(), a[0]) if isinstance(a[0], ClassV) else Opq("__new__")
            if name == "__init__":
                if (a or kw) and not isinstance(o.obj, Opq):
                    mro = o.obj.cls.mro if isinstance(o.obj, Obj) else []
                    if not any(isinstance(c, (ExcClass, Opq)) for c in mro):
                        it.raise_(st, "TypeError", node, "object.__init__() takes no arguments")
            return NONE
        if isinstance(o, TypeV):
            if o.name == "dict" and name == "fromkeys":
                return self.fromkeys(st, a, node)
            if o.name == "str" and a:
                return self.call_method(st, a[0], name, a[1:], kw, node)
            if o.name == "object":
                if name == "__setattr__":
                    it.setattr(st, a[0], a[1].s, a[2], node)
                    return NONE
                if name == "__new__" and a and isinstance(a[0], ClassV):
                    return Obj(it.fresh(), a[0])
                if name == "__init__":
                    return NONE
            return it.note("method of type " + o.name)
        if isinstance(o, SetV):
            return it.note("set method")
        if isinstance(o, Method) and o.name == "__dict__" and isinstance(o.obj, Obj):
            if name == "update":
                for k, v in kw.items():
                    it.setattr(st, o.obj, k, v, node)
                if a and isinstance(a[0], DictRef):
                    for k, v in st.cells[("d", a[0].did)].items:
                        it.setattr(st, o.obj, k[1], v, node)
                return NONE
            if name in ("get", "setdefault") and a and isinstance(a[0], Str) and a[0].s is not None:
                v = self.space_get(st, o, a[0], node, a[1] if len(a) > 1 else NONE)
                if name == "setdefault":
                    it.setattr(st, o.obj, a[0].s, v, node)
                return v
            if name not in ("keys", "values", "items", "copy"):
                it.havoc_value(st, o.obj, "__dict__")
            return it.note("__dict__")
        if isinstance(o, Method) and o.name == "__dict__" and name == "get" and isinstance(o.obj, ModuleV) and a and isinstance(a[0], Str) and a[0].s is not None:
            return self.space_get(st, o, a[0], node, a[1] if len(a) > 1 else NONE)
        if isinstance(o, ClassV) and name == "__subclasses__":
            return it.note("__subclasses__")
        for x in list(a) + list(kw.values()):
            it.havoc_value(st, x, "unknown method")
        return it.note("method " + name)

    def record(self, st, name, fields, node):
        """a class made by namedtuple()"""
        it = self.it
        key = ("namedtuple", name, tuple(fields))
        tree = it._scopes.get(key)
        if tree is None:
            tree = ast.parse("class %s:\n    %s\n" % (name, "\n    ".join("%s: object" % f for f in fields))).body[0]
            tree.body = I.record_body(tree, True)
            it._scopes[key] = tree
        m = it.modules[next(iter(it.modules))]
        env = it.new_env(m.env, m.env.module, frozenset((name,)), "func")
        it.stack.append(it.stack[-1] if it.stack else ("?", name))
        try:
            it.exec_block([tree], st, env)
        finally:
            it.stack.pop()
        return st.cells.get(("v", env.eid, name), Opq("namedtuple"))

    def fromkeys(self, st, a, node):
        it = self.it
        v = a[0]
        if isinstance(v, Arr):
            s = it.np.class_set(st, v)
            n, nm, lam = s.src
            return it.np.classes(st, "uniq_first", n, lam, as_seq=True)
        seq = self.iterate(st, v, node)
        if seq is None or seq.items is None:
            return it.note("fromkeys")
        val = a[1] if len(a) > 1 else NONE
        d = {}
        for x in seq.items:
            k = self.key(x)
            if k is None:
                return it.note("fromkeys")
            d[k] = val
        return self.new_dict(st, d.items())

    def str_method(self, st, o, name, a, kw, node):
        if name == "join":
            seq = self.iterate(st, a[0], node)
            if o.s is not None and seq is not None and seq.items is not None and all(isinstance(x, Str) and x.s is not None for x in seq.items):
                return Str(o.s.join(x.s for x in seq.items))
            return Str(None)
        if o.s is None:
            if name in ("startswith", "endswith", "isdigit"):
                return Num(T.P1(T.atom("flag", ("str", self.it.fresh()), opq=True)), "b", True)
            return Str(None)
        if name == "format":
            try:
                if all(isinstance(x, Str) and x.s is not None for x in list(a) + list(kw.values())):
                    return Str(o.s.format(*[x.s for x in a], **{k: x.s for k, x in kw.items()}))
            except (IndexError, KeyError, ValueError):
                self.it.raise_(st, ("IndexError", "KeyError"), node)
            return Str(None)
        try:
            args = [x.s if isinstance(x, Str) else x.p.const for x in a]
            r = getattr(o.s, name)(*args)
        except Exception:
            return self.it.note("str method " + name)
        if isinstance(r, str):
            return Str(r)
        if isinstance(r, (bool, int)):
            return self.constant(r)
        if isinstance(r, list):
            return self.new_list(st, [Str(x) for x in r])
        if isinstance(r, tuple):
            return Tup(Str(x) for x in r)
        return self.it.note("str method " + name)

    def list_method(self, st, o, name, a, kw, node):
        it = self.it
        d = st.cells[("l", o.lid)]
        if name in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "appendleft", "popleft", "rotate"):
            it.writes.setdefault(("l", o.lid), set()).add(it.where(node))
            if it.owner.get(("l", o.lid)):
                it.event("write", st, node, rid=("l", o.lid), owner=it.owner[("l", o.lid)])
        if name in ("pop", "remove", "clear", "popleft"):
            it.event("shrink", st, node, cell=("l", o.lid))
        if name == "append":
            self.list_append(st, o, a[0], node)
            return NONE
        if name == "extend":
            self.list_extend(st, o, self.iterate(st, a[0], node), node)
            return NONE
        if name == "copy":
            lid = it.fresh()
            st.cells[("l", lid)] = d
            return ListRef(lid)
        if not d.concrete:
            if name in ("insert", "pop", "remove", "sort", "reverse", "clear", "appendleft", "popleft", "rotate"):
                st.cells[("l", o.lid)] = ListD([("opq",)], d.kind)
            return it.note("list method " + name)
        segs = list(d.segs)
        if name == "insert" and isinstance(a[0], Num) and a[0].p.const is not None:
            segs.insert(int(a[0].p.const), ("it", a[1]))
            it.event("grow", st, node, cell=("l", o.lid), by=ONE)
        elif name == "appendleft":
            segs.insert(0, ("it", a[0]))
            it.event("grow", st, node, cell=("l", o.lid), by=ONE)
        elif name in ("pop", "popleft"):
            i = 0 if name == "popleft" else int(a[0].p.const) if a and a[0].p.const is not None else -1
            if not segs:
                it.raise_(st, "IndexError", node)
            v = segs.pop(i)[1]
            st.cells[("l", o.lid)] = ListD(segs, d.kind)
            return v
        elif name == "reverse":
            segs.reverse()
        elif name == "clear":
            segs = []
        elif name == "index":
            for i, s in enumerate(segs):
                if self.eqv(st, s[1], a[0], node) is ONE:
                    return self.num(i)
            if all(self.eqv(st, s[1], a[0], node) is ZERO for s in segs):
                it.raise_(st, "ValueError", node)
            return it.note("list.index")
        elif name == "count":
            p = ZERO
            for s in segs:
                p = p + self.eqv(st, s[1], a[0], node)
            return Num(p, "i", True)
        else:
            st.cells[("l", o.lid)] = ListD([("opq",)], d.kind)
            return it.note("list method " + name)
        st.cells[("l", o.lid)] = ListD(segs, d.kind)
        return NONE

    def dict_method(self, st, o, name, a, kw, node):
        it = self.it
        d = st.cells[("d", o.did)]
        if name in ("pop", "popitem", "clear"):
            it.event("shrink", st, node, cell=("d", o.did))
        if name in ("pop", "update", "setdefault", "clear"):
            it.writes.setdefault(("d", o.did), set()).add(it.where(node))
        if name == "get":
            k = self.key(a[0])
            if k is None or d.opq:
                return it.note("dict.get")
            return self.found(d, *self.find(st, d, k), a[1] if len(a) > 1 else NONE)
        if (d.opq or d.part) and name in ("keys", "values", "items"):
            return Opq("dict")
        if name == "keys":
            return Tup(self.unkey(k) for k, v in d.items)
        if name == "values":
            return Tup(v for k, v in d.items)
        if name == "items":
            return Tup(Tup([self.unkey(k), v]) for k, v in d.items)
        if name == "copy":
            r = self.new_dict(st, d.items)
            st.cells[("d", r.did)] = d
            return r
        if name == "update":
            items = dict(d.items)
            opq = d.opq or d.part
            if a:
                if isinstance(a[0], DictRef):
                    items.update(dict(st.cells[("d", a[0].did)].items))
                else:
                    opq = True
            for k, v in kw.items():
                items[("s", k)] = v
            st.cells[("d", o.did)] = DictD(items.items(), opq)
            return NONE
        if name in ("pop", "setdefault"):
            k = self.key(a[0])
            if k is None or d.opq:
                st.cells[("d", o.did)] = DictD(d.items, True)
                return it.note("dict." + name)
            hits, miss = self.find(st, d, k)
            if name == "setdefault":
                v = a[1] if len(a) > 1 else NONE
                if miss is not ZERO:
                    it.event("grow", st, node, cell=("d", o.did), by=miss)
                    st.cells[("d", o.did)] = DictD(d.items + ((k, v),), False, d.part or bool(hits))
                return self.found(d, hits, miss, v)
            if hits and miss is ZERO and len(hits) == 1 and not d.part:
                st.cells[("d", o.did)] = DictD(d.items[:hits[0][1]] + d.items[hits[0][1] + 1:])
                return d.items[hits[0][1]][1]
            if hits:
                st.cells[("d", o.did)] = DictD(d.items, True)
                return it.note("dict." + name)
            if len(a) > 1:
                return a[1]
            it.raise_(st, "KeyError", node)
        if name == "clear":
            st.cells[("d", o.did)] = DictD(())
            return NONE
        return it.note("dict method " + name)

    # -------------------------------------------------------------------------------------------- standard library
    def std_call(self, st, path, a, kw, node):
        it = self.it
        mod, _, name = path.rpartition(".")
        if mod == "math":
            m = {"sqrt": "sqrt", "exp": "exp", "log": "log", "log10": "log10", "log2": "log2", "tanh": "tanh", "fabs": "absolute",
                 "floor": "floor", "ceil": "ceil", "pow": "power", "trunc": "trunc", "sin": "sin", "cos": "cos", "copysign": "copysign",
                 "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "cosh": "cosh", "sinh": "sinh", "expm1": "expm1",
                 "log1p": "log1p"}.get(name)
            if m == "log" and len(a) == 2:
                return it.binop(st, "Div", it.np.elementwise(st, "log", a[:1], node), it.np.elementwise(st, "log", a[1:], node), node)
            if m:
                r = it.np.elementwise(st, m, a, node)
                if isinstance(r, Num):
                    dt = "i" if name in ("floor", "ceil", "trunc") else r.dt
                    return Num(r.p, dt, True)
                return r
            if name == "fsum":
                return self.bi_sum(st, a, kw, node)
            if name == "prod":
                return it.np.call(st, "prod", a, kw, node)
        if mod == "operator":
            ops = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "matmul": "MatMult", "pow": "Pow",
                   "iadd": "Add", "mod": "Mod", "floordiv": "FloorDiv"}
            if name in ops and name != "iadd":
                return it.binop(st, ops[name], a[0], a[1], node)
            if name == "itemgetter" and len(a) == 1:
                return Builtin("itemgetter", lambda i2, s, x, k, n: i2.getitem(s, x[0], a[0], n))
            if name == "attrgetter" and len(a) == 1 and isinstance(a[0], Str):
                return Builtin("attrgetter", lambda i2, s, x, k, n: i2.getattr(s, x[0], a[0].s, n))
        if path == "functools.partial":
            return Partial(a[0], a[1:], kw)
        if path == "functools.wraps" or path == "functools.update_wrapper":
            return Builtin("identity", lambda i2, s, x, k, n: x[0])
        if path in ("functools.lru_cache", "functools.cache"):
            if a and isinstance(a[0], (FuncV,)):
                return self.memoised(st, a[0], node)
            return Builtin("cache", lambda i2, s, x, k, n: self.memoised(s, x[0], n))
        if path == "functools.reduce":
            seq = self.iterate(st, a[1], node)
            if seq is None or seq.items is None:
                return it.note("reduce")
            items = list(seq.items)
            r = a[2] if len(a) > 2 else items.pop(0)
            for x in items:
                r = it.call(st, a[0], [r, x], {}, node)
            return r
        if path in ("functools.total_ordering", "abc.abstractmethod", "typing.overload", "typing.final", "functools.cached_property"):
            return PropertyV(a[0]) if path.endswith("cached_property") else a[0]
        if mod == "itertools":
            seqs = [self.iterate(st, x, node) for x in a if not isinstance(x, (Num, NoneT))]
            if name not in ("chain", "product", "islice"):
                return it.note("itertools." + name)
            if name == "chain" and all(s is not None and s.items is not None for s in seqs):
                return SeqV(items=[x for s in seqs for x in s.items])
            if name == "product" and all(s is not None and s.items is not None for s in seqs):
                import itertools
                return SeqV(items=[Tup(x) for x in itertools.product(*[s.items for s in seqs])])
            if name == "islice" and seqs and seqs[0] is not None and seqs[0].items is not None and all(
                    isinstance(x, NoneT) or isinstance(x, Num) and x.p.const is not None for x in a[1:]):
                import itertools
                return SeqV(items=list(itertools.islice(seqs[0].items, *[None if isinstance(x, NoneT) else int(x.p.const) for x in a[1:]])))
            return it.note("itertools." + name)
        if mod == "warnings" or mod == "logging" or path.startswith("logging."):
            return NONE if name != "catch_warnings" else Opq("context")
        if mod == "copy" and name in ("copy", "deepcopy"):
            return self.deepcopy(st, a[0], name == "deepcopy", node)
        if mod == "collections":
            if name == "OrderedDict":
                return self.ty_dict(st, a, kw, node)
            if name == "namedtuple" and len(a) > 1 and isinstance(a[0], Str) and a[0].s:
                names = None
                if isinstance(a[1], Str) and a[1].s:
                    names = a[1].s.replace(",", " ").split()
                else:
                    seq = self.iterate(st, a[1], node)
                    if seq is not None and seq.items is not None and all(isinstance(x, Str) and x.s for x in seq.items):
                        names = [x.s for x in seq.items]
                if names is not None and not set(kw) - {"module", "rename"}:
                    return self.record(st, a[0].s, names, node)
            if name == "deque":
                l = self.ty_list(st, a[:1], {}, node)
                mx = kw.get("maxlen", a[1] if len(a) > 1 else None)
                if mx is not None and not isinstance(mx, NoneT):
                    return it.note("bounded deque")
                return l
        if path == "types.SimpleNamespace" and not a:
            cls = getattr(it, "simple_namespace", None)
            if cls is None:
                cls = it.simple_namespace = ClassV(it.fresh(), "SimpleNamespace", [], None, ast.parse("class SimpleNamespace: pass").body[0])
                cls.mro = [cls]
            o = Obj(it.fresh(), cls)
            for k, v in kw.items():
                it.setattr(st, o, k, v, node)
            return o
        if path in ("sys.exit",):
            it.raise_(st, "SystemExit", node)
        top = path.split(".")[0]
        if top in ("random", "secrets", "time", "uuid", "os", "datetime", "tempfile", "socket", "threading"):
            it.event("nondet", st, node, what=path)
            if path in ("time.time", "time.perf_counter", "time.monotonic", "time.time_ns", "time.perf_counter_ns", "time.process_time", "time.monotonic_ns", "random.random",
                        "random.uniform", "random.gauss", "random.normalvariate", "random.randint", "random.randrange", "os.getpid", "secrets.randbelow", "os.cpu_count"):
                # a number the arguments do not determine: another one in every program and call
                return Num(T.sym("%s at %s run %d" % (path, ":".join(map(str, it.loc[:2])), it.nonce)), "i" if path.endswith(("_ns", "randint", "randrange", "getpid", "randbelow", "cpu_count")) else "f")
            return Opq(path)
        for x in list(a) + list(kw.values()):
            it.havoc_value(st, x, "unknown library function")
        return it.note("library function " + path)

    def memoised(self, st, f, node):
        """functools.cache: equal arguments give the very same object again"""
        it = self.it
        if not isinstance(f, FuncV):
            return f
        it.event("cache", st, node)
        key = ("memo", it.fresh())

        def call(i2, s, args, kw, n):
            ks = list(args) + [Tup([Str(k), v]) for k, v in sorted(kw.items())]
            if any(isinstance(x, (Arr, ListRef, DictRef)) for x in args):
                i2.raise_(s, "TypeError", n, "unhashable")
            memo = s.cells.get(key, Tup(()))
            if not isinstance(memo, Tup):
                return i2.call(s, f, args, kw, n)
            for e in memo.items:
                if len(e.items[0].items) == len(ks) and all(same(x, y) for x, y in zip(e.items[0].items, ks)):
                    return e.items[1]
            v = i2.call(s, f, args, kw, n)
            memo = s.cells.get(key, Tup(()))
            if isinstance(memo, Tup):
                s.cells[key] = Tup(list(memo.items) + [Tup([Tup(ks), v])])
            return v
        return Builtin(f.name, call)

    def deepcopy(self, st, v, deep, node):
        it = self.it
        if isinstance(v, (Num, Str, SymStr, NoneT, FuncV, ClassV)):
            return v
        if isinstance(v, Arr):
            return it.alloc(st, it.read(st, v), lst=v.lst)
        if isinstance(v, Tup):
            return Tup(self.deepcopy(st, x, deep, node) for x in v.items) if deep else v
        if isinstance(v, ListRef):
            d = st.cells[("l", v.lid)]
            lid = it.fresh()
            st.cells[("l", lid)] = ListD([("it", self.deepcopy(st, s[1], deep, node)) if deep and s[0] == "it" else s for s in d.segs], d.kind)
            return ListRef(lid)
        if isinstance(v, DictRef):
            d = st.cells[("d", v.did)]
            return self.new_dict(st, [(k, self.deepcopy(st, x, deep, node) if deep else x) for k, x in d.items])
        if isinstance(v, Obj):
            o = Obj(it.fresh(), v.cls)
            for k in list(st.cells):
                if k[0] == "a" and k[1] == v.oid:
                    x = st.cells[k]
                    st.cells[("a", o.oid, k[2])] = self.deepcopy(st, x, deep, node) if deep else x
            return o
        return it.note("copy")

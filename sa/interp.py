"""Flow-sensitive interprocedural abstract interpreter for the Python subset used by the analysed package.

Every statement is analysed once per calling context; branches are joined by conditional values, loops are summarised by solving
the recurrences of the locations they change.  Nothing of the analysed program is executed."""
import ast
from fractions import Fraction
import os
import terms as T
import recs
from terms import P, P1, ONE, ZERO, Poly
from values import *

MAX_DEPTH = 30
UNROLL = 40

EXC_PARENT = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError", "AssertionError": "Exception",
    "AttributeError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "LookupError": "Exception",
    "IndexError": "LookupError", "KeyError": "LookupError", "NameError": "Exception", "UnboundLocalError": "NameError",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "StopIteration": "Exception", "TypeError": "Exception", "ValueError": "Exception", "UnicodeError": "ValueError",
    "Warning": "Exception", "DeprecationWarning": "Warning", "UserWarning": "Warning", "FutureWarning": "Warning",
    "RuntimeWarning": "Warning", "PendingDeprecationWarning": "Warning", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "OSError": "Exception", "LinAlgError": "ValueError", "AxisError": "ValueError",
    "MemoryError": "Exception", "BufferError": "Exception", "EOFError": "Exception", "StopAsyncIteration": "Exception",
    "GeneratorExit": "BaseException", "ReferenceError": "Exception", "SyntaxError": "Exception", "SystemError": "Exception",
    "IOError": "Exception", "EnvironmentError": "Exception", "FileNotFoundError": "OSError", "ImportWarning": "Warning",
}


def exc_is(name, base):
    while name is not None:
        if name == base:
            return True
        name = EXC_PARENT.get(name)
    return False


def assigned_names(node):
    """local names of a function body"""
    loc, glob = set(), set()

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # walrus targets escape, iteration variables do not
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    loc.add(x.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    if isinstance(node, ast.Lambda):
        walk(node.body)
        a = node.args
    else:
        for s in node.body:
            walk(s)
        a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    return frozenset(loc - glob)


def has_yield(node):
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


# names NumPy 2 no longer has
REMOVED = set("""asfarray float_ infty Inf NaN product cumproduct sometrue alltrue float int object str unicode complex round_ mat msort
cast obj2sctype PINF NINF PZERO NZERO find_common_type issubsctype safe_eval source who compat set_string_function deprecate disp
byte_bounds geterrobj nbytes recfromcsv recfromtxt asscalar alen unicode_ string_ complex_ longfloat singlecomplex cfloat DataSource
issctype maximum_sctype sctype2char sctypes add_docstring add_newdoc lookfor issubclass_ seterrobj rank fv pmt npv irr ppmt ipmt rate
mirr pv nper Infinity typeDict fastCopyAndTranspose""".split())


class Env:
    """static part of a scope: where names are looked up"""
    __slots__ = ("eid", "parent", "module", "names", "kind", "func", "captured")

    def __init__(self, eid, parent, module, names, kind, func=None):
        self.eid, self.parent, self.module, self.names, self.kind, self.func = eid, parent, module, names, kind, func
        self.captured = False


class Interp:
    def __init__(self, root, scipy=True):
        import npmodel
        import pymodel
        self.np = npmodel.NP(self)
        self.py = pymodel.PY(self)
        self.root = root
        self.scipy = scipy
        self.modules = {}
        self.n = 0
        self.owner = {}          # rid -> 'caller:<name>' or 'fresh'
        self.conv = {}           # rid -> (value error flag, type error flag)
        self.born = {}           # rid -> node location
        self.taint = {}          # rid -> set of rids that may be the same memory
        self.events = []
        self.pending = [[]]
        self.stack = []          # (module, funcname)
        self.loc = ("?", 0)
        self.outs = []
        self.writes = {}         # cell key -> set of locations
        self.touched = set()     # functions analysed
        self.calls = 0
        self.nonce = 0           # another value: another order of sets, other values of clocks
        self.unsupported = {}
        self.active = []            # the function nodes being executed
        self.loops = []
        self.const = {}
        self.clsattr = {}

    # ------------------------------------------------------------------------------------------------ helpers
    def fresh(self):
        self.n += 1
        return self.n

    def note(self, why):
        self.unsupported[why] = self.unsupported.get(why, 0) + 1
        return Opq(why)

    def event(self, kind, st, node=None, **kw):
        kw["kind"] = kind
        kw["loc"] = self.where(node)
        kw["guard"] = ONE if st is None else st.abs()
        kw["func"] = self.stack[-1] if self.stack else None
        self.events.append(kw)

    def where(self, node=None):
        if node is not None and hasattr(node, "lineno") and self.stack:
            return (self.stack[-1][0], node.lineno, self.stack[-1][1])
        return self.loc

    def raise_(self, st, names, node, *args):
        if isinstance(names, str):
            names = (names,)
        raise PyExc(ExcV(names, args), st, self.where(node))

    def may_raise(self, st, cond, names, node):
        """the operation raises under cond; analysis continues on the other paths"""
        cond = self.simp(cond, st)
        if cond is ZERO:
            return
        if cond is ONE:
            self.raise_(st, names, node)
        s = st.copy()
        s.pc = T.mul(s.pc, cond)
        if isinstance(names, str):
            names = (names,)
        o = Out("raise", s, ExcV(names), self.where(node))
        self.pending[-1].append(o)
        self.assume_not(st, cond)

    def assume_not(self, st, cond):
        st.asm = T.mul(st.asm, ONE - cond)
        self.learn(st, ONE - cond)

    def learn(self, st, c):
        """add the consequences of condition c to the facts of st"""
        facts, assume = list(st.facts), list(st.assume)

        def pos(a):
            assume.append((a, True))
            if a.kind == "ge":
                facts.append(a.args[0])
            elif a.kind == "eq" and a.args[0].is_int:
                facts.append(a.args[0])
                facts.append(T.neg(a.args[0]))

        def negv(a):
            assume.append((a, False))
            if a.kind == "ge":
                facts.append(T.neg(a.args[0]) - 1)
        if len(c.t) == 1 and c.t[0][1] == 1:
            for a, e in c.t[0][0].f:
                if a.is_bool:
                    pos(a)
        else:
            # factors (1 - a): find atoms implied false / true
            for a in c.bools:
                try:
                    if T.given(c, a, True) is ZERO:
                        negv(a)
                    elif T.given(c, a, False) is ZERO:
                        pos(a)
                except T.TooBig:
                    pass
        st.facts, st.assume = tuple(facts), tuple(assume)
        T.FACTS[:] = st.facts

    def simp(self, c, st):
        if c is ONE or c is ZERO or not st.assume:
            return c
        if not c.bools:
            return c
        try:
            for a, v in st.assume:
                c = T.given(c, a, v)
                if not c.bools:
                    break
        except T.TooBig:
            pass
        return c

    # ------------------------------------------------------------------------------------------------ regions
    def alloc(self, st, ac, owner="fresh", lst=False):
        if ac.mask is not None:
            return Masked(ac)
        if not ac.shape:
            return Num(ac.body, ac.dt)
        rid = self.fresh()
        vs = [T.new_var(s) for s in ac.shape]
        body = T.subst(ac.body, {a: P1(b) for a, b in zip(ac.vars, vs)})
        st.cells[("r", rid)] = ArrD(ac.shape, vs, body, ac.dt)
        self.owner[rid] = owner
        self.born[rid] = self.loc
        if ac.conv:
            self.conv[rid] = ac.conv
        if ac.taint:
            self.taint[rid] = set(ac.taint)
        return self.view_all(st, rid, lst)

    def view_all(self, st, rid, lst=False):
        d = st.cells[("r", rid)]
        vs = [T.new_var(s) for s in d.shape]
        return Arr(rid, d.shape, vs, [P1(v) for v in vs], lst)

    def read(self, st, a):
        """content of a view"""
        d = st.cells.get(("r", a.rid))
        if d is None:
            vs = [T.new_var(s) for s in a.shape]
            return AC(a.shape, vs, T.opaque("lost region"), "f")
        body = T.subst(d.body, {v: i for v, i in zip(d.vars, a.idx)})
        return AC(a.shape, a.vars, body, d.dt, frozenset([a.rid]) | frozenset(self.taint.get(a.rid, ())), self.conv.get(a.rid))

    def invert_view(self, st, a):
        """(condition on the region variables, {view var: Poly}) such that the region element belongs to the view"""
        d = st.cells[("r", a.rid)]
        cond, m = ONE, {}
        rest = []
        for bv, ix in zip(d.vars, a.idx):
            free = [v for v in a.vars if v in ix.leaf]
            if not free:
                rest.append(T.eq(P1(bv) - ix))
                continue
            if len(free) > 1:
                return None
            v = free[0]
            l = T.linear_in(ix, v)
            if l is None or l[0] == 0 or not isinstance(l[0], int):
                return None
            if l[0] in (1, -1):
                val = P1(bv) - l[1] if l[0] == 1 else l[1] - P1(bv)
            else:       # every c-th place
                val = T.floor(T.scale(P1(bv) - l[1], Fraction(1, l[0])))
                cond = T.mul(cond, T.eq(P1(bv) - l[1] - T.scale(val, l[0])))
            if v in m:
                rest.append(T.eq(val - m[v]))
                continue
            m[v] = val
            cond = T.mul(cond, T.mul(T.ge(val), T.ge(a.shape[a.vars.index(v)] - 1 - val)))
        for r in rest:
            cond = T.mul(cond, r)
        for v, s in zip(a.vars, a.shape):
            if v not in m:
                m[v] = ZERO         # broadcast view of length 1
        return cond, m

    def write(self, st, a, ac, node, cond=ONE):
        """store content (same shape as the view, or broadcast to it) into a view"""
        key = ("r", a.rid)
        d = st.cells.get(key)
        if d is None:
            return
        own = self.owner.get(a.rid, "fresh")
        self.writes.setdefault(key, set()).add(self.where(node))
        self.event("write", st, node, rid=a.rid, owner=own)
        for r, ts in list(self.taint.items()):
            if a.rid in ts and ("r", r) in st.cells and r != a.rid:
                self.smash(st, r, "possible alias")
        for t in self.taint.get(a.rid, ()):
            if ("r", t) in st.cells:
                if self.owner.get(t, "fresh") != "fresh":
                    self.event("write", st, node, rid=t, owner=self.owner[t])
                self.smash(st, t, "possible alias")
        if ac.conv:
            fv, ft = ac.conv
            self.may_raise(st, fv, "ValueError", node)
            self.may_raise(st, ft, "TypeError", node)
        inv = self.invert_view(st, a)
        if inv is None:
            self.smash(st, a.rid, "store through an unsupported view")
            return
        c, m = inv
        body = ac.body
        # ac.vars correspond to a.vars
        body = T.subst(body, {v: m[w] for v, w in zip(ac.vars, a.vars)})
        dt = d.dt
        if isinstance(dt, Narrow) and not isinstance(ac.dt, Narrow):
            body = T.round32(body)
        if dt in ("i", "b") and ac.dt not in ("i", "b"):
            if dt == "i":
                if ac.dt == "f" and not body.is_int:
                    self.event("truncate", st, node, rid=a.rid)
                body = T.trunc(body)
            else:
                body = ONE - T.eq(body)
        if dt in ("c", "C") and ac.dt == "f":
            self.event("narrow", st, node, what="float stored in an array of the caller's type")
        c = T.mul(c, T.subst(cond, {w: m[w] for w in a.vars}))
        T.FACTS[:] = st.facts
        st.cells[key] = d.with_body(T.ite(c, body, d.body))

    def smash(self, st, rid, why):
        d = st.cells.get(("r", rid))
        if d is None:
            return
        st.cells[("r", rid)] = d.with_body(T.opaque(why, tuple(P1(v) for v in d.vars)))

    def havoc_value(self, st, v, why, seen=None):
        """an unknown operation may have changed everything reachable from v"""
        regions, seen = self.reach(st, v)
        for r in set(regions):
            self.smash(st, r, why)
        objs = {x[1] for x in seen if x[0] == "o"}
        for key, x in list(st.cells.items()):
            if key[0] == "a" and key[1] in objs and isinstance(x, (Num, NoneT, Str, Tup, Choice)):
                st.cells[key] = Opq(why)
            elif key[0] == "l" and ("l", key[1]) in seen:
                st.cells[key] = ListD([("opq",)], x.kind)
            elif key[0] == "d" and ("d", key[1]) in seen:
                st.cells[key] = DictD((), True)

    def reach(self, st, v, seen=None, regions=None, objs=None):
        """regions and objects reachable from a value"""
        seen = set() if seen is None else seen
        regions = {} if regions is None else regions
        stack = [(v, "")]
        index = None
        while stack:
            x, path = stack.pop()
            if isinstance(x, Arr):
                if x.rid not in regions:
                    regions[x.rid] = path
                    for t in self.taint.get(x.rid, ()):
                        regions.setdefault(t, path)
            elif isinstance(x, (Tup, SetV)):
                stack.extend((y, path) for y in x.items)
            elif isinstance(x, Choice):
                stack.extend([(x.a, path), (x.b, path)])
            elif isinstance(x, Bound):
                stack.extend([(x.self, path)])
            elif isinstance(x, Method):
                stack.append((x.obj, path))
            elif isinstance(x, Partial):
                stack.extend((y, path) for y in list(x.args) + list(x.kwargs.values()))
            elif isinstance(x, FuncV):
                if ("f", id(x)) in seen:
                    continue
                seen.add(("f", id(x)))
                e = x.env
                while e is not None and e.kind == "func":
                    if ("e", e.eid) in seen:
                        break
                    seen.add(("e", e.eid))
                    for nm in e.names:
                        y = st.cells.get(("v", e.eid, nm))
                        if y is not None:
                            stack.append((y, path + "<closure %s>" % nm))
                    e = e.parent
                stack.extend((y, path) for y in list(x.defaults) + [y for y in x.kwdefaults.values()])
            elif isinstance(x, ListRef):
                if ("l", x.lid) in seen:
                    continue
                seen.add(("l", x.lid))
                d = st.cells.get(("l", x.lid))
                if d:
                    for s in d.segs:
                        if s[0] == "it":
                            stack.append((s[1], path + "[]"))
                        elif s[0] == "seg":
                            stack.extend((y, path + "[]") for y in s[3])
            elif isinstance(x, Frozen):
                for t in x.ac.taint:
                    regions.setdefault(t, path)
            elif isinstance(x, DictRef):
                if ("d", x.did) in seen:
                    continue
                seen.add(("d", x.did))
                d = st.cells.get(("d", x.did))
                if d:
                    stack.extend((y, path + "[]") for k, y in d.items)
            elif isinstance(x, Obj):
                if ("o", x.oid) in seen:
                    continue
                seen.add(("o", x.oid))
                if index is None:
                    index = {}
                    for key in st.cells:
                        if key[0] == "a":
                            index.setdefault(key[1], []).append(key[2])
                for nm in index.get(x.oid, ()):
                    stack.append((st.cells[("a", x.oid, nm)], path + "." + nm))
        return regions, seen

    def reach_regions(self, st, v):
        return set(self.reach(st, v)[0])

    # ------------------------------------------------------------------------------------------------ merging
    def merge_states(self, c, s1, s2):
        """the state that is s1 under c and s2 otherwise"""
        out = State()
        out.base = s1.base
        out.pc = s1.pc + s2.pc
        out.asm = s1.asm if s1.asm is s2.asm else self._asm_merge(c, s1.asm, s2.asm)
        out.facts = s1.facts if s1.facts == s2.facts else tuple(f for f in s1.facts if f in s2.facts)
        out.assume = s1.assume if s1.assume == s2.assume else tuple(f for f in s1.assume if f in s2.assume)
        T.FACTS[:] = out.facts
        ctx = {}
        cells = out.cells
        a, b = s1.cells, s2.cells
        extra = []
        for k, v in a.items():
            w = b.get(k)
            if v is w:
                cells[k] = v
            elif w is None:
                if k[0] in ("v", "a"):
                    extra.append((k, v, UNBOUND))
                else:
                    cells[k] = v
            else:
                extra.append((k, v, w))
        for k, w in b.items():
            if k not in a:
                if k[0] in ("v", "a"):
                    extra.append((k, UNBOUND, w))
                else:
                    cells[k] = w
        for k, v, w in extra:
            cells[k] = self.merge_cell(c, v, w, out, s1, s2, ctx)
        return out

    def _asm_merge(self, c, a, b):
        # the conditions are relative: c a + (1-c) b
        try:
            return T.ite(c, a, b)
        except T.TooBig:
            return T.P1(T.atom("flag", ("asm", self.fresh()), opq=True))

    def merge_cell(self, c, v, w, out, s1, s2, ctx):
        if isinstance(v, ArrD) and isinstance(w, ArrD):
            if same(v, w):
                return v
            if len(v.shape) == len(w.shape) and all(x is y for x, y in zip(v.shape, w.shape)):
                wb = w.body if v.vars == w.vars else T.subst(w.body, {x: P1(y) for x, y in zip(w.vars, v.vars)})
                return ArrD(v.shape, v.vars, self.ite(c, v.body, wb), v.dt if v.dt == w.dt else self.join_dt(v.dt, w.dt))
            return ArrD(v.shape, v.vars, T.opaque("shape change"), v.dt)
        if isinstance(v, ListD) and isinstance(w, ListD):
            if same(v, w):
                return v
            if len(v.segs) == len(w.segs):
                segs = []
                for x, y in zip(v.segs, w.segs):
                    if _seg_same(x, y):
                        segs.append(x)
                    elif x[0] == "it" and y[0] == "it":
                        segs.append(("it", self.merge_val(c, x[1], y[1], out, s1, s2, ctx)))
                    else:
                        return ListD([("opq",)], v.kind)
                return ListD(segs, v.kind)
            return ListD([("opq",)], v.kind)
        if isinstance(v, DictD) and isinstance(w, DictD):
            if same(v, w):
                return v
            kv, kw = dict((k, (i, x)) for i, (k, x) in enumerate(v.items)), dict(w.items)
            if set(kv) == set(kw):
                return DictD([(k, self.merge_val(c, x, kw[k], out, s1, s2, ctx)) for k, x in v.items], v.opq or w.opq, v.part or w.part)
            if v.opq or w.opq:
                return DictD(v.items, True)
            # the longer one has keys that are missing from the other only where they equal an earlier key
            big, small, here = (v, w, ONE - c) if len(v.items) > len(w.items) else (w, v, c)
            sm = dict(small.items)
            if [k for k, _ in big.items[:len(sm)]] == [k for k, _ in small.items]:
                for i in range(len(sm), len(big.items)):
                    r = T.mul(out.abs(), here)
                    for k, _ in small.items:
                        r = T.mul(r, ONE - self.py.keq(k, big.items[i][0]))
                    if r is not ZERO:
                        return DictD(v.items, True)
                a, b = (v, w) if big is v else (w, v)
                return DictD([(k, self.merge_val(c, dict(a.items)[k], dict(b.items)[k], out, s1, s2, ctx) if k in sm else x) for k, x in big.items],
                             False, True)
            return DictD(v.items, True)
        return self.merge_val(c, v, w, out, s1, s2, ctx)

    def ite(self, c, a, b):
        try:
            return T.ite(c, a, b)
        except T.TooBig:
            return T.opaque("too big")

    def join_dt(self, a, b):
        if a == b:
            return a
        s = {a, b}
        if "o" in s:
            return "o"
        if "f" in s:
            return "f"
        if "C" in s:
            return "C"
        if "c" in s:
            return "c"
        return "i"

    def merge_val(self, c, v, w, out, s1, s2, ctx):
        if c is ONE:
            return v
        if c is ZERO:
            return w
        if same(v, w):
            return v
        if isinstance(v, Num) and isinstance(w, Num):
            if v.dt == w.dt or (v.dt in "bicf" and w.dt in "bicf"):
                return Num(self.ite(c, v.p, w.p), self.join_dt(v.dt, w.dt), v.py and w.py)
        if isinstance(v, Tup) and isinstance(w, Tup) and len(v.items) == len(w.items):
            return Tup(self.merge_val(c, x, y, out, s1, s2, ctx) for x, y in zip(v.items, w.items))
        if isinstance(v, Arr) and isinstance(w, Arr) and len(v.shape) == len(w.shape) and \
                all(x is y for x, y in zip(v.shape, w.shape)):
            new1 = ("r", v.rid) not in s2.cells
            new2 = ("r", w.rid) not in s1.cells
            if new1 and new2:
                k = (v.rid, w.rid)
                full = all(i is P1(x) for i, x in zip(v.idx, v.vars)) and all(i is P1(x) for i, x in zip(w.idx, w.vars))
                if full and k in ctx:
                    return self.view_all(out, ctx[k])
                a, b = self.read(s1, v), self.read(s2, w)
                r = self.alloc(out, AC(a.shape, a.vars, self.ite(c, a.body, b.at([P1(x) for x in a.vars])),
                                       self.join_dt(a.dt, b.dt)))
                if full:
                    ctx[k] = r.rid
                return r
        if isinstance(v, Frozen) and isinstance(w, Frozen) and len(v.ac.shape) == len(w.ac.shape):
            a, b = v.ac, w.ac
            return Frozen(AC(a.shape, a.vars, self.ite(c, a.body, b.at([P1(x) for x in a.vars])), self.join_dt(a.dt, b.dt),
                             a.taint | b.taint))
        if isinstance(v, Obj) and isinstance(w, Obj) and v.cls.oid == w.cls.oid:
            # objects created in the branches
            k1 = [k for k in s1.cells if k[0] == "a" and k[1] == v.oid]
            if not any(k[0] == "a" and k[1] == v.oid for k in s2.cells) and not any(k[0] == "a" and k[1] == w.oid for k in s1.cells):
                kk = ("obj", v.oid, w.oid)
                if kk in ctx:
                    return ctx[kk]
                o = Obj(self.fresh(), v.cls)
                ctx[kk] = o
                for k in k1:
                    y = s2.cells.get(("a", w.oid, k[2]), UNBOUND)
                    out.cells[("a", o.oid, k[2])] = self.merge_val(c, s1.cells[k], y, out, s1, s2, ctx)
                return o
        if isinstance(v, ListRef) and isinstance(w, ListRef) and ("l", v.lid) not in s2.cells and ("l", w.lid) not in s1.cells:
            d = self.merge_cell(c, s1.cells[("l", v.lid)], s2.cells[("l", w.lid)], out, s1, s2, ctx)
            lid = self.fresh()
            out.cells[("l", lid)] = d
            return ListRef(lid)
        if isinstance(v, Opq) and isinstance(w, Opq):
            return v
        if isinstance(v, Choice) and v.c is c:
            return self.merge_val(c, v.a, w, out, s1, s2, ctx)
        if isinstance(w, Choice) and w.c is c:
            return self.merge_val(c, v, w.b, out, s1, s2, ctx)
        return Choice(c, v, w)

    def fork(self, st, c, f, g, node=None):
        """evaluate f(state) under c and g(state) otherwise; returns the joined value"""
        c = self.simp(c, st)
        if c is ONE:
            return f(st)
        if c is ZERO:
            return g(st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = T.mul(st.pc, c)
        s2.pc = T.mul(st.pc, ONE - c)
        self.learn(s1, c)
        r1 = r2 = None
        e1 = e2 = None
        try:
            r1 = f(s1)
        except PyExc as e:
            e1 = e
        self.learn(s2, ONE - c)
        try:
            r2 = g(s2)
        except PyExc as e:
            e2 = e
        T.FACTS[:] = st.facts
        if e1 and e2:
            self.pending[-1].append(Out("raise", e1.st, e1.exc, e1.node))
            st.become(s2)
            raise e2
        if e1:
            self.pending[-1].append(Out("raise", e1.st, e1.exc, e1.node))
            pc = st.pc
            st.become(s2)
            st.pc = pc
            st.asm = T.mul(st.asm, ONE - c)
            return r2
        if e2:
            self.pending[-1].append(Out("raise", e2.st, e2.exc, e2.node))
            pc = st.pc
            st.become(s1)
            st.pc = pc
            st.asm = T.mul(st.asm, c)
            return r1
        out = self.merge_states(c, s1, s2)
        out.facts, out.assume = (st.facts if len(out.facts) <= len(st.facts) else out.facts), out.assume
        pc = st.pc
        ctx = {}
        v = self.merge_val(c, r1, r2, out, s1, s2, ctx) if r1 is not None and r2 is not None else (r1 or r2)
        st.become(out)
        st.pc = pc
        T.FACTS[:] = st.facts
        return v

    def choice_map(self, st, v, f, node=None):
        """apply f(state, alternative) to every alternative of a Choice"""
        if isinstance(v, Choice):
            return self.fork(st, v.c, lambda s: self.choice_map(s, v.a, f, node), lambda s: self.choice_map(s, v.b, f, node), node)
        return f(st, v)

    # ------------------------------------------------------------------------------------------------ names
    def new_env(self, parent, module, names, kind, func=None):
        return Env(self.fresh(), parent, module, names, kind, func)

    def lookup(self, st, env, name, node):
        e = env
        first = True
        while e is not None:
            if e.kind == "func" or first or e.kind == "module":
                v = st.cells.get(("v", e.eid, name))
                if v is not None and not isinstance(v, Unbound):
                    return v
                if e.kind == "func" and name in e.names and isinstance(v, Unbound):
                    self.raise_(st, "UnboundLocalError", node)
                if e.kind == "func" and name in e.names and v is None:
                    self.raise_(st, "UnboundLocalError", node)
            first = False
            e = e.parent
        v = self.py.builtin(name)
        if v is not None:
            return v
        self.raise_(st, "NameError", node, name)

    def bind(self, st, env, name, v):
        f = env.func
        e = env
        if f is not None and isinstance(f, dict):
            if name in f.get("global", ()):
                m = e
                while m.kind != "module":
                    m = m.parent
                self.event("global_write", st, None, name=name)
                st.cells[("v", m.eid, name)] = v
                return
            if name in f.get("nonlocal", ()):
                m = e.parent
                while m is not None and not (m.kind == "func" and name in m.names):
                    m = m.parent
                if m is not None:
                    st.cells[("v", m.eid, name)] = v
                    return
        st.cells[("v", e.eid, name)] = v

    # ------------------------------------------------------------------------------------------------ modules
    def module_file(self, name):
        base = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, st, name, node=None):
        """import an analysed module; returns ModuleV"""
        m = self.modules.get(name)
        if m is not None:
            return m
        path, pkg = self.module_file(name)
        if path is None:
            self.raise_(st, "ModuleNotFoundError", node, name)
        if "." in name:
            parent = self.load(st, name.rsplit(".", 1)[0], node)
            m = self.modules.get(name)
            if m is not None:
                return m
        src = open(path, encoding="utf-8").read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src)
        env = self.new_env(None, name, frozenset(), "module")
        m = ModuleV(name, env, path)
        env.module = m
        env.func = {"pkg": pkg}
        self.modules[name] = m
        st.cells[("v", env.eid, "__name__")] = Str(name)
        rel = os.path.relpath(path, self.root)
        self.stack.append((rel, "<module>"))
        try:
            outs = self.exec_block(tree.body, st, env)
        except PyExc:
            self.modules.pop(name, None)
            raise
        finally:
            self.stack.pop()
        nxt = [o for o in outs if o.kind == "next"]
        for o in outs:
            if o.kind == "raise":
                self.pending[-1].append(o)
        if not nxt:
            self.modules.pop(name, None)
            o = self.pending[-1].pop()
            raise PyExc(o.val, o.st, o.node)
        st.become(nxt[0].st)
        if "." in name:
            par, last = name.rsplit(".", 1)
            pm = self.modules.get(par)
            if pm is not None:
                st.cells[("v", pm.env.eid, last)] = m
        return m

    def import_any(self, st, name, node):
        top = name.split(".")[0]
        if self.module_file(name)[0] is not None and self.module_file(top)[0] is not None:
            return self.load(st, name, node)
        if self.module_file(top)[0] is not None:
            self.load(st, top, node)
            self.raise_(st, "ModuleNotFoundError", node, name)
        self.event("import", st, node, name=name)
        if top == "numpy" or self.py.is_std(top):
            return Ext(name)
        if top == "scipy" and self.scipy:
            return Ext(name)
        if not self.scipy:
            self.raise_(st, "ModuleNotFoundError", node, name)
        return Ext(name)

    def do_import(self, n, st, env):
        if isinstance(n, ast.Import):
            for a in n.names:
                m = self.import_any(st, a.name, n)
                if a.asname:
                    self.bind(st, env, a.asname, m)
                else:
                    top = a.name.split(".")[0]
                    self.bind(st, env, top, self.modules.get(top) or Ext(top))
            return
        mod = n.module or ""
        if n.level:
            base = env
            while base.kind != "module":
                base = base.parent
            parts = base.module.name.split(".")
            pkg = base.func.get("pkg")
            drop = n.level - (1 if pkg else 0)
            if drop:
                parts = parts[:-drop]
            mod = ".".join(parts + ([mod] if mod else []))
        if mod == "__future__":
            return
        m = self.import_any(st, mod, n)
        for a in n.names:
            if a.name == "*":
                if isinstance(m, ModuleV):
                    allv = st.cells.get(("v", m.env.eid, "__all__"))
                    names = None
                    if isinstance(allv, ListRef):
                        names = [x.s for x in st.cells[("l", allv.lid)].items if isinstance(x, Str)]
                    for k in list(st.cells):
                        if k[0] == "v" and k[1] == m.env.eid and (k[2] in names if names is not None else not k[2].startswith("_")):
                            self.bind(st, env, k[2], st.cells[k])
                continue
            if isinstance(m, ModuleV):
                v = st.cells.get(("v", m.env.eid, a.name))
                if v is None:
                    sub = m.name + "." + a.name
                    if self.module_file(sub)[0]:
                        v = self.load(st, sub, n)
                    else:
                        self.raise_(st, "ImportError", n, a.name)
            else:
                if m.path == "numpy" and a.name in REMOVED:
                    self.raise_(st, "ImportError", n, a.name)
                v = self.np.ext_attr(m, a.name)
            self.bind(st, env, a.asname or a.name, v)

    # ------------------------------------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, env):
        """returns outcomes; at most one of kind 'next'"""
        done = []
        for s in stmts:
            outs = self.exec_stmt(s, st, env)
            nxt = None
            for o in outs:
                if o.kind == "next":
                    nxt = o
                else:
                    done.append(o)
            if nxt is None:
                return done
            st = nxt.st
        done.append(Out("next", st))
        return done

    def exec_stmt(self, s, st, env):
        T.FACTS[:] = st.facts
        if hasattr(s, "lineno") and self.stack:
            self.loc = (self.stack[-1][0], s.lineno, self.stack[-1][1])
        m = getattr(self, "st_" + type(s).__name__, None)
        try:
            if m is None:
                self.note("statement " + type(s).__name__)
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.bind(st, env, x.id, Opq("unsupported statement"))
                return [Out("next", st)]
            r = m(s, st, env)
            return r if r is not None else [Out("next", st)]
        except PyExc as e:
            return [Out("raise", e.st, e.exc, e.node)]

    def st_Match(self, s, st, env):
        """a match statement is a chain of tests"""
        new = self._scopes.get(("match", s))
        if new is None:
            var = "<match %d>" % s.lineno
            name = lambda: ast.Name(var, ast.Load())
            chain = []
            for c in reversed(s.cases):
                tests = self.pattern(c.pattern, name())
                if tests is None:
                    raise Unsup("match pattern")
                if c.guard is not None:
                    tests = tests + [c.guard]
                test = ast.Constant(True) if not tests else tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)
                chain = [ast.If(test, c.body, chain)]
            new = [ast.Assign([ast.Name(var, ast.Store())], s.subject)] + chain
            for x in new:
                ast.copy_location(x, s)
                for y in ast.walk(x):
                    if not hasattr(y, "lineno") and "lineno" in getattr(y, "_attributes", ()):
                        ast.copy_location(y, s)
            self._scopes[("match", s)] = new
        return self.exec_block(new, st, env)

    def pattern(self, p, x):
        """the tests of a pattern on the expression x (None: not modelled)"""
        call = lambda f, *a: ast.Call(ast.Name(f, ast.Load()), list(a), [])
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(x, [ast.Eq()], [p.value])]
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(x, [ast.Is()], [ast.Constant(p.value)])]
        if isinstance(p, ast.MatchOr):
            alts = [self.pattern(q, x) for q in p.patterns]
            if any(a is None for a in alts):
                return None
            return [ast.BoolOp(ast.Or(), [ast.Constant(True) if not a else a[0] if len(a) == 1 else ast.BoolOp(ast.And(), a) for a in alts])]
        if isinstance(p, ast.MatchAs):
            tests = [] if p.pattern is None else self.pattern(p.pattern, x)
            if tests is None:
                return None
            if p.name is not None:
                tests = tests + [ast.Tuple([ast.NamedExpr(ast.Name(p.name, ast.Store()), x)], ast.Load())]
            return tests
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return [call("isinstance", x, p.cls)]
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            tests = [call("isinstance", x, ast.Tuple([ast.Name("tuple", ast.Load()), ast.Name("list", ast.Load())], ast.Load())),
                     ast.Compare(call("len", x), [ast.Eq()], [ast.Constant(len(p.patterns))])]
            for i, q in enumerate(p.patterns):
                t = self.pattern(q, ast.Subscript(x, ast.Constant(i), ast.Load()))
                if t is None:
                    return None
                tests += t
            return tests
        return None

    def st_Expr(self, s, st, env):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(s.value, st, env)
            return
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st, env)

    def do_yield(self, n, st, env):
        e = env
        while e.kind != "func" or ("v", e.eid, "<yield>") not in st.cells:
            e = e.parent
            if e is None:
                return NONE
        l = st.cells[("v", e.eid, "<yield>")]
        if isinstance(n, ast.YieldFrom):
            seq = self.iterate(st, self.eval(n.value, st, env), n)
            self.py.list_extend(st, l, seq, n)
        else:
            self.py.list_append(st, l, self.eval(n.value, st, env) if n.value else NONE, n)
        return NONE

    def st_Pass(self, s, st, env):
        return

    def st_Global(self, s, st, env):
        return

    st_Nonlocal = st_Global

    def st_Import(self, s, st, env):
        self.do_import(s, st, env)

    st_ImportFrom = st_Import

    def st_Assign(self, s, st, env):
        v = self.eval(s.value, st, env)
        for t in s.targets:
            self.assign(t, v, st, env)

    def st_AnnAssign(self, s, st, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, env), st, env)

    def st_AugAssign(self, s, st, env):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.there(st, self.lookup(st, env, t.id, s), s, "UnboundLocalError")
            r = self.inplace(st, cur, op, self.eval(s.value, st, env), s)
            self.bind(st, env, t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, env)
            cur = self.there(st, self.getattr(st, o, t.attr, s), s, "AttributeError")
            r = self.inplace(st, cur, op, self.eval(s.value, st, env), s)
            self.setattr(st, o, t.attr, r, s)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, env)
            i = self.eval_index(t.slice, st, env)
            cur = self.getitem(st, o, i, s)
            r = self.inplace(st, cur, op, self.eval(s.value, st, env), s)
            if isinstance(cur, Arr) and isinstance(r, Arr) and r.rid == cur.rid and (not isinstance(o, Arr) or cur.rid == o.rid):
                return          # the element was changed in place
            self.setitem(st, o, i, r, s)

    def inplace(self, st, cur, op, v, node):
        if isinstance(cur, Choice):
            return self.choice_map(st, cur, lambda s, x: self.inplace(s, x, op, v, node))
        if isinstance(cur, Arr) and not cur.lst:
            r = self.binop(st, op, cur, v, node)
            if isinstance(r, Opq):
                self.smash(st, cur.rid, r.why)
                return cur
            ac = self.np.ac(st, r)
            ac = self.np.broadcast_to(st, ac, cur.shape, node)
            self.write(st, cur, ac, node)
            return cur
        if isinstance(cur, ListRef) and op == "Add":
            self.py.list_extend(st, cur, self.iterate(st, v, node), node)
            return cur
        return self.binop(st, op, cur, v, node)

    def st_Delete(self, s, st, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.cells[("v", env.eid, t.id)] = UNBOUND
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, env)
                i = self.eval_index(t.slice, st, env)
                self.py.delitem(st, o, i, s)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, env)
                if isinstance(o, Obj):
                    st.cells.pop(("a", o.oid, t.attr), None)

    def st_Assert(self, s, st, env):
        c = self.truth(st, self.eval(s.test, st, env), s)
        c = self.simp(c, st)
        self.may_raise(st, ONE - c, "AssertionError", s)

    def st_Raise(self, s, st, env):
        if s.exc is None:
            cur = st.cells.get(("exc",))
            raise PyExc(cur if isinstance(cur, ExcV) else ExcV(("Exception",)), st, self.where(s))
        v = self.eval(s.exc, st, env)
        raise PyExc(self.to_exc(st, v), st, self.where(s))

    def to_exc(self, st, v):
        if isinstance(v, ExcV):
            return v
        if isinstance(v, ExcClass):
            return ExcV((v.name,))
        if isinstance(v, ClassV):
            return ExcV((self.exc_base(v),))
        if isinstance(v, Obj):
            return ExcV((self.exc_base(v.cls),))
        return ExcV(("Exception",))

    def exc_base(self, cls):
        for c in cls.mro:
            if isinstance(c, ExcClass):
                return c.name
        return "Exception"

    def st_Return(self, s, st, env):
        v = self.eval(s.value, st, env) if s.value is not None else NONE
        return [Out("return", st, v, s)]

    def st_Break(self, s, st, env):
        return [Out("break", st)]

    def st_Continue(self, s, st, env):
        return [Out("continue", st)]

    def st_If(self, s, st, env):
        v = self.eval(s.test, st, env)
        c = self.simp(self.truth(st, v, s), st)
        if c is ONE:
            return self.exec_block(s.body, st, env)
        if c is ZERO:
            return self.exec_block(s.orelse, st, env)
        self.event("branch", st, s, cond=c)
        return self.branch(st, c, lambda x: self.exec_block(s.body, x, env), lambda x: self.exec_block(s.orelse, x, env), env)

    def branch(self, st, c, f, g, env):
        pc = st.pc
        s1, s2 = st.copy(), st.copy()
        s1.pc = T.mul(pc, c)
        s2.pc = T.mul(pc, ONE - c)
        self.learn(s1, c)
        self.narrow(s1)
        o1 = f(s1)
        self.learn(s2, ONE - c)
        self.narrow(s2)
        o2 = g(s2)
        n1 = [o for o in o1 if o.kind == "next"]
        n2 = [o for o in o2 if o.kind == "next"]
        rest = [o for o in o1 + o2 if o.kind != "next"]
        if n1 and n2:
            m = self.merge_states(c, n1[0].st, n2[0].st)
            if not any(o.kind != "raise" for o in rest):
                m.pc = pc
            return rest + [Out("next", m)]
        if n1 or n2:
            m = (n1 or n2)[0].st
            other = o2 if n1 else o1
            if all(o.kind == "raise" for o in other):
                # the other branch only raises: not a branch of the value flow
                if not any(o.kind != "raise" for o in rest):
                    m.pc = pc
                m.asm = T.mul(m.asm, c if n1 else ONE - c)
            T.FACTS[:] = m.facts
            return rest + [Out("next", m)]
        return rest

    def narrow(self, s):
        """locations that are a Choice on exactly this condition are known in the branch"""
        for k, v in list(s.cells.items()):
            if isinstance(v, Choice) and k[0] in ("v", "a"):
                s.cells[k] = self.narrow_val(v, s)

    def narrow_val(self, v, st):
        if isinstance(v, Choice):
            c = self.simp(v.c, st)
            if c is ONE:
                return self.narrow_val(v.a, st)
            if c is ZERO:
                return self.narrow_val(v.b, st)
        return v

    def st_With(self, s, st, env):
        for it in s.items:
            v = self.eval(it.context_expr, st, env)
            if it.optional_vars is not None:
                if isinstance(v, Obj):
                    v = self.call(st, self.getattr(st, v, "__enter__", s), [], {}, s)
                self.assign(it.optional_vars, v if isinstance(v, Obj) else Opq("context"), st, env)
        return self.exec_block(s.body, st, env)

    def exc_matches(self, st, h, exc, env):
        """condition-free: the possible class names caught by handler h, and the ones that are not"""
        if h.type is None:
            return exc.names, ()
        t = self.eval(h.type, st, env)
        ts = t.items if isinstance(t, Tup) else [t]
        names = []
        for x in ts:
            if isinstance(x, ExcClass):
                names.append(x.name)
            elif isinstance(x, ClassV):
                names.append(self.exc_base(x))
            elif isinstance(x, Ext):
                names.append(x.path.split(".")[-1])
            else:
                names.append("Exception")
        hit = tuple(n for n in exc.names if any(exc_is(n, b) for b in names))
        miss = tuple(n for n in exc.names if n not in hit)
        return hit, miss

    def st_Try(self, s, st, env):
        self.pending.append([])
        depth, loops = len(self.stack), len(self.pending)
        pc0, asm0 = st.pc, st.asm
        st0 = st
        outs = self.exec_block(s.body, st, env)
        pend = self.pending.pop()
        raises = pend + [o for o in outs if o.kind == "raise"]
        outs = [o for o in outs if o.kind != "raise"]
        res = []
        nexts = []
        for o in outs:
            if o.kind == "next":
                nexts += self.exec_block(s.orelse, o.st, env) if s.orelse else [o]
            else:
                res.append(o)
        uncaught = []
        normal = nexts + res
        caught = None
        for o in raises:
            exc = o.val
            done = False
            for h in s.handlers:
                hit, miss = self.exc_matches(o.st, h, exc, env)
                if not hit:
                    continue
                if miss:
                    fl = T.flag("exc", self.fresh())
                    s2 = o.st.copy()
                    s2.pc = T.mul(s2.pc, ONE - fl)
                    o2 = Out("raise", s2, ExcV(miss, exc.args), o.node)
                    uncaught.append(o2)
                    o.st.pc = T.mul(o.st.pc, fl)
                hs = o.st
                hs.base = st0.base
                self.event("caught", hs, h, names=hit, bare=h.type is None, raised=o.node)
                hs.cells[("exc",)] = ExcV(hit, exc.args)
                if h.name:
                    self.bind(hs, env, h.name, ExcV(hit, exc.args))
                hpc = hs.pc
                ho = self.exec_block(h.body, hs, env)
                if any(x.kind != "raise" for x in ho):
                    caught = hpc if caught is None else T.lor(caught, hpc)
                for x in ho:
                    (nexts if x.kind == "next" else res).append(x)
                done = True
                break
            if not done:
                uncaught.append(o)
        res += uncaught
        if caught is not None:
            for x in normal:
                x.st.pc = T.mul(x.st.pc, ONE - caught)
            for x in nexts:
                if x.kind == "next":
                    x.st.cells.pop(("exc",), None)
        nexts.sort(key=lambda x: any(x is y for y in normal))
        plain = [x for x in nexts if x.kind == "next"]
        res += [x for x in nexts if x.kind != "next"]
        if plain:
            res.append(Out("next", self.merge_many([x.st for x in plain], pc0, asm0)))
        if s.finalbody:
            fin = []
            for o in res:
                fo = self.exec_block(s.finalbody, o.st, env)
                for x in fo:
                    if x.kind == "next":
                        fin.append(Out(o.kind, x.st, o.val, o.node))
                    else:
                        fin.append(x)
            res = fin
        return res

    st_TryStar = st_Try

    def merge_many(self, sts, pc0=None, asm0=None):
        """join states with disjoint path conditions"""
        cur = sts[-1]
        for s in reversed(sts[:-1]):
            cur = self.merge_states(self.rel(s, pc0), s, cur)
        return cur

    def rel(self, s, pc0):
        """path condition of s relative to pc0"""
        p = s.pc
        if pc0 is None or pc0 is ONE or pc0 is p:
            return p
        # drop the factors of pc0
        if len(pc0.t) == 1:
            try:
                for a, e in pc0.t[0][0].f:
                    if a.is_bool:
                        p = T.given(p, a, True)
            except T.TooBig:
                pass
        return p

    def st_FunctionDef(self, s, st, env):
        f = self.make_func(s, st, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, env)
        self.bind(st, env, s.name, v)

    def decorate(self, d, v, st, env):
        dv = self.eval(d, st, env)
        return self.call(st, dv, [v], {}, d)

    def make_func(self, n, st, env, name):
        a = n.args
        defaults = [self.eval(x, st, env) for x in a.defaults]
        kwd = {x.arg: self.eval(y, st, env) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None}
        m = env
        while m.kind != "module":
            m = m.parent
        f = FuncV(n, env, m.module, defaults, kwd, name)
        f.gen = has_yield(n)
        e = env
        while e is not None and e.kind != "module":
            e.captured = True
            e = e.parent
        return f

    def st_ClassDef(self, s, st, env):
        bases = []
        kind = None
        for b in s.bases:
            v = self.eval(b, st, env)
            if isinstance(v, (ClassV, ExcClass)):
                bases.append(v)
            elif isinstance(v, Builtin) and v.name == "object" or isinstance(v, TypeV) and v.name == "object":
                pass
            elif isinstance(v, Ext) and v.path in ("abc.ABC", "typing.Generic", "typing.Protocol") or isinstance(v, Ext) and v.path.startswith("collections.abc."):
                pass
            elif isinstance(v, Ext) and v.path == "typing.NamedTuple":
                kind = "tuple"
            elif isinstance(v, Ext) and v.path in ("enum.Enum", "enum.IntEnum", "enum.StrEnum"):
                kind = "enum"
            elif isinstance(v, Ext):
                bases.append(self.note("base class " + v.path))
            else:
                bases.append(v)
        decorators = []
        for d in s.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            x = self.eval(f, st, env) if isinstance(f, (ast.Name, ast.Attribute)) else None
            if isinstance(x, Ext) and x.path == "dataclasses.dataclass":
                kind = "data"
            else:
                decorators.append(d)
        body = s.body
        if kind in ("tuple", "data"):
            body = self._scopes.get(("record", s))
            if body is None:
                body = self._scopes[("record", s)] = record_body(s, kind == "tuple")
        m = env
        while m.kind != "module":
            m = m.parent
        cls = ClassV(self.fresh(), s.name, bases, m.module, s)
        cls.mro = self.mro(cls)
        cenv = self.new_env(env, env.module, frozenset(), "class")
        self.stack.append((self.stack[-1][0], s.name))
        try:
            outs = self.exec_block(body, st, cenv)
        finally:
            self.stack.pop()
        nxt = [o for o in outs if o.kind == "next"]
        rest = [o for o in outs if o.kind != "next"]
        if not nxt:
            return rest
        st = nxt[0].st
        for k in list(st.cells):
            if k[0] == "v" and k[1] == cenv.eid:
                v = st.cells.pop(k)
                st.cells[("a", cls.oid, k[2])] = v
                for f in (v, getattr(v, "fn", None), getattr(v, "get", None), getattr(v, "set", None)):
                    if isinstance(f, FuncV) and f.defcls is None:
                        f.defcls = cls
        # __init_subclass__ hooks of the bases
        for b in cls.mro[1:]:
            if isinstance(b, ClassV) and ("a", b.oid, "__init_subclass__") in st.cells:
                h = st.cells[("a", b.oid, "__init_subclass__")]
                h = h.fn if isinstance(h, ClassM) else h
                kw = {k.arg: self.eval(k.value, st, env) for k in s.keywords if k.arg}
                self.call(st, h, [cls], kw, s)
                break
        if kind == "enum":
            for key in [k for k in st.cells if k[0] == "a" and k[1] == cls.oid and not k[2].startswith("_")]:
                x = st.cells[key]
                if not isinstance(x, (FuncV, StaticV, ClassM, PropertyV)):
                    o = Obj(self.fresh(), cls)
                    st.cells[("a", o.oid, "name")], st.cells[("a", o.oid, "value")] = Str(key[2]), x
                    st.cells[key] = o
            st.cells[("a", cls.oid, "<enum>")] = NONE
        v = cls
        for d in reversed(decorators):
            v = self.decorate(d, v, st, env)
        self.bind(st, env, s.name, v)
        return rest + [Out("next", st)]

    def mro(self, cls):
        seqs = []
        for b in cls.bases:
            seqs.append(list(b.mro) if isinstance(b, ClassV) else [b])
        seqs.append(list(cls.bases))
        out = [cls]
        seqs = [q for q in seqs if q]
        while seqs:
            for q in seqs:
                h = q[0]
                if not any(h in r[1:] for r in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in r if x is not h] for r in seqs]
            seqs = [q for q in seqs if q]
        return out

    # ------------------------------------------------------------------------------------------------ loops
    def st_For(self, s, st, env):
        it = self.eval(s.iter, st, env)
        return self.for_over(st, it, s.target, s.body, s.orelse, env, s)

    def for_over(self, st, it, target, body, orelse, env, node):
        if isinstance(it, Choice):
            return self.branch(st, it.c, lambda x: self.for_over(x, it.a, target, body, orelse, env, node),
                               lambda x: self.for_over(x, it.b, target, body, orelse, env, node), env)
        seq = self.iterate(st, it, node)
        if seq is None:
            seq = SeqV(n=T.P1(T.atom("sym", ("unknown length", self.fresh()), is_int=True, nn=True, opq=True)), get=lambda s, k: Opq("iteration"))
        if seq.items is not None:
            return self.unrolled(st, seq.items, lambda s, v: self.assign(target, v, s, env),
                                 lambda s: self.exec_block(body, s, env), orelse, env)

        if own_break(body):
            return self.for_break(st, seq, target, body, orelse, env, node)

        def bindk(s, k):
            self.assign(target, seq.get(s, k), s, env)

        def run(s):
            return self.exec_block(body, s, env)
        outs = self.sym_loop(st, node, seq.n, bindk, run, env, guard=seq.guard)
        return self.orelse(outs, orelse, env)

    def for_break(self, st, seq, target, body, orelse, env, node):
        """a loop that may stop early: after the break the remaining iterations do nothing"""
        key = ("v", env.eid, "<going %d %d>" % (node.lineno, node.col_offset))
        at = []

        def inner(s):
            self.assign(target, seq.get(s, at[-1]), s, env)
            pc0, outs, nxt = s.pc, [], []
            for o in self.exec_block(body, s, env):
                if o.kind == "break":
                    o.st.cells[key] = Num(ZERO, "b")
                if o.kind in ("next", "break", "continue"):
                    nxt.append(o.st)
                else:
                    outs.append(o)
            if nxt:
                m = self.merge_many(nxt, pc0) if len(nxt) > 1 else nxt[0]
                if not any(o.kind != "raise" for o in outs):
                    m.pc = pc0
                outs.append(Out("next", m))
            return outs

        def bindk(s, k):
            at.append(k)

        def run(s):
            go = s.cells.get(key)
            c = go.p if isinstance(go, Num) else T.opaque("loop exit")
            return self.branch(s, self.simp(c, s), inner, lambda x: [Out("next", x)], env)
        st.cells[key] = Num(ONE, "b")
        res = []
        for o in self.sym_loop(st, node, seq.n, bindk, run, env, guard=seq.guard):
            go = o.st.cells.pop(key, None)
            if o.kind == "next" and orelse:
                c = go.p if isinstance(go, Num) else T.opaque("loop exit")
                res += self.branch(o.st, self.simp(c, o.st), lambda x: self.exec_block(orelse, x, env), lambda x: [Out("next", x)], env)
            else:
                res.append(o)
        return res

    def orelse(self, outs, orelse, env):
        if not orelse:
            return outs
        res = []
        for o in outs:
            if o.kind == "next":
                res += self.exec_block(orelse, o.st, env)
            else:
                res.append(o)
        return res

    def unrolled(self, st, items, bindv, run, orelse, env):
        res, brk = [], []
        cur = st
        pc0 = st.pc
        for v in items:
            try:
                bindv(cur, v)
            except PyExc as e:
                res.append(Out("raise", e.st, e.exc, e.node))
                cur = None
                break
            outs = run(cur)
            go = []
            for o in outs:
                if o.kind in ("next", "continue"):
                    go.append(o.st)
                elif o.kind == "break":
                    brk.append(o.st)
                else:
                    res.append(o)
            if not go:
                cur = None
                break
            cur = self.merge_many(go, cur.pc if False else pc0) if len(go) > 1 else go[0]
        fin = []
        if cur is not None:
            if orelse:
                for o in self.exec_block(orelse, cur, env):
                    if o.kind == "next":
                        fin.append(o.st)
                    else:
                        res.append(o)
            else:
                fin.append(cur)
        fin = brk + fin
        if fin:
            m = self.merge_many(fin, pc0)
            if not any(o.kind != "raise" for o in res):
                m.pc = pc0
            res.append(Out("next", m))
        return res

    def st_While(self, s, st, env):
        if isinstance(s.test, ast.Constant) and s.test.value and s.body and isinstance(s.body[0], ast.If) and not s.body[0].orelse \
                and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break) and len(s.body) > 1 and not s.orelse:
            new = self._scopes.get(("while", s))
            if new is None:
                t = ast.UnaryOp(ast.Not(), s.body[0].test)
                new = ast.copy_location(ast.While(ast.copy_location(t, s.body[0]), s.body[1:], []), s)
                self._scopes[("while", s)] = new
            s = new
        res, brk = [], []
        cur = st
        for i in range(UNROLL * 4):
            try:
                probe = cur.copy()
                mark, pm = len(self.events), len(self.pending[-1])
                c = self.simp(self.truth(probe, self.eval(s.test, probe, env), s), probe)
            except PyExc as e:
                return res + [Out("raise", e.st, e.exc, e.node)]
            if c is ZERO:
                cur = probe
                fin = self.orelse([Out("next", cur)], s.orelse, env)
                return self._join_breaks(res + fin, brk, st.pc)
            if c is not ONE or self._grows(s, cur, env):
                del self.events[mark:]
                del self.pending[-1][pm:]
                break
            cur = probe
            outs = self.exec_block(s.body, cur, env)
            go = []
            for o in outs:
                if o.kind in ("next", "continue"):
                    go.append(o.st)
                elif o.kind == "break":
                    brk.append(o.st)
                else:
                    res.append(o)
            if not go:
                return self._join_breaks(res, brk, st.pc)
            cur = self.merge_many(go, st.pc) if len(go) > 1 else go[0]
        outs = self.sym_loop(cur, s, None, lambda x, k: None, lambda x: self.exec_block(s.body, x, env), env,
                             test=lambda x: self.simp(self.truth(x, self.eval(s.test, x, env), s), x))
        return self._join_breaks(res + self.orelse(outs, s.orelse, env), brk, st.pc)

    def _grows(self, s, st, env):
        """a loop whose first iterations are decided but whose bound is symbolic or far away is summarised, not unrolled"""
        for x in ast.walk(s.test):
            if isinstance(x, ast.Compare):
                cs = []
                for y in [x.left] + x.comparators:
                    p = st.copy()
                    mark, pm = len(self.events), len(self.pending[-1])
                    try:
                        v = self.eval(y, p, env)
                    except PyExc:
                        return True
                    finally:
                        del self.events[mark:]
                        del self.pending[-1][pm:]
                    if isinstance(v, Num) and v.p.const is None:
                        return True
                    if isinstance(v, Num):
                        cs.append(v.p.const)
                if len(cs) == 2 and abs(cs[0] - cs[1]) > UNROLL * 4:
                    return True
        return False

    def _join_breaks(self, outs, brk, pc0):
        if not brk:
            return outs
        nx = [o.st for o in outs if o.kind == "next"]
        rest = [o for o in outs if o.kind != "next"]
        m = self.merge_many(brk + nx, pc0)
        if not any(o.kind != "raise" for o in rest):
            m.pc = pc0
        return rest + [Out("next", m)]

    # the symbolic loop -------------------------------------------------------------------------------------
    def sym_loop(self, st, node, n, bindk, run, env, guard=None, test=None, ups=None, weak=None):
        loop = ("L", self.fresh())
        facts0, assume0, pc0, asm0 = st.facts, st.assume, st.pc, st.asm
        if n is not None:
            c0 = n.const
            if c0 is not None and c0 <= 0:
                return [Out("next", st)]
            if c0 is not None and c0 <= UNROLL:
                return self.unrolled(st, list(range(int(c0))), lambda s, v: bindk(s, P(v)),
                                     (lambda s: run(s)) if guard is None else run, None, env) if guard is None else \
                    self._unroll_guarded(st, int(c0), bindk, run, guard, env)
        k = T.new_var(n)
        K = P1(k)
        heads = {}          # cell key -> Head
        closed = {}         # comp id -> step constant
        noclose = set()
        nonneg = {c: False for c in weak or ()}         # comp id -> assumed non-negative
        trip = n
        keepmark = len(self.events)
        pendmark = len(self.pending[-1])
        born = self.n
        final = None
        bad = None
        for rnd in range(16):
            del self.events[keepmark:]
            del self.pending[-1][pendmark:]
            s = st.copy()
            s.pc, s.asm = ONE, ONE
            s.base = T.mul(st.base, T.mul(st.pc, st.asm))
            if trip is not None and not trip.opq:
                s.facts = facts0 + (trip - 1,)
            T.FACTS[:] = s.facts
            ctx = HeadCtx(self, loop, k, s, closed, nonneg, st, heads)
            ctx.ups = ups or {}
            for key, h in heads.items():
                h.install(ctx)
            before = ctx.before = dict(s.cells)
            try:
                if test is not None:
                    c = test(s)
                    t = self.trip_count(c, k, loop)
                    if c is ZERO:
                        return [Out("next", st)]
                    if t is not None and t is not trip:
                        trip = t
                        T.VAR_HI[k] = t
                        continue
                    if t is None and rnd > 2 and not any(h.pending_closed for h in heads.values()):
                        pass
                bindk(s, K)
                g = guard(s, K) if guard is not None else None
                if g is not None and g is not ONE:
                    outs = self.branch(s, g, run, lambda x: [Out("next", x)], env)
                else:
                    outs = run(s)
            except PyExc as e:
                outs = [Out("raise", e.st, e.exc, e.node)]
            nxt = [o for o in outs if o.kind in ("next", "continue")]
            bad = [o for o in outs if o.kind in ("break", "return")]
            raises = [o for o in outs if o.kind == "raise"]
            if not nxt and not bad:
                # every iteration raises
                e = raises[0]
                if trip is None:
                    trip = T.P1(T.atom("sym", ("trip", self.fresh()), is_int=True, nn=True, opq=True))
                c = T.ge(trip - 1)
                o = Out("raise", self._leave(e.st, loop, k, {}, st), e.val, e.node)
                if c is ONE:
                    return [o]
                o.st.pc = T.mul(o.st.pc, c)
                self.assume_not(st, c)
                return [o, Out("next", st)]
            if not nxt:
                bad = bad or [1]
                s2 = bad[0].st
            else:
                s2 = self.merge_many([o.st for o in nxt], ONE) if len(nxt) > 1 else nxt[0].st
            ch = False
            for key, v in list(s2.cells.items()):
                if isinstance(v, Choice) and key[0] in ("v", "a") and not same(v, before.get(key, UNBOUND)):
                    v = s2.cells[key] = self.merge_arrays(s2, v, before)
                if key[0] == "r" and (key not in before or key not in st.cells and any(key[1] in h.rids.values() for h in heads.values())):
                    continue        # what a location holds is read when its value at the end of the iteration is
                if key[0] in ("l", "d") and key not in before:
                    continue
                if key[0] == "a" and key not in before and not self._obj_existed(key[1], before, born):
                    continue
                if key[0] == "v" and key not in before and not self._env_existed(key[1], env):
                    continue
                w = before.get(key)
                if w is None:
                    w = UNBOUND
                if same(v, w):
                    continue
                h = heads.get(key)
                if h is None:
                    heads[key] = h = Head(key, st.cells.get(key, UNBOUND))
                    ch = True
                if h.update(ctx, v, s2):
                    ch = True
            if ch:
                continue
            # stable: look for induction variables
            nc = False
            for key, h in heads.items():
                if h.inductions(ctx, s2, closed, noclose):
                    nc = True
            if nc:
                continue
            final = s2
            break
        if final is None or bad or trip is None or trip.opq and test is not None:
            return self._give_up(st, heads, s2, k, loop, bad, node, env)
        n = trip
        comps = []
        steps = {}
        ok = True
        try:
            for key, h in heads.items():
                h.collect(ctx, final.cells.get(key, UNBOUND), final, steps)
            for cid, (vs, init, step, isint, dt) in steps.items():
                if cid in closed:
                    continue
                if isint and nonneg.get(cid, False) and not (step.nn or T.prove_ge(step) or T.prove_cases(step)):
                    nonneg[cid] = False
                    ok = False
            if not ok:
                # redo with the weaker assumption: first without those that failed, then without any
                fails = frozenset(c for c in nonneg if not nonneg[c])
                if ups is None and fails != (weak or frozenset()) and len(fails) <= 3:
                    del self.events[keepmark:]
                    del self.pending[-1][pendmark:]
                    return self.sym_loop(st, node, n if test is None else None, bindk, run, env, guard, test, None, fails)
                return self._retry(st, node, n, bindk, run, env, guard, test, nonneg, closed, keepmark, pendmark)
            # counters with an upper bound (rings): assumed at the loop head, proved by induction, else analysed again without
            more = {}
            for cid, (vs, init, step, isint, dt) in steps.items():
                if cid in closed or vs or not isint or not nonneg.get(cid, False):
                    continue
                if ups is None:
                    b = self._upper(loop, k, cid, init, steps)
                    if b is not None:
                        more[cid] = b
                elif cid in ups and not (T.prove_ge(ups[cid] - init) and T.prove_cases(ups[cid] - step)):
                    more = None
                    break
            if more is None or more:
                del self.events[keepmark:]
                del self.pending[-1][pendmark:]
                st.pc, st.asm, st.facts, st.assume = pc0, asm0, facts0, assume0
                return self.sym_loop(st, node, n if test is None else None, bindk, run, env, guard, test, more or {}, weak)
            for cid, (vs, init, step, isint, dt) in steps.items():
                if cid in closed:
                    continue
                comps.append(recs.Comp(cid, vs, init, step, isint, nonneg.get(cid, False) or (init.nn and step.nn)))
            forms = recs.solve(loop, k, n, comps)
            for cid, b in (ups or {}).items():
                if cid in forms:
                    forms[cid] = _bounded(forms[cid], b)
        except T.TooBig:
            self.note("loop too large")
            return self._give_up(st, heads, s2, k, loop, bad, node, env)
        for cid, (c0, init) in closed.items():
            forms[cid] = (lambda c0, init: lambda it, idx: init + T.scale(P(it), c0))(c0, init)

        def lvf(a, rest, rw):
            f = forms.get(rest[0])
            if f is None:
                return None
            return f(rest[1], rest[2])
        m_in = {("lv", loop): lvf}
        m_out = {k: n, ("lv", loop): lvf}
        # events of the body
        for i in range(keepmark, len(self.events)):
            e = self.events[i]
            for kk, vv in list(e.items()):
                if isinstance(vv, Poly):
                    try:
                        e[kk] = T.subst(vv, m_in)
                    except T.TooBig:
                        e[kk] = T.opaque("too big")
                elif isinstance(vv, AC):
                    e[kk] = subst_ac(vv, m_in)
            e["loop"] = e.get("loop", 0) + 1
        res = []
        pend = self.pending[-1][pendmark:]
        del self.pending[-1][pendmark:]
        for o in pend + raises:
            o2 = Out("raise", self._leave(o.st, loop, k, m_in, st), o.val, o.node)
            o2.exists = tuple(o.exists or ()) + ((k, n),)
            res.append(o2)
        for o in res:
            self.pending[-1].append(o)
        out = st
        T.FACTS[:] = facts0
        try:
            dead = self._dead_locals(heads, node, env, st)
            for key, h in heads.items():
                h.finish(ctx, out, m_out, n, key in dead)
        except T.TooBig:
            self.note("loop result too large")
            return self._give_up(st, heads, s2, k, loop, bad, node, env)
        out.pc, out.asm, out.facts, out.assume = pc0, asm0, facts0, assume0
        T.FACTS[:] = facts0
        return [Out("next", out)]

    def merge_arrays(self, st, v, before):
        """one array for a choice of arrays of the same shape (its regions from before the loop stay noted as aliases)"""
        alts = _alts(v)
        a0 = alts[0]
        if not all(isinstance(x, Arr) for x in alts):
            return v
        acs = [self.read(st, x) for x in alts]
        if any(len(x.shape) != len(a0.shape) or any(p is not q for p, q in zip(x.shape, a0.shape)) or y.dt != acs[0].dt or y.conv
               for x, y in zip(alts, acs)):
            return v
        vs = [T.new_var(x) for x in a0.shape]
        V = [P1(x) for x in vs]

        def body(x):
            if isinstance(x, Choice):
                return T.ite(x.c, body(x.a), body(x.b))
            return self.read(st, x).at(V)
        taint = frozenset(r for y in acs for r in y.taint if ("r", r) in before)
        return self.alloc(st, AC(a0.shape, vs, body(v), acs[0].dt, taint))

    def _upper(self, loop, k, cid, init, steps):
        """a loop-invariant candidate for the largest value of an integer location, from the conditions on it"""
        lv = T.lv_mk(loop, (cid, P1(k), ()), True, True).t[0][0].f[0][0]
        out = []
        for vs, i, step, isint, dt in steps.values():
            for a in T.inner_atoms(step):
                if a.kind in ("ge", "eq"):
                    q = a.args[0]
                    cf = next((c for m, c in q.t if m.f == ((lv, 1),)), 0) if q.is_int else 0
                    if cf not in (1, -1):
                        continue
                    t = T.scale(q, -cf) + P1(lv)
                    out += [t, t - 1] if cf == 1 else [t, t + 1]
                elif a.kind == "fn" and a.args[0] in ("int", "floor"):
                    for y, m in T.quotients(a.args[1]):
                        if lv in T.direct_atoms(y):
                            out.append(m - 1)
        seen = set()
        for b in out:
            if b in seen or b.bools or k in b.leaf or any(isinstance(x, tuple) and x[:1] == ("lv",) and x[1] == loop for x in b.leaf) or \
                    any(isinstance(x, T.Atom) and x.kind == "var" for x in b.leaf) or b.const is not None and b.const <= 0:
                continue
            seen.add(b)
            if T.prove_ge(b - init) and not T.prove_ge(b - 10**6):
                T.UP[lv] = b
                try:
                    if T.prove_cases(b - T.subst(steps[cid][2], {("lv", loop): lambda a, rest, rw: None})):
                        return b
                finally:
                    T.UP.pop(lv, None)
        return None

    def _retry(self, st, node, n, bindk, run, env, guard, test, nonneg, closed, keepmark, pendmark):
        del self.events[keepmark:]
        del self.pending[-1][pendmark:]
        self._nonneg_off = getattr(self, "_nonneg_off", 0) + 1
        try:
            return self.sym_loop(st, node, n if test is None else None, bindk, run, env, guard, test)
        finally:
            self._nonneg_off -= 1

    def _unroll_guarded(self, st, c, bindk, run, guard, env):
        outs = [Out("next", st)]
        res = []
        for i in range(c):
            s = outs[-1].st
            bindk(s, P(i))
            g = guard(s, P(i))
            o = self.branch(s, g, run, lambda x: [Out("next", x)], env) if g not in (None, ONE) else run(s)
            res += [x for x in o if x.kind not in ("next", "continue")]
            go = [x.st for x in o if x.kind in ("next", "continue")]
            if not go:
                return res
            outs = [Out("next", self.merge_many(go, None) if len(go) > 1 else go[0])]
        return res + outs

    def _leave(self, s, loop, k, m, outer):
        q = T.mul(s.pc, s.asm)
        s.base, s.pc, s.asm = outer.base, T.mul(outer.pc, T.subst(q, m) if m else q), outer.asm
        try:
            if m:
                for key, v in list(s.cells.items()):
                    s.cells[key] = subst_cell(v, m)
        except T.TooBig:
            pass
        return s

    def _obj_existed(self, oid, before, born):
        return oid <= born

    def _env_existed(self, eid, env):
        e = env
        while e is not None:
            if e.eid == eid:
                return True
            e = e.parent
        return False

    def _dead_locals(self, heads, node, env, st):
        """locals first bound inside the loop and not read after it"""
        dead = set()
        if env.kind != "func" or not isinstance(env.func, dict) or env.captured:
            return dead
        fn = env.func.get("node")
        if fn is None:
            return dead
        inside = set(map(id, ast.walk(node)))
        used = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside:
                used.add(x.id)
        for key, h in heads.items():
            if key[0] == "v" and key[1] == env.eid and key[2] not in used and isinstance(h.init, Unbound):
                dead.add(key)
        return dead

    def trip_count(self, c, k, loop):
        """number of iterations of a while loop whose test is c at iteration k"""
        if c is ONE:
            return None
        if len(c.t) == 1 and c.t[0][1] == 1 and len(c.t[0][0].f) == 1:
            a = c.t[0][0].f[0][0]
            q = a.args[0] if a.kind == "ge" else None
            if a.kind == "eq" and False:
                q = None
        elif len(c.t) == 2 and c.t[0][0] is T.M1 and c.t[0][1] == 1 and c.t[1][1] == -1 and len(c.t[1][0].f) == 1:
            a = c.t[1][0].f[0][0]
            q = T.neg(a.args[0]) - 1 if a.kind == "ge" else None
            if a.kind == "eq" and a.args[0].is_int:
                # while i != N: counts up to it
                l = T.linear_in(a.args[0], k)
                if l is not None and l[0] in (1, -1):
                    t = T.neg(l[1]) if l[0] == 1 else l[1]
                    if T.prove_ge(t):
                        return t
                return None
        else:
            return None
        if q is None or ("lv", loop) in q.leaf:
            return None
        l = T.linear_in(q, k)
        if l is None or l[0] != -1:
            return None
        t = l[1] + 1
        if T.prove_ge(t):
            return t
        return T.maxf(t, ZERO)

    def _give_up(self, st, heads, s2, k, loop, bad, node, env):
        """everything the loop changes is unknown afterwards"""
        self.note("loop not summarised at %s:%s" % (self.where(node)[0], getattr(node, "lineno", 0)))
        for key, h in heads.items():
            if key[0] == "r":
                self.smash(st, key[1], "loop")
            elif key[0] == "rng":
                st.cells[key] = Num(T.opaque("loop"), "i")
            elif key[0] == "l":
                st.cells[key] = ListD([("opq",)])
            elif key[0] == "d":
                st.cells[key] = DictD((), True)
            else:
                old = st.cells.get(key)
                w = s2.cells.get(key)
                if isinstance(old, Num) and isinstance(w, Num):
                    st.cells[key] = Num(T.opaque("loop"), self.join_dt(old.dt, w.dt))
                else:
                    st.cells[key] = Opq("loop")
        res = []
        if bad:
            for o in bad:
                if o != 1 and o.kind == "return":
                    s = st.copy()
                    f = T.P1(T.atom("flag", ("loop exit", self.fresh()), opq=True))
                    s.pc = T.mul(s.pc, f)
                    st.pc = T.mul(st.pc, ONE - f)
                    res.append(Out("return", s, Opq("return in loop"), node))
        return res + [Out("next", st)]

    # ------------------------------------------------------------------------------------------------ assignment
    def assign(self, t, v, st, env):
        if isinstance(t, ast.Name):
            self.bind(st, env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, env)
            self.setattr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, env)
            i = self.eval_index(t.slice, st, env)
            self.setitem(st, o, i, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, env)

    def unpack(self, t, v, st, env):
        if isinstance(v, Choice):
            # distribute
            items = self.choice_map(st, v, lambda s, x: Tup(self.unpack_items(s, x, t)))
            if isinstance(items, Tup):
                for x, y in zip(t.elts, items.items):
                    self.assign(x, y, st, env)
                return
            for x in t.elts:
                self.assign(x, Opq("unpack"), st, env)
            return
        for x, y in zip(t.elts, self.unpack_items(st, v, t)):
            self.assign(x, y, st, env)

    def unpack_items(self, st, v, t):
        n = len(t.elts)
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        seq = self.iterate(st, v, t)
        if seq is None:
            return [Opq("unpack")] * n
        items = seq.items
        if items is None:
            if star:
                return [Opq("unpack")] * n
            items = [seq.get(st, P(i)) for i in range(n)]
        elif star:
            i = star[0]
            r = n - i - 1
            mid = items[i:len(items) - r]
            return items[:i] + [self.py.new_list(st, mid)] + items[len(items) - r:]
        elif len(items) != n:
            self.raise_(st, "ValueError", t)
        return items

    def eval_index(self, n, st, env):
        return self.eval(n, st, env)

    # ------------------------------------------------------------------------------------------------ expressions
    def eval(self, n, st, env):
        T.FACTS[:] = st.facts
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            return self.note("expression " + type(n).__name__)
        try:
            return m(n, st, env)
        except T.TooBig:
            return self.note("value too large")

    def ex_Constant(self, n, st, env):
        return self.py.constant(n.value)

    def ex_Name(self, n, st, env):
        v = self.lookup(st, env, n.id, n)
        if isinstance(v, Choice):
            v = self.narrow_val(v, st)
            if isinstance(v, Choice):
                v = self.drop_unbound(st, v, n, "UnboundLocalError")
        return v

    def there(self, st, v, node, exc):
        if isinstance(v, Choice):
            v = self.narrow_val(v, st)
        return self.drop_unbound(st, v, node, exc)

    def drop_unbound(self, st, v, node, exc):
        if isinstance(v, Choice):
            c = unbound_cond(v)
            if c is not ZERO:
                self.may_raise(st, c, exc, node)
                return bound_part(v)
        return v

    def ex_Tuple(self, n, st, env):
        return Tup(self.elements(n.elts, st, env))

    def elements(self, elts, st, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                seq = self.iterate(st, self.eval(x.value, st, env), x)
                if seq is None or seq.items is None:
                    out.append(Opq("starred"))
                else:
                    out.extend(seq.items)
            else:
                out.append(self.eval(x, st, env))
        return out

    def ex_List(self, n, st, env):
        return self.py.new_list(st, self.elements(n.elts, st, env))

    def ex_Set(self, n, st, env):
        return self.py.distinct(self.elements(n.elts, st, env))

    def ex_Dict(self, n, st, env):
        did = self.fresh()
        items = {}
        opq = False
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, st, env)
                if isinstance(d, DictRef):
                    dd = st.cells[("d", d.did)]
                    opq = opq or dd.opq or dd.part
                    items.update(dict(dd.items))
                else:
                    opq = True
                continue
            kv = self.eval(k, st, env)
            key = self.py.key(kv)
            val = self.eval(v, st, env)
            if key is None:
                opq = True
            else:
                items[key] = val
        st.cells[("d", did)] = DictD(items.items(), opq)
        return DictRef(did)

    def ex_Starred(self, n, st, env):
        return self.eval(n.value, st, env)

    def ex_JoinedStr(self, n, st, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, st, env)
                parts.append(x.s if isinstance(x, Str) and v.format_spec is None and v.conversion in (-1, 115) else None)
        return Str("".join(parts)) if all(p is not None for p in parts) else Str(None)

    def ex_FormattedValue(self, n, st, env):
        self.eval(n.value, st, env)
        return Str(None)

    def ex_Lambda(self, n, st, env):
        return self.make_func(n, st, env, "<lambda>")

    def ex_NamedExpr(self, n, st, env):
        v = self.eval(n.value, st, env)
        e = env
        while e.kind == "comp":
            e = e.parent
        self.bind(st, e, n.target.id, v)
        return v

    def ex_IfExp(self, n, st, env):
        c = self.simp(self.truth(st, self.eval(n.test, st, env), n), st)
        if c is not ONE and c is not ZERO:
            self.event("branch", st, n, cond=c)
        return self.fork(st, c, lambda s: self.eval(n.body, s, env), lambda s: self.eval(n.orelse, s, env), n)

    def ex_BoolOp(self, n, st, env):
        isand = isinstance(n.op, ast.And)

        def go(s, vals):
            v = self.eval(vals[0], s, env)
            if len(vals) == 1:
                return v
            c = self.simp(self.truth(s, v, n), s)
            if isand:
                return self.fork(s, c, lambda x: go(x, vals[1:]), lambda x: v, n)
            return self.fork(s, c, lambda x: v, lambda x: go(x, vals[1:]), n)
        return go(st, n.values)

    def ex_UnaryOp(self, n, st, env):
        v = self.eval(n.operand, st, env)
        return self.unary(st, type(n.op).__name__, v, n)

    def unary(self, st, op, v, n):
        if op == "Not":
            return Num(ONE - self.truth(st, v, n), "b", True)
        if isinstance(v, Choice):
            return self.choice_map(st, v, lambda s, x: self.unary(s, op, x, n))
        if isinstance(v, Num):
            if op == "USub":
                if v.dt in ("c", "C"):
                    self.event("narrow", st, n, what="negation")
                return Num(T.neg(v.p), "i" if v.dt == "b" else v.dt, v.py)
            if op == "UAdd":
                return Num(v.p, "i" if v.dt == "b" else v.dt, v.py)
            if op == "Invert":
                if v.dt == "b" and not v.py:
                    return Num(ONE - v.p, "b")
                return Num(T.neg(v.p) - 1, "i", v.py)
        if isinstance(v, (Arr, Masked)) and not getattr(v, "lst", False):
            if op == "USub":
                return self.np.elementwise(st, "negative", [v], n)
            if op == "UAdd":
                return self.np.elementwise(st, "positive", [v], n)
            if op == "Invert":
                return self.np.elementwise(st, "invert", [v], n)
        if isinstance(v, Obj):
            m = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
            f = self.class_attr(st, v.cls, m)
            if f is not None:
                return self.call(st, Bound(f, v), [], {}, n)
        if isinstance(v, Opq):
            return v
        return self.note("unary " + op)

    def ex_BinOp(self, n, st, env):
        a = self.eval(n.left, st, env)
        b = self.eval(n.right, st, env)
        return self.binop(st, type(n.op).__name__, a, b, n)

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod",
              "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}

    def binop(self, st, op, a, b, node):
        if isinstance(a, Choice):
            return self.choice_map(st, a, lambda s, x: self.binop(s, op, x, b, node))
        if isinstance(b, Choice):
            return self.choice_map(st, b, lambda s, x: self.binop(s, op, a, x, node))
        if isinstance(a, Opq) or isinstance(b, Opq):
            return a if isinstance(a, Opq) else b
        la, lb = self.py.is_list(a), self.py.is_list(b)
        arrish = (isinstance(a, (Arr, Masked)) and not la) or (isinstance(b, (Arr, Masked)) and not lb)
        if isinstance(a, Num) and isinstance(b, Num):
            if op in ("Div", "FloorDiv", "Mod") and a.py and b.py and b.p is ZERO:
                self.np.it.event("div", st, node, by=ZERO)
                self.raise_(st, "ZeroDivisionError", node)
            return self.np.num_op(st, op, a, b, node)
        if isinstance(a, Obj) or isinstance(b, Obj):
            d = self.DUNDER.get(op)
            if d and isinstance(a, Obj):
                f = self.class_attr(st, a.cls, "__%s__" % d)
                if f is not None:
                    return self.call(st, Bound(f, a), [b], {}, node)
            if d and isinstance(b, Obj):
                f = self.class_attr(st, b.cls, "__r%s__" % d)
                if f is not None:
                    return self.call(st, Bound(f, b), [a], {}, node)
            return self.note("operator on object")
        if arrish:
            if op == "MatMult":
                return self.np.call(st, "matmul", [a, b], {}, node)
            return self.np.elementwise(st, op, [a, b], node)
        return self.py.binop(st, op, a, b, node)

    def ex_Compare(self, n, st, env):
        left = self.eval(n.left, st, env)
        if len(n.ops) == 1:
            right = self.eval(n.comparators[0], st, env)
            return self.compare(st, type(n.ops[0]).__name__, left, right, n)
        res = None
        conds = []
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, st, env)
            r = self.compare(st, type(op).__name__, left, right, n)
            conds.append(r)
            left = right
        p = ONE
        for r in conds:
            if not isinstance(r, Num):
                r = Num(self.truth(st, r, n), "b", True)
            p = T.mul(p, r.p)
        return Num(p, "b", True)

    def compare(self, st, op, a, b, node):
        if op not in ("Is", "IsNot", "In", "NotIn"):
            if isinstance(a, Choice):
                return self.choice_map(st, a, lambda s, x: self.compare(s, op, x, b, node))
            if isinstance(b, Choice):
                return self.choice_map(st, b, lambda s, x: self.compare(s, op, a, x, node))
        elif isinstance(a, Choice):
            return self.choice_map(st, a, lambda s, x: self.compare(s, op, x, b, node))
        elif isinstance(b, Choice):
            return self.choice_map(st, b, lambda s, x: self.compare(s, op, a, x, node))
        return self.py.compare(st, op, a, b, node)

    def truth(self, st, v, node):
        return self.py.truth(st, v, node)

    def ex_Slice(self, n, st, env):
        g = lambda x: NONE if x is None else self.eval(x, st, env)
        return SliceV(g(n.lower), g(n.upper), g(n.step))

    def ex_Subscript(self, n, st, env):
        o = self.eval(n.value, st, env)
        i = self.eval_index(n.slice, st, env)
        return self.getitem(st, o, i, n)

    def getitem(self, st, o, i, node):
        if isinstance(o, Choice):
            return self.choice_map(st, o, lambda s, x: self.getitem(s, x, i, node))
        if isinstance(i, Choice):
            return self.choice_map(st, i, lambda s, x: self.getitem(s, o, x, node))
        if isinstance(o, Opq):
            return o
        if isinstance(o, Obj):
            f = self.class_attr(st, o.cls, "__getitem__")
            if f is not None:
                return self.call(st, Bound(f, o), [i], {}, node)
        return self.py.getitem(st, o, i, node)

    def setitem(self, st, o, i, v, node):
        if isinstance(o, Choice):
            self.choice_map(st, o, lambda s, x: (self.setitem(s, x, i, v, node), NONE)[1])
            return
        if isinstance(i, Choice):
            self.choice_map(st, i, lambda s, x: (self.setitem(s, o, x, v, node), NONE)[1])
            return
        if isinstance(v, Choice) and isinstance(o, Arr):
            self.choice_map(st, v, lambda s, x: (self.setitem(s, o, i, x, node), NONE)[1])
            return
        if isinstance(o, Obj):
            f = self.class_attr(st, o.cls, "__setitem__")
            if f is not None:
                self.call(st, Bound(f, o), [i, v], {}, node)
                return
        self.py.setitem(st, o, i, v, node)

    # attributes ----------------------------------------------------------------------------------------------
    def class_attr(self, st, cls, name):
        for c in cls.mro:
            if isinstance(c, ClassV):
                v = st.cells.get(("a", c.oid, name))
                if v is not None and not isinstance(v, Unbound):
                    return v
        return None

    def ex_Attribute(self, n, st, env):
        o = self.eval(n.value, st, env)
        v = self.getattr(st, o, n.attr, n)
        if isinstance(v, Choice):
            v = self.narrow_val(v, st)
            if isinstance(v, Choice):
                v = self.drop_unbound(st, v, n, "AttributeError")
        return v

    def getattr(self, st, o, name, node, default=None):
        if isinstance(o, Choice):
            return self.choice_map(st, o, lambda s, x: self.getattr(s, x, name, node, default))
        if isinstance(o, Obj):
            ca = self.class_attr(st, o.cls, name)
            if isinstance(ca, PropertyV):
                return self.call(st, ca.get, [o], {}, node)
            v = st.cells.get(("a", o.oid, name))
            if isinstance(v, Choice) and default is not None:
                v = self.narrow_val(v, st)
                if isinstance(v, Choice) and ca is None and unbound_cond(v) is not ZERO:
                    return self.choice_map(st, v, lambda s, x: default if isinstance(x, Unbound) else x, node)
            if v is not None and not isinstance(v, Unbound):
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return Method(o, "__dict__")
            if ca is not None:
                return self.bind_attr(ca, o, o.cls)
            ga = self.class_attr(st, o.cls, "__getattr__")
            if ga is not None:
                return self.call(st, Bound(ga, o), [Str(name)], {}, node)
            if any(isinstance(c, Opq) for c in o.cls.mro):
                return Opq("attribute of unknown base")
            if default is not None:
                return default
            self.raise_(st, "AttributeError", node, name)
        if isinstance(o, ClassV):
            ca = self.class_attr(st, o, name)
            if ca is not None:
                if isinstance(ca, StaticV):
                    return ca.fn
                if isinstance(ca, ClassM):
                    return Bound(ca.fn, o)
                return ca
            if name in ("__name__", "__qualname__"):
                return Str(o.name)
            if name == "__mro__":
                return Tup(o.mro)
            if name == "__doc__":
                return Str(ast.get_docstring(o.node))
            if name == "__subclasses__":
                return Method(o, name)
            if default is not None:
                return default
            if any(isinstance(c, Opq) for c in o.mro):
                return Opq("attribute of unknown base")
            self.raise_(st, "AttributeError", node, name)
        if isinstance(o, ModuleV):
            v = st.cells.get(("v", o.env.eid, name))
            if v is not None and not isinstance(v, Unbound):
                return v
            sub = o.name + "." + name
            if sub in self.modules:
                return self.modules[sub]
            ga = st.cells.get(("v", o.env.eid, "__getattr__"))
            if ga is not None and not name.startswith("__"):
                return self.call(st, ga, [Str(name)], {}, node)
            if name == "__doc__":
                return Str(None)
            if name == "__name__":
                return Str(o.name)
            if default is not None:
                return default
            self.raise_(st, "AttributeError", node, o.name + "." + name)
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
            ids = [c.oid if isinstance(c, ClassV) else None for c in mro]
            i = ids.index(o.cls.oid) if o.cls.oid in ids else -1
            for c in mro[i + 1:]:
                if isinstance(c, ClassV):
                    v = st.cells.get(("a", c.oid, name))
                    if v is not None:
                        if isinstance(v, PropertyV):
                            return self.call(st, v.get, [o.obj], {}, node)
                        return self.bind_attr(v, o.obj, o.obj.cls if isinstance(o.obj, Obj) else o.obj)
            if name in ("__init__", "__setattr__", "__init_subclass__", "__new__", "__repr__"):
                return Method(o, name)
            if default is not None:
                return default
            self.raise_(st, "AttributeError", node, name)
        if isinstance(o, Opq):
            return o
        if isinstance(o, Ext):
            if o.path == "numpy" and name in REMOVED:
                if default is not None:
                    return default
                self.raise_(st, "AttributeError", node, name)
            return self.np.ext_attr(o, name)
        if isinstance(o, GenV):
            return Method(o, name)
        return self.py.getattr(st, o, name, node, default)

    def bind_attr(self, v, o, cls):
        if isinstance(v, FuncV) or isinstance(v, (Builtin,)):
            return Bound(v, o)
        if isinstance(v, StaticV):
            return v.fn
        if isinstance(v, ClassM):
            return Bound(v.fn, cls)
        if isinstance(v, Partial) and False:
            return v
        return v

    def setattr(self, st, o, name, v, node):
        if isinstance(o, Choice):
            self.choice_map(st, o, lambda s, x: (self.setattr(s, x, name, v, node), NONE)[1])
            return
        if isinstance(o, Obj):
            ca = self.class_attr(st, o.cls, name)
            if isinstance(ca, PropertyV) and ca.set is not None:
                self.call(st, ca.set, [o, v], {}, node)
                return
            sa = self.class_attr(st, o.cls, "__setattr__")
            if isinstance(sa, FuncV) and not (self.stack and self.stack[-1][1].endswith("__setattr__")):
                self.call(st, Bound(sa, o), [Str(name), v], {}, node)
                return
            self.writes.setdefault(("a", o.oid, name), set()).add(self.where(node))
            st.cells[("a", o.oid, name)] = v
        elif isinstance(o, ClassV):
            self.event("class_write", st, node, name=o.name + "." + name)
            st.cells[("a", o.oid, name)] = v
        elif isinstance(o, ModuleV):
            self.event("global_write", st, node, name=o.name + "." + name)
            st.cells[("v", o.env.eid, name)] = v
        elif isinstance(o, FuncV):
            self.event("global_write", st, node, name=o.name + "." + name)
            st.cells[("fa", id(o), name)] = v
        elif isinstance(o, Arr) and name == "shape":
            self.smash(st, o.rid, "shape assignment")
        else:
            self.note("attribute store")

    # calls ---------------------------------------------------------------------------------------------------
    def ex_Call(self, n, st, env):
        # zero-argument super
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and not (e.kind == "func" and isinstance(e.func, dict) and e.func.get("defcls") is not None):
                e = e.parent
            if e is not None:
                return SuperV(e.func["defcls"], st.cells.get(("v", e.eid, e.func["first"])))
        if isinstance(n.func, ast.Name) and n.func.id == "globals" and not n.args:
            e = env
            while e is not None and e.kind != "module":
                e = e.parent
            m = next((m for m in self.modules.values() if e is not None and getattr(m, "env", None) is e), None)
            if m is not None:
                return Method(m, "__dict__")
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "globals") and not n.args:
            return self.note(n.func.id)
        f = self.eval(n.func, st, env)
        args = []
        unknown = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                seq = self.iterate(st, self.eval(a.value, st, env), a)
                if seq is None or seq.items is None:
                    unknown = True
                else:
                    args.extend(seq.items)
            else:
                args.append(self.eval(a, st, env))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, st, env)
            if k.arg is not None:
                kwargs[k.arg] = v
            elif isinstance(v, DictRef):
                d = st.cells[("d", v.did)]
                for kk, vv in d.items:
                    if isinstance(kk, tuple) and kk[0] == "s":
                        if kk[1] in kwargs:
                            self.raise_(st, "TypeError", n, "multiple values for keyword " + kk[1])
                        kwargs[kk[1]] = vv
                unknown = unknown or d.opq
            else:
                unknown = True
        if unknown:
            for a in args + list(kwargs.values()):
                self.havoc_value(st, a, "unknown arguments")
            return self.note("unknown arguments")
        if self.stack:
            self.loc = (self.stack[-1][0], n.lineno, self.stack[-1][1])
        return self.call(st, f, args, kwargs, n)

    def call(self, st, f, args, kwargs, node):
        if isinstance(f, Choice):
            return self.choice_map(st, f, lambda s, x: self.call(s, x, args, kwargs, node))
        if isinstance(f, Bound):
            return self.call(st, f.fn, [f.self] + list(args), kwargs, node)
        if isinstance(f, FuncV):
            return self.call_func(st, f, args, kwargs, node)
        if isinstance(f, ClassV):
            return self.instantiate(st, f, args, kwargs, node)
        if isinstance(f, Builtin):
            return f.f(self, st, args, kwargs, node)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(st, f.fn, list(f.args) + list(args), kw, node)
        if isinstance(f, Method):
            return self.py.call_method(st, f.obj, f.name, args, kwargs, node)
        if isinstance(f, Ext):
            return self.np.call_ext(st, f.path, args, kwargs, node)
        if isinstance(f, TypeV):
            return self.py.call_type(st, f.name, args, kwargs, node)
        if isinstance(f, ExcClass):
            return ExcV((f.name,), tuple(args))
        if isinstance(f, Obj):
            c = self.class_attr(st, f.cls, "__call__")
            if c is not None:
                return self.call(st, Bound(c, f), args, kwargs, node)
            self.raise_(st, "TypeError", node)
        if isinstance(f, StaticV):
            return self.call(st, f.fn, args, kwargs, node)
        if isinstance(f, Opq):
            for a in list(args) + list(kwargs.values()):
                self.havoc_value(st, a, "unknown call")
            st.cells[("rng",)] = Num(T.opaque("random generator"), "o")
            self.note("call of an unknown function")
            return f
        if isinstance(f, (Num, Str, NoneT, Tup, ListRef, DictRef, ModuleV)) or isinstance(f, Arr):
            self.raise_(st, "TypeError", node, "not callable")
        return self.note("call of " + type(f).__name__)

    def instantiate(self, st, cls, args, kwargs, node):
        for c in cls.mro:
            if isinstance(c, ExcClass):
                return ExcV((c.name,), tuple(args))
        if ("a", cls.oid, "<enum>") in st.cells and len(args) == 1:
            ms = [x for k, x in st.cells.items() if k[0] == "a" and k[1] == cls.oid and isinstance(x, Obj) and x.cls is cls]
            a = args[0]
            if isinstance(a, (Str, SymStr)) and all(isinstance(st.cells[("a", m.oid, "value")], Str) for m in ms):
                r = None
                known = ZERO
                for m in ms:
                    v = st.cells[("a", m.oid, "value")]
                    c = self.py.streq(a, v) if isinstance(a, SymStr) else ONE if a.s == v.s else ZERO
                    known = T.lor(known, c)
                    r = m if r is None or c is ONE else r if c is ZERO else Choice(c, m, r)
                self.may_raise(st, ONE - known, "ValueError", node)
                return self.narrow_val(r, st)
            return self.note("lookup of an enum member")
        new = self.class_attr(st, cls, "__new__")
        if isinstance(new, (FuncV, StaticV)):
            f = new.fn if isinstance(new, StaticV) else new
            o = self.call(st, f, [cls] + list(args), kwargs, node)
            if not isinstance(o, Obj) or o.cls is not cls and cls not in o.cls.mro:
                return o
        else:
            o = Obj(self.fresh(), cls)
        init = self.class_attr(st, cls, "__init__")
        if init is not None:
            self.call(st, Bound(init, o), args, kwargs, node)
        elif args or kwargs:
            if any(isinstance(c, Opq) for c in cls.mro):
                return Opq("unknown base class")
            self.raise_(st, "TypeError", node)
        return o

    def bind_args(self, st, f, args, kwargs, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        npos = len(names)
        vals = {}
        kwargs = dict(kwargs)
        args = list(args)
        if len(args) > npos and not a.vararg:
            self.raise_(st, "TypeError", node, "%s() takes %d positional arguments" % (f.name, npos))
        for x, v in zip(names, args):
            vals[x] = v
        if a.vararg:
            vals[a.vararg.arg] = Tup(args[npos:])
        only = {x.arg for x in a.posonlyargs}
        for x in names[len(args):]:
            if x in kwargs and x not in only:
                vals[x] = kwargs.pop(x)
        for x in names[:len(args)]:
            if x in kwargs and x not in only:
                self.raise_(st, "TypeError", node, "%s() got multiple values for %s" % (f.name, x))
        dstart = npos - len(f.defaults)
        for i, x in enumerate(names):
            if x not in vals:
                if i >= dstart:
                    vals[x] = f.defaults[i - dstart]
                else:
                    self.raise_(st, "TypeError", node, "%s() missing argument %s" % (f.name, x))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vals[x.arg] = f.kwdefaults[x.arg]
            else:
                self.raise_(st, "TypeError", node, "%s() missing argument %s" % (f.name, x.arg))
        if a.kwarg:
            did = self.fresh()
            st.cells[("d", did)] = DictD([(("s", k), v) for k, v in kwargs.items()])
            vals[a.kwarg.arg] = DictRef(did)
        elif kwargs:
            self.raise_(st, "TypeError", node, "%s() got an unexpected keyword argument %s" % (f.name, sorted(kwargs)[0]))
        return vals

    _scopes = {}

    def scope_info(self, f):
        r = self._scopes.get(f.node)
        if r is None:
            names = assigned_names(f.node)
            glob, nonl = set(), set()
            if not isinstance(f.node, ast.Lambda):
                for x in f.node.body:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Global):
                            glob.update(y.names)
                        elif isinstance(y, ast.Nonlocal):
                            nonl.update(y.names)
            a = f.node.args
            allp = a.posonlyargs + a.args
            first = allp[0].arg if allp else (a.vararg.arg if a.vararg else None)
            r = self._scopes[f.node] = (names, frozenset(glob), frozenset(nonl), first)
        return r

    def call_func(self, st, f, args, kwargs, node):
        if len(self.stack) > MAX_DEPTH or sum(x is f.node for x in self.active) > (8 if st.pc is ONE and st.base is ONE else 2):
            for a in [f] + list(args) + list(kwargs.values()):
                self.havoc_value(st, a, "recursion")
            return self.note("recursion in " + f.name)
        vals = self.bind_args(st, f, args, kwargs, node)
        names, glob, nonl, first = self.scope_info(f)
        info = {"node": f.node, "defcls": f.defcls, "first": first, "global": glob, "nonlocal": nonl}
        env = self.new_env(f.env, f.env.module, names, "func", info)
        for k, v in vals.items():
            st.cells[("v", env.eid, k)] = v
        rel = os.path.relpath(f.module.path, self.root) if f.module is not None and f.module.path else "?"
        qual = (f.defcls.name + "." if f.defcls is not None else "") + f.name
        self.stack.append((rel, qual))
        self.active.append(f.node)
        self.touched.add((rel, qual))
        self.calls += 1
        loc = self.loc
        base, pc, asm, exc = st.base, st.pc, st.asm, st.cells.get(("exc",))
        st.base, st.pc, st.asm = T.mul(T.mul(base, pc), asm), ONE, ONE
        if f.gen:
            st.cells[("v", env.eid, "<yield>")] = self.py.new_list(st, [])
        self.pending.append([])
        try:
            if isinstance(f.node, ast.Lambda):
                outs = [Out("return", st, self.eval(f.node.body, st, env))]
            else:
                outs = self.exec_block(f.node.body, st, env)
        except PyExc as e:
            outs = [Out("raise", e.st, e.exc, e.node)]
        finally:
            self.stack.pop()
            self.active.pop()
            self.loc = loc
            escaped = self.pending.pop()
        for o in escaped:
            self._rebase(o, base, pc, asm)
        self.pending[-1].extend(escaped)
        rets, raises = [], []
        for o in outs:
            if o.kind == "return":
                rets.append(o)
            elif o.kind == "next":
                rets.append(Out("return", o.st, NONE))
            elif o.kind == "raise":
                raises.append(o)
        if f.gen:
            for o in rets:
                o.val = o.st.cells[("v", env.eid, "<yield>")]
        if not env.captured:
            for o in rets + raises:
                for k in list(o.st.cells):
                    if k[0] == "v" and k[1] == env.eid:
                        del o.st.cells[k]
        if not rets:
            for o in raises[:-1]:
                self._rebase(o, base, pc, asm)
                self.pending[-1].append(o)
            o = raises[-1]
            self._rebase(o, base, pc, asm)
            raise PyExc(o.val, o.st, o.node)
        for o in raises:
            self._rebase(o, base, pc, asm)
            self.pending[-1].append(o)
        cur, val = rets[-1].st, rets[-1].val
        for o in reversed(rets[:-1]):
            c = o.st.pc
            m = self.merge_states(c, o.st, cur)
            val = self.merge_val(c, o.val, val, m, o.st, cur, {})
            cur = m
        inner = cur.asm
        st.become(cur)
        st.base, st.pc = base, pc
        st.asm = T.mul(asm, inner)
        if exc is None:
            st.cells.pop(("exc",), None)
        else:
            st.cells[("exc",)] = exc
        T.FACTS[:] = st.facts
        return val

    def _rebase(self, o, base, pc, asm):
        """express an outcome of a callee in terms of the caller"""
        s = o.st
        s.base, s.pc, s.asm = base, T.mul(pc, T.mul(s.pc, s.asm)), asm

    # comprehensions ------------------------------------------------------------------------------------------
    def ex_ListComp(self, n, st, env):
        return self.comprehension(n, st, env, "list")

    def ex_GeneratorExp(self, n, st, env):
        return self.comprehension(n, st, env, "gen")

    def ex_SetComp(self, n, st, env):
        l = self.comprehension(n, st, env, "list")
        d = st.cells[("l", l.lid)]
        if d.concrete:
            return self.py.distinct(d.items)
        return self.note("symbolic set")

    def ex_DictComp(self, n, st, env):
        did = self.fresh()
        st.cells[("d", did)] = DictD(())
        ref = DictRef(did)

        def put(s, e):
            k = self.eval(n.key, s, e)
            v = self.eval(n.value, s, e)
            self.setitem(s, ref, k, v, n)
        self.comp_loop(n.generators, st, env, put, n)
        return ref

    def comprehension(self, n, st, env, kind):
        l = self.py.new_list(st, [])

        def put(s, e):
            self.py.list_append(s, l, self.eval(n.elt, s, e), n)
        self.comp_loop(n.generators, st, env, put, n)
        return l

    def comp_loop(self, gens, st, env, put, node):
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        e = self.new_env(env, env.module, frozenset(names), "func", {"node": node, "first": None, "defcls": None})
        # make the enclosing first argument visible for super() etc.
        b = env

        def level(i):
            def run(s):
                g = gens[i]

                def inner(x):
                    for c in g.ifs:
                        pass
                    return guarded(x, list(g.ifs))

                def guarded(x, ifs):
                    if not ifs:
                        if i + 1 == len(gens):
                            put(x, e)
                            return [Out("next", x)]
                        return level(i + 1)(x)
                    c = self.simp(self.truth(x, self.eval(ifs[0], x, e), node), x)
                    if c is ZERO:
                        return [Out("next", x)]
                    if c is ONE:
                        return guarded(x, ifs[1:])
                    return self.branch(x, c, lambda y: guarded(y, ifs[1:]), lambda y: [Out("next", y)], e)

                def body(x):
                    try:
                        return inner(x)
                    except PyExc as ex:
                        return [Out("raise", ex.st, ex.exc, ex.node)]
                it = self.eval(g.iter, s, env if i == 0 else e)
                seq = self.iterate(s, it, node)
                if seq is None:
                    put_opq(s)
                    return [Out("next", s)]
                if seq.items is not None:
                    return self.unrolled(s, seq.items, lambda x, v: self.assign(g.target, v, x, e), body, None, e)
                return self.sym_loop(s, node, seq.n, lambda x, k: self.assign(g.target, seq.get(x, k), x, e), body, e, guard=seq.guard)
            return run

        def put_opq(s):
            self.note("comprehension over an unknown sequence")
            for nm in names:
                s.cells[("v", e.eid, nm)] = Opq("iteration")
            # one representative element, then the container is unknown
            snap = dict(s.cells)
            try:
                put(s, e)
            except PyExc:
                pass
            for k, v in list(s.cells.items()):
                if k[0] == "l" and not same(v, snap.get(k)):
                    s.cells[k] = ListD([("opq",)])
                elif k[0] == "d" and not same(v, snap.get(k)):
                    s.cells[k] = DictD((), True)
        outs = level(0)(st)
        nx = [o for o in outs if o.kind == "next"]
        ra = [o for o in outs if o.kind == "raise"]
        if not nx:
            for o in ra[:-1]:
                self.pending[-1].append(o)
            raise PyExc(ra[-1].val, ra[-1].st, ra[-1].node)
        for o in ra:
            self.pending[-1].append(o)
        if nx[0].st is not st:
            st.become(nx[0].st)
        for nm in names:
            st.cells.pop(("v", e.eid, nm), None)

    def ex_Yield(self, n, st, env):
        return self.do_yield(n, st, env)

    ex_YieldFrom = ex_Yield

    def iterate(self, st, v, node):
        return self.py.iterate(st, v, node)


def _seg_same(x, y):
    if x is y:
        return True
    return x[0] == y[0] == "it" and same(x[1], y[1])


# ---------------------------------------------------------------------------------------------- loop-carried locations
def _holds(v, rid):
    if isinstance(v, Arr):
        return v.rid == rid
    if isinstance(v, Tup):
        return any(_holds(x, rid) for x in v.items)
    if isinstance(v, Choice):
        return _holds(v.a, rid) or _holds(v.b, rid)
    return False


def own_break(body):
    """does a break in these statements leave the loop they are the body of?"""
    for x in body:
        if isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        subs = [x.orelse] if isinstance(x, (ast.For, ast.While)) else \
            [getattr(x, f) for f in ("body", "orelse", "finalbody") if isinstance(getattr(x, f, None), list)] + \
            [y.body for y in getattr(x, "handlers", ())] + [y.body for y in getattr(x, "cases", ())]
        if any(own_break(y) for y in subs):
            return True
    return False


def _bounded(form, b):
    """the solution of a location whose values never exceed b"""
    return lambda it, idx: T.bound(form(it, idx), b)


class HeadCtx:
    def __init__(self, it, loop, k, st, closed, nonneg, st0=None, heads=None):
        self.it, self.loop, self.k, self.st, self.closed, self.nonneg = it, loop, k, st, closed, nonneg
        self.before = st.cells
        self.st0, self.heads = st0, heads

    def shared(self, key, rid):
        """is the memory rid changed in the loop and reachable in another way than by key?"""
        return self.heads is not None and ("r", rid) in self.heads and self.st0 is not None and \
            any(k != key and k[0] in "va" and _holds(v, rid) for k, v in self.st0.cells.items())


def record_body(s, seq):
    """the methods of a dataclass or named tuple written out"""
    fields, rest = [], []
    for x in s.body:
        if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
            a = ast.unparse(x.annotation)
            if "ClassVar" in a:
                if x.value is not None:
                    rest.append(ast.copy_location(ast.Assign([ast.Name(x.target.id, ast.Store())], x.value), x))
                continue
            fields.append((x.target.id, x.value))
        else:
            rest.append(x)
    par, body = ["self"], []
    for f, v in fields:
        made = None
        if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "field":
            kw = {k.arg: k.value for k in v.keywords}
            made = kw.get("default_factory")
            v = kw.get("default")
        par.append(f + (" = None" if made is not None else "" if v is None else " = " + ast.unparse(v)))
        body.append("self.%s = %s" % (f, f if made is None else "(%s)() if %s is None else %s" % (ast.unparse(made), f, f)))
    if any(isinstance(x, ast.FunctionDef) and x.name == "__post_init__" for x in rest):
        body.append("self.__post_init__()")
    tup = "(%s)" % "".join("self.%s, " % f for f, v in fields)
    src = "def __init__(%s):\n    %s\n" % (", ".join(par), "\n    ".join(body or ["pass"]))
    if seq:
        src += "def __iter__(self):\n    return iter(%s)\ndef __getitem__(self, i):\n    return %s[i]\ndef __len__(self):\n    return %d\n" % (tup, tup, len(fields))
        src += "def _asdict(self):\n    return dict(%s)\ndef _replace(self, **kw):\n    d = self._asdict()\n    d.update(kw)\n    return self.__class__(**d)\n" % ", ".join(
            "%s=self.%s" % (f, f) for f, v in fields)
    own = {x.name for x in rest if isinstance(x, ast.FunctionDef)}
    made = [x for x in ast.parse(src).body if x.name not in own]
    for x in made:
        for y in ast.walk(x):
            if hasattr(y, "lineno"):
                ast.copy_location(y, s)
    return made + rest


def unbound_cond(v):
    """the condition under which a value is not there"""
    if isinstance(v, Unbound):
        return ONE
    if isinstance(v, Choice):
        a, b = unbound_cond(v.a), unbound_cond(v.b)
        if a is ZERO and b is ZERO:
            return ZERO
        return T.mul(v.c, a) + T.mul(ONE - v.c, b)
    return ZERO


def bound_part(v):
    if isinstance(v, Choice):
        a, b = bound_part(v.a), bound_part(v.b)
        if a is None or b is None:
            return b if a is None else a
        return v if a is v.a and b is v.b else Choice(v.c, a, b)
    return None if isinstance(v, Unbound) else v


class Head:
    """the generalised value of one location at the start of an iteration"""

    def __init__(self, key, init):
        self.key, self.init = key, init
        self.shape = None       # structure description, see gen()
        self.rids = {}
        self.pending_closed = False

    # structure: ('same', value) | ('num', cid, dt, isint, py) | ('arr', cid, shape, dt, taint) | ('tup', [..]) |
    #            ('late', struct) (first iteration: init) | ('list', cnt) | ('dict', keys, [..]) | ('region', cid) | ('opq', why)
    def update(self, ctx, step, st):
        new = self.describe(ctx, self.init, step, (self.key,), st, self.shape)
        if self.shape is not None and _eqs(self.shape, new):
            return False
        if self.shape is not None and self.shape[0] == "opq":
            return False
        self.shape = new
        return True

    def describe(self, ctx, init, step, path, st, old):
        it = ctx.it
        if old is not None and old[0] == "opq":
            return old
        if isinstance(init, ArrD):
            if not isinstance(step, ArrD):
                return ("opq", "region")
            return ("region", path, it.join_dt(init.dt, step.dt))
        if isinstance(init, ListD):
            return self.describe_list(ctx, init, step, path, st, old)
        if isinstance(init, DictD):
            if isinstance(step, DictD) and not step.opq and not step.part and not init.part and [k for k, v in init.items] == [k for k, v in step.items]:
                return ("dict", [k for k, v in init.items],
                        [self.describe(ctx, a[1], b[1], path + (i,), st, _sub(old, i)) for i, (a, b) in
                         enumerate(zip(init.items, step.items))])
            return ("opq", "dictionary grows in a loop")
        if isinstance(init, Num) and isinstance(step, Num):
            if same(init, step) and (old is None or old[0] == "same"):
                return ("same", init)
            isint = init.p.is_int and step.p.is_int or (init.dt in "ib" and step.dt in "ib")
            dt = it.join_dt(init.dt, step.dt)
            if old is not None and old[0] == "num":
                isint = isint and old[3]
                dt = it.join_dt(dt, old[2])
            return ("num", path, dt, isint, init.py and step.py)
        if isinstance(init, Tup) and isinstance(step, Tup) and len(init.items) == len(step.items):
            return ("tup", [self.describe(ctx, a, b, path + (i,), st, _sub(old, i)) for i, (a, b) in
                            enumerate(zip(init.items, step.items))])
        if isinstance(step, Choice) and (old is None or old[0] != "same"):
            # e.g. a head choice that was not rebound on every path
            alt = [x for x in _alts(step) if not same(x, init) and not isinstance(x, Unbound)]
            if alt and all(isinstance(x, Arr) for x in alt) and len(alt) == 1 and False:
                pass
        if isinstance(init, Arr) and isinstance(step, Arr):
            if same(init, step):
                return ("same", init)
            if len(init.shape) == len(step.shape) and all(a is b for a, b in zip(init.shape, step.shape)):
                if self.stable_alias(ctx, step):
                    return ("late", ("same", step))
                if it.owner.get(init.rid, "fresh") != "fresh" or ctx.shared(self.key, init.rid):
                    # the first iteration works on the caller's array itself
                    return ("late", self.arr_struct(ctx, step, path, st))
                return self.arr_struct(ctx, step, path, st, init)
            it.event("shape_change", ctx.st, None, init=init.shape, step=step.shape, cell=self.key)
            return ("opq", "array changes its shape in a loop")
        if same(init, step):
            return ("same", init)
        if isinstance(step, Unbound):
            return ("opq", "deleted in a loop")
        # different kinds: first iteration sees init, the later ones what the previous iteration left
        s = self.fresh_struct(ctx, step, path, st, old[1] if old is not None and old[0] == "late" else None)
        return ("late", s)

    def stable_alias(self, ctx, step):
        if ("r", step.rid) not in ctx.before or step.rid in self.rids.values():
            return False
        lf = set()
        for i in list(step.idx) + list(step.shape):
            lf |= i.leaf
        return ctx.k not in lf and ("lv", ctx.loop) not in lf

    def arr_struct(self, ctx, step, path, st, init=None):
        it = ctx.it
        ac = it.read(st, step)
        dt = ac.dt
        taint = frozenset(r for r in ac.taint if ("r", r) in ctx.before and r not in self.rids.values())
        if init is not None:
            a0 = it.read(ctx.st, init) if ("r", init.rid) in ctx.before else None
            if a0 is not None:
                dt = it.join_dt(dt, a0.dt)
        for s in step.shape:
            if ctx.k in s.leaf or ("lv", ctx.loop) in s.leaf:
                return ("opq", "array of varying length")
        return ("arr", path, step.shape, dt, taint, init is not None)

    def fresh_struct(self, ctx, step, path, st, old):
        """structure of a value of which only the iterations after the first matter"""
        it = ctx.it
        if isinstance(step, Num):
            isint = step.p.is_int or step.dt in "ib"
            if step.p.const is not None and (old is None or old[0] == "same"):
                return ("same", step)
            return ("num", path, step.dt, isint, step.py)
        if isinstance(step, Arr):
            if self.stable_alias(ctx, step):
                return ("same", step)
            return self.arr_struct(ctx, step, path, st)
        if isinstance(step, Tup):
            return ("tup", [self.fresh_struct(ctx, x, path + (i,), st, _sub(old, i)) for i, x in enumerate(step.items)])
        if isinstance(step, (Str, NoneT, ClassV, FuncV, ModuleV, Ext, TypeV, ExcClass)):
            return ("same", step)
        if isinstance(step, (Obj, ListRef, DictRef)):
            key = {"Obj": "a", "ListRef": "l", "DictRef": "d"}[type(step).__name__]
            i = step.oid if isinstance(step, Obj) else step.lid if isinstance(step, ListRef) else step.did
            if isinstance(step, Obj):
                if any(k[0] == "a" and k[1] == i for k in ctx.before):
                    return ("same", step)
            elif (key, i) in ctx.before:
                return ("same", step)
            return ("opq", "object created in a loop")
        if isinstance(step, Bound):
            return ("same", step)
        return ("opq", "value of kind " + type(step).__name__)

    def describe_list(self, ctx, init, step, path, st, old):
        if not isinstance(step, ListD):
            return ("opq", "list")
        if init.concrete and step.concrete and len(init.segs) == len(step.segs) and (old is None or old[0] == "items"):
            return ("items", [self.describe(ctx, a[1], b[1], path + (i,), st, _sub(old, i)) for i, (a, b) in
                              enumerate(zip(init.segs, step.segs))])
        n0 = len(init.segs)
        if old is None:
            if len(step.segs) > n0 and all(_seg_same(a, b) or a is b for a, b in zip(init.segs, step.segs)) and \
                    all(s[0] == "it" for s in step.segs[n0:]):
                return ("list", len(step.segs) - n0)
            return ("opq", "list changed in a loop")
        if old[0] == "list":
            c = old[1]
            if len(step.segs) == n0 + 1 + c and step.segs[n0][0] == "head" and all(s[0] == "it" for s in step.segs[n0 + 1:]):
                return old
        return ("opq", "list changed in a loop")

    # ---- head value
    def install(self, ctx):
        v = self.build(ctx, self.init, self.shape)
        if v is None:
            return
        ctx.st.cells[self.key] = v

    def build(self, ctx, init, s):
        it, loop, K = ctx.it, ctx.loop, P1(ctx.k)
        t = s[0]
        if t == "same":
            return s[1]
        if t == "region":
            if not isinstance(init, ArrD):
                return init
            body = T.lv_mk(loop, (s[1], K, tuple(P1(v) for v in init.vars)), init.dt in "ib", False)
            if init.dt == "b":
                body = T.eq(body - 1)
            return ArrD(init.shape, init.vars, body, init.dt)
        if t == "num":
            cid = s[1]
            if cid in ctx.closed:
                c0, ini = ctx.closed[cid]
                return Num(ini + T.scale(K, c0), s[2], s[4])
            nn = False
            if s[3] and isinstance(init, Num) and init.p.nn and not getattr(it, "_nonneg_off", 0):
                nn = ctx.nonneg.setdefault(cid, True)
            p = T.lv_mk(loop, (cid, K, ()), s[3], nn)
            if nn and cid in ctx.ups:
                T.bound(p, ctx.ups[cid])
            if s[2] == "b":
                p = T.eq(p - 1)
            return Num(p, s[2], s[4])
        if t == "arr":
            cid = s[1]
            vs = [T.new_var(x) for x in s[2]]
            body = T.lv_mk(loop, (cid, K, tuple(P1(v) for v in vs)), s[3] in "ib", False)
            if s[3] == "b":
                body = T.eq(body - 1)
            rid = self.rids.get(cid)
            if rid is None:
                rid = self.rids[cid] = it.fresh()
                it.owner[rid] = "fresh"
                it.born[rid] = it.loc
            if s[4]:
                it.taint[rid] = set(s[4])
            ctx.st.cells[("r", rid)] = ArrD(s[2], vs, body, s[3])
            return it.view_all(ctx.st, rid)
        if t == "tup":
            items = init.items if isinstance(init, Tup) else [UNBOUND] * len(s[1])
            return Tup(self.build(ctx, a, b) for a, b in zip(items, s[1]))
        if t == "late":
            v = self.build(ctx, UNBOUND, s[1])
            return Choice(T.eq(K), init, v)
        if t == "list":
            return ListD(tuple(init.segs) + (("head", self.key, K),), init.kind)
        if t == "items":
            return ListD([("it", self.build(ctx, a[1], b)) for a, b in zip(init.segs, s[1])], init.kind)
        if t == "dict":
            return DictD([(k, self.build(ctx, a[1], b)) for k, a, b in zip(s[1], init.items, s[2])])
        if t == "opq":
            if isinstance(init, ArrD):
                return init.with_body(T.opaque(s[1], tuple(P1(v) for v in init.vars)))
            if isinstance(init, ListD):
                return ListD([("opq",)], init.kind)
            if isinstance(init, DictD):
                return DictD((), True)
            return Opq(s[1])
        raise AssertionError(t)

    # ---- steps
    def inductions(self, ctx, st, closed, noclose):
        new = [False]

        def go(init, s, step):
            if s[0] == "num" and s[1] in closed:
                c0, ini = closed[s[1]]
                if not isinstance(step, Num) or step.p is not ini + T.scale(P1(ctx.k) + 1, c0):
                    del closed[s[1]]
                    noclose.add(s[1])
                    new[0] = True
                return
            if s[0] == "num" and s[1] in noclose:
                return
            if s[0] == "num" and s[3] and s[1] not in closed and isinstance(init, Num) and isinstance(step, Num) and s[2] != "b":
                lv = T.lv_mk(ctx.loop, (s[1], P1(ctx.k), ()), s[3], ctx.nonneg.get(s[1], False))
                d = step.p - lv
                if d.const is not None and not (init.p.leaf & {ctx.k}):
                    closed[s[1]] = (d.const, init.p)
                    new[0] = True
            elif s[0] in ("tup", "items"):
                ini = init.items if isinstance(init, (Tup, ListD)) else []
                stp = step.items if isinstance(step, (Tup, ListD)) else []
                for a, b, c in zip(ini, s[1], stp):
                    go(a, b, c)
            elif s[0] == "dict":
                for a, b, c in zip([v for k, v in init.items], s[2], [v for k, v in step.items] if isinstance(step, DictD) else []):
                    go(a, b, c)
        go(self.init, self.shape, st.cells.get(self.key, UNBOUND))
        return new[0]

    def collect(self, ctx, step, st, steps):
        self._collect(ctx, self.init, self.shape, step, st, steps)

    def _collect(self, ctx, init, s, step, st, steps):
        it = ctx.it
        t = s[0]
        if t == "num":
            if s[1] in ctx.closed:
                return
            if isinstance(step, Choice):
                step = Num(T.opaque("choice"), s[2])
            p = step.p if isinstance(step, Num) else T.opaque("kind")
            steps[s[1]] = ([], init.p if isinstance(init, Num) else ZERO, p, s[3], s[2])
        elif t == "region":
            st_d = step
            vs = init.vars
            if not isinstance(st_d, ArrD):
                b = T.opaque("region")
            else:
                b = st_d.body if st_d.vars == vs else T.subst(st_d.body, {a: P1(c) for a, c in zip(st_d.vars, vs)})
            steps[s[1]] = (list(vs), init.body, b, init.dt in "ib", init.dt)
        elif t == "arr":
            vs = [T.new_var(x) for x in s[2]]
            V = [P1(v) for v in vs]
            if isinstance(init, Arr) and s[5]:
                ib = it.read(ctx.st if ctx.st0 is None or ("r", init.rid) not in ctx.st0.cells else ctx.st0, init).at(V)
            else:
                ib = ZERO
            if isinstance(step, Arr):
                sb = it.read(st, step).at(V)
            elif isinstance(step, Choice):
                sb = self.choice_body(ctx, step, V, st, init)
            else:
                sb = T.opaque("kind")
            steps[s[1]] = (vs, ib, sb, s[3] in "ib", s[3])
        elif t == "tup":
            items = init.items if isinstance(init, Tup) else [UNBOUND] * len(s[1])
            stp = step.items if isinstance(step, Tup) else [Opq()] * len(s[1])
            for a, b, c in zip(items, s[1], stp):
                self._collect(ctx, a, b, c, st, steps)
        elif t == "late":
            self._collect(ctx, UNBOUND, s[1], step, st, steps)
        elif t == "items":
            for a, b, c in zip(init.segs, s[1], step.segs):
                self._collect(ctx, a[1], b, c[1], st, steps)
        elif t == "dict":
            for a, b, c in zip(init.items, s[2], step.items):
                self._collect(ctx, a[1], b, c[1], st, steps)
        elif t == "list":
            n0 = len(self.init.segs)
            self.appended = [freeze(it, st, x[1]) for x in step.segs[n0 + 1:]]

    def choice_body(self, ctx, v, V, st, init):
        if isinstance(v, Choice):
            return T.ite(v.c, self.choice_body(ctx, v.a, V, st, init), self.choice_body(ctx, v.b, V, st, init))
        if isinstance(v, Arr) and len(v.shape) == len(V):
            return ctx.it.read(st, v).at(V)
        return T.opaque("kind")

    # ---- value after the loop
    def finish(self, ctx, out, m, n, dead):
        it = ctx.it
        if dead:
            out.cells.pop(self.key, None)
            return
        t = self.shape[0]
        if t == "list":
            k2 = T.new_var(n)
            mi = dict(m)
            mi[ctx.k] = P1(k2)
            tmpl = tuple(subst_val(x, mi) for x in self.appended)
            base = self.init.segs
            out.cells[self.key] = ListD(tuple(base) + (("seg", k2, n, tmpl),), self.init.kind)
            return
        saved = ctx.st
        ctx.st = State()
        ctx.st.cells = {}
        v = self.build_final(ctx, self.init, self.shape, m, out)
        ctx.st = saved
        if isinstance(v, Unbound):
            out.cells.pop(self.key, None)
        else:
            out.cells[self.key] = v

    def build_final(self, ctx, init, s, m, out):
        it = ctx.it
        t = s[0]
        if t == "same":
            return s[1]
        if t in ("region", "num"):
            v = self.build(ctx, init, s)
            return subst_cell(v, m)
        if t == "arr":
            v = self.build(ctx, init, s)
            d = ctx.st.cells[("r", v.rid)]
            out.cells[("r", v.rid)] = subst_cell(d, m)
            return it.view_all(out, v.rid)
        if t == "tup":
            items = init.items if isinstance(init, Tup) else [UNBOUND] * len(s[1])
            return Tup(self.build_final(ctx, a, b, m, out) for a, b in zip(items, s[1]))
        if t == "late":
            c = T.subst(T.eq(P1(ctx.k)), m)
            v = self.build_final(ctx, UNBOUND, s[1], m, out)
            if c is ZERO:
                return v
            if c is ONE:
                return init
            return Choice(c, init, v)
        if t == "items":
            return ListD([("it", self.build_final(ctx, a[1], b, m, out)) for a, b in zip(init.segs, s[1])], init.kind)
        if t == "dict":
            return DictD([(k, self.build_final(ctx, a[1], b, m, out)) for k, a, b in zip(s[1], init.items, s[2])])
        return self.build(ctx, init, s)


def freeze(it, st, v):
    if isinstance(v, Arr):
        ac = it.read(st, v)
        return Frozen(ac)
    if isinstance(v, Tup):
        return Tup(freeze(it, st, x) for x in v.items)
    if isinstance(v, ListRef):
        d = st.cells[("l", v.lid)]
        if d.concrete:
            return Tup(freeze(it, st, x) for x in d.items)
        try:
            return Frozen(it.np.ac(st, v))
        except Exception:
            return Opq("list in list")
    return v


def _alts(v):
    if isinstance(v, Choice):
        return _alts(v.a) + _alts(v.b)
    return [v]


def _sub(old, i):
    if old is None:
        return None
    if old[0] in ("tup", "items") and i < len(old[1]):
        return old[1][i]
    if old[0] == "dict" and i < len(old[2]):
        return old[2][i]
    return None


def _eqs(a, b):
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(_eqs(x, y) for x, y in zip(a, b))
    if isinstance(a, V) and isinstance(b, V):
        return same(a, b)
    return a is b or a == b

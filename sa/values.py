"""Abstract values and abstract state of the analysis."""
import terms as T
from terms import P, P1, ONE, ZERO, Poly


class V:
    __slots__ = ()


class Num(V):
    """a scalar: value number and storage class.  dt: 'b' bool, 'i' integer of full width, 'f' float64, 'c' the (unknown, possibly
    narrow integer) type of the caller's data, 'o' anything else"""
    __slots__ = ("p", "dt", "py")

    def __init__(self, p, dt="f", py=False):
        self.p, self.dt, self.py = p, dt, py

    def __repr__(self):
        return "Num(%s,%s)" % (T.short(self.p, 80), self.dt)


class Str(V):
    """a string; s is None when its text is not modelled"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "Str(%r)" % (self.s,)


class SymStr(V):
    """an arbitrary string given by the caller; form is '' / 'upper' / 'lower', or the tuple of the operations applied"""
    __slots__ = ("name", "form")

    def __init__(self, name, form=""):
        self.name, self.form = name, form

    @property
    def ops(self):
        return self.form if isinstance(self.form, tuple) else ((self.form, ()),) if self.form else ()

    def then(self, op, args=()):
        return SymStr(self.name, self.ops + ((op, tuple(args)),))


class AnyV(V):
    """an arbitrary object given by the caller; converting it may fail"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class NoneT(V):
    __slots__ = ()

    def __repr__(self):
        return "None"


NONE = NoneT()


class EllipsisT(V):
    __slots__ = ()


ELL = EllipsisT()


class Unbound(V):
    __slots__ = ()

    def __repr__(self):
        return "Unbound"


UNBOUND = Unbound()


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class SetV(V):
    """a concrete set of values or (src) the distinct values of an array"""
    __slots__ = ("items", "src", "maybe")

    def __init__(self, items, src=None, maybe=False):
        self.items, self.src, self.maybe = tuple(items), src, maybe         # maybe: some of the items may be equal


class SliceV(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Arr(V):
    """a view of an array region: element `vars` of the view is element `idx` of the region"""
    __slots__ = ("rid", "shape", "vars", "idx", "lst")

    def __init__(self, rid, shape, vars, idx, lst=False):
        self.rid, self.shape, self.vars, self.idx, self.lst = rid, tuple(shape), tuple(vars), tuple(idx), lst

    def __repr__(self):
        return "Arr(r%s,%s)" % (self.rid, ",".join(map(T.show, self.shape)))


class Narrow(str):
    """storage class of numbers in single precision: it behaves as the class of floats, but what is stored is rounded"""
    __slots__ = ()


F4 = Narrow("f")


class ArrD:
    """content of a region"""
    __slots__ = ("shape", "vars", "body", "dt")

    def __init__(self, shape, vars, body, dt):
        self.shape, self.vars, self.body, self.dt = tuple(shape), tuple(vars), body, dt

    def with_body(self, body, dt=None):
        return ArrD(self.shape, self.vars, body, dt or self.dt)


class AC:
    """array content without identity"""
    __slots__ = ("shape", "vars", "body", "dt", "taint", "conv", "mask")

    def __init__(self, shape, vars, body, dt, taint=frozenset(), conv=None, mask=None):
        self.shape, self.vars, self.body, self.dt, self.taint, self.conv = tuple(shape), tuple(vars), body, dt, taint, conv
        self.mask = mask          # (axis, condition in vars): only the elements that satisfy it exist

    def at(self, idx):
        return T.subst(self.body, {v: P(i) for v, i in zip(self.vars, idx)})

    @property
    def rank(self):
        return len(self.shape)


class Masked(V):
    """rows of an array selected by a condition"""
    __slots__ = ("ac",)

    def __init__(self, ac):
        self.ac = ac


class Frozen(V):
    """array content stored in a symbolic list"""
    __slots__ = ("ac",)

    def __init__(self, ac):
        self.ac = ac


class ListRef(V):
    __slots__ = ("lid",)

    def __init__(self, lid):
        self.lid = lid

    def __repr__(self):
        return "List%d" % self.lid


class ListD:
    """segments: ('it', value) or ('seg', kvar, n, (templates)) or ('head', key)"""
    __slots__ = ("segs", "kind")

    def __init__(self, segs, kind="list"):
        self.segs, self.kind = tuple(segs), kind

    @property
    def concrete(self):
        return all(s[0] == "it" for s in self.segs)

    @property
    def items(self):
        return [s[1] for s in self.segs]


class DictRef(V):
    __slots__ = ("did",)

    def __init__(self, did):
        self.did = did


def subst_key(k, m):
    if k[0] == "p":
        return ("p", T.subst(k[1], m), k[2])
    if k[0] == "t":
        return ("t",) + tuple(subst_key(x, m) for x in k[1:])
    return k


class DictD:
    """ordered (key, value) pairs, found in order; part: some of the pairs may be missing where an earlier key is equal"""
    __slots__ = ("items", "opq", "part")

    def __init__(self, items, opq=False, part=False):
        self.items, self.opq, self.part = tuple(items), opq, part


class Obj(V):
    __slots__ = ("oid", "cls")

    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls

    def __repr__(self):
        return "Obj%d(%s)" % (self.oid, self.cls.name)


class ClassV(V):
    __slots__ = ("oid", "name", "bases", "mro", "module", "node")

    def __init__(self, oid, name, bases, module, node):
        self.oid, self.name, self.bases, self.module, self.node = oid, name, bases, module, node
        self.mro = None

    def __repr__(self):
        return "class " + self.name


class ExcClass(V):
    """builtin exception class"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class ExcV(V):
    """an exception; names: the possible class names"""
    __slots__ = ("names", "args")

    def __init__(self, names, args=()):
        self.names, self.args = tuple(names), args

    def __repr__(self):
        return "/".join(self.names)


class FuncV(V):
    __slots__ = ("node", "env", "module", "defaults", "kwdefaults", "defcls", "name", "gen")

    def __init__(self, node, env, module, defaults, kwdefaults, name):
        self.node, self.env, self.module, self.defaults, self.kwdefaults, self.name = node, env, module, defaults, kwdefaults, name
        self.defcls = None
        self.gen = False

    def __repr__(self):
        return "func " + self.name


class Bound(V):
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Builtin(V):
    """modelled library function: f(interp, st, args, kwargs, node) -> value"""
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "builtin " + self.name


class GenV(V):
    """a random generator object; its state lives in the cell ("rng", gid)"""
    __slots__ = ("gid",)

    def __init__(self, gid):
        self.gid = gid


class Method(V):
    """modelled method of a builtin value"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class TypeV(V):
    """a type of Python or NumPy used as a value: int, float, str, list, ndarray, float64, ..."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "type " + self.name


class Partial(V):
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class PropertyV(V):
    __slots__ = ("get", "set")

    def __init__(self, get, set=None):
        self.get, self.set = get, set


class StaticV(V):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ClassM(V):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class SuperV(V):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ModuleV(V):
    """a module of the analysed tree"""
    __slots__ = ("name", "env", "path")

    def __init__(self, name, env, path):
        self.name, self.env, self.path = name, env, path

    def __repr__(self):
        return "module " + self.name


class Ext(V):
    """an attribute path of a library module, e.g. numpy.linalg.solve"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "ext " + self.path


class SeqV(V):
    """an iterable: n elements, get(st, k) -> value for a Poly k; items: concrete list of values; guard(st, k): condition or None"""
    __slots__ = ("n", "get", "items", "guard")

    def __init__(self, n=None, get=None, items=None, guard=None):
        self.n, self.get, self.items, self.guard = n, get, items, guard


class Choice(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Choice(%s,%r,%r)" % (T.short(self.c, 40), self.a, self.b)


class Opq(V):
    """a value the analysis does not model"""
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Opq(%s)" % self.why


class State:
    __slots__ = ("cells", "pc", "base", "asm", "facts", "assume")

    def __init__(self):
        self.cells = {}
        self.pc = ONE      # branch condition relative to the entry of the current function
        self.base = ONE    # path condition at that entry
        self.asm = ONE     # conditions under which earlier statements did not raise
        self.facts = ()
        self.assume = ()

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.pc, s.base, s.asm, s.facts, s.assume = self.pc, self.base, self.asm, self.facts, self.assume
        return s

    def become(self, o):
        self.cells, self.pc, self.base, self.asm, self.facts, self.assume = o.cells, o.pc, o.base, o.asm, o.facts, o.assume

    def abs(self):
        return T.mul(T.mul(self.base, self.pc), self.asm)


class Out:
    __slots__ = ("kind", "st", "val", "node", "exists")

    def __init__(self, kind, st, val=None, node=None):
        self.kind, self.st, self.val, self.node = kind, st, val, node
        self.exists = False


class PyExc(Exception):
    """the analysed program raises on this path"""

    def __init__(self, exc, st, node):
        Exception.__init__(self)
        self.exc, self.st, self.node = exc, st, node


class Vanished(Exception):
    """a public anchor of the package does not exist any more"""


def subst_val(v, m):
    """substitute inside an immutable value"""
    if isinstance(v, Num):
        p = T.subst(v.p, m)
        return v if p is v.p else Num(p, v.dt, v.py)
    if isinstance(v, Arr):
        sh = tuple(T.subst(s, m) for s in v.shape)
        ix = tuple(T.subst(s, m) for s in v.idx)
        if all(a is b for a, b in zip(sh, v.shape)) and all(a is b for a, b in zip(ix, v.idx)):
            return v
        vs = [T.new_var(s) for s in sh]
        mm = {a: P1(b) for a, b in zip(v.vars, vs)}
        return Arr(v.rid, sh, vs, [T.subst(i, mm) for i in ix], v.lst)
    if isinstance(v, Tup):
        return Tup(subst_val(x, m) for x in v.items)
    if isinstance(v, (Frozen, Masked)):
        return type(v)(subst_ac(v.ac, m))
    if isinstance(v, Choice):
        c = T.subst(v.c, m)
        if c is ONE:
            return subst_val(v.a, m)
        if c is ZERO:
            return subst_val(v.b, m)
        return Choice(c, subst_val(v.a, m), subst_val(v.b, m))
    return v


def subst_ac(a, m):
    sh = tuple(T.subst(s, m) for s in a.shape)
    vs = [T.new_var(s) for s in sh]
    mm = dict(m)
    for x, y in zip(a.vars, vs):
        mm[x] = P1(y)
    mask = None
    if a.mask:
        mask = (a.mask[0], T.subst(a.mask[1], mm))
    return AC(sh, vs, T.subst(a.body, mm), a.dt, a.taint, a.conv, mask)


def subst_cell(c, m):
    if isinstance(c, ArrD):
        if not (c.body.leaf & frozenset(m)) and not any(s.leaf & frozenset(m) for s in c.shape):
            return c
        sh = tuple(T.subst(s, m) for s in c.shape)
        if any(a is not b for a, b in zip(sh, c.shape)):
            vs = [T.new_var(s) for s in sh]
        else:
            vs = c.vars
        mm = dict(m)
        for x, y in zip(c.vars, vs):
            if x is not y:
                mm[x] = P1(y)
        return ArrD(sh, vs, T.subst(c.body, mm), c.dt)
    if isinstance(c, ListD):
        out = []
        for s in c.segs:
            if s[0] == "it":
                out.append(("it", subst_val(s[1], m)))
            elif s[0] == "seg":
                n = T.subst(s[2], m)
                k = T.new_var(n)
                mm = dict(m)
                mm[s[1]] = P1(k)
                out.append(("seg", k, n, tuple(subst_val(x, mm) for x in s[3])))
            else:
                out.append(s)
        return ListD(out, c.kind)
    if isinstance(c, DictD):
        return DictD([(subst_key(k, m), subst_val(v, m)) for k, v in c.items], c.opq, c.part)
    return subst_val(c, m)


def same(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, ArrD) and isinstance(b, ArrD):
        return a.body is b.body and a.vars == b.vars and a.dt == b.dt
    if isinstance(a, ListD) and isinstance(b, ListD):
        return len(a.segs) == len(b.segs) and all(_sameseg(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, DictD) and isinstance(b, DictD):
        return len(a.items) == len(b.items) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.items, b.items))
    if type(a) is not type(b):
        return False
    if isinstance(a, Num):
        return a.p is b.p and a.dt == b.dt and a.py == b.py
    if isinstance(a, Arr):
        if a.rid != b.rid or len(a.shape) != len(b.shape) or any(x is not y for x, y in zip(a.shape, b.shape)):
            return False
        m = {x: P1(y) for x, y in zip(a.vars, b.vars)}
        return all(T.subst(x, m) is y for x, y in zip(a.idx, b.idx))
    if isinstance(a, Str):
        return a.s == b.s and a.s is not None
    if isinstance(a, SymStr):
        return a.name == b.name and a.form == b.form
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, ListRef):
        return a.lid == b.lid
    if isinstance(a, DictRef):
        return a.did == b.did
    if isinstance(a, (Obj, ClassV)):
        return a.oid == b.oid
    if isinstance(a, Bound):
        return same(a.fn, b.fn) and same(a.self, b.self)
    if isinstance(a, Method):
        return a.name == b.name and same(a.obj, b.obj)
    if isinstance(a, (Ext,)):
        return a.path == b.path
    if isinstance(a, (TypeV, ExcClass, AnyV)):
        return a.name == b.name
    if isinstance(a, Choice):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    return False


def _sameseg(x, y):
    if x is y:
        return True
    if x[0] != y[0]:
        return False
    if x[0] == "it":
        return same(x[1], y[1])
    return False

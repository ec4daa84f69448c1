"""Runs driver programs through the abstract interpreter and collects what they observe."""
import ast
import os
import sys
import textwrap
import terms as T
from terms import P, P1, ONE, ZERO
from values import *
import interp as I

sys.setrecursionlimit(20000)


class Obs:
    """one observation of a driver"""

    def __init__(self, name, val, st, guard):
        self.name, self.val, self.st, self.guard = name, val, st, guard


class Result:
    def __init__(self):
        self.obs = {}
        self.raises = []     # Out of kind raise
        self.events = []
        self.end = None      # final state or None
        self.error = None
        self.base = None
        self.env = None
        self.touched = set()
        self.unsupported = {}


class Session:
    """an interpreter with the package loaded"""

    def __init__(self, root, scipy=True, package="padasip", nonce=0):
        self.root = root
        self.it = I.Interp(root, scipy)
        self.it.nonce = nonce
        self.st0 = I.State()
        self.load_error = None
        self.load_raises = []
        try:
            if package:
                self.it.load(self.st0, package)
        except PyExc as e:
            self.load_error = e
        self.load_raises = list(self.it.pending[-1])
        self.load_events = list(self.it.events)
        self.it.pending = [[]]
        self.it.events = []

    # ---------------------------------------------------------------------------------------------- inputs
    def array(self, st, name, shape, dt="c", owner=None, conv=False, lst=False, **info):
        it = self.it
        T.EL_INFO[name] = dict(info)
        vs = [T.new_var(s) for s in shape]
        body = T.el(name, [P1(v) for v in vs])
        c = None
        if conv:
            c = (T.flag("unconvertible", name, "ValueError"), T.flag("unconvertible", name, "TypeError"))
        a = it.alloc(st, AC(shape, vs, body, dt, frozenset(), c), owner or "caller:" + name, lst)
        return a

    def run(self, src, binds=None, st=None, name="driver"):
        """binds: function(session, state) -> {name: value}"""
        it = self.it
        res = Result()
        st = (st or self.st0).copy()
        it.pending = [[]]
        it.events = []
        it.unsupported = {}
        it.touched = set()
        it.stack = []
        T.FACTS[:] = []
        env = it.new_env(None, None, frozenset(), "module")
        env.module = ModuleV("driver", env, "driver")
        env.func = {"pkg": False}
        for k, v in (binds(self, st) if callable(binds) else (binds or {})).items():
            st.cells[("v", env.eid, k)] = v

        def out(i2, s, args, kw, node):
            key = args[0].s
            res.obs[key] = Obs(key, args[1] if len(args) == 2 else Tup(args[1:]), s.copy(), s.abs())
            return NONE

        def mark(i2, s, args, kw, node):
            """snapshot of the state"""
            res.obs["@" + args[0].s] = Obs(args[0].s, Tup(args[1:]), s.copy(), s.abs())
            it.events.append({"kind": "mark", "name": args[0].s, "loc": None, "guard": s.abs(), "func": None, "id": it.fresh()})
            return NONE
        def assume(i2, s, args, kw, node):
            """the rest of the driver is only considered where the condition holds"""
            c = i2.truth(s, args[0], node)
            i2.assume_not(s, ONE - c)
            return NONE
        st.cells[("v", env.eid, "assume")] = Builtin("assume", assume)
        st.cells[("v", env.eid, "out")] = Builtin("out", out)
        st.cells[("v", env.eid, "mark")] = Builtin("mark", mark)
        st.cells[("v", env.eid, "__name__")] = Str("driver")
        res.base = st.copy()
        tree = ast.parse(textwrap.dedent(src))
        it.stack.append(("<%s>" % name, "<driver>"))
        try:
            outs = it.exec_block(tree.body, st, env)
            for o in outs:
                if o.kind == "next":
                    res.end = o.st
                elif o.kind == "raise":
                    res.raises.append(o)
            res.raises += it.pending[-1]
        finally:
            it.stack = []
            it.pending = [[]]
            T.FACTS[:] = []
        res.env = env
        res.events = it.events
        res.touched = it.touched
        res.unsupported = dict(it.unsupported)
        it.events = []
        return res

"""C32 (optional dependencies), C33 (documented calls and keywords)."""
import ast
import builtins
import os
import re
import sys
import textwrap
import terms as T
from terms import P, P1, ONE, ZERO
from values import *
from core import *
from p_filters import *
import p_effects as PE

DETF = "padasip/detection/__init__.py"
RESOLVE = {"TypeError", "AttributeError", "NameError", "UnboundLocalError", "ImportError", "ModuleNotFoundError"}
PUBLIC = ["pa.filters." + c for c in ("filter_data", "AdaptiveFilter", "get_filter")] + \
         ["pa.preprocess." + c for c in ("standardize", "standardize_back", "input_from_history", "PCA", "PCA_components", "LDA", "LDA_discriminants")] + \
         ["pa.misc." + c for c in ("MAE", "MSE", "RMSE", "logSE", "get_mean_error")] + ["pa.detection." + c for c in ("learning_entropy", "ELBND", "ESE")] + \
         ["pa.ann.NetworkMLP", "pa.standardize", "pa.standardize_back", "pa.input_from_history"]


def files():
    out = []
    for base, ds, fs in os.walk(os.path.join(REPO, "padasip")):
        ds[:] = sorted(d for d in ds if d not in ("__pycache__", "tests"))
        out += [os.path.relpath(os.path.join(base, f), REPO) for f in sorted(fs) if f.endswith(".py")]
    return sorted(out)


def broken(ck, name, r, names, pl, rule, code, end="end"):
    """one obligation: the driver gets to its end and no exception of these classes is raised"""
    bad, unk = [], []
    for o in r.raises:
        nm = set(o.val.names) if isinstance(o.val, ExcV) else set()
        if not nm & names and o.st.abs() is not ONE:
            continue
        v, d = ck.cmp_poly(o.st.abs(), ZERO)
        at = "%s at %s" % (o.val, ":".join(map(str, (o.node or ("?",))[:3])))
        if v == "different" and (nm & names):
            bad.append(at)
        elif v != "equal":
            unk.append(at)
    if bad:
        ck.add(name, "refuted", "; ".join(bad)[:600], pl, rule, code)
    elif r.obs.get(end) is None or unk:
        ck.add(name, "undecided", "; ".join(unk)[:400] or "the end is not reached in the analysis", pl, rule)
    else:
        ck.add(name, "proved", "", pl, rule)


# ------------------------------------------------------------------------------------------------ C32
def C32(ck):
    rule = "with no module but the standard library and NumPy, no import statement reached fails and no name is missing"
    gone = {"ImportError", "ModuleNotFoundError", "NameError", "AttributeError", "UnboundLocalError"}
    pl = ck.places([DETF])
    S = session(False)

    def load():
        e = S.load_error
        if e is not None:
            ck.add("import without SciPy", "refuted", "%s at %s" % (e.exc, e.node), ["%s:%s" % tuple(e.node[:2])] if e.node else pl, rule, "import padasip")
        elif S.load_raises:
            ck.add("import without SciPy", "undecided", str([str(o.val) for o in S.load_raises])[:300], pl, rule)
        else:
            n = [x for x in S.load_events if x["kind"] == "import"]
            ck.add("import without SciPy", "proved", "%d import statements reached" % len(n), pl, rule)
        S1 = session(True)
        if S1.load_error is not None or S1.load_raises:
            ck.add("import with SciPy", "refuted" if S1.load_error is not None else "undecided", str(S1.load_error or S1.load_raises)[:300], pl, rule, "import padasip")
        else:
            ck.add("import with SciPy", "proved", "", pl, rule)
    ck.guardrun("import", load)
    if S.load_error is not None:
        return

    def names():
        for scipy in (False, True):
            lab = "with SciPy" if scipy else "without SciPy"
            code = "import padasip as pa\nout('end', 1)\n"
            for q in ["pa." + s for s in ("filters", "preprocess", "misc", "detection", "ann")] + PUBLIC + ["pa.filters." + f.cls for f in FILTERS]:
                r = ck.run("import padasip as pa\nv = %s\nout('end', 1)\n" % q, {}, q, scipy=scipy)
                broken(ck, "%s exists %s" % (q, lab), r, gone, pl, "attribute of the loaded package", "import padasip as pa; " + q)
            for s in ("filters", "preprocess", "misc", "detection", "ann"):
                r = ck.run("import padasip.%s as q\nfrom padasip import %s\nimport padasip.%s\nv = padasip.%s\nout('end', 1)\n" % (s, s, s, s), {}, s, scipy=scipy)
                broken(ck, "padasip.%s is importable %s" % (s, lab), r, gone, pl, "import statements", "import padasip." + s)
            for f in FILTERS:
                r = ck.run("import padasip.filters.%s as q\nfrom padasip.filters import %s\nfrom padasip.filters.%s import %s\nv = q.%s\nout('end', 1)\n" % (f.mod, f.cls, f.mod, f.cls, f.cls), {}, f.mod, scipy=scipy)
                broken(ck, "padasip.filters.%s is importable %s" % (f.mod, lab), r, gone, pl, "import statements", "import padasip.filters." + f.mod)
    ck.guardrun("names", names)

    def ese():
        at = ck.places([DETF + "::ese_not_imported"]) or pl
        for args in ("w, window=3", "w", "", "w, 3, 'sqrt'", "w, window=3, pot_method='10%'"):
            code = "import padasip as pa\npa.detection.ESE(%s)\n" % args
            r = ck.run(code + "out('end', 1)\n", PE.fun_binds(), "ESE", scipy=False)
            name = "ESE(%s) without SciPy raises ImportError" % args
            rule2 = "every path of the call ends in ImportError"
            kinds = [set(o.val.names) if isinstance(o.val, ExcV) else set() for o in r.raises]
            if r.obs.get("end") is not None:
                v, d = ck.cmp_poly(r.obs["end"].guard, ZERO)
                if v != "equal":
                    ck.add(name, "refuted" if v == "different" else "undecided", "the call returns", at, rule2, code)
                    continue
            if kinds and all("ImportError" in k for k in kinds):
                ck.add(name, "proved", "", at, rule2)
            elif any(k and "ImportError" not in k for k in kinds):
                ck.add(name, "refuted", ck.show_raises(r), at, rule2, code)
            else:
                ck.add(name, "undecided", "no exception understood", at, rule2)
        for args in ("w, window=3", "w, window=3, pot_method='sqrt'"):
            r = ck.run("import padasip as pa\nv = pa.detection.ESE(%s)\nout('end', 1)\n" % args, PE.fun_binds(), "ESE", scipy=True)
            broken(ck, "ESE(%s) works with SciPy" % args, r, gone, at, rule, "pa.detection.ESE(%s)" % args)
    ck.guardrun("ESE", ese)

    def use(label, code, binds, at):
        full = "import padasip as pa\nimport numpy as np\n" + code

        def go():
            r = ck.run(full + "\nout('end', 1)\n", binds, label, scipy=False)
            broken(ck, label + " without SciPy", r, gone, ck.places(at, r), rule, full)
        ck.guardrun(label, go)
    for f in FILTERS:
        code = new(f) + "\np = f.predict(z)\nf.adapt(dh[0], z)\ny, e, h = f.run(d, x)\n" if f.name != "OCNLMS" else new(f) + "\np = f.predict(z)\ny, e, h = f.run(d, x)\n"
        use(f.name, code, PE.eff_binds(), PE.run_at(f))
    use("filter_data and pretrained_run", "r = pa.filters.filter_data(d, x, model='NLMS', mu=mu)\nf = pa.filters.AdaptiveFilter(model='NLMS', n=n, mu=mu)\nr = f.pretrained_run(d, x, ntrain=0.5, epochs=2)\n",
        PE.eff_binds(), [PE.INITF + "::filter_data"])
    for lab, call, used, at in PE.FUNS:
        if lab != "ESE":
            use(lab, "v = %s\n" % call, PE.fun_binds(), [at])
    for act in ("sigmoid", "tanh"):
        code = "g = pa.ann.NetworkMLP([h1], n, outputs=1, activation=%r, mu=mu)\np = g.predict(z)\nr = g.run(x)\nt = g.test(x, d)\nu = g.train(x, d, epochs=1)\n" % act
        use("network, " + act, code, PE.net_binds(1, 1), [PE.MLP + "::NetworkMLP.run"])
    code = "g = pa.ann.NetworkMLP([h1], n, outputs=1, activation='tanh', mu=mu)\nu = g.train(x, d, epochs=1, shuffle=True)\n"
    use("network, shuffled training", code, PE.net_binds(1, 1), [PE.MLP + "::NetworkMLP.train"])

    def imports():
        """import statements that no analysed path reaches"""
        rule3 = "a module from outside the standard library and NumPy is imported only under a handler of ImportError or where nothing but ESE leads"
        n = 0
        for path in files():
            tree = tree_of(path)
            if tree is None:
                ck.add("imports of " + path, "undecided", "not parsed", [path], rule3)
                continue
            for node, chain in walk_chain(tree):
                if not isinstance(node, (ast.Import, ast.ImportFrom)) or isinstance(node, ast.ImportFrom) and node.level:
                    continue
                mods = [a.name for a in node.names] if isinstance(node, ast.Import) else [node.module or ""]
                for m in mods:
                    n += 1
                    top = m.split(".")[0]
                    if top in ("numpy", "padasip", "__future__") or top in sys.stdlib_module_names:
                        continue
                    at = "%s:%d" % (path, node.lineno)
                    if guarded(chain, node):
                        ck.add("import of %s in %s" % (m, path), "proved", "its failure is handled", [at], rule3)
                    elif path == "padasip/detection/ese.py":
                        ck.add("import of %s in %s" % (m, path), "proved", "the module of ESE", [at], rule3)
                    else:
                        ck.add("import of %s in %s" % (m, path), "undecided", "no analysed call leads here without SciPy", [at], rule3)
        ck.add("import statements", "proved", "%d import statements in %d files looked at" % (n, len(files())), ["padasip/"], rule3)
    ck.guardrun("import statements", imports)


def walk_chain(tree):
    stack = [(tree, ())]
    while stack:
        n, ch = stack.pop()
        yield n, ch
        for c in ast.iter_child_nodes(n):
            stack.append((c, ch + (n,)))


def guarded(chain, node):
    for i, c in enumerate(chain):
        if isinstance(c, ast.Try):
            nxt = chain[i + 1] if i + 1 < len(chain) else node
            if any(nxt is b for b in c.body):
                for h in c.handlers:
                    ns = [x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)] if h.type is not None else ["Exception"]
                    if set(ns) & {"ImportError", "Exception", "BaseException", "ModuleNotFoundError"}:
                        return True
    return False


# ------------------------------------------------------------------------------------------------ C33
def blocks(text):
    """code blocks of a documentation text: (line, source)"""
    L = text.splitlines()
    i = 0
    while i < len(L):
        m = re.match(r"(\s*)\.\. code-block::\s*(python)?\s*$", L[i])
        if not m and re.match(r"\s*>>> ", L[i]):
            # an interactive session outside of a code block
            j = i
            while j < len(L) and re.match(r"\s*(>>>|\.\.\.) ", L[j]):
                j += 1
            s = "\n".join(re.sub(r"^\s*(>>>|\.\.\.) ", "", l) for l in L[i:j])
            if "pa." in s:
                yield i + 1, s
            i = j
            continue
        if not m:
            i += 1
            continue
        j, body = i + 1, []
        while j < len(L) and (not L[j].strip() or len(L[j]) - len(L[j].lstrip()) > len(m.group(1))):
            body.append(L[j])
            j += 1
        s = textwrap.dedent("\n".join(body))
        if re.search(r"^>>> ", s, re.M):
            s = "\n".join(l[4:] for l in s.splitlines() if l.startswith((">>> ", "... ")))
        yield i + 1, re.sub(r"^(\s*)print (.*)$", r"\1print(\2)", s, flags=re.M)
        i = j


def docs():
    """(file, line, text) of every piece of documentation"""
    for path in files():
        t = tree_of(path)
        for n in ast.walk(t) if t is not None else ():
            if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
                yield path, n.body[0].lineno, ast.get_docstring(n)
    for base in ("README.rst", "docs/source"):
        p = os.path.join(REPO, base)
        for b, ds, fs in os.walk(p) if os.path.isdir(p) else [(REPO, [], ["README.rst"] if os.path.exists(p) else [])]:
            for f in sorted(fs):
                if f.endswith(".rst"):
                    q = os.path.join(b, f)
                    yield os.path.relpath(q, REPO), 1, open(q, encoding="utf-8").read()


def free_names(src):
    tt = ast.parse(src)
    names, bound = set(), set()
    for n in ast.walk(tt):
        if isinstance(n, ast.Name):
            (names if isinstance(n.ctx, ast.Load) else bound).add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            bound |= {a.asname or a.name.split(".")[0] for a in n.names}
        elif isinstance(n, ast.FunctionDef):
            bound |= {n.name} | {a.arg for a in n.args.args}
    return names - bound - set(dir(builtins))


VEC, MAT = ("d", "e", "xs", "x1", "x2", "y", "u"), ("x", "w", "X")


def doc_binds(fr):
    def b(s, st):
        N, m = T.dim("N", 13), T.dim("n", 2)
        r = {}
        for k in fr:
            if k in MAT:
                r[k] = s.array(st, k, (N, m), "f")
            elif k in VEC:
                r[k] = s.array(st, k, (N,), "f")
            elif k == "labels":
                r[k] = s.array(st, k, (N,), "c")
            elif k in ("a", "b", "mu", "eps"):
                r[k] = Num(T.sym(k, pos=True), "f", True)
            elif k.startswith("table"):
                r[k] = s.array(st, k, (N,) + tuple(P(int(q)) for q in k.split("_")[2:]), "i")
            elif k.startswith("hidden"):
                r[k] = Num(T.dim(k), "i", True)
            elif k == "n":
                r[k] = Num(P(2), "i", True)
        return r
    return b


def general(src, fr):
    """one layer of any size instead of the ones in the example: the sums over them stay short"""
    tree = ast.parse(src)
    new = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "NetworkMLP" and n.args and isinstance(n.args[0], ast.List):
            if all(isinstance(e, ast.Constant) and isinstance(e.value, int) for e in n.args[0].elts):
                new.append("hidden%d" % (len(new) + 1))
                n.args[0].elts = [ast.Name(new[-1], ast.Load())]
    if new:
        # tables of data become any data with rows of that length, and one pass over the data stands for many
        for n in ast.walk(tree):
            if isinstance(n, ast.keyword) and n.arg == "epochs" and isinstance(n.value, ast.Constant):
                n.value = ast.Constant(1)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "array":
                try:
                    v = ast.literal_eval(n.value.args[0])
                    sh = (len(v),) + ((len(v[0]),) if isinstance(v[0], list) else ())
                except (ValueError, TypeError, IndexError):
                    continue
                if len(v) > 8:
                    new.append("_".join(["table"] + [str(q) for q in sh]))
                    n.value = ast.Name(new[-1], ast.Load())
    return (ast.unparse(tree), fr | set(new)) if new else (src, fr)


PRE = {"pa": "import padasip as pa\n", "np": "import numpy as np\n", "plt": "import matplotlib.pylab as plt\n",
       "f": "import padasip as pa\nf = pa.filters.AdaptiveFilter(model='NLMS', n=4, mu=0.1, w='random')\n"}


def definition(S, path, qual):
    """the function behind a definition of the package as it is after the import; a class stands for its constructor"""
    mod = path[:-3].replace("/", ".")
    mod = mod[:-9] if mod.endswith(".__init__") else mod
    m = S.it.modules.get(mod)
    if m is None:
        return None, None
    parts = qual.split(".")
    v = S.st0.cells.get(("v", m.env.eid, parts[0]))
    cls = None
    for q in parts[1:]:
        if not isinstance(v, ClassV):
            return None, None
        cls = v
        v = S.it.class_attr(S.st0, v, q)
    if isinstance(v, ClassV):
        cls = v
        v = S.it.class_attr(S.st0, v, "__init__")
    return v, cls


def own_params(v, cls):
    if isinstance(v, Bound):
        v = v.fn
    if not isinstance(v, FuncV) or not isinstance(v.node, (ast.FunctionDef, ast.Lambda)):
        return None
    a = v.node.args
    pos = [x.arg for x in a.args]
    if cls is not None and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(v.node, "decorator_list", ())):
        pos = pos[1:]
    return set(pos) | {x.arg for x in a.kwonlyargs}, a.kwarg is not None


def signature(S, path, qual):
    v, cls = definition(S, path, qual)
    return None if v is None else own_params(v, cls)


def rest_names(S, path, qual):
    """names accepted by the functions to which the collected keywords are handed"""
    v, cls = definition(S, path, qual)
    if not isinstance(v, FuncV):
        return None
    kw = v.node.args.kwarg.arg
    out = None
    for n in ast.walk(v.node):
        if not isinstance(n, ast.Call) or not any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == kw for k in n.keywords):
            continue
        got = None
        if isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and cls is not None:
            mro = S.it.mro(cls)
            for i, c in enumerate(mro):
                if ("a", c.oid, "__init__") in S.st0.cells and S.st0.cells[("a", c.oid, "__init__")] is v:
                    for b in mro[i + 1:]:
                        w = S.st0.cells.get(("a", b.oid, "__init__"))
                        if w is not None:
                            q = own_params(w, b)
                            got = q[0] if q is not None else None
                            break
                    break
        else:
            got = set()
            for f in FILTERS:
                q = signature(S, "padasip/filters/%s.py" % f.mod, f.cls)
                got |= q[0] if q is not None else set()
        if got is None:
            return None
        out = got if out is None else out & got
    return out


def C33(ck):
    ck.item_limit = min(ck.item_limit, 100)
    rule = "the documented program, interpreted, gets to its end without TypeError, AttributeError, NameError or ImportError"
    count = 0
    seen = {}
    for path, line, text in docs():
        for ln, src in blocks(text):
            try:
                fr = free_names(src)
            except SyntaxError:
                if re.search(r"^\s*(import|from) |\bpa\.", src, re.M):
                    ck.add("example in %s" % path, "undecided", "the example is not Python", ["%s:%d" % (path, line + ln - 1)], rule)
                continue
            if not re.search(r"\bpa\.|padasip|\bf\.", src):
                continue
            count += 1
            used = sorted({n for n in re.findall(r"(?:\bpa\.[\w.]+|(?<![\w.])f\.\w+)", src)})
            src, fr = general(src, fr)
            key = "example in %s: %s" % (path, ", ".join(used)[:100])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 1:
                key += " (%d)" % seen[key]
            code = "".join(PRE[k] for k in ("pa", "np", "plt", "f") if k in fr) + src

            def go(key=key, code=code, fr=fr, path=path, at=line + ln - 1):
                r = ck.run(code + "\nout('end', 1)\n", doc_binds(fr), "example")
                broken(ck, key, r, RESOLVE, ["%s:%d" % (path, at)], rule, code)
            ck.guardrun(key, go)
    ck.guardrun("parameters", lambda: keywords(ck))


SECTION = re.compile(r"^\s*\*{1,2}(\w+):?\*\*")
ITEM = re.compile(r"^\s*\* ?`(\w+)`")


def keywords(ck):
    rule = "every name listed under Args or Kwargs is a parameter of the function, or of every function its keywords are handed to"
    S = session(True)
    if S.load_error is not None:
        ck.add("parameters", "undecided", "the package is not importable", [], rule)
        return
    fn = cl = 0
    for path in files():
        t = tree_of(path)
        for node, chain in walk_chain(t) if t is not None else ():
            if not isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                continue
            doc = ast.get_docstring(node)
            if not doc:
                continue
            if any(isinstance(c, ast.FunctionDef) for c in chain) or node.name.startswith("_") and node.name != "__init__":
                continue
            names, sec = [], None
            for l in doc.splitlines():
                m = SECTION.match(l)
                if m:
                    sec = m.group(1)
                m = ITEM.match(l)
                if m and sec in ("Args", "Kwargs") and not re.match(r"^\s{4,}", l):
                    names.append(m.group(1))
            if not names:
                continue
            qual = ".".join([c.name for c in chain if isinstance(c, ast.ClassDef)] + [node.name])
            name = "%s::%s" % (path, qual)
            at = ["%s:%d %s" % (path, node.lineno, qual)]
            got = signature(S, path, qual)
            if got is None:
                ck.add("parameters of " + name, "undecided", "the definition is not a plain function or class of the loaded package", at, rule)
                continue
            own, rest = got
            bad = [x for x in names if x not in own]
            if bad and rest:
                more = rest_names(S, path, qual)
                if more is None:
                    ck.add("parameters of " + name, "undecided", "keywords are handed on in an unknown way", at, rule)
                    continue
                bad = [x for x in bad if x not in more]
            if bad:
                ck.add("parameters of " + name, "refuted", "documented but not accepted: " + ", ".join(bad), at, rule, "%s(%s)" % (qual, ", ".join(x + "=..." for x in bad)))
            else:
                ck.add("parameters of " + name, "proved", "%d names" % len(names), at, rule)

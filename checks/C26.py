"""Names: exports, documented paths, imports, uses and calls resolve; optional libraries stay optional."""
import ast
import builtins
import glob
import os
import re
import sys

from .common import *
from sa.census import Census, Local, Scope
from sa.vgraph import Builder, Frame, Mod, Static, Prop
from sa.loader import ModSrc

PLOTTING = ("matplotlib", "pylab", "seaborn")
# modules whose import may load a plotting library: the plotting front ends, and the samplers with diagnostic plots
FRONT = ("gpmp.plot", "gpmp.modeldiagnosis.plotting", "gpmp.mcmc.")
REQUIRED = {"numpy", "scipy", "matplotlib", "gpmp", "torch"}


def where(m):
    return m.path


def fresh(repo, b, name):
    """Value graph of importing one module (after the package, as Python does)."""
    it = Builder(repo, b)
    fr = Frame(None, None)
    env = Obj("env", name="base")
    it.st.heap[env] = {}
    fr.env, fr.modname = env, "<user>"
    it.frames.append(fr)
    parts = name.split(".")
    for k in range(1, len(parts) + 1):
        it.load(".".join(parts[:k]))
    return it


def strings(it, v):
    try:
        xs = it.to_list(v)
    except Exception:
        return []
    return [x for x in xs or [] if isinstance(x, str)]


def exports(ck, w, b):
    it = w.it
    n = 0
    for name, m in sorted(w.repo.modules.items()):
        if not name.startswith("gpmp"):
            continue
        mod = it.load(name)
        d = it.st.heap[mod.env]
        names = set(strings(it, d["__all__"])) if "__all__" in d else set()
        if "__getattr__" in d:        # lazily exported names: the module's tables of names
            for s in m.tree.body:
                v = s.value if isinstance(s, (ast.Assign, ast.AnnAssign)) else None
                elts = v.keys if isinstance(v, ast.Dict) else v.elts if isinstance(v, (ast.Set, ast.List, ast.Tuple)) else []
                if len(elts) > 1:
                    names |= {e.value for e in elts if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value.isidentifier()}
        for x in sorted(names):
            n += 1
            base = it.st.copy()
            r = w.call(UF("member", lambda it2, a, k: it2.mod_get(mod, x)), [])
            it.st = base
            ck.require(f"{name} exports {x} [{b}]", r.returned and r.value is not None, where(m), f"'{x}' is advertised by {name} but cannot be imported from it",
                       "an advertised name resolves")
    ck.count("advertised names", n)


def chain(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    return e.id, out[::-1]


def follow(w, mod, names):
    """None when the dotted path resolves, else the part that does not."""
    it = w.it
    v = mod
    for k, x in enumerate(names):
        if isinstance(v, Mod):
            base = it.st.copy()
            r = w.call(UF("member", lambda it2, a, k_: it2.mod_get(v, x)), [])
            it.st = base
            if not r.returned or r.value is None:
                return v.name + "." + x
            v = r.value
        elif isinstance(v, Cls):
            if any(not isinstance(c, Cls) for c in v.mro()):
                return None
            if v.lookup(x) is None:
                return None if x.startswith("__") else v.name + "." + x
            return None
        else:
            return None
    return None


def documented(ck, w, b):
    """Names in the reference documentation and in the examples."""
    root = w.repo.root
    n = 0
    for p in sorted(glob.glob(os.path.join(root, "docs", "source", "**", "*.rst"), recursive=True)):
        text = open(p, encoding="utf-8").read()
        rel = os.path.relpath(p, root)
        for q in sorted(set(re.findall(r"^\s*\.\. auto(?:function|class|module|method|data)::\s*(gpmp[\w.]*)", text, re.M))):
            n += 1
            bad = follow(w, w.it.load("gpmp"), q.split(".")[1:])
            ck.require(f"documented name {q} [{b}]", bad is None, rel, f"{bad} does not exist", "a documented name resolves")
    for p in sorted(glob.glob(os.path.join(root, "examples", "*.py"))):
        rel = os.path.relpath(p, root)
        try:
            tree = ast.parse(open(p, encoding="utf-8").read())
        except SyntaxError:
            continue
        alias, uses = {}, set()
        for x in ast.walk(tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    if a.name.split(".")[0] == "gpmp":
                        uses.add(tuple(a.name.split(".")[1:]))
                        alias[a.asname or "gpmp"] = a.name.split(".")[1:] if a.asname else []
            elif isinstance(x, ast.ImportFrom) and not x.level and (x.module or "").split(".")[0] == "gpmp":
                for a in x.names:
                    path = x.module.split(".")[1:] + [a.name]
                    uses.add(tuple(path))
                    alias[a.asname or a.name] = path
        for x in ast.walk(tree):
            c = chain(x) if isinstance(x, ast.Attribute) else None
            if c and c[0] in alias:
                uses.add(tuple(alias[c[0]] + c[1]))
        for q in sorted(uses):
            n += 1
            bad = follow(w, w.it.load("gpmp"), list(q))
            ck.require(f"{rel} uses gpmp.{'.'.join(q)} [{b}]", bad is None, rel, f"{bad} does not exist", "a documented name resolves")
    ck.count("documented names", n)


def imports(ck, w, b):
    repo = w.repo
    mods = sorted(m for m in repo.modules if m.startswith("gpmp") and not (b == "numpy" and m == "gpmp.num.torch_backend"))
    for name in mods:
        if name == "gpmp.num.numpy_backend" and b == "torch":
            continue
        m = repo.modules[name]
        it = fresh(repo, b, name)
        missing = sorted({f"{src}: {t}" for src, t, ok in it.imports if not ok})
        ck.require(f"importing {name} resolves every internal import [{b}]", not missing, where(m), f"unresolved imports: {missing[:4]}", "internal imports resolve")
        tops = {t.split(".")[0]: src for src, t, ok in it.imports if not t.startswith("gpmp")}
        if not any(name == f or name.startswith(f) for f in FRONT) or name == "gpmp.mcmc":
            p = [x for x in PLOTTING if x in tops]
            ck.require(f"importing {name} loads no plotting library [{b}]", not p, where(m), f"{p} imported by {[tops[x] for x in p]}", "plotting stays optional")
        if b == "numpy":
            ck.require(f"importing {name} does not load torch [{b}]", "torch" not in tops, where(m), f"torch imported by {tops.get('torch')}",
                       "the NumPy backend works without PyTorch")
    ck.count("modules imported", len(mods))


def optional(ck, w, b):
    """Imports of libraries that are not required are guarded; torch is imported only by its backend."""
    n = 0
    for name, m in sorted(w.repo.modules.items()):
        if not name.startswith("gpmp"):
            continue

        def scan(node, guarded):
            nonlocal n
            if isinstance(node, (ast.Import, ast.ImportFrom)) and not getattr(node, "level", 0):
                for t in ([a.name for a in node.names] if isinstance(node, ast.Import) else [node.module]):
                    top = t.split(".")[0]
                    n += 1
                    if top in sys.stdlib_module_names or top in REQUIRED - {"torch"}:
                        continue
                    if top == "torch" and name == "gpmp.num.torch_backend":
                        continue
                    ck.require(f"import of {top} in {m.path} is guarded", guarded is True or bool(guarded) and top != "torch", m.path, f"'{t}' is not a required dependency and its import is not guarded",
                               "optional dependencies stay optional")
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and guarded is False:
                for c in ast.iter_child_nodes(node):        # imported only by the function that needs it
                    scan(c, 'function')
                return
            if isinstance(node, ast.Try):
                g = guarded is True or any(h.type is None or "Error" in ast.unparse(h.type) or "Exception" in ast.unparse(h.type) for h in node.handlers) or guarded
                for c in node.body:
                    scan(c, g)
                for c in node.orelse + node.finalbody + [x for h in node.handlers for x in h.body]:
                    scan(c, guarded)
                return
            for c in ast.iter_child_nodes(node):
                scan(c, guarded)
        scan(m.tree, False)
    ck.count("import statements", n)


class Flowed:
    """Names that may be bound at each use (union over paths): a use no binding reaches fails whenever it is executed."""

    def __init__(self, local, report):
        self.local, self.report = local, report

    def expr(self, e, may):
        stack = [e]
        while stack:
            x = stack.pop()
            if x is None:
                continue
            if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                stack.append(x.generators[0].iter)
                continue
            if isinstance(x, ast.NamedExpr):
                self.expr(x.value, may)
                may.add(x.target.id)
                continue
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Load) and x.id in self.local and x.id not in may:
                    self.report(x.id)
                continue
            stack.extend(reversed(list(ast.iter_child_nodes(x))))

    def bind(self, t, may):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                may.add(x.id)
            elif isinstance(x, (ast.Attribute, ast.Subscript)):
                self.expr(x, may)

    def walrus(self, s, may):
        for x in ast.walk(s):
            if isinstance(x, ast.NamedExpr):
                may.add(x.target.id)

    def block(self, body, may):
        for s in body:
            may = self.stmt(s, may)
        return may

    def assigned(self, body):
        out = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name.split(".")[0]) for a in x.names}
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    out.add(x.name)
        return out

    def stmt(self, s, may):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d, may)
            if isinstance(s, ast.FunctionDef):
                for d in s.args.defaults + [k for k in s.args.kw_defaults if k]:
                    self.expr(d, may)
            may = may | {s.name}
        elif isinstance(s, ast.Assign):
            self.expr(s.value, may)
            for t in s.targets:
                self.bind(t, may)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, may)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.local and s.target.id not in may:
                    self.report(s.target.id)
                may.add(s.target.id)
            else:
                self.expr(s.target, may)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, may)
                self.bind(s.target, may)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            may |= {(a.asname or a.name.split(".")[0]) for a in s.names}
        elif isinstance(s, ast.If):
            self.expr(s.test, may)
            a = self.block(s.body, set(may))
            c = self.block(s.orelse, set(may))
            may = a | c
        elif isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            may = may | self.assigned([s])
            if isinstance(s, ast.While):
                self.expr(s.test, may)
            else:
                self.expr(s.iter, may - self.assigned([s]) | may)
            self.block(s.body, set(may))
            self.block(s.orelse, set(may))
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, may)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, may)
            may = self.block(s.body, may)
        elif isinstance(s, ast.Try):
            a = self.block(s.body, set(may))
            during = may | self.assigned(s.body)
            out = self.block(s.orelse, set(a))
            for h in s.handlers:
                out |= self.block(h.body, during | ({h.name} if h.name else set()))
            out |= during
            may = self.block(s.finalbody, out)
        elif isinstance(s, ast.Match):
            self.expr(s.subject, may)
            out = set(may)
            for c in s.cases:
                out |= self.block(c.body, may | self.assigned([s]))
            may = out
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.expr(t, may)
        else:
            for c in ast.iter_child_nodes(s):
                self.expr(c, may)
        return may


def uses(ck, w, b):
    """Every name read in a function or module is bound somewhere it can see; every attribute of a library module exists."""
    c = Census(w)
    it = w.it
    n = attrs = calls = 0
    inactive = "gpmp.num.torch_backend" if b == "numpy" else "gpmp.num.numpy_backend"
    bad = {}
    for m, scopes, x in c.walk():
        place = c.place(m, scopes)
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            n += 1
            for sc in reversed(scopes):
                if isinstance(sc.node, ast.ClassDef) and sc is not scopes[-1]:
                    continue
                if x.id in sc.bound:
                    break
            else:
                if not hasattr(builtins, x.id) and x.id not in ("__name__", "__file__", "__doc__", "__class__", "__package__", "__spec__", "__path__"):
                    if x.id not in module_names(m) and x.id not in it.st.heap[it.load(m.name).env]:
                        bad.setdefault((place, f"the name '{x.id}' is not defined"), 0)
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and m.name != inactive:
            v = c.resolve(x.value, m, scopes)
            if isinstance(v, Mod):
                attrs += 1
                d = it.st.heap[v.env]
                other = ck.world("torch" if b == "numpy" else "numpy").it      # present on one backend only: see the parity property
                there = v.name in other.mods and x.attr in other.st.heap[other.mods[v.name].env]
                if x.attr not in d and not there and v.name + "." + x.attr not in w.repo.modules and not x.attr.startswith("__") and "__getattr__" not in d \
                        and not guarded_attr(scopes, m, x):
                    bad.setdefault((place, f"{v.name} has no attribute '{x.attr}'"), 0)
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = (scopes[-1].qual + "." if scopes else "") + x.name
            sc = Scope(x, scopes[-1] if scopes else None, q)
            f = Flowed(sc.bound - set(sc.params) - sc.globals, lambda v: bad.setdefault((f"{m.path}:{q}", f"'{v}' is used before any assignment"), 0))
            f.block(x.body, set(sc.params))
        if isinstance(x, ast.Call) and m.name != inactive:
            k = call_fits(c, it, m, scopes, x)
            if k is not None:
                calls += 1
                if k:
                    bad.setdefault((place, k), 0)
    ck.count("name uses", n)
    ck.count("module attribute uses", attrs)
    ck.count("internal calls", calls)
    by = {}
    for (place, why), _ in bad.items():
        by.setdefault(place, []).append(why)
    for m in c.modules:
        mine = {p: ws for p, ws in by.items() if p.split(":")[0] == m.path}
        if not mine:
            ck.ok(f"names and calls of {m.name} [{b}]", m.path, "", "every name, attribute and argument used is defined")
        for p, ws in mine.items():
            for y in ws:
                ck.bad(f"names and calls of {p}: {y} [{b}]", p, y, "every name, attribute and argument used is defined")


def module_names(m):
    out = getattr(m, "_names", None)
    if out is None:
        out = set()

        def go(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(s.name)
                    continue
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        out.update((a.asname or a.name.split(".")[0]) for a in x.names)
                    elif isinstance(x, ast.ExceptHandler) and x.name:
                        out.add(x.name)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        out.add(x.name)
        go(m.tree.body)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                out.update(x.names)
        m._names = out
    return out


def guarded_attr(scopes, m, x):
    """The use is conditional on hasattr, or on the backend in use."""
    root = scopes[0].node if scopes else m.tree
    for s in ast.walk(root):
        if isinstance(s, (ast.If, ast.IfExp, ast.Try, ast.BoolOp)):
            if any(y is x for y in ast.walk(s)):
                if isinstance(s, ast.Try):
                    if s.handlers:
                        return True
                    continue
                t = s.test if isinstance(s, (ast.If, ast.IfExp)) else s
                txt = ast.dump(t)
                if "hasattr" in txt or "_gpmp_backend_" in txt or "backend" in txt.lower():
                    return True
    return False


def call_fits(c, it, m, scopes, x):
    """'' when the call binds to the callee's parameters, a message when it cannot, None when not decided."""
    if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
        return None
    v = c.resolve(x.func, m, scopes)
    skip = 0
    if isinstance(v, Cls):
        if any(not isinstance(k, Cls) for k in v.mro() if k is not v) or getattr(v.node, "decorator_list", None):
            return None
        v = v.lookup("__init__")
        skip = 1
    elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
        cl = next((s for s in reversed(scopes) if isinstance(s.node, ast.ClassDef)), None)
        own = cl and it.st.heap[it.load(m.name).env].get(cl.node.name)
        if not isinstance(own, Cls):
            return None
        assigned = {y.attr for y in ast.walk(cl.node) if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store)}
        if x.func.attr in assigned:
            return None
        v = own.lookup(x.func.attr)
        skip = 1
        if isinstance(v, Static):
            skip = 0 if v.kind == "static" else 1
            v = v.fn
    elif isinstance(x.func, ast.Attribute) and isinstance(c.resolve(x.func.value, m, scopes), Cls):
        return None
    if not isinstance(v, Func) or v.node is None or isinstance(v.node, ast.Lambda):
        return None
    if v.node.decorator_list and skip == 0 and not isinstance(v, Static):
        return None
    a = v.node.args
    pos = [p.arg for p in a.posonlyargs + a.args][skip:]
    if len(x.args) > len(pos) and not a.vararg:
        return f"{v.qual} takes {len(pos)} positional arguments but {len(x.args)} are given"
    names = set(pos[len([p for p in a.posonlyargs]):] if a.posonlyargs else pos) | {p.arg for p in a.kwonlyargs}
    given = set(pos[:len(x.args)])
    for k in x.keywords:
        if k.arg not in names and not a.kwarg:
            return f"{v.qual} has no argument '{k.arg}'"
        if k.arg in given:
            return f"{v.qual} gets two values for '{k.arg}'"
        given.add(k.arg)
    nd = len(a.defaults)
    need = [p for p in (pos[:-nd] if nd else pos)] + [p.arg for p, dflt in zip(a.kwonlyargs, a.kw_defaults) if dflt is None]
    miss = [p for p in need if p not in given]
    return f"{v.qual} is called without '{miss[0]}'" if miss else ""


def selves(ck, w, b):
    """Attributes read on self exist in the class."""
    c = Census(w)
    n = 0
    for m in c.modules:
        for node in [x for x in m.tree.body if isinstance(x, ast.ClassDef)]:
            own = w.it.st.heap[w.it.load(m.name).env].get(node.name)
            if not isinstance(own, Cls):
                continue
            if any(not isinstance(k, Cls) for k in own.mro()):
                continue
            nodes = [k.node for k in own.mro() if k.node is not None]
            text = [y for k in nodes for y in ast.walk(k)]
            if own.lookup("__getattr__") is not None or any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("setattr", "vars") for y in text) \
                    or any(isinstance(y, ast.Attribute) and y.attr == "__dict__" for y in text):
                continue
            known = set(dir(object)) | {"__dict__"}
            for k in own.mro():
                known |= set(k.ns)
            for y in text:
                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                    known.add(y.attr)
                elif isinstance(y, ast.AnnAssign) and isinstance(y.target, ast.Name):
                    known.add(y.target.id)
            # attributes stored from outside the class
            for mm in c.modules:
                for y in ast.walk(mm.tree):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and not (isinstance(y.value, ast.Name) and y.value.id == "self"):
                        known.add(y.attr)
            miss = set()
            for f in node.body:
                if isinstance(f, ast.FunctionDef) and f.args.args:
                    me = f.args.args[0].arg
                    for y in ast.walk(f):
                        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == me and isinstance(y.ctx, ast.Load):
                            n += 1
                            if y.attr not in known and not any(isinstance(d, ast.Name) and d.id in ("staticmethod",) for d in f.decorator_list):
                                miss.add(f"{f.name}: {me}.{y.attr}")
            ck.require(f"attributes of {m.name}.{node.name}", not miss, f"{m.path}:{node.name}", f"read but never set: {sorted(miss)[:4]}", "an attribute that is read is set somewhere")
    ck.count("attribute reads", n)


def stub_names(path):
    out = set()
    tree = ast.parse(open(path, encoding="utf-8").read())
    for x in ast.walk(tree):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in x.names}
            if isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names):
                return None
    def go(body):
        for x in body:
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.Assign):
                out.update(t.id for t in x.targets if isinstance(t, ast.Name))
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
            elif isinstance(x, ast.If):
                go(x.body)
                go(x.orelse)
    go(tree.body)
    return out


def numpy_names(ck, w):
    """Functions of the installed NumPy used by the library are declared in its interface file."""
    found = sorted(glob.glob("/opt/venv/lib/python3*/site-packages/numpy/__init__.pyi"))
    if not found:
        return
    top = os.path.dirname(found[0])
    files = {"numpy": found[0], "numpy.linalg": os.path.join(top, "linalg", "__init__.pyi"), "numpy.random": os.path.join(top, "random", "__init__.pyi")}
    table = {k: stub_names(p) for k, p in files.items() if os.path.exists(p)}
    c = Census(w)
    bad, n = {}, 0
    for m, scopes, x in c.walk():
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            v = c.resolve(x.value, m, scopes)
            if isinstance(v, Ext) and table.get(v.name):
                n += 1
                if x.attr not in table[v.name] and not x.attr.startswith("__") and not os.path.isdir(os.path.join(top, x.attr)) and not guarded_attr(scopes, m, x):
                    bad.setdefault((c.place(m, scopes), f"{v.name}.{x.attr}"), 0)
    ck.count("NumPy names", n)
    for place, nm in bad:
        ck.bad(f"{nm} used in {place} exists", place, f"{nm} is not declared by the installed NumPy", "library functions used exist")
    if n and not bad:
        ck.ok("NumPy functions used exist", "gpmp", f"{n} uses", "library functions used exist")


def run(ck):
    ck.rule = "name resolution over the syntax trees; import graph from the value graph of every module; reaching definitions; call binding"
    for b in BACKENDS:
        w = ck.world(b)
        ck.guard(f"exports [{b}]", lambda: exports(ck, w, b), "gpmp")
        ck.guard(f"documented names [{b}]", lambda: documented(ck, w, b), "docs")
        ck.guard(f"imports [{b}]", lambda: imports(ck, w, b), "gpmp")
        ck.guard(f"uses [{b}]", lambda: uses(ck, w, b), "gpmp")
    ck.guard("optional imports", lambda: optional(ck, ck.world("numpy"), "numpy"), "gpmp")
    ck.guard("attributes", lambda: selves(ck, ck.world("numpy"), "numpy"), "gpmp")
    ck.guard("NumPy names", lambda: numpy_names(ck, ck.world("numpy")), "gpmp")

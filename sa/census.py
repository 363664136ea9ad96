"""Name resolution at every site of the syntax trees: what each name, attribute chain and callee refers to."""
import ast

from .vgraph import Mod, Ext, Func, Cls, Bound, Static, UNDEF, CANON, Phi

UNKNOWN = None


class Local:
    """A value bound in a function: known only by the expression that binds it."""

    def __init__(self, name, exprs):
        self.name, self.exprs = name, exprs


class Scope:
    def __init__(self, node, parent, qual):
        self.node, self.parent, self.qual = node, parent, qual
        self.bound, self.imports, self.assigned, self.globals = set(), {}, {}, set()
        self.params = []
        if node is not None and not isinstance(node, ast.ClassDef):
            a = node.args
            self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            self.params += [x.arg for x in (a.vararg, a.kwarg) if x]
            self.bound |= set(self.params)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self.collect(s)
        self.bound -= self.globals

    def collect(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.bound.add(n.name)
            for d in n.decorator_list:
                self.collect(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            self.globals |= set(n.names)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                nm = al.asname or (al.name.split(".")[0] if isinstance(n, ast.Import) else al.name)
                self.bound.add(nm)
                self.imports.setdefault(nm, (n, al))
            return
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.assigned.setdefault(n.targets[0].id, []).append(n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.assigned.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.For)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        self.assigned.setdefault(x.id, []).append(None)
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.bound.add(n.name)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)
        for c in ast.iter_child_nodes(n):
            self.collect(c)


class Census:
    """All call sites of the analysed modules with resolved callees."""

    def __init__(self, w, prefix="gpmp"):
        self.w, self.it = w, w.it
        self.modules = [m for m in w.repo.modules.values() if m.name == prefix or m.name.startswith(prefix + ".")]

    # ------------------------------------------------------------------ resolution
    def resolve(self, e, mod, scopes, depth=0):
        """Value an expression refers to, or None when it is not a static name."""
        if depth > 8:
            return UNKNOWN
        if isinstance(e, ast.Name):
            for sc in reversed(scopes):
                if isinstance(sc.node, ast.ClassDef) and sc is not scopes[-1]:
                    continue
                if e.id in sc.imports:
                    return self.imported(*sc.imports[e.id], mod)
                if e.id in sc.bound:
                    xs = sc.assigned.get(e.id)
                    if xs and len(xs) == 1 and xs[0] is not None and e.id not in sc.params:
                        r = self.resolve(xs[0], mod, scopes, depth + 1)
                        if r is not UNKNOWN:
                            return r
                    return Local(e.id, xs or [])
            return self.global_(e.id, mod)
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value, mod, scopes, depth + 1)
            return self.attr(b, e.attr)
        return UNKNOWN

    def global_(self, name, mod):
        d = self.it.st.heap[self.it.load(mod.name).env]
        if name in d:
            v = self.it.resolve(d[name])
            return v
        import builtins
        if hasattr(builtins, name):
            return Ext("builtins." + name)
        return UNKNOWN

    def attr(self, b, name):
        if isinstance(b, Mod):
            d = self.it.st.heap[b.env]
            if name in d:
                return self.it.resolve(d[name])
            sub = b.name + "." + name
            return self.it.load(sub) if sub in self.it.repo.modules else UNKNOWN
        if isinstance(b, Ext):
            nm = CANON.get(b.name, b.name) + "." + name
            return Ext(CANON.get(nm, nm))
        if isinstance(b, Cls):
            v = b.lookup(name)
            return getattr(v, "fn", v) if isinstance(v, Static) else v
        return UNKNOWN

    def imported(self, n, al, mod):
        it = self.it
        if isinstance(n, ast.Import):
            nm = al.name if al.asname else al.name.split(".")[0]
            return it.load(nm) if nm in it.repo.modules else Ext(CANON.get(nm, nm))
        base = n.module or ""
        if n.level:
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (n.level - 1)]
            base = ".".join(parts + ([n.module] if n.module else []))
        if base in it.repo.modules:
            m = it.load(base)
            return self.attr(m, al.name)
        nm = base + "." + al.name
        return Ext(CANON.get(nm, nm))

    # ------------------------------------------------------------------ traversal
    def walk(self):
        """(module, scopes, node) for every node outside annotations."""
        for m in self.modules:
            yield from self._walk(m, m.tree, [])

    def _walk(self, m, n, scopes):
        yield m, scopes, n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(n, "decorator_list", []):
                yield from self._walk(m, d, scopes)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                yield from self._walk(m, d, scopes)
            name = getattr(n, "name", "<lambda>")
            q = (scopes[-1].qual + "." if scopes else "") + name
            sc = Scope(n, scopes[-1] if scopes else None, q)
            for s in (n.body if isinstance(n.body, list) else [n.body]):
                yield from self._walk(m, s, scopes + [sc])
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases:
                yield from self._walk(m, d, scopes)
            q = (scopes[-1].qual + "." if scopes else "") + n.name
            sc = Scope(n, scopes[-1] if scopes else None, q)
            for s in n.body:
                yield from self._walk(m, s, scopes + [sc])
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            sc = CompScope(n, scopes)
            first = True
            for g in n.generators:
                yield from self._walk(m, g.iter, scopes if first else scopes + [sc])
                first = False
                for i in g.ifs:
                    yield from self._walk(m, i, scopes + [sc])
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                yield from self._walk(m, x, scopes + [sc])
            return
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns"):
                continue
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    yield from self._walk(m, c, scopes)

    def calls(self):
        for m, scopes, n in self.walk():
            if isinstance(n, ast.Call):
                yield m, scopes, n, self.resolve(n.func, m, scopes)

    @staticmethod
    def place(m, scopes):
        return m.path + (":" + scopes[-1].qual if scopes else "")


class CompScope(Scope):
    def __init__(self, node, scopes):
        self.node, self.parent, self.qual = node, None, scopes[-1].qual if scopes else "<module>"
        self.bound, self.imports, self.assigned, self.globals, self.params = set(), {}, {}, set(), []
        for g in node.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    self.bound.add(x.id)
                    self.assigned.setdefault(x.id, []).append(None)

"""Behaviour-preserving rewrites of the whole package, applied one kind at a time to a scratch copy; every check
must stay quiet.  python3 tools/refactor.py [kind,...|all] [checks,...|all] [jobs]"""
import ast
import copy
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def stored(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


class Funcs(ast.NodeTransformer):
    """Applies `fn` to every function body."""

    def __init__(self, fn):
        self.fn = fn

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return self.fn(n) or n


def doc_split(n):
    b = n.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        return b[:1], b[1:]
    return [], b


def k_unparse(t):
    return t


def k_locals(t):
    """Rename local variables."""
    def fn(n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Delete, ast.Import, ast.ImportFrom, ast.ExceptHandler, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for s in n.body for x in ast.walk(s)):
            return n
        if any(isinstance(x, ast.Name) and x.id in ("locals", "vars", "eval", "exec") for x in ast.walk(n)):
            return n
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        loc = {v for s in n.body for v in stored(s)} - params
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id = x.id + "_v"
        return n
    return Funcs(fn).visit(t)


def k_return(t):
    """return e -> result = e; return result"""
    class R(ast.NodeTransformer):
        def visit_Return(self, n):
            if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
                return n
            return [ast.Assign([ast.Name("_result", ast.Store())], n.value), ast.Return(ast.Name("_result", ast.Load()))]

        def visit_Lambda(self, n):
            return n
    return R().visit(t)


def k_invert(t):
    """if c: A else: B -> if not c: B else: A"""
    class R(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse:
                return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
            return n

        def visit_IfExp(self, n):
            self.generic_visit(n)
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    return R().visit(t)


def k_helper(t):
    """Move the body of every module-level function to a helper that it calls."""
    out = []
    for n in t.body:
        a = n.args if isinstance(n, ast.FunctionDef) else None
        if a is None or n.decorator_list or n.name.startswith("__") or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in ast.walk(n)) or names(n) & {"locals", "inspect", "globals", "__name__"}:
            out.append(n)
            continue
        doc, body = doc_split(n)
        if not body:
            out.append(n)
            continue
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        star = ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        h = ast.FunctionDef("_body_of_" + n.name, ast.arguments([], [ast.arg(p) for p in ps + star], None, [], [], None, []), body, [], None, type_params=[])
        call = ast.Call(ast.Name("_body_of_" + n.name, ast.Load()), [ast.Name(p, ast.Load()) for p in ps + star], [])
        n.body = doc + [ast.Return(call)]
        out += [h, n]
    t.body = out
    return t


def k_method_helper(t):
    """The same for methods."""
    class R(ast.NodeTransformer):
        def visit_ClassDef(self, c):
            out = []
            for n in c.body:
                a = n.args if isinstance(n, ast.FunctionDef) else None
                if (a is None or n.decorator_list or n.name.startswith("__") or not a.args or a.vararg or a.kwarg
                        or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in ast.walk(n)) or names(n) & {"locals", "super", "__class__"}):
                    out.append(n)
                    continue
                doc, body = doc_split(n)
                if not body:
                    out.append(n)
                    continue
                ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
                h = ast.FunctionDef("_do_" + n.name.lstrip("_"), ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), body, [], None, type_params=[])
                call = ast.Call(ast.Attribute(ast.Name(ps[0], ast.Load()), h.name, ast.Load()), [ast.Name(p, ast.Load()) for p in ps[1:]], [])
                n.body = doc + [ast.Return(call)]
                out += [h, n]
            c.body = out
            return c
    return R().visit(t)


def k_commute(t):
    """a * b -> b * a where one side is a number or both are plain names"""
    class R(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            numeric = lambda x: isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool)
            if isinstance(n.op, (ast.Add, ast.Mult)) and (numeric(n.left) or numeric(n.right)) and not any(isinstance(x, (ast.List, ast.Tuple)) or isinstance(x, ast.Constant) and not numeric(x) for x in (n.left, n.right)):
                return ast.BinOp(n.right, n.op, n.left)
            return n
    return R().visit(t)


def k_temps(t):
    """Name the arguments of calls in assignments: y = f(g(x)) -> t = g(x); y = f(t) (first argument only)."""
    count = [0]

    class R(ast.NodeTransformer):
        def visit_Assign(self, n):
            v = n.value
            if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and v.args and isinstance(v.args[0], (ast.Call, ast.BinOp, ast.Subscript)):
                if isinstance(v.func, ast.Attribute) and any(isinstance(x, ast.Call) for x in ast.walk(v.func)):
                    return n
                count[0] += 1
                nm = f"_t{count[0]}"
                first = v.args[0]
                v.args[0] = ast.Name(nm, ast.Load())
                return [ast.Assign([ast.Name(nm, ast.Store())], first), n]
            return n

        def visit_ClassDef(self, n):
            n.body = [self.visit(x) if isinstance(x, ast.FunctionDef) else x for x in n.body]
            return n

        def visit_Lambda(self, n):
            return n
    r = R()
    out = []
    for n in t.body:
        out.append(r.visit(n) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) else n)
    t.body = out
    return t


def k_loops(t):
    """for i in range(n): ... -> iterate over a list; list comprehension -> list(generator)"""
    class R(ast.NodeTransformer):
        def visit_ListComp(self, n):
            self.generic_visit(n)
            return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

        def visit_For(self, n):
            self.generic_visit(n)
            if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range":
                n.iter = ast.Call(ast.Name("list", ast.Load()), [n.iter], [])
            return n
    return R().visit(t)


def k_while(t):
    """for i in range(n): body -> i = 0; while i < n: body; i += 1 (simple bodies)"""
    class R(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            if n.orelse or not isinstance(n.target, ast.Name) or not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1):
                return n
            if any(isinstance(x, (ast.Continue, ast.FunctionDef, ast.Lambda)) for s in n.body for x in ast.walk(s)) or n.target.id in {v for s in n.body for v in stored(s)}:
                return n
            lim = "_lim_" + n.target.id
            i = n.target.id
            k = "_k_" + i
            nm = lambda s, c: ast.Name(s, c)
            return [ast.Assign([nm(lim, ast.Store())], n.iter.args[0]), ast.Assign([nm(k, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(nm(k, ast.Load()), [ast.Lt()], [nm(lim, ast.Load())]),
                              [ast.Assign([nm(i, ast.Store())], nm(k, ast.Load()))] + n.body + [ast.AugAssign(nm(k, ast.Store()), ast.Add(), ast.Constant(1))], [])]
    return R().visit(t)


def k_matmul(t):
    """gnp.matmul(a, b) -> a @ b; x ** 2 -> x * x for names"""
    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "matmul" and isinstance(n.func.value, ast.Name) and n.func.value.id == "gnp" and len(n.args) == 2 and not n.keywords:
                return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
            return n

        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) and n.right.value == 2:
                return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
            return n
    return R().visit(t)


def k_nested(t):
    """if a and b: -> if a: if b: (no else); x is None chains kept"""
    class R(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
                r = n.body
                for v in reversed(n.test.values):
                    r = [ast.If(v, r, [])]
                return r[0]
            return n
    return R().visit(t)


def k_else(t):
    """if c: return a; rest -> if c: return a else: rest"""
    def fix(body):
        for i, s in enumerate(body):
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.ClassDef, ast.FunctionDef)):
                    setattr(s, f, fix(getattr(s, f)))
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                s.orelse = fix(body[i + 1:])
                return body[:i + 1]
        return body

    def fn(n):
        doc, body = doc_split(n)
        n.body = doc + fix(body)
        return n
    return Funcs(fn).visit(t)


def k_reorder(t):
    """Swap adjacent independent simple assignments."""
    pure = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Attribute, ast.Load, ast.operator, ast.unaryop, ast.Subscript, ast.Tuple, ast.Compare, ast.cmpop, ast.expr_context)

    def ok(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and all(isinstance(x, pure) for x in ast.walk(s.value))

    def fix(body):
        body = list(body)
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if ok(a) and ok(b) and a.targets[0].id not in names(b) and b.targets[0].id not in names(a):
                body[i], body[i + 1] = b, a
                i += 2
            else:
                i += 1
        return body

    class R(ast.NodeTransformer):
        def generic_visit(self, n):
            super().generic_visit(n)
            for f in ("body", "orelse"):
                if isinstance(getattr(n, f, None), list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                    setattr(n, f, fix(getattr(n, f)))
            return n
    return R().visit(t)


def k_keywords(t):
    """Positional arguments of calls of functions of the same module become keywords."""
    sigs = {n.name: [x.arg for x in n.args.args] for n in t.body if isinstance(n, ast.FunctionDef) and not n.args.vararg and not n.args.posonlyargs}

    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in sigs and len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(sigs[n.func.id]):
                ps = sigs[n.func.id]
                n.keywords = [ast.keyword(p, a) for p, a in zip(ps[1:], n.args[1:])] + n.keywords
                n.args = n.args[:1]
            return n

        def visit_FunctionDef(self, n):
            local = {x.name for x in ast.walk(n) if isinstance(x, ast.FunctionDef) and x is not n} | {a.arg for a in n.args.args} | stored(n)
            saved = {k: sigs.pop(k) for k in list(sigs) if k in local}
            self.generic_visit(n)
            sigs.update(saved)
            return n
    return R().visit(t)


def k_compare(t):
    """a < b -> b > a; a <= b -> not (b < a) is not the same for nan, so only the mirror image"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class R(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in M:
                return ast.Compare(n.comparators[0], [M[type(n.ops[0])]()], [n.left])
            return n
    return R().visit(t)


def k_negate(t):
    """a - b -> -(b - a)?  exact in floating point; x / c with a constant power of two -> x * (1/c)"""
    class R(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.0, 4.0):
                return ast.BinOp(n.left, ast.Mult(), ast.Constant(1.0 / n.right.value))
            if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Constant) and n.left.value == 0.5:
                return ast.BinOp(n.right, ast.Div(), ast.Constant(2.0))
            if isinstance(n.op, ast.Add) and isinstance(n.right, ast.UnaryOp) and isinstance(n.right.op, ast.USub):
                return ast.BinOp(n.left, ast.Sub(), n.right.operand)
            return n
    return R().visit(t)


def k_imports(t):
    """import gpmp.num as gnp -> import gpmp.num as backend (names changed throughout the module)"""
    if any(isinstance(n, (ast.Import, ast.ImportFrom)) and any(a.asname == "gnp" for a in n.names) for n in t.body):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and n.id == "gnp":
                n.id = "backend_"
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if a.asname == "gnp":
                        a.asname = "backend_"
        t.body.append(ast.parse("gnp = backend_").body[0])
    return t


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("k_")}


def build(kind, d):
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns("__pycache__", ".git"), dirs_exist_ok=True)
    n = 0
    for root, ds, fs in os.walk(os.path.join(d, "gpmp")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                src = open(p).read()
                t = KINDS[kind](ast.parse(src))
                out = ast.unparse(ast.fix_missing_locations(t)) + "\n"
                n += out != ast.unparse(ast.parse(src)) + "\n"
                compile(out, p, "exec")
                open(p, "w").write(out)
    return n


def check(job):
    kind, d, c = job
    p = subprocess.run([sys.executable, "check.py", c], cwd=HERE, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, "ev"), VERIF_VERBOSE="1"), capture_output=True, text=True)
    und = [l for l in p.stdout.splitlines() if l.startswith("   undecided")]
    bad = [l for l in p.stdout.splitlines() if l.startswith("   violation")]
    return kind, c, p.returncode, len(und), bad[:2] or und[:2] or p.stderr.splitlines()[-2:]


def main():
    kinds = list(KINDS) if len(sys.argv) < 2 or sys.argv[1] == "all" else sys.argv[1].split(",")
    ids = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "checks")) if f.startswith("C") and f[1].isdigit()) if len(sys.argv) < 3 or sys.argv[2] == "all" else sys.argv[2].split(",")
    jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 7
    top = tempfile.mkdtemp(prefix="refac")
    try:
        with multiprocessing.Pool(jobs) as pool:
            for kind in kinds:
                d = os.path.join(top, kind)
                n = build(kind, d)
                print(f"== {kind}: {n} files changed", flush=True)
                if os.environ.get("TESTS"):
                    p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
                    print("   tests:", p.stdout.strip().splitlines()[-1:], flush=True)
                for _, c, rc, u, lines in pool.imap_unordered(check, [(kind, d, c) for c in ids]):
                    if rc or u:
                        print(f"{kind} {c} rc={rc} undecided={u}", *[l[:300] for l in lines], sep="\n     ", flush=True)
                shutil.rmtree(d)
    finally:
        shutil.rmtree(top, ignore_errors=True)


main()

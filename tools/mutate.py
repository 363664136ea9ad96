"""Mutation survey: apply one small syntactic change at a time to a scratch copy and run the checks
that analyse the changed function.  python3 tools/mutate.py N [seed] [jobs] [path prefix]
Prints the changes that no check reports (to be read by hand: equivalent, or a gap)."""
import ast
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SKIP = ()
NOISE = {"print", "info", "debug", "warning", "warn", "log", "_logger", "format", "set_title", "plot", "show"}


def coverage():
    """module -> function leaf -> [(seconds, check)]"""
    out = {}
    for f in sorted(os.listdir(os.path.join(HERE, "evidence"))):
        if not (f.endswith(".json") and f.count(".") == 1):
            continue
        d = json.load(open(os.path.join(HERE, "evidence", f)))
        for q in d["coverage"].get("functions", ()):
            m, _, n = q.partition(":")
            out.setdefault(m, {}).setdefault(n.split(".")[-1], set()).add((d["wall_s"], d["property"]))
    return out


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.stack, self.sites = [], []

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for x in n.args.defaults + n.args.kw_defaults:
            if x is not None:
                self.visit(x)
        for i, s in enumerate(n.body):
            if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        self.stack.pop()

    def visit_ClassDef(self, n):
        for s in n.body:
            self.visit(s)

    def visit_Raise(self, n):
        pass

    def visit_JoinedStr(self, n):
        pass

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Call(self, n):
        f = n.func
        leaf = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if leaf in NOISE:
            return
        self.generic_visit(n)
        self.add(n)

    def add(self, n):
        if self.stack:
            self.sites.append((n, tuple(self.stack)))

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.BinOp, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Constant, ast.If, ast.IfExp, ast.AugAssign, ast.Assign, ast.Slice, ast.Expr, ast.For, ast.Return, ast.Subscript)):
            self.add(n)


BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.MatMult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def variants(n):
    """Functions that change node n in place (or return a replacement)."""
    out = []
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.op, ast.MatMult) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
        out.append(("op", lambda m: setattr(m, "op", BIN[type(m.op)]())))
    if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
        out.append(("augop", lambda m: setattr(m, "op", BIN[type(m.op)]())))
        out.append(("aug to assign", lambda m: ast.Assign([m.target], m.value)))
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
        out.append(("cmp", lambda m: setattr(m, "ops", [CMP[type(m.ops[0])]()])))
    if isinstance(n, ast.BoolOp):
        out.append(("and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
        out.append(("drop operand", lambda m: m.values[0]))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
        out.append(("drop unary", lambda m: m.operand))
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            out.append(("flip", lambda m: setattr(m, "value", not m.value)))
        elif isinstance(v, int):
            out.append(("int+1", lambda m: setattr(m, "value", m.value + 1)))
            if v > 0:
                out.append(("int-1", lambda m: setattr(m, "value", m.value - 1)))
        elif isinstance(v, float):
            out.append(("float", lambda m: setattr(m, "value", m.value * 2 if m.value else 1.0)))
    if isinstance(n, ast.If):
        out.append(("negate if", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
        out.append(("drop if", lambda m: ast.Pass() if not m.orelse else None))
    if isinstance(n, ast.IfExp):
        out.append(("negate ifexp", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        out.append(("drop call", lambda m: ast.Pass()))
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
        out.append(("drop store", lambda m: ast.Pass()))
    if isinstance(n, ast.Call):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append(("swap args", lambda m: setattr(m, "args", [m.args[1], m.args[0]] + m.args[2:])))
        if n.keywords and all(k.arg for k in n.keywords):
            out.append(("drop keyword", lambda m: setattr(m, "keywords", m.keywords[1:])))
            out.append(("drop last keyword", lambda m: setattr(m, "keywords", m.keywords[:-1])))
        f = n.func
        leaf = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if len(n.args) >= 1 and leaf not in ("range", "len", "isinstance", "hasattr", "getattr", "super", "list", "tuple"):
            out.append(("call to argument", lambda m: m.args[0]))
        elif not n.args and isinstance(f, ast.Attribute):
            out.append(("method to object", lambda m: m.func.value))
    return out


def apply(src, idx, vi):
    tree = ast.parse(src)
    s = Sites()
    s.visit(tree)
    n, stack = s.sites[idx]
    before = ast.unparse(n).split("\n")[0][:90]
    label, fn = variants(n)[vi]
    r = fn(n)
    if isinstance(r, ast.AST):
        class R(ast.NodeTransformer):
            def visit(self, x):
                if x is n:
                    return ast.copy_location(r, n)
                return self.generic_visit(x)
        tree = R().visit(tree)
        after = ast.unparse(ast.fix_missing_locations(r)).split("\n")[0][:90]
    else:
        after = ast.unparse(ast.fix_missing_locations(n)).split("\n")[0][:90]
    if before == after:
        return None
    return ast.unparse(ast.fix_missing_locations(tree)) + "\n", n.lineno, stack, label, before, after


def one(job):
    path, idx, vi, checks = job
    src = open(os.path.join(REPO, path)).read()
    try:
        r = apply(src, idx, vi)
    except Exception as e:   # noqa
        return None
    if r is None:
        return None
    text, line, stack, label, before, after = r
    try:
        compile(text, path, "exec")
    except SyntaxError:
        return None
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(os.path.join(REPO, "gpmp"), os.path.join(d, "gpmp"), ignore=shutil.ignore_patterns("__pycache__"))
        for extra in ("docs", "examples", "README.md", "pyproject.toml"):
            if os.path.exists(os.path.join(REPO, extra)):
                os.symlink(os.path.join(REPO, extra), os.path.join(d, extra))
        open(os.path.join(d, path), "w").write(text)
        head = f"{path}:{line} {'.'.join(stack)} [{label}] {before}  ->  {after}"
        errs = []
        for _, c in sorted(checks):
            try:
                p = subprocess.run([sys.executable, "check.py", c], cwd=HERE, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, "ev")), capture_output=True, text=True, timeout=1200)
            except subprocess.TimeoutExpired:
                errs.append(c + "=timeout")
                continue
            if p.returncode == 1:
                return ("killed by " + c, head)
            if p.returncode != 0:
                errs.append(f"{c}={p.returncode}")
        return ("SURVIVED " + " ".join(errs) + " (" + " ".join(c for _, c in sorted(checks)) + ")", head)
    finally:
        shutil.rmtree(d)


def main():
    N = int(sys.argv[1])
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 6
    prefix = sys.argv[4] if len(sys.argv) > 4 else "gpmp/"
    only = sys.argv[5].split(",") if len(sys.argv) > 5 else None
    cov = coverage()
    todo, uncovered = [], set()
    for root, ds, fs in os.walk(os.path.join(REPO, "gpmp")):
        for f in sorted(fs):
            path = os.path.relpath(os.path.join(root, f), REPO)
            if not f.endswith(".py") or path.startswith(SKIP) or not path.startswith(prefix):
                continue
            mod = path[:-3].replace("/", ".")
            mod = mod[:-9] if mod.endswith(".__init__") else mod
            s = Sites()
            s.visit(ast.parse(open(os.path.join(REPO, path)).read()))
            for i, (n, stack) in enumerate(s.sites):
                cs = set()
                for nm in stack:
                    cs |= cov.get(mod, {}).get(nm, set())
                if not cs:
                    uncovered.add(f"{mod}:{'.'.join(stack)}")
                    continue
                if only:
                    cs = {c for c in cs if c[1] in only}
                    if not cs:
                        continue
                for v in range(len(variants(n))):
                    todo.append((path, i, v, tuple(cs)))
    print(len(todo), "changes possible;", len(uncovered), "functions not analysed by any check:", ", ".join(sorted(uncovered)), flush=True)
    random.Random(seed).shuffle(todo)
    k = s = 0
    with multiprocessing.Pool(jobs) as pool:
        for r in pool.imap_unordered(one, todo[:N]):
            if r is None:
                continue
            k += 1
            if not r[0].startswith("killed"):
                s += 1
                print(r[0], "|", r[1], flush=True)
            elif os.environ.get("VERIF_VERBOSE"):
                print(r[0], "|", r[1], flush=True)
    print(f"{k} changes, {s} not reported")


main()

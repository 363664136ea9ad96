"""Source loading: parse every module of the analysed tree from its current files."""
import ast
import os


class ModSrc:
    def __init__(self, name, path, src, tree, is_pkg):
        self.name, self.path, self.src, self.tree, self.is_pkg = name, path, src, tree, is_pkg


class Repo:
    def __init__(self, root="/repo", pkg="gpmp"):
        self.root = root
        self.modules = {}
        base = os.path.join(root, pkg)
        for dp, dn, fn in os.walk(base):
            dn.sort()
            if "__pycache__" in dp:
                continue
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                if is_pkg:
                    rel = rel[:-9]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.modules[rel] = ModSrc(rel, os.path.relpath(p, root), src, ast.parse(src, p), is_pkg)
        if not self.modules:
            raise SystemExit("no sources found under " + base)


def _add_spec(self, d):
    """Specification modules, parsed (never executed) next to the analysed sources."""
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            name = "spec" if f == "__init__.py" else "spec." + f[:-3]
            p = os.path.join(d, f)
            src = open(p).read()
            self.modules[name] = ModSrc(name, p, src, ast.parse(src), f == "__init__.py")


Repo.add_spec = _add_spec

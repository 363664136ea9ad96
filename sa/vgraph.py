"""Interprocedural gated value-graph construction for the gpmp sources.

Statements are translated (never executed) into value-graph nodes: each variable holds a term in the normal
form of ``terms``; control-flow joins become selector terms; calls to repository functions are inlined; calls
to library functions are modelled in ``prims``; loops over symbolic ranges become sums, maps, element-wise
stores or recurrence nodes.  Anything outside the modelled subset becomes an explicit opaque node, and
comparisons that meet an opaque node are reported as undecided, never as a violation.
"""
import ast
import builtins as _bi
import os
from fractions import Fraction

from .terms import *
from . import ops
from .ops import Unsup, SliceV, D, is1


# ------------------------------------------------------------------------------------------- values
class Obj:
    """Heap identity (list, dict, set, inst, env)."""
    __slots__ = ("kind", "cls", "name")

    def __init__(self, kind, cls=None, name=None):
        self.kind, self.cls, self.name = kind, cls, name

    def __repr__(self):
        return f"<{self.kind} {self.name or (self.cls.name if self.cls else '')}>"


class Opq:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k if len(k) < 400 else k[:360] + "#" + str(hash_(k))

    def __repr__(self):
        return f"Opq({self.k})"


def hash_(s):
    import hashlib
    return hashlib.md5(s.encode()).hexdigest()[:12]


class Phi:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"Phi({show(self.c)}, {self.a!r}, {self.b!r})"


class Func:
    def __init__(self, node, mod, env, name, defaults, kwdefaults, cls=None):
        self.node, self.mod, self.env, self.name = node, mod, env, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls

    def __repr__(self):
        return f"<func {self.qual}>"

    @property
    def qual(self):
        return f"{self.mod}:{(self.cls.name + '.') if self.cls else ''}{self.name}"


class Bound:
    __slots__ = ("self_", "fn")

    def __init__(self, s, f):
        self.self_, self.fn = s, f


class Cls:
    def __init__(self, name, mod, ns, bases, node=None):
        self.name, self.mod, self.ns, self.bases, self.node = name, mod, ns, bases, node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            else:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name]
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class Static:
    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Mod:
    def __init__(self, name, env):
        self.name, self.env = name, env

    def __repr__(self):
        return f"<mod {self.name}>"


class Ext:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<ext {self.name}>"


class ExtM:
    """Method of a modelled value: obj.name."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class UF:
    """Modelled callable supplied by the analysis (user covariance, criterion, ...)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<uf {self.name}>"


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class ExcV:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, (Ext, Cls)) else "?"

    def __repr__(self):
        return f"<exc {self.name}>"


class SymSeq:
    """Sequence of symbolic length: concatenation of segments.
    segment = ('map', n: Poly, ivar id, value) | ('lit', tuple of values)."""

    def __init__(self, segs):
        self.segs = segs


class Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


class Stop(Exception):
    """The current path has ended (return/raise/break/continue recorded)."""


class State:
    __slots__ = ("heap", "pc", "facts", "nograd")

    def __init__(self, heap=None, pc=ONE, facts=None, nograd=False):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.facts = facts if facts is not None else {}
        self.nograd = nograd

    def copy(self):
        return State(dict(self.heap), self.pc, dict(self.facts), self.nograd)


class Frame:
    def __init__(self, fn, env):
        self.fn, self.env = fn, env
        self.returns = []
        self.raises = []
        self.loops = []
        self.yields = None
        self.ybase = (ONE, 0)
        self.globals_ = set()
        self.nonlocals_ = set()


_EXC_PARENT = {
    "numpy.linalg.LinAlgError": "builtins.ValueError",
    "torch.linalg.LinAlgError": "builtins.RuntimeError",
    "scipy.linalg.LinAlgWarning": "builtins.RuntimeWarning",
    "scipy.linalg.LinAlgError": "numpy.linalg.LinAlgError",
}


def exc_mro(name):
    out = [name]
    while name in _EXC_PARENT:
        name = _EXC_PARENT[name]
        out.append(name)
    if name.startswith("builtins."):
        c = getattr(_bi, name[9:], None)
        if isinstance(c, type):
            out += ["builtins." + k.__name__ for k in c.__mro__[1:]]
    return out


CANON = {
    "np": "numpy",
    "numpy.linalg.linalg.LinAlgError": "numpy.linalg.LinAlgError",
    "scipy.linalg.LinAlgError": "numpy.linalg.LinAlgError",
    "torch._C._LinAlgError": "torch.linalg.LinAlgError",
}


class Builder:
    UNROLL = 3000

    def __init__(self, repo, backend="numpy", root="/repo", torch_present=True):
        self.repo, self.backend, self.root = repo, backend, root
        self.st = State()
        self.mods = {}
        self.frames = []
        self.notes = []
        self.calls = {}            # repo function -> number of times translated
        self.extcalls = {}         # library function -> number of call sites translated
        self.intercept = {}        # qualified name -> handler
        self.fail = None           # (predicate(name), ExcV factory)
        self.imports = []          # (importing module, imported module or name, resolved) in execution order
        self.rng_count = 0
        self.views = {}
        self.alias = {}         # array -> array whose memory it may share
        self.watch = None       # when a dict of arrays: writes that reach them are recorded
        self.writes = []
        self.depth = 0
        self.maxdepth = 60
        self.torch_present = torch_present
        self.torch_default = "h"
        self.environ = Obj("dict", name="environ")
        self.st.heap[self.environ] = {"GPMP_BACKEND": backend}
        self.opaque_reasons = {}
        self.stmt_sites = set()
        self.loop_depth = 0
        from . import prims
        self.prims = prims

    # ------------------------------------------------------------------ helpers
    def where(self):
        """Innermost repository function being translated."""
        for fr in reversed(self.frames):
            if fr.fn is not None:
                return fr.fn.qual
            m = getattr(fr, "modname", None)
            if m:
                return m
        return ""

    def note(self, s):
        if len(self.notes) < 500:
            self.notes.append(s)

    def opq(self, why, *parts):
        self.opaque_reasons[why] = self.opaque_reasons.get(why, 0) + 1
        return Opq(why + "(" + ",".join(self.vkey(p) for p in parts) + ")")

    def V(self, v):
        """Current contents of an array value."""
        if isinstance(v, Ten):
            w = self.views.get(v)
            if w is not None:
                base, items, snap = w
                cur = self.V(base)
                if cur is not snap:
                    try:
                        r = ops.index(cur, items)
                        return r
                    except Unsup:
                        pass
                return v
            return self.st.heap.get(v, v)
        return v

    def content(self, o):
        return self.st.heap[o]

    def new(self, kind, content, cls=None, name=None):
        o = Obj(kind, cls, name)
        self.st.heap[o] = content
        return o

    def mklist(self, xs):
        return self.new("list", tuple(xs))

    def mkdict(self, d):
        return self.new("dict", dict(d))

    def vkey(self, v, depth=0):
        if depth > 6:
            return "..."
        v = self.resolve(v)
        if isinstance(v, Ten):
            v = self.V(v)
            return key(v)
        if isinstance(v, Poly):
            return key(v)
        if isinstance(v, tuple):
            return "(" + ",".join(self.vkey(x, depth + 1) for x in v) + ")"
        if isinstance(v, Opq):
            return "opq:" + v.k
        if isinstance(v, Obj):
            c = self.st.heap.get(v)
            if isinstance(c, tuple):
                return v.kind + "[" + ",".join(self.vkey(x, depth + 1) for x in c) + "]"
            if isinstance(c, dict) and v.kind == "dict":
                return "dict{" + ",".join(f"{k!r}:{self.vkey(x, depth + 1)}" for k, x in sorted(
                    c.items(), key=lambda t: str(t[0]))) + "}"
            if isinstance(c, SymSeq):
                return self.vkey(c, depth + 1)
            if v.kind == "inst":
                return f"inst:{v.cls.name if v.cls else v.name}"
            return v.kind
        if isinstance(v, SymSeq):
            out = []
            for s in v.segs:
                if s[0] == "lit":
                    out += [self.vkey(x, depth + 1) for x in s[1]]
                elif s[0] == "hole":
                    out.append(f"hole({s[1]})")
                else:
                    out.append(f"map[{key(s[1])}]" + self._vkey_env(s[3], {s[2]: "m"}, depth + 1))
            return "seq[" + ",".join(out) + "]"
        if isinstance(v, Phi):
            return f"phi({key(v.c)},{self.vkey(v.a, depth + 1)},{self.vkey(v.b, depth + 1)})"
        if isinstance(v, Func):
            return "func:" + v.qual
        if isinstance(v, Bound):
            return "bound:" + self.vkey(v.fn)
        if isinstance(v, Cls):
            return "cls:" + v.name
        if isinstance(v, (UF, Mod, Ext)):
            return v.name
        if isinstance(v, ExtM):
            return self.vkey(v.obj, depth + 1) + "." + v.name
        if isinstance(v, (str, int, float, bool)) or v is None:
            return repr(v)
        if isinstance(v, SliceV):
            return f"slice({self.vkey(v.lo)},{self.vkey(v.hi)},{self.vkey(v.step)})"
        return type(v).__name__

    def _vkey_env(self, v, env, depth):
        if isinstance(v, Ten):
            return key(self.V(v), env, 1)
        if isinstance(v, tuple):
            return "(" + ",".join(self._vkey_env(x, env, depth + 1) for x in v) + ")"
        return self.vkey(v, depth)

    # ------------------------------------------------------------------ facts / conditions
    def reduce_cond(self, c):
        if not c.terms or c.const() is not None or not self.st.facts:
            return c
        for a in indicators(c):
            k = key(a)
            if k in self.st.facts:
                c = assume(c, k, self.st.facts[k])
        return c

    def learn(self, st, c, val):
        """Record indicator facts implied by condition c having truth value val."""
        p = c if val else b_not(c)
        if len(p.terms) == 1:
            m, k = p.terms[0]
            if k == 1 and not m.sums and all(a.op == "ind" for a, _ in m.factors):
                for a, _ in m.factors:
                    st.facts[key(a)] = 1
        q = b_not(p)
        if len(q.terms) == 1:
            m, k = q.terms[0]
            if k == 1 and not m.sums and len(m.factors) == 1 and m.factors[0][0].op == "ind":
                st.facts[key(m.factors[0][0])] = 0

    def resolve(self, v):
        """Resolve selectors decided by the facts of the current path."""
        while isinstance(v, Phi):
            c = self.reduce_cond(v.c).const()
            if c is None:
                return v
            v = v.a if c != 0 else v.b
        return v

    # ------------------------------------------------------------------ merging
    def phi(self, c, a, b, sa=None, sb=None):
        """Value that is a when c else b (a read in state sa, b in state sb)."""
        cc = c.const()
        if cc is not None:
            return a if cc != 0 else b
        if a is b:
            return a
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        ta, tb = self._num(a), self._num(b)
        if isinstance(ta, Ten) and isinstance(tb, Ten):
            va = self._in(sa, ta)
            vb = self._in(sb, tb)
            if va.rank == vb.rank and all(
                    (x is None and y is None) or (x is not None and y is not None and peq(x, y))
                    for x, y in zip(va.dims, vb.dims)):
                if key(va) == key(vb):
                    return a if ta is a else va
                try:
                    return ops.elementwise(lambda x, y: f_ite(c, x, y), va, vb,
                                           isbool=va.isbool and vb.isbool, tag=ops.join_tag(va, vb))
                except (Unsup, TermLimit):
                    pass
            return Phi(c, va, vb)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.phi(c, x, y, sa, sb) for x, y in zip(a, b))
        if a is None and b is None:
            return None
        if isinstance(a, (Ext, Opq)) and isinstance(b, type(a)) and self.vkey(a) == self.vkey(b):
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn and a.self_ is b.self_:
            return a
        if isinstance(a, Ten) and sa is not None:
            a = self._in(sa, a)
        if isinstance(b, Ten) and sb is not None:
            b = self._in(sb, b)
        return Phi(c, a, b)

    def _in(self, s, t):
        if s is None:
            return self.V(t)
        save = self.st
        self.st = s
        try:
            return self.V(t)
        finally:
            self.st = save

    def _num(self, v):
        if isinstance(v, bool):
            return Ten((), (), num(v), True, ("py", "b"))
        if isinstance(v, int):
            return Ten((), (), num(v), False, ("py", "i"))
        if isinstance(v, float):
            return Ten((), (), num(v), False, ("py", "f"))
        return v

    def merge2(self, c, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        h1, h2 = s1.heap, s2.heap
        out = {}
        for o in h1.keys() | h2.keys():
            if o not in h1:
                out[o] = h2[o] if isinstance(o, Obj) else self._mergecell(c, o, o, h2[o], s1, s2)
                continue
            if o not in h2:
                out[o] = h1[o] if isinstance(o, Obj) else self._mergecell(c, o, h1[o], o, s1, s2)
                continue
            a, b = h1[o], h2[o]
            if a is b:
                out[o] = a
                continue
            out[o] = self._mergecell(c, o, a, b, s1, s2)
        facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) == v}
        return State(out, padd(s1.pc, s2.pc), facts, s1.nograd and s2.nograd)

    def _mergecell(self, c, o, a, b, s1, s2):
        if isinstance(o, Ten):
            if key(a) == key(b):
                return a
            r = self.phi(c, a, b)
            return r if isinstance(r, Ten) else ops.tfn("opqcell", (self.vkey(r),), a.dims, a.tag)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b):
                return tuple(self.phi(c, x, y, s1, s2) for x, y in zip(a, b))
            return ("__phi__", c, a, b)
        if isinstance(a, SymSeq) and isinstance(b, SymSeq) and len(a.segs) == len(b.segs):
            segs = []
            for x, y in zip(a.segs, b.segs):
                if x[0] != y[0]:
                    break
                if x[0] == "hole" and x == y:
                    segs.append(x)
                elif x[0] == "lit" and len(x[1]) == len(y[1]):
                    segs.append(("lit", tuple(self.phi(c, u, v, s1, s2) for u, v in zip(x[1], y[1]))))
                elif x[0] == "map" and (x is y or x[1:] == y[1:]):
                    segs.append(x)
                elif x[0] == "map" and key(x[1]) == key(y[1]) and not isinstance(x[3], Opq) and not isinstance(y[3], Opq):
                    segs.append(("map", x[1], x[2], self.phi(c, x[3], self.subst_val(y[3], {y[2]: ivar(x[2])}), s1, s2)))
                else:
                    break
            else:
                return SymSeq(segs)
        if isinstance(a, dict) and isinstance(b, dict):
            r = {}
            for k in list(a) + [k for k in b if k not in a]:
                if k in a and k in b:
                    r[k] = self.phi(c, a[k], b[k], s1, s2)
                elif k in a:
                    r[k] = Phi(c, a[k], UNDEF)
                else:
                    r[k] = Phi(c, UNDEF, b[k])
            return r
        return ("__phi__", c, a, b)

    def merge_many(self, items):
        """items: [(pc, state)] with disjoint conditions."""
        acc = None
        for pc, s in reversed(items):
            acc = s if acc is None else self.merge2(pc, s, acc)
        return acc

    # ------------------------------------------------------------------ modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        m = self.repo.modules.get(name)
        if m is None:
            return Ext(CANON.get(name, name))
        env = Obj("env", name=name)
        self.st.heap[env] = {"__name__": name, "__file__": m.path}
        mod = Mod(name, env)
        self.mods[name] = mod
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            p = self.load(parent)
        fr = Frame(None, env)
        fr.modname = name
        saved = self.frames, self.depth, self.st.pc, self.st.facts
        self.frames = self.frames + [fr]
        self.st.pc, self.st.facts = ONE, {}
        try:
            self.tr_block(m.tree.body)
        except Stop:
            self.note(f"module {name} stopped: {fr.raises[:2]}")
        finally:
            self.frames, self.depth, _, _ = saved
            self.st.pc, self.st.facts = saved[2], saved[3]
        if "." in name:
            if isinstance(p, Mod):
                d = dict(self.st.heap[p.env])
                d.setdefault(leaf, mod)
                self.st.heap[p.env] = d
        return mod

    def mod_get(self, mod, name):
        d = self.st.heap[mod.env]
        if name in d:
            return self.resolve(d[name])
        sub = mod.name + "." + name
        if sub in self.repo.modules:
            return self.load(sub)
        if "__getattr__" in d:
            return self.call(d["__getattr__"], [name], {})
        return None

    def get(self, dotted):
        """'gpmp.core.kriging:kriging_predictor' or ':Class.method'."""
        m, q = dotted.split(":")
        mod = self.load(m)
        v = None
        for i, part in enumerate(q.split(".")):
            v = self.mod_get(mod, part) if i == 0 else self.getattr(v, part)
        return v

    @property
    def fr(self):
        return self.frames[-1]

    @property
    def modname(self):
        f = self.fr
        return f.modname

    # ------------------------------------------------------------------ names
    def lookup(self, name):
        fr = self.fr
        env = fr.env
        h = self.st.heap
        if name in fr.globals_:
            env = self.mods[fr.modname].env
        while env is not None:
            d = h[env]
            if name in d:
                v = self.resolve(d[name])
                if isinstance(v, Phi):
                    # a selector with an undefined arm: reading it means the definition ran
                    if v.a is UNDEF:
                        return self.resolve(v.b)
                    if v.b is UNDEF:
                        return self.resolve(v.a)
                return v
            env = d.get("__parent__")
        m = self.mods.get(fr.modname)
        if m is not None:
            d = h[m.env]
            if name in d:
                v = self.resolve(d[name])
                if isinstance(v, Phi):
                    if v.a is UNDEF:
                        return self.resolve(v.b)
                    if v.b is UNDEF:
                        return self.resolve(v.a)
                return v
        if hasattr(_bi, name):
            return Ext("builtins." + name)
        return self.opq("unbound", name)

    def assign_name(self, name, v):
        fr = self.fr
        env = fr.env
        if name in fr.globals_:
            env = self.mods[fr.modname].env
        elif name in fr.nonlocals_:
            e = self.st.heap[env].get("__parent__")
            while e is not None:
                if name in self.st.heap[e]:
                    env = e
                    break
                e = self.st.heap[e].get("__parent__")
        d = dict(self.st.heap[env])
        d[name] = v
        self.st.heap[env] = d

    def assign(self, target, v):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            if star:
                xs = self.to_list(v)
                if xs is None:
                    for e in target.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, self.opq("unpack", v))
                    return
                k = star[0]
                after = n - k - 1
                for e, x in zip(target.elts[:k], xs[:k]):
                    self.assign(e, x)
                self.assign(target.elts[k].value, self.mklist(xs[k:len(xs) - after]))
                for e, x in zip(target.elts[k + 1:], xs[len(xs) - after:] if after else []):
                    self.assign(e, x)
                return
            xs = self.unpack(v, n)
            for e, x in zip(target.elts, xs):
                self.assign(e, x)
        elif isinstance(target, ast.Attribute):
            o = self.ev(target.value)
            self.setattr(o, target.attr, v)
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value)
            idx = self.ev_index(target.slice)
            self.setitem(o, idx, v)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v)

    def unpack(self, v, n):
        v = self.resolve(v)
        if isinstance(v, Phi):
            xa = self.unpack(v.a, n) if v.a is not UNDEF and v.a is not None else None
            xb = self.unpack(v.b, n) if v.b is not UNDEF and v.b is not None else None
            if xa is None:
                return xb if xb is not None else [self.opq("unpack", v)] * n
            if xb is None:
                return xa
            return [self.phi(v.c, x, y) for x, y in zip(xa, xb)]
        xs = self.to_list(v)
        if xs is not None and len(xs) == n:
            return xs
        if xs is not None:
            self.raise_("builtins.ValueError", "unpack")
        if isinstance(v, Ten):
            t = self.V(v)
            if t.rank:
                return [ops.index(t, [k]) for k in range(n)]
        return [self.opq(f"unpack{k}/{n}", v) for k in range(n)]

    def iterate(self, v):
        """What iterating over v goes through: the items of __iter__ for instances that define it."""
        v = self.resolve(v)
        if isinstance(v, Obj) and v.kind == "inst" and v.cls is not None and v.cls.lookup("__iter__") is not None:
            v = self.resolve(self.call(self.getattr(v, "__iter__"), [], {}))
        return v

    def to_list(self, v):
        """Concrete sequence of values, or None."""
        v = self.resolve(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Obj):
            c = self.st.heap.get(v)
            if isinstance(c, tuple) and not (c and c[0] == "__phi__"):
                return list(c)
            if isinstance(c, dict) and v.kind in ("dict",):
                return list(c.keys())
            if isinstance(c, SymSeq):
                if all(s[0] == "lit" for s in c.segs):
                    return [x for s in c.segs for x in s[1]]
                return None
        if isinstance(v, SymSeq) and all(s[0] == "lit" for s in v.segs):
            return [x for s in v.segs for x in s[1]]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Ten):
            t = self.V(v)
            if t.rank and t.dims[0] is not None and t.dims[0].const() is not None:
                return [ops.index(t, [k]) for k in range(int(t.dims[0].const()))]
        return None

    def sym_iter(self, v):
        """(n, fn(ivar Poly) -> value) for iterables of symbolic length, or None."""
        v = self.resolve(v)
        if isinstance(v, Obj):
            c = self.st.heap.get(v)
            if isinstance(c, SymSeq):
                v = c
        if isinstance(v, SymSeq) and len(v.segs) == 1 and v.segs[0][0] == "map":
            _, n, b, val = v.segs[0]
            return n, lambda i: self.subst_val(val, {b: i})
        if isinstance(v, Ten):
            t = self.V(v)
            if t.rank and t.dims[0] is not None:
                return t.dims[0], lambda i: ops.index(t, [i])
        if isinstance(v, SymRange):
            return v.n, lambda i: Ten((), (), v.at(i), False, ("py", "i"))
        if isinstance(v, SymZip):
            its = []
            n = None
            for x in v.parts:
                s = self.sym_iter(x)
                if s is None:
                    xs = self.to_list(x)
                    return None
                its.append(s[1])
                n = s[0] if n is None else n
            return n, lambda i: tuple(f(i) for f in its)
        if isinstance(v, SymEnum):
            s = self.sym_iter(v.it)
            if s is None:
                return None
            return s[0], lambda i: (Ten((), (), padd(i, num(v.start)), False, ("py", "i")), s[1](i))
        return None

    def subst_val(self, v, m):
        if isinstance(v, Ten):
            t = self.V(v)
            return subst(t, m)
        if isinstance(v, Poly):
            return subst(v, m)
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, m) for x in v)
        if isinstance(v, Phi):
            return self.phi(subst(v.c, m), self.subst_val(v.a, m), self.subst_val(v.b, m))
        if isinstance(v, Obj) and v.kind == "list":
            c = self.st.heap[v]
            if isinstance(c, tuple):
                return self.mklist([self.subst_val(x, m) for x in c])
        if isinstance(v, Opq):
            return Opq(v.k + "@" + ",".join(key(p) for p in m.values()))
        return v

    # ------------------------------------------------------------------ exceptions
    def raise_(self, cls, *args):
        e = cls if isinstance(cls, ExcV) else ExcV(Ext(cls) if isinstance(cls, str) else cls, args)
        self.fr.raises.append((self.st.pc, e, self.st.copy()))
        raise Stop(e)

    def exc_matches(self, e, T):
        """True/False/None(unknown) whether ExcV e is an instance of T."""
        if isinstance(T, tuple):
            rs = [self.exc_matches(e, t) for t in T]
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        if isinstance(T, Obj) or isinstance(T, Opq) or T is None:
            return None
        names = []
        c = e.cls
        if isinstance(c, Cls):
            for k in c.mro():
                names.append(k.name if isinstance(k, Cls) else k.name)
                if isinstance(k, Ext):
                    names += exc_mro(CANON.get(k.name, k.name))
            if isinstance(T, Cls):
                return T in c.mro()
        elif isinstance(c, Ext):
            names = exc_mro(CANON.get(c.name, c.name))
        else:
            return None
        if isinstance(T, Ext):
            return CANON.get(T.name, T.name) in names
        if isinstance(T, Cls):
            return T.name in names
        return None

    # ------------------------------------------------------------------ statements
    def tr_block(self, stmts):
        for s in stmts:
            self.tr(s)

    def tr(self, s):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.note(f"unsupported statement {type(s).__name__}")
            self.havoc([s])
            return
        m(s)

    def havoc(self, stmts):
        names = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                    r = n
                    while isinstance(r, (ast.Attribute, ast.Subscript)):
                        r = r.value
                    if isinstance(r, ast.Name) and isinstance(n, ast.Subscript):
                        names.add(r.id)
        for n in sorted(names):
            self.assign_name(n, self.opq("havoc:" + n))

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            full = self.load(a.name)
            known = isinstance(full, Mod) or a.name.split(".")[0] not in self.repo.modules
            self.imports.append((self.modname, a.name, known))
            if a.asname:
                self.assign_name(a.asname, full)
            else:
                top = a.name.split(".")[0]
                self.assign_name(top, self.load(top))

    def x_ImportFrom(self, s):
        base = s.module or ""
        if s.level:
            pkg = self.modname.split(".")
            m = self.repo.modules.get(self.modname)
            if not (m and m.is_pkg):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (s.level - 1)] if s.level > 1 else pkg
            base = ".".join(pkg + ([s.module] if s.module else []))
        mod = self.load(base)
        internal = base.split(".")[0] in self.repo.modules
        self.imports.append((self.modname, base, isinstance(mod, Mod) or not internal))
        for a in s.names:
            if a.name == "*":
                if isinstance(mod, Mod):
                    d = self.st.heap[mod.env]
                    al = d.get("__all__")
                    names = self.to_list(al) if al is not None else [k for k in d if not k.startswith("_")]
                    for k in names or []:
                        if isinstance(k, str) and k in d:
                            self.assign_name(k, d[k])
                continue
            if isinstance(mod, Mod):
                v = self.mod_get(mod, a.name)
                self.imports.append((self.modname, base + "." + a.name, v is not None))
                if v is None:
                    v = self.opq("import", base, a.name)
            else:
                nm = base + "." + a.name
                self.imports.append((self.modname, nm, True))
                v = self.prims.ext_value(self, CANON.get(nm, nm))
            self.assign_name(a.asname or a.name, v)

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            r = self.ev(s.value)
            nv = self.binop(s.op, cur, r)
            if isinstance(cur, Ten) and isinstance(nv, Ten) and self.is_array(cur):
                self.mutate(cur, nv)
            elif isinstance(cur, Obj) and cur.kind == "list" and isinstance(nv, Obj):
                self.st.heap[cur] = self.st.heap[nv]
            else:
                self.assign_name(t.id, nv)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            r = self.ev(s.value)
            nv = self.binop(s.op, cur, r)
            if isinstance(cur, Ten) and isinstance(nv, Ten) and self.is_array(cur):
                self.mutate(cur, nv)
            else:
                self.setattr(o, t.attr, nv)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            idx = self.ev_index(t.slice)
            cur = self.getitem(o, idx)
            r = self.ev(s.value)
            self.setitem(o, idx, self.binop(s.op, cur, r))

    def is_array(self, t):
        return ops.lib(t) in ("np", "torch") and (t.rank > 0 or ops.lib(t) == "torch")

    def memory(self, obj):
        """The array whose memory an array shares."""
        for _ in range(100):
            if obj in self.views:
                obj = self.views[obj][0]
            elif obj in self.alias:
                obj = self.alias[obj]
            else:
                break
        return obj

    def shares(self, r, o):
        """r may be a view of o."""
        if self.watch is not None and isinstance(r, Ten) and isinstance(o, Ten) and r is not o and r not in self.views:
            self.alias[r] = o
        return r

    def wrote(self, obj, how=""):
        if self.watch is not None and isinstance(obj, Ten):
            b = self.memory(obj)
            if b in self.watch:
                self.writes.append((self.watch[b], self.where(), how))

    def mutate(self, obj, newval):
        """In-place update of array object."""
        self.wrote(obj)
        w = self.views.get(obj)
        newval = ops.with_tag(ops.copy(self.V(newval)), *(obj.tag or ("np", "f")))
        cur = self.V(obj)
        if newval.rank < cur.rank or newval.rank == cur.rank:
            try:
                newval = ops.broadcast_to(newval, cur.dims) if newval.rank != cur.rank or any(
                    is1(a) and not is1(b) for a, b in zip(newval.dims, cur.dims)) else newval
            except Exception:
                pass
        if w is not None:
            base, items, snap = w
            try:
                nb = ops.store(self.V(base), items, newval)
                watch, self.watch = self.watch, None
                try:
                    self.mutate(base, nb)
                finally:
                    self.watch = watch
                return
            except Unsup:
                self.note("view mutation not modelled")
        self.st.heap[obj] = newval

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                idx = self.ev_index(t.slice)
                if isinstance(o, Obj) and o.kind == "dict" and isinstance(idx, str):
                    d = dict(self.st.heap[o])
                    d.pop(idx, None)
                    self.st.heap[o] = d

    def x_Global(self, s):
        self.fr.globals_ |= set(s.names)

    def x_Nonlocal(self, s):
        self.fr.nonlocals_ |= set(s.names)

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test))
        cc = c.const()
        if cc == 0:
            self.raise_("builtins.AssertionError")
        if cc is None:
            self.cond_raise(b_not(c), ExcV(Ext("builtins.AssertionError")))

    def cond_raise(self, c, e):
        """Record a raise under condition c and continue under not c."""
        st = self.st.copy()
        st.pc = pmul(st.pc, c)
        self.learn(st, c, True)
        self.fr.raises.append((st.pc, e, st))
        self.st.pc = pmul(self.st.pc, b_not(c))
        self.learn(self.st, c, False)

    def x_Raise(self, s):
        if s.exc is None:
            e = getattr(self.fr, "handling", None) or ExcV(Ext("builtins.RuntimeError"))
        else:
            e = self.ev(s.exc)
            if isinstance(e, (Ext, Cls)):
                e = ExcV(e)
            if isinstance(e, Obj) and e.kind == "inst" and isinstance(e.cls, Cls):
                e = ExcV(e.cls, (e,))
            if not isinstance(e, ExcV):
                e = ExcV(Ext("builtins.Exception"), (e,))
        e.node = s
        self.fr.raises.append((self.st.pc, e, self.st.copy()))
        raise Stop()

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.fr.returns.append((self.st.pc, v, self.st))
        raise Stop()

    def x_Break(self, s):
        self.fr.loops[-1]["break"].append((self.st.pc, self.st))
        raise Stop()

    def x_Continue(self, s):
        self.fr.loops[-1]["continue"].append((self.st.pc, self.st))
        raise Stop()

    def branch(self, c, f1, f2):
        """Run f1 under c and f2 under not c; merge."""
        s0 = self.st
        s1 = s0.copy()
        s1.pc = pmul(s0.pc, c)
        self.learn(s1, c, True)
        s2 = s0.copy()
        s2.pc = pmul(s0.pc, b_not(c))
        self.learn(s2, c, False)
        r1 = r2 = None
        self.st = s1
        try:
            r1 = f1()
            e1 = self.st
        except Stop:
            e1 = None
        self.st = s2
        try:
            r2 = f2()
            e2 = self.st
        except Stop:
            e2 = None
        if e1 is None and e2 is None:
            self.st = s0
            raise Stop()
        if e1 is None:
            self.st = e2
            return r2
        if e2 is None:
            self.st = e1
            return r1
        r = self.phi(c, r1, r2, e1, e2)
        self.st = self.merge2(c, e1, e2)
        return r

    def x_If(self, s):
        c = self.reduce_cond(self.truth(self.ev(s.test)))
        cc = c.const()
        if cc is not None:
            self.tr_block(s.body if cc != 0 else s.orelse)
            return
        self.branch(c, lambda: self.tr_block(s.body), lambda: self.tr_block(s.orelse))

    def x_With(self, s):
        ng = self.st.nograd
        fr = self.fr
        n_ret, n_exc = len(fr.returns), len(fr.raises)
        for it in s.items:
            v = self.ev(it.context_expr)
            if isinstance(v, Opq) and ("torch.no_grad" in v.k or "torch.inference_mode" in v.k):
                self.st.nograd = True
            elif isinstance(v, Opq) and "torch.enable_grad" in v.k:
                self.st.nograd = False
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if not isinstance(v, Opq) else v)
        try:
            self.tr_block(s.body)
        finally:
            self.st.nograd = ng
            for _, _, st in fr.returns[n_ret:] + fr.raises[n_exc:]:
                st.nograd = ng

    def x_Try(self, s):
        fr = self.fr
        n0 = len(fr.raises)
        nr0 = len(fr.returns)
        s_b = None
        try:
            self.tr_block(s.body)
            body_ok = True
        except Stop:
            body_ok = False
        raises = fr.raises[n0:]
        del fr.raises[n0:]
        exits = []
        if body_ok:
            try:
                self.tr_block(s.orelse)
                exits.append((self.st.pc, self.st))
            except Stop:
                pass
        for pc, e, st in raises:
            handled = False
            for h in s.handlers:
                if h.type is None:
                    mt = True
                else:
                    self.st = st
                    T = self.ev(h.type)
                    if isinstance(T, Obj):
                        T = tuple(self.to_list(T) or ())
                    mt = self.exc_matches(e, T)
                if mt is None:
                    self.note("unknown handler match")
                    mt = False
                if mt:
                    self.st = st
                    if h.name:
                        self.assign_name(h.name, e)
                    old = getattr(fr, "handling", None)
                    fr.handling = e
                    try:
                        self.tr_block(h.body)
                        exits.append((self.st.pc, self.st))
                    except Stop:
                        pass
                    fr.handling = old
                    handled = True
                    break
            if not handled:
                fr.raises.append((pc, e, st))
        if not exits:
            if s.finalbody:
                pass
            raise Stop()
        # handler exits first, normal path last (unconditional arm)
        if body_ok and len(exits) > 1:
            exits = exits[1:] + exits[:1] if exits[0][1] is not None else exits
        self.st = self.merge_many(exits)
        if s.finalbody:
            self.tr_block(s.finalbody)

    x_TryStar = x_Try

    PEEL = 6        # iterations whose continuation depends on symbolic conditions

    def x_While(self, s):
        start = self.st.copy()
        nret, nra = len(self.fr.returns), len(self.fr.raises)
        exits = []
        peeled = 0
        for k in range(400):
            c = self.reduce_cond(self.truth(self.ev(s.test)))
            cc = c.const()
            if cc is None:
                if peeled == self.PEEL or s.orelse:
                    break
                peeled += 1
                s2 = self.st.copy()
                s2.pc = pmul(self.st.pc, b_not(c))
                self.learn(s2, c, False)
                exits.append((s2.pc, s2))
                self.st.pc = pmul(self.st.pc, c)
                self.learn(self.st, c, True)
            elif cc == 0:
                self.tr_block(s.orelse)
                self.st = self.merge_many(exits + [(self.st.pc, self.st)])
                return
            self.fr.loops.append({"break": [], "continue": []})
            try:
                self.tr_block(s.body)
                ends = [(self.st.pc, self.st)]
            except Stop:
                ends = []
            lp = self.fr.loops.pop()
            ends += lp["continue"]
            exits += lp["break"]
            if not ends:
                if not exits:
                    raise Stop()
                self.st = self.merge_many(exits)
                return
            if lp["break"]:
                peeled += 1
                if peeled > self.PEEL:
                    break
            self.st = self.merge_many(ends)
        self.note("symbolic while")
        self.st = start
        del self.fr.returns[nret:]
        del self.fr.raises[nra:]
        self.loop_havoc(s)

    def loop_havoc(self, s):
        """Abstract an unsummarised loop: everything it assigns becomes opaque."""
        self.havoc(s.body)
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in ("append", "extend", "update", "add", "insert", "pop"):
                try:
                    self.assign_name(n.func.value.id, self.opq("havoc:" + n.func.value.id))
                except Stop:
                    pass
            if isinstance(n, ast.Return):
                self.note("return inside abstracted loop")

    def x_For(self, s):
        it = self.iterate(self.ev(s.iter))
        xs = self.to_list(it)
        if xs is not None and len(xs) <= self.UNROLL:
            done = []
            for x in xs:
                self.fr.loops.append({"break": [], "continue": []})
                try:
                    self.assign(s.target, x)
                    self.tr_block(s.body)
                    ends = [(self.st.pc, self.st)]
                except Stop:
                    ends = []
                finally:
                    lp = self.fr.loops.pop()
                ends += lp["continue"]
                done += lp["break"]
                if not ends:
                    if done:
                        self.st = self.merge_many(done)
                        return
                    raise Stop()
                self.st = self.merge_many(ends)
            if s.orelse:
                self.tr_block(s.orelse)
            if done:
                self.st = self.merge_many(done + [(self.st.pc, self.st)])
            return
        sy = self.sym_iter(it)
        if sy is None:
            self.note(f"loop over {type(it).__name__}")
            # one abstract pass so that effects inside are seen, then havoc
            save = self.st.copy()
            nret, nra = len(self.fr.returns), len(self.fr.raises)
            self.fr.loops.append({"break": [], "continue": []})
            self.loop_depth += 1
            try:
                self.assign(s.target, self.opq("elem", it))
                self.tr_block(s.body)
            except Stop:
                pass
            self.loop_depth -= 1
            self.fr.loops.pop()
            del self.fr.returns[nret:]
            del self.fr.raises[nra:]
            self.st = save
            self.loop_havoc(s)
            return
        from .loops import symbolic_for
        try:
            symbolic_for(self, s, sy[0], sy[1])
        except (Unsup, TermLimit) as ex:
            self.note(f"loop not summarised: {ex}")
            self.loop_havoc(s)

    x_AsyncFor = x_For

    def x_FunctionDef(self, s):
        f = self.mkfunc(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v)
        self.assign_name(s.name, v)

    def decorate(self, d, v):
        name = ast.unparse(d)
        if name == "staticmethod":
            return Static(v, "static")
        if name == "classmethod":
            return Static(v, "class")
        if name == "property" or name.endswith("cached_property"):
            return Prop(v)
        if name.endswith(".setter"):
            p = self.ev(d.value)
            return Prop(p.fget if isinstance(p, Prop) else None, v)
        if name.endswith(("contextmanager", "wraps", "lru_cache", "cache", "abstractmethod")) or \
                "wraps(" in name or "lru_cache(" in name:
            return v
        if "no_grad" in name or "inference_mode" in name:
            v.nograd = True
            return v
        f = self.ev(d)
        if isinstance(f, (Ext, Opq)):
            return v
        return self.call(f, [v], {})

    def mkfunc(self, s, name):
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = [self.ev(d) if d is not None else UNDEF for d in a.kw_defaults]
        return Func(s, self.modname, self.fr.env, name, defaults, kwd)

    def x_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        ns_env = Obj("env", name=s.name)
        self.st.heap[ns_env] = {"__parent__": self.fr.env}
        fr = Frame(None, ns_env)
        fr.modname = self.modname
        self.frames.append(fr)
        try:
            self.tr_block(s.body)
        except Stop:
            pass
        finally:
            self.frames.pop()
        ns = {k: v for k, v in self.st.heap[ns_env].items() if k != "__parent__"}
        c = Cls(s.name, self.modname, ns, bases, s)
        for v in ns.values():
            for w in (v, getattr(v, "fn", None), getattr(v, "fget", None), getattr(v, "fset", None)):
                if isinstance(w, Func):
                    w.cls = c
        # method closures see the enclosing scope, not the class namespace
        for v in ns.values():
            for w in (v, getattr(v, "fn", None), getattr(v, "fget", None), getattr(v, "fset", None)):
                if isinstance(w, Func) and w.env is ns_env:
                    w.env = self.fr.env
        if any(isinstance(b, Ext) and b.name.startswith("enum.") for b in bases):
            for k, v in list(ns.items()):
                if not k.startswith("_") and not isinstance(v, (Func, Static, Prop)):
                    o = Obj("inst", c, f"{s.name}.{k}")
                    self.st.heap[o] = {"name": k, "value": v, "_value_": v}
                    ns[k] = o
        c.dataclass = any("dataclass" in ast.unparse(d) for d in s.decorator_list)
        if c.dataclass:
            c.fields = []
            for b in s.body:
                if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                    c.fields.append((b.target.id, b.value))
        self.assign_name(s.name, c)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        f = self.resolve(f)
        if isinstance(f, Phi):
            if f.a is UNDEF or f.a is None:
                return self.call(f.b, args, kw, node)
            if f.b is UNDEF or f.b is None:
                return self.call(f.a, args, kw, node)
            return self.branch(f.c, lambda: self.call(f.a, args, kw, node), lambda: self.call(f.b, args, kw, node))
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw, node)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + list(args), {**f.kw, **kw}, node)
        if isinstance(f, Static):
            return self.call(f.fn, args, kw, node)
        if isinstance(f, UF):
            return f.fn(self, args, kw)
        if isinstance(f, Func):
            h = self.intercept.get(f.qual)
            if h is not None:
                r = h(self, f, args, kw)
                if r is not NotImplemented:
                    return r
            return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            h = self.intercept.get(f.mod + ":" + f.name)
            if h is not None:
                r = h(self, f, args, kw)
                if r is not NotImplemented:
                    return r
            if len(args) == 1 and any(isinstance(b, Ext) and b.name.startswith("enum.") for b in f.mro()):
                for o in f.ns.values():
                    if isinstance(o, Obj) and o is args[0] or isinstance(o, Obj) and self.prims.equal(self, self.st.heap[o].get("value"), args[0]) is True:
                        return o
                self.raise_("builtins.ValueError", "enum")
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kw)
        if isinstance(f, ExtM):
            return self.prims.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, Obj) and f.kind == "inst":
            m = self.getattr(f, "__call__")
            if m is not None and not isinstance(m, Opq):
                return self.call(m, args, kw, node)
        return self.opq("call", f, tuple(args), tuple(sorted((k, v) for k, v in kw.items() if k)))

    def call_ext(self, name, args, kw):
        name = CANON.get(name, name)
        self.extcalls[name] = self.extcalls.get(name, 0) + 1
        h = self.intercept.get(name)
        if h is not None:
            r = h(self, name, args, kw)
            if r is not NotImplemented:
                return r
        if self.fail is not None:
            e = self.fail(name)
            if e is not None:
                self.raise_(e)
        try:
            r = self.recorded(self.prims.call_ext(self, name, args, kw))
            if self.watch is not None:
                self.prims.sharing(self, name, args, kw, r)
            return r
        except (Unsup, TermLimit) as ex:
            return self.opq("ext:" + name, tuple(args), tuple(sorted(kw.items(), key=lambda t: t[0])))

    def bind(self, f, args, kw):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        for n_, v in zip(pos, args):
            env[n_] = v
        extra = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            return None
        kwextra = {}
        allk = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in allk:
                if k in env:
                    return None
                env[k] = v
            else:
                kwextra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.mkdict(kwextra)
        elif kwextra:
            return None
        nd = len(f.defaults)
        for k, n_ in enumerate(pos):
            if n_ not in env:
                j = k - (len(pos) - nd)
                if j < 0:
                    return None
                env[n_] = f.defaults[j]
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in env:
                if d is UNDEF:
                    return None
                env[x.arg] = d
        return env

    def call_func(self, f, args, kw):
        if self.depth >= self.maxdepth:
            return self.opq("depth", f.qual)
        env = self.bind(f, args, kw)
        if env is None:
            self.raise_("builtins.TypeError", "bad arguments for " + f.name)
        self.calls[f.qual] = self.calls.get(f.qual, 0) + 1
        env["__parent__"] = f.env
        eo = Obj("env", name=f.name)
        self.st.heap[eo] = env
        fr = Frame(f, eo)
        fr.modname = f.mod
        caller = self.frames[-1] if self.frames else None
        pc0, facts0 = self.st.pc, self.st.facts
        self.st.pc = ONE
        self.st.facts = dict(facts0)
        self.frames.append(fr)
        self.depth += 1
        nf = 0
        ng = self.st.nograd
        if getattr(f, "nograd", False):
            self.st.nograd = True
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                fr.returns.append((self.st.pc, v, self.st))
            else:
                if is_generator(f.node):
                    fr.yields = []
                self.tr_block(f.node.body)
                fr.returns.append((self.st.pc, None, self.st))
        except Stop:
            pass
        finally:
            self.frames.pop()
            self.depth -= 1
            if getattr(f, "nograd", False):
                for _, _, st in fr.returns + fr.raises:
                    st.nograd = ng
        return self.finish_call(fr, pc0, facts0, caller)

    def finish_call(self, fr, pc0, facts0, caller):
        for pc, e, st in fr.raises:
            st.pc = pmul(pc0, pc)
            if caller is not None:
                caller.raises.append((st.pc, e, st))
        if not fr.returns:
            raise Stop()
        rules = noraise_rules([pc for pc, _, _ in fr.raises])
        items = [(mod_rules(pc, rules), v, st) for pc, v, st in fr.returns]
        items = [it for it in items if it[0].terms] or items[-1:]
        pc, v, st = items[-1]
        acc_v, acc_s = v, st
        for pc, v, st in reversed(items[:-1]):
            acc_v = self.phi(pc, v, acc_v, st, acc_s)
            acc_s = self.merge2(pc, st, acc_s)
        self.st = acc_s
        if fr.yields is not None:
            acc_v = self.new("list", SymSeq(fr.yields) if any(s[0] != "lit" for s in fr.yields)
                             else tuple(x for s in fr.yields for x in s[1]))
        raised = ZERO
        for pc, _, _ in fr.raises:
            raised = b_or(raised, pc) if len(raised.terms) < 50 else raised
        self.st.pc = pmul(pc0, b_not(raised)) if raised.terms and len(raised.terms) < 50 else pc0
        fx = dict(facts0)
        if len(fr.returns) == 1:
            fx.update(fr.returns[0][2].facts)
        else:
            for pc, _, _ in fr.raises:
                tmp = State()
                self.learn(tmp, pc, False)
                fx.update(tmp.facts)
        self.st.facts = fx
        if isinstance(acc_v, Ten) and rules:
            t = self.V(acc_v)
            b = mod_rules(t.body, rules)
            if b is not t.body and key(b) != key(t.body):
                acc_v = Ten(t.formals, t.dims, b, t.isbool, t.tag)
        return acc_v

    def instantiate(self, c, args, kw):
        if any(isinstance(b, Ext) and self.is_exc_class(b) for b in c.mro()):
            return ExcV(c, tuple(args))
        o = Obj("inst", c)
        self.st.heap[o] = {}
        init = c.lookup("__init__")
        if init is not None:
            self.call(Bound(o, init), args, kw)
        elif getattr(c, "dataclass", False):
            flds = []
            for k in reversed(c.mro()):
                if isinstance(k, Cls) and getattr(k, "dataclass", False):
                    for n_, d in k.fields:
                        flds = [x for x in flds if x[0] != n_] + [(n_, d)]
            d = {}
            args = list(args)
            for n_, dv in flds:
                if args:
                    d[n_] = args.pop(0)
                elif n_ in kw:
                    d[n_] = kw[n_]
                elif dv is not None:
                    if isinstance(dv, ast.Call) and ast.unparse(dv.func).endswith("field"):
                        fac = [k for k in dv.keywords if k.arg == "default_factory"]
                        dd = [k for k in dv.keywords if k.arg == "default"]
                        if fac:
                            d[n_] = self.call(self.ev(fac[0].value), [], {})
                        elif dd:
                            d[n_] = self.ev(dd[0].value)
                    else:
                        d[n_] = self.ev(dv)
            self.st.heap[o] = d
            post = c.lookup("__post_init__")
            if post is not None:
                self.call(Bound(o, post), [], {})
        else:
            ext = [b for b in c.mro() if isinstance(b, Ext) and b.name not in ("builtins.object",)]
            if ext and args:
                self.st.heap[o] = {"__ext_args__": tuple(args)}
        return o

    def is_exc_class(self, b):
        return "builtins.BaseException" in exc_mro(CANON.get(b.name, b.name))

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name, default=UNDEF):
        o = self.resolve(o)
        if isinstance(o, Phi):
            if o.a is None or o.a is UNDEF:
                return self.getattr(o.b, name, default)
            if o.b is None or o.b is UNDEF:
                return self.getattr(o.a, name, default)
            x, y = self.getattr(o.a, name, default), self.getattr(o.b, name, default)
            return self.phi(o.c, x, y)
        if isinstance(o, Mod):
            v = self.mod_get(o, name)
            if v is None:
                if name == "__name__":
                    return o.name
                if default is not UNDEF:
                    return default
                self.note(f"missing module attribute {o.name}.{name}")
                self.raise_("builtins.AttributeError", f"{o.name}.{name}")
            return v
        if isinstance(o, Ext):
            nm = CANON.get(o.name, o.name) + "." + name
            return self.prims.ext_value(self, CANON.get(nm, nm))
        if isinstance(o, Obj):
            c = self.st.heap.get(o)
            if o.kind == "inst":
                if name in c:
                    return self.resolve(c[name])
                if name == "__dict__":
                    return self.mkdict(c)
                if o.cls is not None:
                    if name == "__class__":
                        return o.cls
                    m = o.cls.lookup(name)
                    if m is not None:
                        if isinstance(m, Func):
                            return Bound(o, m)
                        if isinstance(m, Static):
                            return m.fn if m.kind == "static" else Bound(o.cls, m.fn)
                        if isinstance(m, Prop):
                            return self.call(Bound(o, m.fget), [], {})
                        return m
                    ga = o.cls.lookup("__getattr__")
                    if ga is not None:
                        return self.call(Bound(o, ga), [name], {})
                if default is not UNDEF:
                    return default
                if o.cls is None or any(isinstance(b, (Ext, Opq)) for b in o.cls.mro()):
                    return self.opq("attr", o, name)
                self.raise_("builtins.AttributeError", name)
            return ExtM(o, name)
        if isinstance(o, Cls):
            m = o.lookup(name)
            if m is None:
                if name == "__name__":
                    return o.name
                if default is not UNDEF:
                    return default
                return self.opq("clsattr", o, name)
            if isinstance(m, Static):
                return m.fn if m.kind == "static" else Bound(o, m.fn)
            return m
        if isinstance(o, SuperV):
            for c in o.cls.mro()[1:]:
                if isinstance(c, Cls) and name in c.ns:
                    m = c.ns[name]
                    return Bound(o.obj, m) if isinstance(m, Func) else m
            return UF("super." + name, lambda it, a, k: None)
        if isinstance(o, ExcV):
            if name == "args":
                return tuple(o.args)
            return self.opq("excattr", name)
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
            return default if default is not UNDEF else self.opq("funcattr", o, name)
        return self.prims.get_attr(self, o, name, default)

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Obj) and o.kind == "inst":
            if o.cls is not None:
                m = o.cls.lookup(name)
                if isinstance(m, Prop) and m.fset is not None:
                    self.call(Bound(o, m.fset), [v], {})
                    return
            d = dict(self.st.heap[o])
            d[name] = v
            self.st.heap[o] = d
        elif isinstance(o, Mod):
            d = dict(self.st.heap[o.env])
            d[name] = v
            self.st.heap[o.env] = d
        elif isinstance(o, Cls):
            o.ns[name] = v
        elif isinstance(o, Phi):
            self.branch(o.c, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
        else:
            self.note(f"setattr on {type(o).__name__}.{name}")

    # ------------------------------------------------------------------ subscripts
    def ev_index(self, node):
        if isinstance(node, ast.Tuple):
            return tuple(self.ev_index(e) for e in node.elts)
        if isinstance(node, ast.Slice):
            return SliceV(*[None if x is None else self.ev(x) for x in (node.lower, node.upper, node.step)])
        return self.ev(node)

    def _idx_item(self, x):
        x = self.resolve(x)
        if isinstance(x, SliceV):
            def b(v):
                v = self.resolve(v)
                if v is None or isinstance(v, int):
                    return v
                if isinstance(v, Ten):
                    t = self.V(v)
                    if t.rank == 0:
                        return t.body
                    return ops.squeeze(t).body if ops.squeeze(t).rank == 0 else self._bad()
                raise Unsup("slice bound")
            return SliceV(b(x.lo), b(x.hi), b(x.step))
        if isinstance(x, bool):
            raise Unsup("bool index")
        if x is None or x is Ellipsis or isinstance(x, int):
            return x
        if isinstance(x, Ten):
            t = self.V(x)
            if t.rank == 0 and not t.isbool:
                return t.body
            return t
        xs = self.to_list(x)
        if xs is not None and isinstance(x, Obj):
            return self.prims.array_of(self, x)
        if isinstance(x, SymRange):
            return ops.mk((x.n,), x.at, False, ("np", "i"))
        raise Unsup(f"index {type(x).__name__}")

    def _bad(self):
        raise Unsup("bad bound")

    def getitem(self, o, idx):
        o = self.resolve(o)
        idx = self.resolve(idx)
        if isinstance(o, Phi):
            if o.a is None or o.a is UNDEF:
                return self.getitem(o.b, idx)
            if o.b is None or o.b is UNDEF:
                return self.getitem(o.a, idx)
            return self.phi(o.c, self.getitem(o.a, idx), self.getitem(o.b, idx))
        if isinstance(o, Ten):
            try:
                items = [self._idx_item(x) for x in (idx if isinstance(idx, tuple) else (idx,))]
                t = self.V(o)
                r = ops.index(t, items)
                if self.is_array(o) and r.rank and not any(isinstance(x, Ten) for x in items):
                    self.views[r] = (o, items, t)
                return r
            except Unsup as ex:
                return self.opq("index:" + str(ex), o, idx if not isinstance(idx, tuple) else tuple(idx))
        if isinstance(o, (tuple, str)) or (isinstance(o, Obj) and o.kind == "list") or isinstance(o, SymSeq):
            if isinstance(idx, (tuple, str)) and not isinstance(o, SymSeq):
                self.raise_("builtins.TypeError", "indices must be integers or slices")
            i = self.concrete_int(idx)
            xs = self.to_list(o)
            if xs is not None:
                if i is not None:
                    if -len(xs) <= i < len(xs):
                        return xs[i]
                    self.raise_("builtins.IndexError", "index")
                if isinstance(idx, SliceV):
                    b = [None if q is None else self.concrete_int(q) for q in (idx.lo, idx.hi, idx.step)]
                    if all((q is None) == (p is None) for q, p in zip(b, (idx.lo, idx.hi, idx.step))):
                        sub = xs[slice(*b)]
                        if isinstance(o, tuple):
                            return tuple(sub)
                        if isinstance(o, str):
                            return "".join(sub)
                        return self.mklist(sub)
                if isinstance(idx, Ten) and 0 < len(xs) <= 16 and self.V(idx).rank == 0:
                    p = self.V(idx).body
                    v = xs[-1]
                    for k in range(len(xs) - 2, -1, -1):
                        v = self.phi(c_eq(p, num(k)), xs[k], v)
                    return v
                if isinstance(idx, Ten) and xs and all(isinstance(self.resolve(x), (Ten, int, float)) for x in xs):
                    try:
                        t = self.prims.array_of(self, o)
                        return ops.index(t, [self._idx_item(idx)])
                    except Unsup:
                        pass
            else:
                s = self.sym_iter(o)
                if s is not None and isinstance(idx, (Ten, int)):
                    p = self._num(idx)
                    p = self.V(p).body
                    if p.const() is not None and p.const() < 0:
                        p = padd(s[0], p)
                    return s[1](p)
                if i is not None and isinstance(self.st.heap.get(o) if isinstance(o, Obj) else o, SymSeq):
                    sq = self.st.heap[o] if isinstance(o, Obj) else o
                    if i == -1 and sq.segs[-1][0] == "map":
                        _, n, b, val = sq.segs[-1]
                        return self.subst_val(val, {b: psub(n, ONE)})
                    if sq.segs[-1][0] == "lit" and i < 0 and -i <= len(sq.segs[-1][1]):
                        return sq.segs[-1][1][i]
                    if sq.segs[0][0] == "lit" and 0 <= i < len(sq.segs[0][1]):
                        return sq.segs[0][1][i]
            return self.opq("item", o, idx)
        if isinstance(o, Obj) and o.kind == "dict":
            c = self.st.heap[o]
            k = self.dict_key(idx)
            if isinstance(c, dict) and k is not UNDEF:
                if k in c:
                    v = self.resolve(c[k])
                    if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                        return v.b if v.a is UNDEF else v.a
                    return v
                self.raise_("builtins.KeyError", k)
            return self.opq("dictitem", o, idx)
        if isinstance(o, Obj) and o.kind == "env":
            c = self.st.heap[o]
            return c.get(idx, self.opq("envitem", idx))
        if isinstance(o, Obj) and o.kind == "inst" and o.cls is None and isinstance(idx, str) and idx in self.st.heap[o]:
            return self.resolve(self.st.heap[o][idx])
        if isinstance(o, Obj) and o.kind == "inst" and o.cls is not None:
            m = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(Bound(o, m), [idx], {})
        if isinstance(o, (Ext, Cls)):
            return o
        return self.opq("getitem", o, idx)

    def dict_key(self, k):
        k = self.resolve(k)
        if isinstance(k, (str, int, bool)) or k is None:
            return k
        if isinstance(k, tuple):
            ks = tuple(self.dict_key(x) for x in k)
            return UNDEF if UNDEF in ks else ks
        if isinstance(k, Ten):
            i = self.concrete_int(k)
            return UNDEF if i is None else i
        if isinstance(k, (Ext, Cls, Func)):
            return k
        return UNDEF

    def concrete_int(self, v):
        v = self.resolve(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Ten):
            t = self.V(v)
            if t.rank == 0:
                c = t.body.const()
                if c is not None and c.denominator == 1:
                    return int(c)
        return None

    def setitem(self, o, idx, v):
        o = self.resolve(o)
        if isinstance(o, Phi):
            self.branch(o.c, lambda: self.setitem(o.a, idx, v), lambda: self.setitem(o.b, idx, v))
            return
        if isinstance(o, Ten):
            cur = self.V(o)
            try:
                items = [self._idx_item(x) for x in (idx if isinstance(idx, tuple) else (idx,))]
                val = self.prims.as_ten(self, v)
                nv = ops.store(cur, items, val)
            except (Unsup, TermLimit) as ex:
                k = self.vkey(v)
                self.opaque_reasons["store"] = self.opaque_reasons.get("store", 0) + 1
                nv = ops.tfn("opqstore", (cur, str(ex), k), cur.dims, cur.tag)
            self.mutate(o, nv)
            return
        if isinstance(o, Obj) and o.kind == "dict":
            c = self.st.heap[o]
            k = self.dict_key(idx)
            if o is self.environ and not isinstance(self.resolve(v), (str, Phi, Opq)):
                self.raise_("builtins.TypeError", "str expected")
            if isinstance(c, dict) and k is not UNDEF:
                d = dict(c)
                d[k] = v
                self.st.heap[o] = d
            else:
                self.st.heap[o] = ("__opq__",)
            return
        if isinstance(o, Obj) and o.kind == "env":
            d = dict(self.st.heap[o])
            d[idx] = v
            self.st.heap[o] = d
            return
        if isinstance(o, Obj) and o.kind == "list":
            xs = self.to_list(o)
            i = self.concrete_int(idx)
            if xs is not None and i is not None and -len(xs) <= i < len(xs):
                xs[i] = v
                self.st.heap[o] = tuple(xs)
                return
            self.st.heap[o] = SymSeq([("map", sym("dim:?list"), fresh(), self.opq("liststore", o, v))])
            return
        if isinstance(o, Obj) and o.kind == "inst" and o.cls is None and isinstance(idx, str):
            self.st.heap[o] = {**self.st.heap[o], idx: v}
            return
        if isinstance(o, Obj) and o.kind == "inst" and o.cls is not None:
            m = o.cls.lookup("__setitem__")
            if m is not None:
                self.call(Bound(o, m), [idx, v], {})
                return
        self.note(f"setitem on {type(o).__name__}")

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, bool):
            return num(v)
        if v is None:
            return ZERO
        if isinstance(v, int):
            return num(1 if v else 0)
        if isinstance(v, (str, tuple)):
            return num(1 if len(v) else 0)
        if isinstance(v, Ten):
            t = self.V(v)
            if t.rank:
                s = ops.squeeze(t)
                if s.rank == 0:
                    t = s
                else:
                    return ind("opq", "truth:" + key(t))
            if t.isbool:
                return t.body
            return b_not(c_eq(t.body, ZERO))
        if isinstance(v, Phi):
            return f_ite(v.c, self.truth(v.a) if v.a is not UNDEF else ZERO, self.truth(v.b) if v.b is not UNDEF else ZERO)
        if isinstance(v, Obj):
            c = self.st.heap.get(v)
            if v.kind in ("list", "set", "dict") and isinstance(c, (tuple, dict)):
                if isinstance(c, tuple) and c and c[0] == "__phi__":
                    return ind("opq", "truth:" + self.vkey(v))
                return num(1 if len(c) else 0)
            if isinstance(c, SymSeq):
                return ONE
            if v.kind == "inst":
                m = v.cls.lookup("__bool__") if v.cls else None
                if m:
                    return self.truth(self.call(Bound(v, m), [], {}))
                m = v.cls.lookup("__len__") if v.cls else None
                if m:
                    return self.truth(self.call(Bound(v, m), [], {}))
            return ONE
        if isinstance(v, Opq):
            return ind("opq", "truth:" + v.k)
        return ONE

    def mkbool(self, p):
        c = p.const()
        if c is not None:
            return bool(c)
        return Ten((), (), p, True, ("py", "b"))

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.opq("expr:" + type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, float):
            return self.prims.pyfloat(v)
        if isinstance(v, complex) or isinstance(v, bytes):
            return self.opq("const", repr(v))
        return v

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                xs = self.to_list(self.ev(e.value))
                if xs is None:
                    return self.opq("starred")
                out += xs
            else:
                out.append(self.ev(e))
        return tuple(out)

    def e_List(self, n):
        t = self.e_Tuple(n)
        return self.mklist(t) if isinstance(t, tuple) else t

    def e_Set(self, n):
        return self.new("set", self.e_Tuple(n))

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v)
                c = self.st.heap.get(o) if isinstance(o, Obj) else None
                if isinstance(c, dict):
                    d.update(c)
                continue
            kk = self.dict_key(self.ev(k))
            vv = self.ev(v)
            if kk is UNDEF:
                return self.opq("dict")
            d[kk] = vv
        return self.mkdict(d)

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        return self.getitem(o, self.ev_index(n.slice))

    def e_Slice(self, n):
        return self.ev_index(n)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.ev(v.value)
                k = x.body.const() if isinstance(x, Ten) and not x.dims and x.tag == ("py", "i") else None
                if k is not None and k.denominator == 1:
                    x = int(k)
                spec = v.format_spec
                if spec is not None:
                    spec = "".join(str(c.value) for c in spec.values) if all(isinstance(c, ast.Constant) for c in spec.values) else None
                if isinstance(x, (str, int, bool)) and v.format_spec is None and v.conversion == -1:
                    parts.append(str(x))
                elif isinstance(x, int) and spec == "d":
                    parts.append(str(int(x)))
                else:
                    return self.opq("fstr", *[self.ev(w.value) for w in n.values if not isinstance(w, ast.Constant)])
        return "".join(parts)

    def e_Lambda(self, n):
        a = n.args
        f = Func(n, self.modname, self.fr.env, "<lambda>", [self.ev(d) for d in a.defaults],
                 [self.ev(d) if d is not None else UNDEF for d in a.kw_defaults])
        return f

    def e_IfExp(self, n):
        c = self.reduce_cond(self.truth(self.ev(n.test)))
        cc = c.const()
        if cc is not None:
            return self.ev(n.body if cc != 0 else n.orelse)
        return self.branch(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0])
        for nxt in n.values[1:]:
            c = self.reduce_cond(self.truth(v))
            cc = c.const()
            if cc is not None:
                if isand and cc == 0:
                    return v
                if not isand and cc != 0:
                    return v
                v = self.ev(nxt)
                continue
            v0 = v
            boolish = isinstance(v, bool) or (isinstance(v, Ten) and v.isbool)
            if isand:
                v = self.branch(c, lambda: self.ev(nxt), lambda: (False if boolish else v0))
            else:
                v = self.branch(c, lambda: (True if boolish else v0), lambda: self.ev(nxt))
        return v

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return self.mkbool(b_not(self.truth(v)))
        return self.unop(n.op, v)

    def unop(self, op, v):
        v = self.resolve(v)
        if isinstance(v, Phi):
            return self.phi(v.c, self.unop(op, v.a), self.unop(op, v.b))
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return -v if isinstance(op, ast.USub) else v if isinstance(op, ast.UAdd) else ~v
        if isinstance(v, Ten):
            t = self.V(v)
            if isinstance(op, ast.USub):
                return ops.elementwise(pneg, t)
            if isinstance(op, ast.UAdd):
                return t
            if isinstance(op, ast.Invert):
                return ops.elementwise(b_not, t, isbool=True)
        return self.opq("un" + type(op).__name__, v)

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Phi) and a.a is not UNDEF and a.b is not UNDEF:
            return self.phi(a.c, self.binop(op, a.a, b), self.binop(op, a.b, b))
        if isinstance(b, Phi) and b.a is not UNDEF and b.b is not UNDEF:
            return self.phi(b.c, self.binop(op, a, b.a), self.binop(op, a, b.b))
        return self.recorded(self.prims.binop(self, op, a, b))

    def recorded(self, v):
        """Result of an operation: cut off from the gradient where recording is disabled."""
        if ops.GRAD is None or not self.st.nograd:
            return v
        if isinstance(v, tuple):
            return tuple(self.recorded(x) for x in v)
        return ops.sever(v)

    def e_Compare(self, n):
        left = self.ev(n.left)
        acc = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn)
            r = self.compare(op, left, right)
            if acc is None:
                acc = r
            else:
                if isinstance(acc, bool) and isinstance(r, bool):
                    acc = acc and r
                else:
                    acc = self.mkbool(b_and(self.truth(acc), self.truth(r)))
            left = right
        return acc

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            if isinstance(op, ast.IsNot):
                r = b_not(r)
            return self.mkbool(r)
        if isinstance(a, Phi) and a.a is not UNDEF and a.b is not UNDEF:
            return self.phi(a.c, self.compare(op, a.a, b), self.compare(op, a.b, b))
        if isinstance(b, Phi) and b.a is not UNDEF and b.b is not UNDEF:
            return self.phi(b.c, self.compare(op, a, b.a), self.compare(op, a, b.b))
        return self.prims.compare(self, op, a, b)

    def is_(self, a, b):
        if isinstance(a, Phi):
            return f_ite(a.c, self.is_(a.a, b), self.is_(a.b, b))
        if isinstance(b, Phi):
            return f_ite(b.c, self.is_(a, b.a), self.is_(a, b.b))
        if a is b:
            return ONE
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Opq):
                return ind("opq", "isnone:" + o.k)
            return ZERO
        if isinstance(a, (Ext, bool, str, int)) and isinstance(b, type(a)):
            return num(1 if a == b else 0)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return ind("opq", "is:" + self.vkey(a) + self.vkey(b))
        return ZERO

    def e_Call(self, n):
        f = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                xs = self.to_list(v)
                if xs is None:
                    s = self.sym_iter(v)
                    args.append(StarV(v))
                else:
                    args += xs
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.e_ListComp(a))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                c = self.st.heap.get(v) if isinstance(v, Obj) else None
                if isinstance(c, dict):
                    for kk, vv in c.items():
                        if isinstance(vv, Phi) and (vv.a is UNDEF or vv.b is UNDEF):
                            vv = vv.b if vv.a is UNDEF else vv.a
                        kw[kk] = vv
            else:
                kw[k.arg] = v
        if isinstance(f, Ext) and f.name == "builtins.super":
            s = self.lookup("self")
            return SuperV(self.fr.fn.cls if self.fr.fn else None, s)
        if isinstance(f, Ext) and f.name == "builtins.globals":
            return self.mods[self.modname].env
        if isinstance(f, Ext) and f.name == "builtins.locals":
            return self.mkdict({k: v for k, v in self.st.heap[self.fr.env].items() if k != "__parent__"})
        return self.call(f, args, kw, n)

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else None
        self.yield_(v)
        return None

    def yield_(self, v):
        fr = self.fr
        if fr.yields is None:
            fr.yields = []
        pc0, nra = fr.ybase
        tot = self.st.pc
        for pc, _, _ in fr.raises[nra:]:
            tot = padd(tot, pc)
        if not peq(tot, pc0):
            v = self.opq("conditional-yield", v)
        if fr.yields and fr.yields[-1][0] == "lit":
            fr.yields[-1] = ("lit", fr.yields[-1][1] + (v,))
        else:
            fr.yields.append(("lit", (v,)))

    def e_YieldFrom(self, n):
        v = self.iterate(self.ev(n.value))
        xs = self.to_list(v)
        if xs is not None:
            for x in xs:
                self.yield_(x)
            return None
        s = self.sym_iter(v)
        if s is not None:
            b = fresh()
            self.fr.yields.append(("map", s[0], b, s[1](ivar(b))))
        else:
            b = fresh()
            self.fr.yields.append(("map", sym("dim:?"), b, self.opq("elem", v)))
        return None

    def e_ListComp(self, n):
        out = []
        r = self._comp(n.generators, 0, lambda: self.ev(n.elt))
        return self.new("list", r)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        r = self._comp(n.generators, 0, lambda: self.ev(n.elt))
        return self.new("set", r)

    def e_DictComp(self, n):
        r = self._comp(n.generators, 0, lambda: (self.ev(n.key), self.ev(n.value)))
        if isinstance(r, tuple):
            d = {}
            for k, v in r:
                kk = self.dict_key(k)
                if kk is UNDEF:
                    return self.opq("dictcomp")
                d[kk] = v
            return self.mkdict(d)
        return self.opq("dictcomp")

    def _comp(self, gens, k, elt):
        """Comprehension result: tuple of values or SymSeq."""
        # evaluate in a child scope
        if k == 0:
            env = Obj("env", name="comp")
            self.st.heap[env] = {"__parent__": self.fr.env}
            old = self.fr.env
            self.fr.env = env
            try:
                return self._comp1(gens, 0, elt)
            finally:
                self.fr.env = old
        return self._comp1(gens, k, elt)

    def _comp1(self, gens, k, elt):
        if k == len(gens):
            return (elt(),)
        g = gens[k]
        it = self.iterate(self.ev(g.iter))
        xs = self.to_list(it)
        if xs is not None and len(xs) <= self.UNROLL:
            out = []
            for x in xs:
                self.assign(g.target, x)
                ok = ONE
                for c in g.ifs:
                    ok = b_and(ok, self.truth(self.ev(c)))
                ok = self.reduce_cond(ok)
                oc = ok.const()
                if oc is None:
                    return SymSeq([("map", sym("dim:?filter"), fresh(), self.opq("filtercomp", it))])
                if oc == 0:
                    continue
                r = self._comp1(gens, k + 1, elt)
                if isinstance(r, SymSeq):
                    out.append(r)
                else:
                    out.extend(("v", q) for q in r)
            if any(isinstance(o, SymSeq) for o in out):
                segs = []
                for o in out:
                    if isinstance(o, SymSeq):
                        segs += o.segs
                    else:
                        segs.append(("lit", (o[1],)))
                return SymSeq(segs)
            return tuple(o[1] for o in out)
        s = self.sym_iter(it)
        if s is None or g.ifs or k + 1 < len(gens):
            b = fresh()
            if s is not None:
                v = s[1](ivar(b))
            else:
                v = self.opq("elem", it)
            self.assign(g.target, v)
            e = elt() if k + 1 == len(gens) else self.opq("nestedcomp", it)
            cond = [self.vkey(self.ev(c)) for c in g.ifs] if k + 1 == len(gens) else []
            return SymSeq([("map", sym("dim:?len(" + hash_(self.vkey(it)) + "".join(cond) + ")"), b, e)])
        n_, f = s
        b = fresh()
        self.assign(g.target, f(ivar(b)))
        self.loop_depth += 1
        try:
            e = elt()
        finally:
            self.loop_depth -= 1
        if isinstance(e, Ten):
            e = self.V(e)
        return SymSeq([("map", n_, b, e)])


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class StarV:
    def __init__(self, v):
        self.v = v


class SymRange:
    def __init__(self, start, n, step=1):
        self.start, self.n, self.step = start, n, step

    def at(self, i):
        return padd(self.start, pmul(i, self.step) if isinstance(self.step, Poly) else pscale(i, self.step))


class SymZip:
    def __init__(self, parts):
        self.parts = parts


class SymEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start


def is_generator(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


# --- normal form modulo "no uncaught exception" ---------------------------------------------------
def noraise_rules(pcs):
    """Rewrite rules (monomial -> polynomial) that make each raise condition vanish."""
    rules = []
    for p in pcs:
        if not p.terms or len(p.terms) > 6:
            continue
        if any(m.sums or any(a.op != "ind" for a, _ in m.factors) for m, _ in p.terms):
            continue
        lead = max(p.terms, key=lambda t: (len(t[0].factors), t[0].key({}, 0)))
        if lead[1] not in (1, -1) or not lead[0].factors:
            continue
        rest = pscale(collect([t for t in p.terms if t is not lead]), -lead[1])
        rules.append(({key(a) for a, _ in lead[0].factors}, rest))
    return rules


def mod_rules(p, rules):
    for _ in range(3):
        changed = False
        for ks, rest in rules:
            out = []
            ch = False
            for m, c in p.terms:
                bound = {b for b, _ in m.sums}
                mk_ = {key(a) for a, _ in m.factors if a.op == "ind" and not (a.free & bound)}
                if ks <= mk_:
                    ch = True
                    fs = [(a, e) for a, e in m.factors if not (a.op == "ind" and key(a) in ks)]
                    q = pmul(Poly(((Mono(m.sums, fs), ONE_F),)), rest)
                    out += [(mm, cc * c) for mm, cc in q.terms]
                else:
                    out.append((m, c))
            if ch:
                p = collect(out)
                changed = True
        if not changed:
            break
    return p

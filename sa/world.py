"""Generic symbolic scenarios: arrays of symbolic size, a user model with uninterpreted mean and covariance."""
from .terms import *
from . import terms as T
from . import ops
from .ops import Unsup, settle
from .vgraph import *
from .vgraph import Frame, State, Stop, UNDEF, Obj, Opq, Phi, UF, Ext, ExcV, Bound, Cls
from . import prims
from .prims import S, as_ten

LIB = {"numpy": "np", "torch": "torch"}


def dim(name):
    return sym("dim:" + name)


class Res:
    """Outcome of a call: value, final state, and the uncaught exceptions with their conditions."""

    def __init__(self, value, raises, st):
        self.value, self.raises, self.st = value, raises, st
        self.returned = value is not UNDEF


class World:
    WATCH = False       # record writes that reach the arrays of the scenarios

    def __init__(self, repo, backend):
        self.repo, self.backend = repo, backend
        self.L = LIB[backend]
        self.it = it = Builder(repo, backend)
        if self.WATCH:
            it.watch = {}
        fr = Frame(None, None)
        env = Obj("env", name="base")
        it.st.heap[env] = {}
        fr.env = env
        fr.modname = "gpmp"
        it.frames.append(fr)
        it.load("gpmp")
        for m in sorted(repo.modules):
            it.load(m)
        self.given, self.entries = {}, []
        self.uflibs = []
        self.covcalls = []
        self.meancalls = []

    # ------------------------------------------------------------------ inputs
    def arr(self, name, *dims, dt="f", L=None):
        ds = [dim(d) if isinstance(d, str) else num(d) if isinstance(d, int) else d for d in dims]
        t = ops.tfn("in", (name,), ds, (L or self.L, dt), dt == "b")
        if self.it.watch is not None:
            self.it.watch[t] = name
        return t

    def scal(self, name, L="py", dt="f"):
        return Ten((), (), sym("in:" + name), False, (L, dt))

    def intp(self, name):
        """Nonnegative integer argument."""
        return Ten((), (), sym("dim:0:" + name), False, ("py", "i"))

    def size(self, name):
        """Positive integer argument (a size)."""
        return Ten((), (), sym("dim:" + name), False, ("py", "i"))

    def anyint(self, name):
        return Ten((), (), sym("int:" + name), False, ("py", "i"))

    def cov_uf(self, name="cov"):
        """User covariance: any function with the documented calling convention."""
        def f(it, args, kw):
            a = dict(zip(("x", "y", "covparam", "pairwise"), args))
            a.update(kw)
            x, y, th = a["x"], a.get("y"), a.get("covparam")
            pw = a.get("pairwise", False)
            x, y = it.resolve(x), it.resolve(y)
            same = y is None or y is x
            xt = as_ten(it, x)
            yt = xt if same else as_ten(it, y)
            if xt.rank != 2 or yt.rank != 2:
                raise Unsup("covariance inputs")
            self.uflibs.append(("covariance", ops.lib(xt), ops.lib(yt)))
            self.covcalls.append((it.vkey(xt), it.vkey(yt), it.vkey(th), it.vkey(pw)))
            thk = self.param(it, th)
            pwt = it.truth(pw).const()
            if pwt is None:
                return it.opq("cov", x, y, th, pw)
            row = lambda t, i: _row(t, i)
            if pwt:
                return ops.mk((xt.dims[0],), lambda i: atom_poly(
                    Atom(name, (thk, (row(xt, i), row(yt, i)), "s" if same else "c"))), False, (self.L, "f"))
            return ops.mk((xt.dims[0], yt.dims[0]), lambda i, j: atom_poly(
                Atom(name, (thk, (row(xt, i), row(yt, j)), "s" if same else "c"))), False, (self.L, "f"))
        return UF(name, f)

    def param(self, it, v):
        v = it.resolve(v)
        if isinstance(v, Ten):
            t = it.V(v)
            return Ten(t.formals, t.dims, t.body)
        if v is None:
            return "none"
        try:
            t = as_ten(it, v)
            return Ten(t.formals, t.dims, t.body)
        except Unsup:
            return "opq:" + it.vkey(v)

    def mean_uf(self, name="mean", q="q"):
        def f(it, args, kw):
            a = dict(zip(("x", "param"), args))
            a.update({("x" if k == "x" else "param"): v for k, v in kw.items()})
            xt = as_ten(it, a["x"])
            self.uflibs.append(("mean", ops.lib(xt)))
            self.meancalls.append((it.vkey(xt), it.vkey(a.get("param"))))
            thk = self.param(it, a.get("param"))
            qd = dim(q) if isinstance(q, str) else num(q)
            return ops.mk((xt.dims[0], qd), lambda i, j: atom_poly(Atom(name, (thk, _row(xt, i), (j,)))), False, (self.L, "f"))
        return UF(name, f)

    def model(self, meantype, meanparam=None, covparam=None, q=None):
        it = self.it
        cls = it.get("gpmp.core:Model")
        cov = self.cov_uf()
        mean = None if meantype == "zero" else self.mean_uf(q=q if q is not None else (1 if meantype == "parameterized" else "q"))
        if covparam is None:
            covparam = self.arr("covparam0", "p")
        if meantype == "parameterized" and meanparam is None:
            meanparam = self.arr("meanparam0", "r")
        r = self.call(cls, [mean, cov], dict(meanparam=meanparam, covparam=covparam, meantype=meantype))
        if not r.returned:
            raise Unsup("model construction raises")
        self.it.st = r.st
        return r.value

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None, keep=False):
        it = self.it
        st0 = it.st.copy()
        fr = it.frames[-1]
        nr = len(fr.raises)
        if isinstance(f, str):
            f = it.get(f)
        it.st.pc, it.st.facts = ONE, {}
        if it.watch is not None:
            self.given.update((o, None) for o in self.containers(list(args) + list((kw or {}).values())))
        given = [(o, it.st.heap[o]) for o in self.given if o in it.st.heap]
        nw = len(it.writes)
        try:
            v = it.call(f, list(args), dict(kw or {}))
        except Stop:
            v = UNDEF
        for o, was in given:
            now = it.st.heap.get(o)
            if now is not was and _shallow(it, now) != _shallow(it, was):
                it.writes.append((f"a {o.kind} given by the caller", callee(f), ""))
        if it.watch is not None:
            self.entries.append((callee(f), it.writes[nw:]))
            for t in self.arrays(v) if v is not UNDEF else ():
                it.watch.setdefault(it.memory(t), "an array returned by " + callee(f))
        raises = fr.raises[nr:]
        del fr.raises[nr:]
        st = it.st
        for n in [n for n, m in it.mods.items() if m.env not in st0.heap]:
            if not keep:
                del it.mods[n]
        if not keep:
            it.st = st0
        else:
            st.pc, st.facts = ONE, {}
        return Res(v, raises, st)

    def containers(self, vs):
        """Lists and dictionaries among the arguments."""
        it, out = self.it, []
        for v in vs:
            if isinstance(v, Obj) and v.kind in ("list", "dict", "set") and v in it.st.heap:
                out.append(v)
            elif isinstance(v, tuple):
                out += self.containers(v)
        return out

    def arrays(self, v, depth=0):
        """Arrays inside a returned value."""
        it = self.it
        if isinstance(v, Ten):
            return [v] if it.is_array(v) else []
        if depth > 3:
            return []
        if isinstance(v, Obj) and v.kind == "dict" and isinstance(it.st.heap.get(v), dict):
            v = tuple(it.st.heap[v].values())
        elif isinstance(v, Obj) and v.kind == "list":
            v = it.to_list(v)
        if isinstance(v, (tuple, list)):
            return [t for x in v for t in self.arrays(x, depth + 1)]
        return []

    def meth(self, obj, name, *args, **kw):
        return self.call(self.it.getattr(obj, name), args, kw)

    def ten(self, res, v=None):
        """Numeric value of a result in its final state."""
        it = self.it
        s = it.st
        it.st = res.st
        try:
            return settle(as_ten(it, res.value if v is None else v))
        finally:
            it.st = s

    def items(self, res, v=None):
        it = self.it
        s = it.st
        it.st = res.st
        try:
            return it.to_list(res.value if v is None else v)
        finally:
            it.st = s


def callee(f):
    """Name of what is called."""
    f = getattr(f, "fn", None) or getattr(f, "func", None) or f
    if isinstance(f, Cls):
        return f"{getattr(f.mod, 'name', f.mod)}:{f.name}"
    return getattr(f, "qual", None) or getattr(f, "name", None) or type(f).__name__


def _shallow(it, c):
    if isinstance(c, dict):
        return [(k, id(v) if isinstance(v, (Ten, Obj)) else it.vkey(v)) for k, v in c.items()]
    try:
        return [id(v) if isinstance(v, (Ten, Obj)) else it.vkey(v) for v in c]
    except TypeError:
        return str(c)


def _row(t, i):
    f = fresh()
    return Ten((f,), (t.dims[1],), at(t, (i, ivar(f))))


OPAQUE_OPS = {"opq", "loop", "hole", "uninit"}


def opaque_in(v):
    """First opaque node inside a term, or None."""
    if isinstance(v, (Ten, Poly)):
        for a in walk_atoms(v):
            if a.op in OPAQUE_OPS:
                return a
            if a.op == "ind" and a.args and a.args[0] == "opq":
                return a
        return None
    if isinstance(v, Opq):
        return v
    if isinstance(v, Phi):
        return v
    return None

"""Scenario helpers shared by the checks."""
from sa.terms import *
from sa import ops
from sa.ops import Unsup
from sa.vgraph import ExcV, Ext, Opq, Phi, UNDEF, UF, Obj, Func, Cls, Bound
from sa.world import opaque_in, dim
from sa.prims import as_ten, S

MEANTYPES = ("zero", "parameterized", "linear_predictor")
BACKENDS = ("numpy", "torch")
MODEL = "gpmp/core/model.py:Model."


def linalg_error(w):
    return ExcV(Ext("torch.linalg.LinAlgError" if w.backend == "torch" else "numpy.linalg.LinAlgError"),
                ("linalg: the matrix is not positive-definite",))


FACTOR = {"cholesky", "cho_factor", "cholesky_ex", "potrf"}
SOLVERS = {"solve", "solve_ex", "inv", "inv_ex", "lu_factor", "qr", "svd", "eigh", "slogdet", "cho_solve", "solve_triangular"}


class Fault:
    """Every (or only the first) library call with one of these leaf names raises the backend's linear-algebra error."""

    def __init__(self, w, leaves, first=False, exc=None):
        self.w, self.leaves, self.first = w, leaves, first
        self.exc = exc or linalg_error(w)
        self.seen = []

    def __enter__(self):
        def f(name):
            if name.rsplit(".", 1)[-1] in self.leaves and not (self.first and self.seen):
                self.seen.append((name, self.w.it.where()))
                return self.exc
            return None
        self.w.it.fail = f
        return self

    def __exit__(self, *a):
        self.w.it.fail = None


def spec(w, name, *args, mod="core"):
    r = w.call(f"spec.{mod}:{name}", args)
    if not r.returned:
        raise Unsup(f"specification {name} raises")
    return r


class Gp:
    """A model with uninterpreted mean and covariance, symbolic data and caller parameters."""

    def __init__(self, w, mt, **kw):
        self.w, self.mt = w, mt
        self.m = w.model(mt, **kw)
        it = w.it
        self.k, self.th0 = it.getattr(self.m, "covariance"), it.getattr(self.m, "covparam")
        self.mu, self.mp0 = it.getattr(self.m, "mean"), it.getattr(self.m, "meanparam")
        self.xi, self.zi, self.xt = w.arr("xi", "n", "d"), w.arr("zi", "n"), w.arr("xt", "m", "d")
        self.th, self.mp = w.arr("theta", "p"), w.arr("beta", "r")


def atoms_named(v, name):
    """Input atoms of that name occurring in a term (name may be a tuple)."""
    names = (name,) if isinstance(name, str) else name
    return [a for a in walk_atoms(v) if a.op == "in" and a.args[0] in names]


def each(ck, label, fn, where=""):
    for b in BACKENDS:
        ck.guard(f"{label} {b}", lambda: fn(ck.world(b), b), where)


class Small(Gp):
    """Three points and a mean with two fixed regressors: one contrast, so that every result is an explicit rational function of the covariances."""

    Q = [[Fraction(x, 3) for x in r] for r in ((2, -1, 2), (2, 2, -1), (-1, 2, 2))]
    R = [[2, 1], [0, 3], [0, 0]]
    NAMES = {"numpy": ("numpy.linalg.qr", "scipy.linalg.qr"), "torch": ("torch.linalg.qr",)}

    def __init__(self, w):
        self.w, self.mt = w, "linear_predictor"
        it = w.it
        self.xi, self.zi, self.xt = w.arr("xi", 3, "d"), w.arr("zi", 3), w.arr("xt", 2, "d")
        self.P = [[sum(self.Q[i][k] * self.R[k][j] for k in range(3)) for j in range(2)] for i in range(3)]
        self.pt = w.arr("pt", 2, 2)
        rows = {it.vkey(self.xi): self.const(self.P), it.vkey(self.xt): self.pt}

        def mean(it, args, kw):
            x = as_ten(it, args[0] if args else kw["x"])
            if it.vkey(x) not in rows:
                raise Unsup("mean at other points")
            return rows[it.vkey(x)]
        r = w.call(it.get("gpmp.core:Model"), [UF("mean", mean), w.cov_uf()], dict(covparam=w.arr("covparam0", "p"), meantype="linear_predictor"))
        if not r.returned:
            raise Unsup("model construction raises")
        it.st = r.st
        self.m = r.value
        self.k, self.th0 = it.getattr(self.m, "covariance"), it.getattr(self.m, "covparam")
        self.mu, self.mp0 = it.getattr(self.m, "mean"), it.getattr(self.m, "meanparam")
        self.th = w.arr("theta", "p")

    def const(self, rows):
        ps = [[num(x) for x in r] for r in rows]
        return ops.mk((num(len(ps)), num(len(ps[0]))), lambda i, j: psum_list([pmul(pmul(delta(num(a), i), delta(num(b), j)), p)
                      for a, r in enumerate(ps) for b, p in enumerate(r)]), False, (self.w.L, "f"))

    def __enter__(self):
        for n in self.NAMES[self.w.backend] + ("numpy.linalg.qr",):
            self.w.it.intercept[n] = self.qr
        return self

    def __exit__(self, *a):
        for n in self.NAMES[self.w.backend] + ("numpy.linalg.qr",):
            self.w.it.intercept.pop(n, None)

    def qr(self, it, name, args, kw):
        a = it.V(as_ten(it, args[0]))
        if [d.const() for d in a.dims] != [3, 2] or any(at(a, (num(i), num(j))).const() != self.P[i][j] for i in range(3) for j in range(2)):
            raise Unsup("factorisation of another matrix")
        mode = args[1] if len(args) > 1 else kw.get("mode", "full" if name.startswith("scipy") else "reduced")
        if mode in ("complete", "full"):
            return (self.const(self.Q), self.const(self.R))
        if mode in ("reduced", "economic"):
            return (self.const([r[:2] for r in self.Q]), self.const(self.R[:2]))
        raise Unsup("mode " + str(mode))

    INVERSES = {"inv", "invs", "chol", "invchol", "logdet", "solve", "det", "detsign", "svd_u", "svd_s", "eig", "qr_q", "qr_r"}

    def equal(self, ck, clause, got, want, r, rw, where, rule):
        """Explicit values are compared; a value left in terms of inverses of other matrices is not decided here."""
        w = self.w
        res, d = ck.compare(w, got, want, r, rw)
        ck.count("value graphs compared")
        if res == "diff" and isinstance(t := w.ten(r, got), Ten) and any(a.op in self.INVERSES and not self.plain(a) for a in walk_atoms(ops.settle(t))):
            res, d = "und", "the value is not an explicit function of the covariances"
        ck.require(clause, {"eq": True, "diff": False, "und": None}[res], where, d, rule)

    def plain(self, a):
        """Functions of the single contrast, or of a 2 x 2 matrix of explicit entries (two contrasts, while the data have one)."""
        M = a.args[0]
        return a.op in ("inv", "invs", "chol", "invchol", "logdet") and isinstance(M, Ten) and [d.const() for d in M.dims] in ([1, 1], [2, 2]) \
            and not any(x.op in self.INVERSES for x in walk_atoms(M))

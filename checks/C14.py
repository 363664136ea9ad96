"""Backend parity: the same call of the numerical API means the same thing on both backends."""
import ast

from .common import *
from .C10 import py
from .C26 import call_fits, guarded_attr
from sa.census import Census
from sa.prims import finite_inputs

RULE = "value graphs of the two backends are equal"


class In:
    """Symbolic arguments, identical in both worlds."""

    def __init__(self, w):
        self.w = w
        self.v, self.u = w.arr("v", "n"), w.arr("u", "n")
        self.v5, self.v3 = w.arr("v5", 5), w.arr("v3", 3)
        self.A, self.B = w.arr("A", "n", "m"), w.arr("B", "n", "m")
        self.A53 = w.arr("A53", 5, 3)
        self.M, self.S, self.S3, self.S2, self.S1 = w.arr("M", "n", "n"), self.spd("S", "n"), self.spd("S3", 3), self.spd("S2", 2), w.arr("S1", 1, 1)
        self.T3 = w.arr("T3", "n", "m", "k")
        self.bn, self.bm = w.arr("bn", "n", "m"), w.arr("bm", "m", "k")
        self.c, self.cA = w.arr("c", "n", dt="b"), w.arr("cA", "n", "m", dt="b")
        self.x, self.y, self.y1 = w.arr("x", "n", "d"), w.arr("y", "m", "d"), w.arr("y1", "n", "d")
        self.l = w.arr("l", "d")
        self.s, self.t = w.scal("s", L=w.L), w.scal("t", L=w.L)
        self.i5 = w.arr("i5", 5, dt="i")

    def spd(self, name, n):
        R = self.w.arr(name, n, n)
        t = ops.matmul(R, ops.tT(R))
        return Ten(t.formals, t.dims, t.body, False, (self.w.L, "f"))

    def seq(self, *xs):
        return self.w.it.mklist(list(xs))


def table():
    """(operation, label, positional arguments, keyword arguments)."""
    T = []

    def add(op, label, args, **kw):
        T.append((op, label, args, kw))
    for f in ("exp", "log", "log10", "log1p", "sqrt", "sin", "cos", "tan", "tanh", "abs", "floor", "ceil", "isnan", "isinf", "isfinite",
              "copy", "asarray", "array", "zeros_like", "ones_like", "gammaln", "inftobigf", "nan_to_num", "asdouble"):
        add(f, "vector", lambda a: [a.v])
        add(f, "matrix", lambda a: [a.A])
    for f in ("exp", "log", "log10", "sqrt", "isfinite", "isnan"):
        add(f, "0-d array", lambda a: [a.s])
    for f in ("exp", "log", "sqrt", "log10"):
        add(f, "Python number", lambda a: [2.0])
    add("logical_not", "vector", lambda a: [a.c])
    for f in ("logical_and", "logical_or"):
        add(f, "vector", lambda a: [a.c, a.c])
    for f in ("sum", "mean", "prod", "std", "var", "max", "min", "all", "any"):
        b = f in ("all", "any")
        add(f, "vector", lambda a, b=b: [a.c if b else a.v])
        add(f, "matrix", lambda a, b=b: [a.cA if b else a.A])
        if f != "any":
            for ax in (0, 1):
                add(f, f"axis={ax}", lambda a, b=b: [a.cA if b else a.A], axis=ax)
        if f in ("sum", "mean", "std", "var", "max", "min"):
            add(f, "axis=-1", lambda a: [a.A], axis=-1)
            for ax in (0, 1):
                add(f, f"axis={ax}, keepdims", lambda a: [a.A], axis=ax, keepdims=True)
        if f in ("std", "var"):
            for dd in (0, 1):
                add(f, f"ddof={dd}", lambda a: [a.v], ddof=dd)
                add(f, f"axis=0, ddof={dd}", lambda a: [a.A], axis=0, ddof=dd)
                add(f, f"axis=1, ddof={dd}", lambda a: [a.A], axis=1, ddof=dd)
    add("sum", "axis=2", lambda a: [a.T3], axis=2)
    add("mean", "axis=(0, 1)", lambda a: [a.T3], axis=(0, 1))
    for ax in (0, 1):
        add("cumsum", f"axis={ax}", lambda a: [a.A53], axis=ax)
        add("sort", f"axis={ax}", lambda a: [a.A53], axis=ax)
        add("percentile", f"axis={ax}", lambda a: [a.A, 25.0], axis=ax)
        add("percentile", f"axis={ax}, keepdims", lambda a: [a.A, 25.0], axis=ax, keepdims=True)
        add("argmax", f"axis={ax}", lambda a: [a.A], axis=ax)
        add("argmin", f"axis={ax}", lambda a: [a.A], axis=ax)
        add("diff", f"axis={ax}", lambda a: [a.A], axis=ax)
        add("norm", f"axis={ax}", lambda a: [a.A], axis=ax)
    add("cumsum", "vector", lambda a: [a.v], axis=0)
    add("sort", "vector", lambda a: [a.v])
    add("sort", "matrix", lambda a: [a.A])
    add("percentile", "vector", lambda a: [a.v, 50.0])
    add("argmax", "vector", lambda a: [a.v])
    add("argmin", "vector", lambda a: [a.v])
    add("diff", "vector", lambda a: [a.v])
    add("norm", "vector", lambda a: [a.v], ord=2)
    add("unique", "vector", lambda a: [a.i5])
    for op in ("maximum", "minimum"):
        add(op, "vectors", lambda a: [a.v, a.u])
        add(op, "array and number", lambda a: [a.v, 0.5])
        add(op, "number and array", lambda a: [0.5, a.v])
    add("clip", "both bounds", lambda a: [a.v, 0.1, 0.9])
    add("clip", "keywords", lambda a: [a.v], min=0.1, max=0.9)
    add("clip", "lower only", lambda a: [a.v], min=0.1)
    add("clip", "upper only", lambda a: [a.v], max=0.9)
    add("clip", "array bounds", lambda a: [a.v, a.u, a.w.arr("hi", "n")])
    add("where", "arrays", lambda a: [a.c, a.v, a.u])
    add("where", "numbers", lambda a: [a.c, a.v, 0.0])
    add("where", "number first", lambda a: [a.c, 1.0, a.v])
    add("nan_to_num", "options", lambda a: [a.v], nan=0.0, posinf=0.0, neginf=0.0)
    add("nan_to_num", "copy", lambda a: [a.v], copy=False)
    add("isclose", "vectors", lambda a: [a.v, a.u])
    add("allclose", "vectors", lambda a: [a.v, a.u])
    add("array_equal", "vectors", lambda a: [a.v, a.u])
    for n, m in (((2,), "vector"), ((2, 3), "matrix")):
        for f in ("zeros", "ones"):
            add(f, m, lambda a, n=n: [n])
        add("full", m, lambda a, n=n: [n, 0.25])
    add("full_like", "vector", lambda a: [a.v, 0.25])
    add("eye", "size", lambda a: [3])
    add("arange", "stop", lambda a: [5])
    add("arange", "start, stop", lambda a: [2, 6])
    add("linspace", "three", lambda a: [0.0, 1.0, 5])
    add("linspace", "symbolic ends", lambda a: [a.w.scal("s", L="py"), a.w.scal("t", L="py"), 4])
    add("logspace", "three", lambda a: [0.0, 2.0, 3])
    add("meshgrid", "ij", lambda a: [a.v, a.w.arr("g", "m")], indexing="ij")
    add("diag", "vector", lambda a: [a.v])
    add("diag", "matrix", lambda a: [a.M])
    add("trace", "matrix", lambda a: [a.M])
    add("reshape", "flat", lambda a: [a.A53, (-1,)])
    add("reshape", "matrix", lambda a: [a.A53, (3, 5)])
    add("transpose", "two axes", lambda a: [a.T3, 0, 1])
    add("transpose", "last axes", lambda a: [a.T3, -1, -2])
    add("expand_dims", "first", lambda a: [a.v, 0])
    add("expand_dims", "last", lambda a: [a.v, -1])
    add("tile", "vector", lambda a: [a.v, (2, 1)])
    add("tile", "matrix", lambda a: [a.A53, (2, 1)])
    for f in ("concatenate", "hstack", "vstack", "stack"):
        add(f, "vectors", lambda a: [a.seq(a.v, a.u)])
        add(f, "matrices", lambda a: [a.seq(a.A, a.B)])
    add("concatenate", "axis keyword", lambda a: [a.seq(a.A, a.B)], axis=0)
    add("concatenate", "axis 1", lambda a: [a.seq(a.A, a.B), 1])
    add("stack", "last axis", lambda a: [a.seq(a.v, a.u)], axis=-1)
    add("matmul", "matrix-matrix", lambda a: [a.A, a.bm])
    add("matmul", "matrix-vector", lambda a: [a.M, a.v])
    add("inner", "vectors", lambda a: [a.v, a.u])
    for e, args in (("i..., i... -> ...", lambda a: ["i..., i... -> ...", a.A, a.B]), ("ij,jk->ik", lambda a: ["ij,jk->ik", a.A, a.bm]),
                    ("i,ij,j->", lambda a: ["i,ij,j->", a.v, a.M, a.u]), ("ij,ij->i", lambda a: ["ij,ij->i", a.A, a.B])):
        add("einsum", e, args)
    add("cov", "rows", lambda a: [a.A])
    add("cov", "ddof=1", lambda a: [a.A], ddof=1)
    add("cov", "ddof=0", lambda a: [a.A], ddof=0)
    add("cov", "columns", lambda a: [a.A], rowvar=False)
    add("cov", "bias", lambda a: [a.A], bias=True)
    add("cov", "vector", lambda a: [a.v])
    add("cov", "two samples", lambda a: [a.v, a.u])
    add("cov", "two matrices", lambda a: [a.w.arr("A2", 2, "n"), a.w.arr("B3", 3, "n")])
    add("cov", "two matrices by columns", lambda a: [a.w.arr("A2", "n", 2), a.w.arr("B3", "n", 3)], rowvar=False)
    add("cov", "two square matrices by columns", lambda a: [a.w.arr("A3", 3, 3), a.w.arr("B3", 3, 3)], rowvar=False)
    add("cov", "vector by columns", lambda a: [a.v], rowvar=False)
    add("cov", "two vectors by columns", lambda a: [a.v, a.u], rowvar=False)
    for f in ("cholesky", "inv", "cholesky_inv", "logdet"):
        add(f, "symmetric positive definite", lambda a: [a.S])
    add("cholesky_solve", "matrix", lambda a: [a.S, a.bn])
    add("cholesky_solve", "column", lambda a: [a.S, a.w.arr("col", "n", 1)])
    add("cholesky_solve", "vector", lambda a: [a.S, a.v])
    add("solve", "matrix", lambda a: [a.M, a.bn])
    add("solve", "vector", lambda a: [a.M, a.v])
    add("solve", "symmetric", lambda a: [a.S, a.bn], overwrite_a=True, overwrite_b=False, assume_a="sym")
    for low in (True, False):
        for tr in (0, 1):
            add("solve_triangular", f"lower={low}, trans={tr}", lambda a: [a.M, a.bn], lower=low, trans=tr)
    for low in (True, False):
        add("solve_triangular", f"lower={low}, unit_diagonal", lambda a: [a.M, a.bn], lower=low, unit_diagonal=True)
    add("cdist", "two sets", lambda a: [a.x, a.y])
    add("cdist", "one set", lambda a: [a.x, a.x])
    add("scaled_distance", "two sets", lambda a: [a.l, a.x, a.y])
    add("scaled_distance", "one set", lambda a: [a.l, a.x, a.x])
    add("scaled_distance_elementwise", "two sets", lambda a: [a.l, a.x, a.y1])
    add("scaled_distance_elementwise", "one set", lambda a: [a.l, a.x, a.x])
    add("scaled_distance_elementwise", "omitted set", lambda a: [a.l, a.x, None])
    add("qr", "complete", lambda a: [a.A], mode="complete")
    add("svd", "symmetric", lambda a: [a.S], full_matrices=True, hermitian=True)
    for f in ("cdf", "logcdf", "pdf", "logpdf"):
        add("normal." + f, "standard", lambda a: [a.v])
        add("normal." + f, "location and scale", lambda a: [a.v], loc=0.5, scale=2.0)
        add("normal." + f, "array location and scale", lambda a: [a.v, a.u, a.w.arr("sd", "n")])
    add("multivariate_normal.logpdf", "matrix covariance", lambda a: [a.v3], mean=0.5, cov="S3")
    add("multivariate_normal.logpdf", "matrix covariance, vector mean", lambda a: [a.v3], mean="v3b", cov="S3")
    add("multivariate_normal.logpdf", "scalar variance", lambda a: [a.v], mean=0.5, cov=2.0)
    add("multivariate_normal.cdf", "scalar variance", lambda a: [a.v], mean=0.5, cov=2.0)
    add("multivariate_normal.cdf", "matrix covariance", lambda a: [a.v3], mean="v3b", cov="S3")
    add("multivariate_normal.logpdf", "2 x 2 covariance, vector mean", lambda a: [a.w.arr("x2", 2)], mean="v2b", cov="S2")
    add("multivariate_normal.cdf", "2 x 2 covariance, rows", lambda a: [a.w.arr("x2n", "n", 2)], mean="v2b", cov="S2")
    add("multivariate_normal.logpdf", "matrix covariance, rows", lambda a: [a.w.arr("x3", "n", 3)], mean="v3b", cov="S3")
    add("multivariate_normal.logpdf", "1 x 1 covariance", lambda a: [a.v], mean=0.5, cov="S1")
    add("multivariate_normal.cdf", "1 x 1 covariance", lambda a: [a.v], mean=0.5, cov="S1")
    add("multivariate_normal.cdf", "matrix covariance, scalar mean", lambda a: [a.v3], mean=0.5, cov="S3")
    add("to_scalar", "one element", lambda a: [a.w.arr("e", 1)])
    add("to_scalar", "0-d array", lambda a: [a.s])
    add("to_scalar", "Python number", lambda a: [1.5])
    add("to_np", "vector", lambda a: [a.v])
    add("isarray", "array", lambda a: [a.v])
    add("isarray", "number", lambda a: [1.5])
    add("isscalar", "number", lambda a: [py(1.5)])
    add("isscalar", "vector", lambda a: [a.v5])
    add("safe_inf", "value", lambda a: [])
    add("safe_neginf", "value", lambda a: [])
    add("asarray", "list", lambda a: [a.seq(1.0, 2.0, 3.0)])
    add("asarray", "list of lists", lambda a: [a.seq(a.seq(1.0, 2.0), a.seq(3.0, 4.0))])
    add("asarray", "dtype=float", lambda a: [a.i5], dtype=Ext("builtins.float"))
    add("asarray", "dtype=int", lambda a: [a.seq(1, 2)], dtype=Ext("builtins.int"))
    return T


UNIT = {("cholesky_solve", "vector")}      # results agree up to a trailing axis of length one


def plain(it, v):
    """A value detached from the state of its world."""
    v = it.resolve(v)
    if isinstance(v, tuple):
        return tuple(plain(it, x) for x in v)
    if isinstance(v, Obj) and v.kind == "list":
        xs = it.to_list(v)
        return v if xs is None else tuple(plain(it, x) for x in xs)
    if isinstance(v, Ten):
        return settle_ten(it, v)
    return v


def settle_ten(it, v):
    t = it.V(v)
    return Ten(t.formals, t.dims, t.body, t.isbool, t.tag)


def squeeze(v):
    if isinstance(v, tuple):
        return tuple(squeeze(x) for x in v)
    return ops.squeeze(v) if isinstance(v, Ten) else v


def lookup(w, op):
    it = w.it
    v = it.mod_get(it.load("gpmp.num"), op.split(".")[0])
    for a in op.split(".")[1:]:
        v = it.getattr(v, a)
    return v


def call(w, op, args, kw):
    a = In(w)
    kw = {k: getattr(a, x) if x in ("S3", "S2", "S1") else w.arr(x, int(x[1])) if x in ("v2b", "v3b") else x for k, x in kw.items()}
    if op in ("nan_to_num", "isnan", "isfinite", "isinf", "inftobigf"):
        return w.call(lookup(w, op), args(a), kw)
    with finite_inputs():
        return w.call(lookup(w, op), args(a), kw)


def operations(ck, wn, wt):
    for op, label, args, kw in table():
        where = f"gpmp/num/torch_backend.py:{op}"
        clause = f"{op}: {label}"

        def go():
            st = (wn.it.st.copy(), wt.it.st.copy())
            try:
                rn, rt = call(wn, op, args, kw), call(wt, op, args, kw)
                if not rn.returned and not rt.returned:
                    ck.und(clause, where, "no value on either backend")
                    return
                for r, w in ((rn, wn), (rt, wt)):
                    if not r.returned:
                        ck.bad(clause, where, f"returns on one backend only; {w.backend} raises: " + str(r.raises[0][1]) if r.raises else "", RULE)
                        return
                wn.it.st, wt.it.st = rn.st, rt.st
                a, b = plain(wn.it, rn.value), plain(wt.it, rt.value)
                if (op, label) in UNIT:
                    a, b = squeeze(a), squeeze(b)
                ck.equal(clause, wt, b, a, rt, rt, where, RULE)
            finally:
                wn.it.st, wt.it.st = st
        ck.guard(clause, go, where)


def random_draws(ck, wn, wt):
    """Same distribution and same shape; the streams of the two libraries differ."""
    todo = [("rand", "scalar", lambda a: []), ("rand", "vector", lambda a: [a.w.size("n")]), ("rand", "matrix", lambda a: [a.w.size("n"), a.w.size("m")]),
            ("randn", "scalar", lambda a: []), ("randn", "vector", lambda a: [a.w.size("n")]), ("randn", "matrix", lambda a: [a.w.size("n"), a.w.size("m")]),
            ("permutation", "size", lambda a: [5]), ("permutation", "array", lambda a: [a.A]),
            ("choice", "size, without replacement", lambda a: [5, 3, False]), ("choice", "array", lambda a: [a.v5, 3]),
            ("multivariate_normal.rvs", "scalar variance", lambda a: [py(0.5), py(4.0), 3]), ("multivariate_normal.rvs", "matrix", lambda a: [a.v3, a.S3, 4])]
    for op, label, args in todo:
        where, clause = f"gpmp/num/torch_backend.py:{op}", f"{op}: {label}"

        def go():
            st = (wn.it.st.copy(), wt.it.st.copy())
            out = []
            try:
                for w in (wn, wt):
                    it = w.it
                    n0 = len(getattr(it, "draws", []))
                    with finite_inputs():
                        r = w.call(lookup(w, op), args(In(w)))
                    if not ck.returns(clause, r, where):
                        return
                    it.st = r.st
                    t = plain(it, r.value)
                    if not isinstance(t, Ten) or opaque_in(t) is not None:
                        ck.und(clause, where, "not numeric")
                        return
                    k = key(Ten(t.formals, t.dims, t.body))
                    for i, (kind, g, d, _) in enumerate(it.draws[n0:]):
                        a = next(x for x in walk_atoms(d.body) if x.op == "rng")
                        k = k.replace(f"'{a.args[1]},'{a.args[2]},", f"'stream,'{i},")
                    if op == "choice":      # sampling with / without replacement, under the name each library gives it
                        d = it.draws[n0][2]
                        a = next(x for x in walk_atoms(d.body) if x.op == "rng")
                        rep = a.args[0] == "I" or (a.args[0] == "choice" and str(a.args[5]) == "True")
                        k = (key(tuple(t.dims)), rep, len(it.draws) - n0, {x.args[0] for x in walk_atoms(t.body) if x.op == "in"})
                    out.append((t, k))
                (a, ka), (b, kb) = out
                ck.require(clause, ka == kb, where, "the draws differ: " + show(b)[:150] + " / " + show(a)[:150], RULE)
            finally:
                wn.it.st, wt.it.st = st
        ck.guard(clause, go, where)


# parameters accepted by the library functions that the backends re-export (PyTorch accepts the NumPy spellings axis, keepdims)
KW = {
    "numpy": {
        "any": "a axis out keepdims where", "all": "a axis out keepdims where", "sum": "a axis dtype out keepdims initial where",
        "mean": "a axis dtype out keepdims where", "prod": "a axis dtype out keepdims initial where", "std": "a axis dtype out ddof keepdims where mean correction",
        "var": "a axis dtype out ddof keepdims where mean correction", "max": "a axis out keepdims initial where", "min": "a axis out keepdims initial where",
        "cumsum": "a axis dtype out", "sort": "a axis kind order stable", "diff": "a n axis prepend append", "argmax": "a axis out keepdims",
        "argmin": "a axis out keepdims", "unique": "ar return_index return_inverse return_counts axis equal_nan sorted", "copy": "a order subok",
        "array_equal": "a1 a2 equal_nan", "reshape": "a shape order copy", "where": "condition x y", "isclose": "a b rtol atol equal_nan",
        "allclose": "a b rtol atol equal_nan", "nan_to_num": "x copy nan posinf neginf", "hstack": "tup dtype casting", "vstack": "tup dtype casting",
        "stack": "arrays axis out dtype casting", "tile": "A reps", "concatenate": "arrays axis out dtype casting", "expand_dims": "a axis",
        "zeros_like": "a dtype order subok shape device", "ones_like": "a dtype order subok shape device", "empty_like": "prototype dtype order subok shape device",
        "full_like": "a fill_value dtype order subok shape device", "diag": "v k", "arange": "start stop step dtype device like", "meshgrid": "* copy sparse indexing",
        "percentile": "a q axis out overwrite_input method keepdims weights interpolation", "cov": "m y rowvar bias ddof fweights aweights dtype",
        "clip": "a a_min a_max out min max dtype where", "trace": "a offset axis1 axis2 dtype out", "inner": "a b", "isscalar": "element", "linalg.norm": "x ord axis keepdims",
        "linalg.cholesky": "a upper", "linalg.qr": "a mode", "linalg.svd": "a full_matrices compute_uv hermitian", "linalg.inv": "a", "linalg.cond": "x p",
        "einsum": "* out optimize dtype order casting"},
    "torch": {
        "any": "input dim keepdim out", "reshape": "input shape", "where": "condition input other self out", "isclose": "input other rtol atol equal_nan",
        "allclose": "input other rtol atol equal_nan", "hstack": "tensors out", "vstack": "tensors out", "stack": "tensors dim out", "tile": "input dims",
        "concatenate": "tensors dim out", "empty": "* size dtype out layout device requires_grad pin_memory memory_format names",
        "zeros": "* size dtype out layout device requires_grad names", "ones": "* size dtype out layout device requires_grad names",
        "empty_like": "input dtype layout device requires_grad memory_format", "zeros_like": "input dtype layout device requires_grad memory_format",
        "ones_like": "input dtype layout device requires_grad memory_format", "full": "size fill_value dtype out layout device requires_grad names",
        "full_like": "input fill_value dtype layout device requires_grad memory_format", "eye": "n m dtype out layout device requires_grad",
        "diag": "input diagonal out", "arange": "start end step dtype out layout device requires_grad", "linspace": "start end steps dtype out layout device requires_grad",
        "logspace": "start end steps base dtype out layout device requires_grad", "meshgrid": "* indexing", "logdet": "input", "argmax": "input dim keepdim out",
        "argmin": "input dim keepdim out", "einsum": "*", "matmul": "input other out", "trace": "input", "inner": "input other out", "isnan": "input", "isinf": "input",
        "isfinite": "input", "floor": "input out", "ceil": "input out", "abs": "input out", "logical_not": "input out", "logical_and": "input other out",
        "logical_or": "input other out", "linalg.cholesky": "A upper out", "linalg.qr": "A mode out", "linalg.inv": "A out", "linalg.cond": "A p out",
        "quantile": "input q dim keepdim interpolation out", "nan_to_num": "input nan posinf neginf out"},
}
ALIAS = {"axis": "dim", "keepdims": "keepdim", "x": "input", "a": "input"}


def binds(v, x):
    """'' when the call of a library function binds, a message when it cannot, None when not known."""
    lib, _, leaf = v.name.partition(".")
    names = KW.get(lib, {}).get(leaf)
    if names is None:
        return None
    names = names.split()
    free = names and names[0] == "*"
    if not free and len(x.args) > len(names):
        return f"{v.name} takes at most {len(names)} arguments"
    for k in x.keywords:
        nm = ALIAS.get(k.arg, k.arg) if lib == "torch" and k.arg not in names else k.arg
        if nm not in names:
            return f"{v.name} has no argument '{k.arg}'"
    return ""


def uses(ck, ws):
    """Every use of the backend API resolves and binds on both backends."""
    n = calls = 0
    bad, places = {}, {}
    for w in ws:
        c = Census(w)
        it = w.it
        num_mod = it.load("gpmp.num")
        names = it.st.heap[num_mod.env]
        for m, scopes, x in c.walk():
            if m.name.startswith("gpmp.num."):
                continue
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and c.resolve(x.value, m, scopes) is num_mod:
                n += 1
                place = c.place(m, scopes)
                places.setdefault(m.path, 0)
                if x.attr not in names and not x.attr.startswith("__") and w.repo.modules.get("gpmp.num." + x.attr) is None:
                    docs = " ".join(ast.get_docstring(y) or "" for y in ast.walk(m.tree) if isinstance(y, (ast.FunctionDef, ast.ClassDef)))
                    if x.attr not in docs and not guarded_attr(scopes, m, x):
                        bad.setdefault((place, f"gpmp.num has no '{x.attr}' on the {w.backend} backend"), 0)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and c.resolve(x.func.value, m, scopes) is num_mod:
                if any(isinstance(y, ast.Starred) for y in x.args) or any(k.arg is None for k in x.keywords):
                    continue
                v = names.get(x.func.attr)
                k = binds(v, x) if isinstance(v, Ext) else call_fits(c, it, m, scopes, x)
                if k is not None:
                    calls += 1
                if k:
                    bad.setdefault((c.place(m, scopes), f"{k} ({w.backend} backend)"), 0)
    ck.count("uses of the backend API", n)
    ck.count("calls bound to a signature", calls)
    R = "backend functions exist and accept their arguments on both backends"
    for (place, why) in bad:
        ck.bad(f"use of the backend API in {place}: {why}", place, why, R)
    for p in sorted(places):
        if not any(q.split(":")[0] == p for q, _ in bad):
            ck.ok(f"uses of the backend API in {p}", p, "", R)


def exported(ck, wn, wt):
    """The documented numerical API is the same set of operations on both backends."""
    def api(w):
        it = w.it
        mod = it.load("gpmp.num." + w.backend + "_backend")
        return {k for k, v in it.st.heap[mod.env].items() if not k.startswith("_") and isinstance(v, (Func, Ext, Cls, UF, Phi))}
    a, b = api(wn), api(wt)
    used = {t[0].split(".")[0] for t in table()}
    for nm in sorted(used):
        for s, w in ((a, wn), (b, wt)):
            ck.require(f"operation {nm} exists [{w.backend}]", nm in s, f"gpmp/num/{w.backend}_backend.py", f"'{nm}' is missing", "both backends define the operation")


def run(ck):
    ck.rule = "relational comparison of the value graphs of the two backends; binding of every use of the backend API"
    wn, wt = ck.world("numpy"), ck.world("torch")
    operations(ck, wn, wt)
    random_draws(ck, wn, wt)
    ck.guard("uses", lambda: uses(ck, (wn, wt)), "gpmp")
    ck.guard("exported", lambda: exported(ck, wn, wt), "gpmp/num")

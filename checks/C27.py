"""Conversion flags of predict, loo and the conditional sample paths."""
from .common import *


def column(z):
    return ops.mk((z.dims[0], ONE), lambda i, j: at(z, (i,)), False, z.tag)


def relib(t, L):
    return ops.with_tag(t, L=L)


def libs_of(w, r, v=None):
    it, s = w.it, w.it.st
    it.st = r.st
    try:
        v = it.resolve(r.value if v is None else v)
        return ops.lib(as_ten(it, v)) if isinstance(v, Ten) else None
    finally:
        it.st = s


class Watch:
    """What the user's functions received and which operations mixed array libraries."""

    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.n0 = len(self.w.uflibs)
        ops.MIX = []
        return self

    def __exit__(self, *a):
        self.mix, ops.MIX = ops.MIX, None
        self.seen = self.w.uflibs[self.n0:]


def out_lib(ck, tag, w, r, vals, co, where):
    """Converted out: NumPy arrays.  Otherwise: arrays of the backend."""
    want = "np" if co else w.L
    for name, v in vals:
        L = libs_of(w, r, v)
        ck.require(f"{tag} {name} array type", None if L is None else L == want, where,
                   f"the returned {name} is a {L} array with convert_out={co}", "convert_out decides the type of the returned arrays")


def boundary(ck, w, b, mt, meth, names, forms):
    g = Gp(w, mt)
    where = MODEL + meth
    base = None
    for ci, co, col in ((i, o, c) for i in (True, False) for o in (True, False) for c in (False, True)):
        L = "np" if ci else w.L
        xi, xt = relib(g.xi, L), relib(g.xt, L)
        zi = relib(column(g.zi) if col else g.zi, L)
        args = (xi, zi, xt) if meth == "predict" else (xi, zi)
        tag = f"{meth} {mt} convert_in={ci} convert_out={co} {'column' if col else 'flat'} {b}"
        with Watch(w) as o:
            r = w.meth(g.m, meth, *args, convert_in=ci, convert_out=co)
        if not ck.returns(tag, r, where):
            continue
        vs = w.items(r)
        out_lib(ck, tag, w, r, list(zip(names, vs)), co, where)
        if ci:
            wrong = [c for c in o.seen if any(l != w.L for l in c[1:])]
            ck.require(tag + " user functions see backend arrays", (not wrong) if o.seen else None, where,
                       f"the {wrong[0][0] if wrong else ''} function receives a {wrong[0][1:] if wrong else ''} array",
                       "inputs are converted before any computation")
            ck.require(tag + " no mixing of array types", not o.mix, where, f"an operation combines {o.mix[:1]} arrays",
                       "inputs are converted before any computation")
        if base is None:
            base = (vs, r)
            forms(tag, g, vs, r, where)
        else:
            for name, v, v0 in zip(names, vs, base[0]):
                ck.equal(f"{tag} {name} same numbers", w, v, v0, r, base[1], where)


def predict(ck, w, b, mt):
    def forms(tag, g, vs, r, where):
        if mt == "zero":
            f = [spec(w, "mean_zero", g.k, g.th0, g.xi, g.zi, g.xt)]
        elif mt == "parameterized":
            f = [spec(w, "mean_param", g.k, g.th0, g.mu, g.mp0, g.xi, g.zi, g.xt)]
        else:
            f = [spec(w, n, g.k, g.th0, g.mu, g.mp0, g.xi, g.zi, g.xt) for n in ("mean_lin", "mean_null")]
        ck.equal_any(f"{tag} mean", w, vs[0], [(s.value, s) for s in f], r, where)
    boundary(ck, w, b, mt, "predict", ("mean", "variance"), forms)


def loo(ck, w, b, mt):
    boundary(ck, w, b, mt, "loo", ("mean", "variance", "error"), lambda *a: None)


def paths(ck, w, b):
    zs = w.arr("ztsim", "G", "N")
    ii, jj = w.arr("xi_ind", "n", dt="i"), w.arr("xt_ind", "m", dt="i")
    lam = w.arr("lambda", "n", "m")
    for meth, mt in (("conditional_sample_paths", "zero"), ("conditional_sample_paths_parameterized_mean", "parameterized")):
        g = Gp(w, mt)
        where = MODEL + meth
        if mt == "zero":
            s = spec(w, "cond_paths", zs, ii, g.zi, jj, lam)
        else:
            s = spec(w, "cond_paths_param", g.mu, g.mp0, zs, g.xi, ii, g.zi, g.xt, jj, lam)
        for L in ("np", w.L):
            for co in (True, False):
                for col in (False, True):
                    zi = relib(column(g.zi) if col else g.zi, L)
                    xi, xt = relib(g.xi, L), relib(g.xt, L)
                    a = (relib(zs, L), ii, zi, jj, relib(lam, w.L)) if mt == "zero" else \
                        (relib(zs, L), xi, ii, zi, xt, jj, relib(lam, w.L))
                    tag = f"{meth} {L} input convert_out={co} {'column' if col else 'flat'} {b}"
                    with Watch(w) as o:
                        r = w.meth(g.m, meth, *a, convert_out=co)
                    if not ck.returns(tag, r, where):
                        continue
                    ck.equal(tag + " same numbers", w, r.value, s.value, r, s, where)
                    out_lib(ck, tag, w, r, [("paths", r.value)], co, where)
                    ck.require(tag + " no mixing of array types", not o.mix, where, f"an operation combines {o.mix[:1]} arrays",
                               "inputs are converted before any computation")


def run(ck):
    ck.explanation = ("Value graphs of predict, loo and the conditional sample paths for every combination of the conversion flags, "
                      "array library of the inputs and flat or column observations: same numbers, array library of the results, "
                      "array library seen by the user's functions.")
    for b in BACKENDS:
        for mt in MEANTYPES:
            ck.guard(f"predict {mt} {b}", lambda: predict(ck, ck.world(b), b, mt), MODEL + "predict")
            ck.guard(f"loo {mt} {b}", lambda: loo(ck, ck.world(b), b, mt), MODEL + "loo")
        ck.guard(f"paths {b}", lambda: paths(ck, ck.world(b), b), MODEL + "conditional_sample_paths")

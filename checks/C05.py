"""Sample paths and conditioning by kriging."""
from .common import *


def uncond(ck, w, b, mt):
    g = Gp(w, mt)
    N = w.size("N")
    where = MODEL + "sample_paths"
    for meth, forms in (("chol", ("paths_chol",)), ("svd", ("paths_svd", "paths_svd_root"))):
        n0 = len(getattr(w.it, "draws", []))
        r = w.meth(g.m, "sample_paths", g.xt, N, method=meth)
        tag = f"sample_paths {meth} {mt} {b}"
        if not ck.returns(tag, r, where):
            continue
        dr = getattr(w.it, "draws", [])[n0:]
        if len(dr) != 1:
            ck.require(tag + " one draw", None if not dr else False, where, f"{len(dr)} random draws", "one set of standard normals")
            continue
        kind, gid, eps, site = dr[0]
        ck.require(tag + " standard normal draw", kind == "N", where, f"draw of kind {kind}", "one set of standard normals")
        ck.equal_any(tag, w, r.value, [(s.value, s) for s in (spec(w, f, g.k, g.th0, g.xt, eps) for f in forms)], r, where)


def cond(ck, w, b):
    g = Gp(w, "zero")
    zs = w.arr("ztsim", "G", "N")
    ii, jj = w.arr("xi_ind", "n", dt="i"), w.arr("xt_ind", "m", dt="i")
    lam = w.arr("lambda", "n", "m")
    where = MODEL + "conditional_sample_paths"
    for co in (True, False):
        r = w.meth(g.m, "conditional_sample_paths", zs, ii, g.zi, jj, lam, convert_out=co)
        s = spec(w, "cond_paths", zs, ii, g.zi, jj, lam)
        tag = f"conditional_sample_paths convert_out={co} {b}"
        if ck.returns(tag, r, where):
            ck.equal(tag, w, r.value, s.value, r, s, where)
    g = Gp(w, "parameterized")
    where = MODEL + "conditional_sample_paths_parameterized_mean"
    for co in (True, False):
        r = w.meth(g.m, "conditional_sample_paths_parameterized_mean", zs, g.xi, ii, g.zi, g.xt, jj, lam, convert_out=co)
        s = spec(w, "cond_paths_param", g.mu, g.mp0, zs, g.xi, ii, g.zi, g.xt, jj, lam)
        tag = f"conditional_sample_paths_parameterized_mean convert_out={co} {b}"
        if ck.returns(tag, r, where):
            ck.equal(tag, w, r.value, s.value, r, s, where)


def run(ck):
    ck.explanation = ("Value graphs of the sample-path methods on both backends: a square root of the prior covariance times one "
                      "set of standard normals; conditioning adds the kriged innovation.")
    for b in BACKENDS:
        for mt in MEANTYPES:
            ck.guard(f"sample_paths {mt} {b}", lambda: uncond(ck, ck.world(b), b, mt), MODEL + "sample_paths")
        ck.guard(f"conditional {b}", lambda: cond(ck, ck.world(b), b), MODEL + "conditional_sample_paths")

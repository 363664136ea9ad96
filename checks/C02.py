"""Uncertainty is a function of the locations and the model only; means use the observations; no negative variance."""
from .common import *


def indep(ck, clause, w, r, v, where):
    t = w.ten(r, v)
    o = opaque_in(t)
    if atoms_named(t, "zi"):
        ck.bad(clause, where, "the value graph depends on the observed values zi", "no dataflow from zi")
    elif o is not None:
        ck.und(clause, where, f"opaque node {show(atom_poly(o))[:160]}")
    else:
        ck.ok(clause, where, rule="no dataflow from zi")


def uses(ck, clause, w, r, v, where):
    t = w.ten(r, v)
    if atoms_named(t, "zi"):
        ck.ok(clause, where, rule="dataflow from zi")
    elif opaque_in(t) is not None:
        ck.und(clause, where, "opaque node")
    else:
        ck.bad(clause, where, "the value graph does not depend on the observed values zi", "dataflow from zi")


def one(ck, w, mt, b):
    g = Gp(w, mt)
    W = MODEL + "predict"

    def predict():
        r = w.meth(g.m, "predict", g.xi, g.zi, g.xt, return_lambdas=True)
        if not ck.returns(f"predict {mt} {b}", r, W):
            return
        mean, var, lam = w.items(r)[:3]
        uses(ck, f"posterior mean uses zi {mt} {b}", w, r, mean, W)
        indep(ck, f"posterior variance {mt} {b}", w, r, var, W)
        indep(ck, f"kriging weights {mt} {b}", w, r, lam, W)
        col = w.arr("zi", "ni", 1)
        for label, zi, kw in (("", g.zi, {}), (", weights requested", g.zi, dict(return_lambdas=True)),
                              (", backend arrays out", g.zi, dict(convert_out=False)), (", no conversion", g.zi, dict(convert_in=False)),
                              (", column of observations", col, {}), (", all options", col, dict(return_lambdas=True, convert_in=False, convert_out=False))):
            r2 = w.meth(g.m, "predict", g.xi, zi, g.xt, **kw)
            if not ck.returns(f"predict {mt}{label} {b}", r2, W):
                continue
            v = w.ten(r2, w.items(r2)[1])
            s = spec(w, "clamp", v)
            st, d = ck.compare(w, v, s.value, r2, s)
            ck.add(f"nonnegative variance {mt}{label} {b}", {"eq": "ok", "diff": "violation", "und": "undecided"}[st], W,
                   "variance is not clamped at zero: " + d if st != "eq" else "", "max(v, 0) = v")
            indep(ck, f"posterior variance {mt}{label} {b}", w, r2, w.items(r2)[1], W)
    ck.guard(f"predict {mt} {b}", predict, W)

    def loo():
        W = MODEL + "loo"
        r = w.meth(g.m, "loo", g.xi, g.zi)
        if not ck.returns(f"loo {mt} {b}", r, W):
            return
        z, v, e = w.items(r)[:3]
        uses(ck, f"loo prediction uses zi {mt} {b}", w, r, z, W)
        indep(ck, f"loo variance {mt} {b}", w, r, v, W)
        # the prediction at i must not use the observation i: d zloo_i / d zi_i = 0
    ck.guard(f"loo {mt} {b}", loo, MODEL + "loo")

    def fisher():
        for fn in ("fisher_information", "fisher_information_cpd"):
            th = w.arr("theta", 2)
            r = w.meth(g.m, fn, g.xi, covparam=th)
            if ck.returns(f"{fn} {mt} {b}", r, MODEL + fn):
                indep(ck, f"{fn} {mt} {b}", w, r, None, MODEL + fn)
    ck.guard(f"fisher {mt} {b}", fisher, MODEL + "fisher_information")

    def paths():
        for meth in ("chol", "svd"):
            r = w.meth(g.m, "sample_paths", g.xt, w.size("N"), method=meth)
            if ck.returns(f"sample_paths {meth} {mt} {b}", r, MODEL + "sample_paths"):
                indep(ck, f"sample_paths {meth} {mt} {b}", w, r, None, MODEL + "sample_paths")
    ck.guard(f"sample_paths {mt} {b}", paths, MODEL + "sample_paths")


def run(ck):
    ck.explanation = ("Dataflow over the extracted value graphs: the input atom zi must not reach variances, weights, Fisher "
                      "information or unconditional paths and must reach every posterior mean; the default variance must be a "
                      "fixed point of clamping at zero.")
    for b in BACKENDS:
        for mt in MEANTYPES:
            ck.guard(f"model {mt} {b}", lambda: one(ck, ck.world(b), mt, b))

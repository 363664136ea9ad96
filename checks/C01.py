"""Kriging equations: Model.predict and the kriging predictors against the textbook system."""
from sa.vgraph import ExcV, Ext
from .common import Small

K = "gpmp/core/kriging.py"


def spec(w, name, *args):
    return w.call("spec.core:" + name, args)


def fail_solve(w):
    """The first general linear solve raises the backend's LinAlgError."""
    seen = []

    def f(name):
        leaf = name.rsplit(".", 1)[-1]
        if leaf in ("solve", "solve_ex", "lu_factor", "sysv") and not seen:
            seen.append(name)
            return ExcV(Ext("torch.linalg.LinAlgError" if w.backend == "torch" else "numpy.linalg.LinAlgError"), ("singular",))
        return None
    w.it.fail = f
    return seen


def check_one(ck, w, mt):
    B = w.backend
    m = w.model(mt)
    it = w.it
    xi, zi, xt = w.arr("xi", "n", "d"), w.arr("zi", "n"), w.arr("xt", "m", "d")
    k, th = it.getattr(m, "covariance"), it.getattr(m, "covparam")
    mu, mp = it.getattr(m, "mean"), it.getattr(m, "meanparam")
    a = (k, th) if mt == "zero" else (k, th, mu, mp)

    def sp(kind):
        if mt == "zero":
            s = spec(w, kind + "_zero", k, th, *((xi, zi, xt) if kind == "mean" else (xi, xt)))
            return [(s.value, s)]
        if mt == "parameterized":
            s = spec(w, "mean_param", k, th, mu, mp, xi, zi, xt) if kind == "mean" else spec(w, kind + "_zero", k, th, xi, xt)
            return [(s.value, s)]
        out = []
        for form in ("lin", "null"):
            s = spec(w, f"{kind}_{form}", *a, *((xi, zi, xt) if kind == "mean" else (xi, xt)))
            out.append((s.value, s))
        return out

    def clamped(forms):
        return [(r.value, r) for r in (spec(w, "clamp", v) for v, _ in forms)]

    def predict(tag, where):
        r = w.meth(m, "predict", xi, zi, xt, return_lambdas=True)
        if not ck.returns(f"{tag} returns", r, where):
            return
        vs = w.items(r)
        ck.equal_any(f"{tag} posterior mean", w, vs[0], sp("mean"), r, where)
        ck.equal_any(f"{tag} posterior variance", w, vs[1], clamped(sp("var")), r, where)
        ck.equal_any(f"{tag} kriging weights", w, vs[2], sp("weights"), r, where)
        r = w.meth(m, "predict", xi, zi, xt, zero_neg_variances=False)
        if ck.returns(f"{tag} unclamped returns", r, where):
            ck.equal_any(f"{tag} variance without clamping", w, w.items(r)[1], sp("var"), r, where)

    pw = "gpmp/core/model.py:Model.predict"
    ck.guard(f"predict {mt} {B}", lambda: predict(f"predict {mt} {B}", pw), pw)

    def direct(fn, tag):
        where = f"gpmp/core/model.py:Model.{fn}"
        for rt, kind in ((0, "var"), (1, "cov")):
            r = w.meth(m, fn, xi, xt, return_type=rt)
            if ck.returns(f"{tag} return_type={rt}", r, where):
                vs = w.items(r)
                ck.equal_any(f"{tag} weights return_type={rt}", w, vs[0], sp("weights"), r, where)
                ck.equal_any(f"{tag} {kind} return_type={rt}", w, vs[1], sp(kind), r, where)
        r = w.meth(m, fn, xi, xt)
        if ck.returns(f"{tag} by default", r, where):
            vs = w.items(r)
            ck.equal_any(f"{tag} weights by default", w, vs[0], sp("weights"), r, where)
            ck.equal_any(f"{tag} variance by default", w, vs[1], sp("var"), r, where)
        r = w.meth(m, fn, xi, xt, return_type=-1)
        if ck.returns(f"{tag} return_type=-1", r, where):
            vs = w.items(r)
            ck.equal_any(f"{tag} weights return_type=-1", w, vs[0], sp("weights"), r, where)

    fn = "kriging_predictor" if mt == "linear_predictor" else "kriging_predictor_with_zero_mean"
    ck.guard(f"{fn} {mt} {B}", lambda: direct(fn, f"{fn} {mt} {B}"), f"gpmp/core/model.py:Model.{fn}")

    if mt == "linear_predictor":
        def fallback():
            seen = fail_solve(w)
            try:
                r = w.meth(m, "predict", xi, zi, xt, return_lambdas=True)
            finally:
                w.it.fail = None
            tag = f"fallback after failed block solve {B}"
            where = f"{K}:kriging_predictor"
            if not seen:
                ck.ok(tag, where, "no general solve is used", "no fallback needed")
                return
            if not ck.returns(f"{tag} returns", r, where):
                return
            vs = w.items(r)
            ck.equal_any(f"{tag} mean", w, vs[0], sp("mean"), r, where)
            ck.equal_any(f"{tag} variance", w, vs[1], clamped(sp("var")), r, where)
            ck.equal_any(f"{tag} weights", w, vs[2], sp("weights"), r, where)
            for rt, kind in ((0, "var"), (1, "cov")):
                fail_solve(w)
                try:
                    r = w.meth(m, "kriging_predictor", xi, xt, return_type=rt)
                finally:
                    w.it.fail = None
                if ck.returns(f"{tag} return_type={rt}", r, where):
                    ck.equal_any(f"{tag} {kind} return_type={rt}", w, w.items(r)[1], sp(kind), r, where)
        ck.guard(f"fallback {B}", fallback, K)


def explicit(ck, w):
    """The route taken when the block solve raises, with one contrast: the closed-form values."""
    B, rule = w.backend, "predictor with one contrast"
    g = Small(w)
    where = f"{K}:kriging_predictor"
    tag = f"fallback with one contrast {B}"

    def form(kind):
        r = spec(w, f"{kind}_null", g.k, g.th0, g.mu, g.mp0, *((g.xi, g.zi, g.xt) if kind == "mean" else (g.xi, g.xt)))
        return r

    def run_(fn, *a, **kw):
        seen = fail_solve(w)
        try:
            return w.meth(g.m, fn, *a, **kw), seen
        finally:
            w.it.fail = None
    with g:
        r, seen = run_("predict", g.xi, g.zi, g.xt, return_lambdas=True, zero_neg_variances=False)
        if not seen:
            ck.ok(tag, where, "no general solve is used", "no fallback needed")
            return
        if ck.returns(f"{tag} returns", r, where):
            for v, kind in zip(w.items(r), ("mean", "var", "weights")):
                f = form(kind)
                g.equal(ck, f"{tag} {kind}", v, f.value, r, f, where, rule)
        for rt, kind in ((0, "var"), (1, "cov")):
            r, _ = run_("kriging_predictor", g.xi, g.xt, return_type=rt)
            if ck.returns(f"{tag} return_type={rt}", r, where):
                f = form(kind)
                g.equal(ck, f"{tag} {kind} return_type={rt}", w.items(r)[1], f.value, r, f, where, rule)


def run(ck):
    ck.explanation = ("The value graphs of Model.predict, kriging_predictor and kriging_predictor_with_zero_mean (all mean types, "
                      "return types, both backends, and the route taken when the block solve raises) are extracted from the "
                      "sources with an uninterpreted covariance and mean and compared in normal form with spec/core.py.")
    for b in ("numpy", "torch"):
        for mt in ("zero", "parameterized", "linear_predictor"):
            w = ck.world(b)
            ck.guard(f"model {mt} {b}", lambda: check_one(ck, w, mt))
        ck.guard(f"fallback with one contrast {b}", lambda: explicit(ck, ck.world(b)), K)

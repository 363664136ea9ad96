"""Posterior criteria and priors."""
from .common import *

PRI = "gpmp/kernel/priors.py:"
HLP = "gpmp/kernel/prior_helpers.py:"
K = "gpmp.kernel:"


def sp(w, name, *a):
    return spec(w, name, *a, mod="prior")


def names(w):
    d = dim("d")
    return dict(th=w.arr("theta", padd(d, ONE)), s0=w.scal("s0"), gamma=w.scal("gamma"), cover=w.scal("cover"),
                lmin=w.arr("lmin", "d"), l0=w.arr("l0", "d"), alpha=w.scal("alpha"))


def one(ck, w, clause, f, args, kw, s, sargs, where, default=None):
    def go():
        st0 = w.it.st.copy()
        try:
            if default:
                r0 = w.call("gpmp.kernel.prior_defaults:set_default_prior_hyperparameters", [], default, keep=True)
                if not r0.returned:
                    ck.und(clause, where, "defaults cannot be set")
                    return
            r = w.call(f, args, kw)
            if ck.returns(clause, r, where):
                e = sp(w, s, *sargs)
                ck.equal(clause, w, r.value, e.value, r, e, where)
        finally:
            w.it.st = st0
    ck.guard(clause, go, where)


def priors(ck, w, b):
    v = names(w)
    th, s0, gamma, cover, lmin, l0, alpha = (v[k] for k in ("th", "s0", "gamma", "cover", "lmin", "l0", "alpha"))
    q = w.arr("logrho", "d")
    pw = [w.scal(n) for n in ("lambda_var", "cut_logvariance_high", "lambda_lengthscales", "cut_loginvrho_low",
                              "cut_loginvrho_high", "penalty_factor")]
    P = PRI
    one(ck, w, f"variance power prior {b}", K + "log_prior_jeffreys_variance", [th], dict(lambda_var=gamma), "jeffreys", [th, gamma],
        P + "log_prior_jeffreys_variance")
    one(ck, w, f"variance power prior default {b}", K + "log_prior_jeffreys_variance", [th], {}, "jeffreys", [th, 1],
        P + "log_prior_jeffreys_variance")
    one(ck, w, f"power-law prior {b}", K + "log_prior_power_law", [th], dict(
        lambda_var=pw[0], cut_logvariance_high=pw[1], lambda_lengthscales=pw[2], cut_loginvrho_low=pw[3], cut_loginvrho_high=pw[4],
        penalty_factor=pw[5]), "power_law", [th] + pw, P + "log_prior_power_law")
    one(ck, w, f"power-law prior default {b}", K + "log_prior_power_law", [th], {}, "power_law_default", [th], P + "log_prior_power_law")
    for tag, kw, de in (("", dict(gamma=gamma, sigma2_coverage=cover), None), (" from defaults", {}, dict(gamma=gamma, sigma2_coverage=cover)),
                        (" gamma from defaults", dict(sigma2_coverage=cover), dict(gamma=gamma)),
                        (" coverage from defaults", dict(gamma=gamma), dict(sigma2_coverage=cover))):
        one(ck, w, f"log-variance prior{tag} {b}", K + "log_prior_gaussian_logsigma2", [th, s0], kw, "gauss", [th, s0, gamma, cover],
            P + "log_prior_gaussian_logsigma2", de)
    for tag, kw, de in (("", dict(alpha=alpha), None), (" from defaults", {}, dict(alpha=alpha))):
        one(ck, w, f"length-scale penalty{tag} {b}", K + "neglog_f_logrho", [q, lmin, l0], kw, "pen", [q, lmin, l0, alpha],
            P + "neglog_f_logrho", de)
        one(ck, w, f"length-scale prior{tag} {b}", K + "log_prior_logrho_barrier_linear", [th, lmin, l0], kw, "barrier",
            [th, lmin, l0, alpha], P + "log_prior_logrho_barrier_linear", de)

    def ref():
        g = Gp(w, "zero")
        t2 = w.arr("theta", 2)
        f0 = w.meth(g.m, "fisher_information", g.xi, covparam=t2)
        want = w.call("spec.prior:half_logdet", [w.ten(f0)])
        r = w.call(K + "log_prior_reference", [g.m, t2, g.xi])
        ck.equal(f"Jeffreys-rule prior {b}", w, r.value, want.value, r, want, P + "log_prior_reference")
    ck.guard(f"Jeffreys-rule prior {b}", ref, P + "log_prior_reference")


def posteriors(ck, w, b):
    v = names(w)
    th, s0, gamma, cover, lmin, l0, alpha = (v[k] for k in ("th", "s0", "gamma", "cover", "lmin", "l0", "alpha"))
    g = Gp(w, "linear_predictor")
    base = [g.k, th, g.mu, g.mp0, g.xi, g.zi]
    a = [g.m, th, g.xi, g.zi]
    M = "gpmp.kernel.priors:"
    n = "neg_log_restricted_posterior_"
    one(ck, w, f"posterior with variance power prior {b}", M + n + "with_jeffreys_prior", a, dict(lambda_var=gamma), "post_jeffreys",
        base + [gamma], PRI + n + "with_jeffreys_prior")
    one(ck, w, f"posterior with power-law prior {b}", M + n + "power_laws_prior", a, {}, "post_power", base, PRI + n + "power_laws_prior")
    full = dict(gamma=gamma, sigma2_coverage=cover)
    for tag, kw, de in (("", full, None), (" from defaults", {}, full), (" gamma from defaults", dict(sigma2_coverage=cover), dict(gamma=gamma)),
                        (" coverage from defaults", dict(gamma=gamma), dict(sigma2_coverage=cover))):
        one(ck, w, f"posterior with log-variance prior{tag} {b}", M + n + "logsigma2_prior", a + [s0], kw, "post_gauss",
            base + [s0, gamma, cover], PRI + n + "logsigma2_prior", de)
    for tag, kw, de in (("", dict(alpha=alpha), None), (" from defaults", {}, dict(alpha=alpha))):
        one(ck, w, f"posterior with length-scale prior{tag} {b}", M + n + "with_logrho_prior", a + [lmin, l0], kw, "post_barrier",
            base + [lmin, l0, alpha], PRI + n + "with_logrho_prior", de)
        one(ck, w, f"posterior with both priors{tag} {b}", M + n + "logsigma2_and_logrho_prior", a + [s0],
            dict(logrho_min=lmin, logrho_0=l0, **(dict(kw, **full) if kw else {})), "post_both", base + [s0, gamma, cover, lmin, l0, alpha],
            PRI + n + "logsigma2_and_logrho_prior", dict(de, **full) if de else None)


def anchors(ck, w, b):
    """Prior anchor and starting point: explicit value, else the shared one, else the model's (updates) or a fresh guess."""
    g = Gp(w, "linear_predictor")
    it = w.it
    d = dim("d")
    vals = {n: w.arr(n, padd(d, ONE)) for n in ("covparam0", "covparam0_prior", "covparam0_init")}
    rg = w.call(K + "anisotropic_parameters_initial_guess", [g.m, g.xi, g.zi])
    guess = w.ten(rg)
    cur = it.getattr(g.m, "covparam")
    for fn, upd in (("resolve_covparam0_prior_and_init", False), ("resolve_covparam0_roles_for_update", True)):
        for mask in range(8):
            kw = {n: vals[n] for i, n in enumerate(vals) if mask >> i & 1}
            fall = kw.get("covparam0", cur if upd else guess)
            want = (kw.get("covparam0_prior", fall), kw.get("covparam0_init", fall))
            clause = f"{fn} given {'+'.join(kw) or 'nothing'} {b}"

            def go():
                r = w.call("gpmp.kernel.prior_helpers:" + fn, [g.m, g.xi, g.zi], kw)
                if ck.returns(clause, r, HLP + fn):
                    ck.equal(clause, w, r.value, want, r, None, HLP + fn)
            ck.guard(clause, go, HLP + fn)


def resolved(ck, w, b):
    """resolve_logsigma2_logrho_prior_args: explicit values first, then the anchor, then the configured defaults."""
    d = dim("d")
    c0 = w.arr("anchor", padd(d, ONE))
    xi = w.arr("xi", "n", "d")
    ex = dict(prior_gamma=w.scal("gamma"), prior_sigma2_coverage=w.scal("cover"), prior_alpha=w.scal("alpha"),
              prior_rho_min_range_factor=w.scal("rf"), prior_log_sigma2_0=w.scal("s0"), prior_logrho_0=w.arr("l0", "d"),
              prior_logrho_min=w.arr("lmin", "d"))
    fn = "resolve_logsigma2_logrho_prior_args"
    neg = elementwise_neg(ops.index(c0, [ops.SliceV(1, None, None)]))
    order = list(ex)
    it = w.it
    for drop in [()] + [(n,) for n in order]:
        kw = {n: v for n, v in ex.items() if n not in drop}
        clause = f"{fn} without {drop[0] if drop else 'omissions'} {b}"

        def go():
            st0 = it.st.copy()
            try:
                w.call("gpmp.kernel.prior_defaults:set_default_prior_hyperparameters", [],
                       dict(gamma=w.scal("dgamma"), sigma2_coverage=w.scal("dcover"), alpha=w.scal("dalpha"),
                            rho_min_range_factor=w.scal("drf")), keep=True)
                r = w.call("gpmp.kernel.prior_helpers:" + fn, [], dict(kw, covparam0_prior=c0, xi=xi))
                if not ck.returns(clause, r, HLP + fn):
                    return
                want = dict(ex)
                marker = None
                if "prior_logrho_min" in drop:
                    marker = w.ten(w.call(K + "compute_logrho_min_from_xi", [xi], dict(prior_rho_min_range_factor=w.scal("rf"))))
                fb = dict(prior_gamma=w.scal("dgamma"), prior_sigma2_coverage=w.scal("dcover"), prior_alpha=w.scal("dalpha"),
                          prior_rho_min_range_factor=w.scal("drf"), prior_log_sigma2_0=ops.index(c0, [0]), prior_logrho_0=neg,
                          prior_logrho_min=marker)
                for n in drop:
                    want[n] = fb[n]
                ck.equal(clause, w, r.value, tuple(want[n] for n in order), r, None, HLP + fn)
            finally:
                it.st = st0
        ck.guard(clause, go, HLP + fn)


def elementwise_neg(t):
    return ops.elementwise(pneg, t)


def defaults(ck, w, b):
    """set / get round trip: each configured default is returned under its own name, the others unchanged."""
    M = "gpmp.kernel.prior_defaults:"
    where = "gpmp/kernel/prior_defaults.py:set_default_prior_hyperparameters"
    it = w.it
    for n in ("gamma", "sigma2_coverage", "alpha", "rho_min_range_factor"):
        def go():
            st0 = it.st.copy()
            try:
                g0 = w.call(M + "get_default_prior_hyperparameters")
                before = dict_items(w, g0)
                v = w.scal("new")
                w.call(M + "set_default_prior_hyperparameters", [], {n: v}, keep=True)
                g1 = w.call(M + "get_default_prior_hyperparameters")
                after = dict_items(w, g1)
                for k_ in before:
                    ck.equal(f"default {n} read back as {k_} {b}", w, after.get(k_), v if k_ == n else before[k_], g1, g0, where)
            finally:
                it.st = st0
        ck.guard(f"default {n} {b}", go, where)


def from_keywords(ck, w, b):
    """Each prior keyword sets its own default and is taken out of the keywords; the others stay."""
    M = "gpmp.kernel.prior_defaults:"
    where = "gpmp/kernel/prior_defaults.py:set_default_prior_hyperparameters_from_kwargs"
    it = w.it
    K = {"prior_logsigma2_gamma": "gamma", "prior_logsigma2_coverage": "sigma2_coverage", "prior_logrho_alpha": "alpha",
         "prior_logrho_min_range_factor": "rho_min_range_factor"}
    for ks in [(k,) for k in K] + [tuple(K), ()]:
        def go():
            st0 = it.st.copy()
            try:
                g0 = w.call(M + "get_default_prior_hyperparameters")
                before = dict_items(w, g0)
                vals = {k: w.scal("new_" + k) for k in ks}
                d = it.mkdict(dict(vals, other=w.scal("other")))
                r = w.call(M + "set_default_prior_hyperparameters_from_kwargs", [d], {}, keep=True)
                lab = f"keywords {'+'.join(K[k] for k in ks) or 'none'}"
                if not ck.returns(f"{lab} {b}", r, where):
                    return
                g1 = w.call(M + "get_default_prior_hyperparameters")
                after = dict_items(w, g1)
                for k_ in before:
                    key_ = next((k for k in ks if K[k] == k_), None)
                    ck.equal(f"{lab}: {k_} {b}", w, after.get(k_), vals[key_] if key_ else before[k_], g1, g0, where, "the keyword sets the default it names")
                left = set(it.content(d))
                ck.require(f"{lab}: what remains {b}", left == {"other"}, where, f"remaining keywords {sorted(map(str, left))}", "recognised keywords are removed, others kept")
            finally:
                it.st = st0
        ck.guard(f"keywords {'+'.join(ks)} {b}", go, where)


def dict_items(w, r):
    it = w.it
    s = it.st
    it.st = r.st
    try:
        o = it.resolve(r.value)
        return dict(it.content(o))
    finally:
        it.st = s


def run(ck):
    ck.explanation = ("Value graphs of every log-prior and restricted posterior compared with the documented formulas, for all parameters "
                      "and hyperparameters; default and anchor resolution checked for every subset of given arguments.")
    for b in BACKENDS:
        w = ck.world(b)
        for f in (priors, posteriors, anchors, resolved, defaults, from_keywords):
            ck.guard(f"{f.__name__} {b}", lambda: f(ck, w, b))

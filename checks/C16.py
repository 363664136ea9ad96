"""Argument validation: documented values are accepted, every other value is rejected with an error."""
from .common import *
from .C10 import Setup, py
from .C20 import Chain, _stack, sc
from .C22 import make, start, D
from .C21 import Density, Differentiate
from .C23 import Criterion, Record, Tempered
from .optim import Optimiser
from sa.prims import finite_inputs

OTHER = "§¶"          # a string equal to no literal of the source: stands for every value outside the documented ones
BOX = ((0.0, 0.0), (1.0, 2.0))


class Table:
    def __init__(self, ck, w, b):
        self.ck, self.w, self.b = ck, w, b

    def _run(self, clause, where, fn):
        it = self.w.it
        base = it.st.copy()
        out = []
        n0 = len(self.ck.clauses)
        try:
            self.ck.guard(clause, lambda: out.append(fn()), where)
        finally:
            it.st = base
        return out[0] if out and len(self.ck.clauses) == n0 else None

    def accepts(self, what, where, fn):
        clause = f"{what} accepted [{self.b}]"
        r = self._run(clause, where, fn)
        if r is not None:
            self.ck.require(clause, True if r.returned else False, where,
                            "a documented value is rejected: " + "; ".join(str(e)[:120] for _, e, _ in r.raises[:2]), "documented values are handled")

    def rejects(self, what, where, fn):
        clause = f"{what} rejected [{self.b}]"
        r = self._run(clause, where, fn)
        if r is not None:
            ok = True if not r.returned else None if r.raises else False
            self.ck.require(clause, ok, where, "an undocumented or contradictory value is accepted", "other values raise")

    def option(self, name, where, fn, good, bad):
        for v in good:
            self.accepts(f"{name}={v!r}"[:90], where, lambda: fn(v))
        for v in bad:
            self.rejects(f"{name}={'any other string' if v == OTHER else repr(v)}"[:90], where, lambda: fn(v))


def core(t, w, b):
    it = w.it
    call = lambda f, *a, **k: w.call(it.get(f) if isinstance(f, str) else f, list(a), k)
    M = "gpmp.core:Model"
    W = "gpmp/core/model.py:Model."
    cov, mean = w.cov_uf(), w.mean_uf(q=1)
    t.option("meantype", W + "__init__", lambda v: call(M, None if v == "zero" else mean, cov, w.arr("mp", 1), w.arr("cp", 3), v),
             ("zero", "parameterized", "linear_predictor"), (OTHER, "ZERO", ""))
    t.rejects("zero mean with a mean function", W + "__init__", lambda: call(M, mean, cov, None, w.arr("cp", 3), "zero"))
    for mt in ("parameterized", "linear_predictor"):
        t.rejects(f"{mt} mean without a mean function", W + "__init__", lambda: call(M, None, cov, w.arr("mp", 1), w.arr("cp", 3), mt))
    for m in ("predict", "loo"):
        for mt in ("zero", "parameterized", "linear_predictor"):
            g = Gp(w, mt)
            a = (g.xi, g.zi) + ((g.xt,) if m == "predict" else ())
            t.accepts(f"{m} with meantype {mt}", W + m, lambda: w.meth(g.m, m, *a))
        g = Gp(w, "zero")
        st0 = it.st
        it.st = st0.copy()
        it.setattr(g.m, "meantype", OTHER)
        t.rejects(f"{m} with another meantype", W + m, lambda: w.meth(g.m, m, *a))
        it.st = st0
    r = call(M, mean, cov, None, w.arr("cp", 3), "parameterized")
    if r.returned:
        st0 = it.st
        it.st = r.st
        t.rejects("predict with a parameterized mean without parameters", W + "predict",
                  lambda: w.meth(r.value, "predict", w.arr("xi", "n", "d"), w.arr("zi", "n"), w.arr("xt", "m", "d")))
        it.st = st0
    g = Gp(w, "zero")
    t.option("sample_paths method", W + "sample_paths", lambda v: w.meth(g.m, "sample_paths", g.xt, 2, method=v), ("chol", "svd"), (OTHER, "cholesky", ""))
    for mt in ("zero", "linear_predictor"):
        h = Gp(w, mt)
        for m in ("kriging_predictor_with_zero_mean",) if mt == "zero" else ("kriging_predictor",):
            t.option(f"{m} return_type", W + m, lambda v: w.meth(h.m, m, h.xi, h.xt, return_type=v), (-1, 0, 1), (2, -2, 3))
    a = lambda n, *s: w.arr(n, *s)
    sh = {
        "matching shapes": (a("X", 3, 2), a("Z", 3), a("T", 4, 2), True),
        "a column of observations": (a("X", 3, 2), a("Z", 3, 1), a("T", 4, 2), True),
        "1-D observation points": (a("X", 3), a("Z", 3), a("T", 4, 2), False),
        "1-D prediction points": (a("X", 3, 2), a("Z", 3), a("T", 2), False),
        "two columns of observations": (a("X", 3, 2), a("Z", 3, 2), a("T", 4, 2), False),
        "3-D observations": (a("X", 3, 2), a("Z", 3, 1, 1), a("T", 4, 2), False),
        "fewer observations than points": (a("X", 3, 2), a("Z", 2), a("T", 4, 2), False),
        "more observations than points": (a("X", 3, 2), a("Z", 4, 1), a("T", 4, 2), False),
        "prediction points of another dimension": (a("X", 3, 2), a("Z", 3), a("T", 4, 3), False),
    }
    for mt in ("zero", "linear_predictor"):
        h = Gp(w, mt)
        for cin in (True, False):
            for k, (X, Z, T_, good) in sh.items():
                f = t.accepts if good else t.rejects
                f(f"predict {mt} with {k}, convert_in={cin}", W + "predict", lambda: w.meth(h.m, "predict", X, Z, T_, convert_in=cin))
                if "prediction" not in k:
                    f(f"loo {mt} with {k}, convert_in={cin}", W + "loo", lambda: w.meth(h.m, "loo", X, Z, convert_in=cin))


def kernel(t, w, b):
    it = w.it
    call = lambda f, *a, **k: w.call(it.get(f) if isinstance(f, str) else f, list(a), k)
    K = "gpmp.kernel:"
    both = Setup(w, "linear_predictor", loader=True)
    xz, dl = dict(xi=both.xi, zi=both.zi), dict(dataloader=both.loader)
    J = UF("J", lambda it2, a, k: sc(atom_poly(Atom("J", (it2.V(as_ten(it2, a[1])),))), w))
    sources = {"arrays": (xz, True), "a loader": (dl, True), "arrays and a loader": ({**xz, **dl}, False), "neither": ({}, False)}
    for nm in ("anisotropic_parameters_initial_guess", "anisotropic_parameters_initial_guess_zero_mean",
               "anisotropic_parameters_initial_guess_constant_mean"):
        s = Setup(w, "zero" if "zero" in nm else "parameterized" if "constant" in nm else "linear_predictor", loader=True)
        for k, (kw, good) in sources.items():
            (t.accepts if good else t.rejects)(f"{nm} from {k}", "gpmp/kernel/init.py:" + nm, lambda: call(K + nm, s.m, **kw))
    P = "gpmp/kernel/parameter_selection.py:"
    for k, (kw, good) in sources.items():
        (t.accepts if good else t.rejects)(f"criterion from {k}", P + "make_selection_criterion_with_gradient",
                                           lambda: call(K + "make_selection_criterion_with_gradient", both.m, J, **kw))
        if not good:
            for nm in ("select_parameters_with_reml", "select_parameters_with_remap", "select_parameters_with_remap_gaussian_logsigma2",
                       "select_parameters_with_remap_gaussian_logsigma2_and_logrho_prior"):
                t.rejects(f"{nm} from {k}", P + nm, lambda: call(K + nm, both.m, **kw))
            t.rejects(f"select_parameters_with_criterion from {k}", P + "select_parameters_with_criterion",
                      lambda: call(K + "select_parameters_with_criterion", both.m, J, covparam0=w.arr("c0", 3), **kw))
    t.rejects("a parameterized mean without a starting mean", P + "select_parameters_with_criterion",
              lambda: call(K + "select_parameters_with_criterion", both.m, J, covparam0=w.arr("c0", 3), parameterized_mean=True, **xz))
    for mt in ("zero", "linear_predictor"):
        s = Setup(w, mt)
        t.rejects(f"ML with constant mean on a {mt} model", P + "select_parameters_with_ml_constant_mean",
                  lambda: call(K + "select_parameters_with_ml_constant_mean", s.m, **s.data))
    s = Setup(w, "parameterized")
    t.rejects("ML with constant mean and two mean parameters", P + "select_parameters_with_ml_constant_mean",
              lambda: call(K + "select_parameters_with_ml_constant_mean", s.m, meanparam0=w.arr("m2", 2), covparam0=w.arr("c0", 3), **s.data))

    def auto(v):
        opt = Optimiser(w)
        with opt:
            return call(K + "autoselect_parameters", w.arr("p0", 2), UF("f", lambda it2, a, k: w.scal("fv")), UF("g", lambda it2, a, k: w.arr("gv", 2)), method=v)
    t.option("optimiser", P + "autoselect_parameters", auto, ("SLSQP", "L-BFGS-B"), (OTHER, "", "slsqp"))
    # priors
    Q = "gpmp/kernel/priors.py:"
    th = w.arr("theta", 3)

    def gauss(**k):
        return call("gpmp.kernel.priors:log_prior_gaussian_logsigma2", th, w.scal("l0"), **k)
    t.option("gamma of the variance prior", Q + "log_prior_gaussian_logsigma2", lambda v: gauss(gamma=v), (1.5, 10.0), (1.0, 0.5, 0.0, -2.0))
    t.option("coverage of the variance prior", Q + "log_prior_gaussian_logsigma2", lambda v: gauss(sigma2_coverage=v), (0.5, 0.95), (0.0, 1.0, -0.1, 1.1))
    lo, mid = _stack([num(-1), num(-2)], w), _stack([num(0), num(1)], w)
    rho = lambda a0, a1, **k: call("gpmp.kernel.priors:neglog_f_logrho", w.arr("lr", 2), a0, a1, **k)
    t.option("slope of the range prior", Q + "neglog_f_logrho", lambda v: rho(lo, mid, alpha=v), (1.0, 0.1), (0.0, -1.0))
    t.rejects("reference range below its lower bound", Q + "neglog_f_logrho", lambda: rho(mid, lo))
    t.rejects("reference range equal to its lower bound", Q + "neglog_f_logrho", lambda: rho(lo, lo))
    t.rejects("one reference range below its lower bound", Q + "neglog_f_logrho", lambda: rho(lo, _stack([num(0), num(-3)], w)))
    full = "gpmp.kernel.priors:neg_log_restricted_posterior_logsigma2_and_logrho_prior"
    for miss in (("logrho_min",), ("logrho_0",), ("logrho_min", "logrho_0")):
        k = {n: v for n, v in (("logrho_min", lo), ("logrho_0", mid)) if n not in miss}
        t.rejects("posterior without " + " and ".join(miss), Q + full.split(":")[1],
                  lambda: call(full, both.m, th, both.xi, both.zi, log_sigma2_0=w.scal("l0"), **k))
    PD = "gpmp/kernel/prior_defaults.py:set_default_prior_hyperparameters"
    limits = {"gamma": ((1.5, 3.0), (1.0, 0.5, -1.0)), "sigma2_coverage": ((0.5, 0.99), (0.0, 1.0, 1.5, -0.5)),
              "alpha": ((0.5, 2.0), (0.0, -1.0)), "rho_min_range_factor": ((0.1, 2.0), (0.0, -0.1))}
    setd = "gpmp.kernel.prior_defaults:set_default_prior_hyperparameters"
    getd = "gpmp.kernel.prior_defaults:get_default_prior_hyperparameters"
    good = {k: v[0][1] for k, v in limits.items()}

    def table(st):
        s0 = it.st
        it.st = st
        try:
            r = call(getd)
            return {k: it.vkey(v) for k, v in r.st.heap[r.value].items()} if r.returned else None
        finally:
            it.st = s0
    for k, (gv, bv) in limits.items():
        t.option("default " + k, PD, lambda v: call(setd, **{k: v}), gv, bv)
        for v in bv[:1]:
            c = f"rejected default {k} leaves the defaults as they were [{b}]"

            def unchanged():
                r = call(setd, **dict(good, **{k: v}))
                if r.returned:
                    return t.ck.bad(c, PD, "accepted", "a rejected call changes nothing")
                before, after = table(it.st), table(r.st if r.st is not None else it.st)
                ends = [table(s) for _, _, s in r.raises if s is not None] or [after]
                if before is None or None in ends:
                    return t.ck.und(c, PD, "defaults not readable")
                t.ck.require(c, all(e == before for e in ends), PD, "the defaults given before the rejected one were stored",
                             "a rejected call changes nothing")
            t.ck.guard(c, unchanged, PD)
    for shape, good_ in (((3, 2), True), ((3,), False), ((3, 2, 1), False)):
        (t.accepts if good_ else t.rejects)(f"default hyperparameters for points of shape {shape}", PD, lambda: call(getd, w.arr("X", *shape)))
    t.option("range factor", "gpmp/kernel/prior_helpers.py:compute_logrho_min_from_xi",
             lambda v: call("gpmp.kernel.prior_helpers:compute_logrho_min_from_xi", w.arr("X", 3, 2), v), (0.1,), (0.0, -1.0))


def numerical(t, w, b):
    it = w.it
    call = lambda f, *a, **k: w.call(it.get(f) if isinstance(f, str) else f, list(a), k)
    N = f"gpmp/num/{b}_backend.py:"
    s = Setup(w, "linear_predictor", loader=True)
    J = UF("J", lambda it2, a, k: sc(atom_poly(Atom("J", (it2.V(as_ten(it2, a[0])),))), w))
    cls = "gpmp.num:BatchDifferentiableSelectionCriterion"
    t.option("reduction", N + "BatchDifferentiableSelectionCriterion", lambda v: call(cls, J, s.loader, reduction=v), ("mean", "sum"), (OTHER, "", "max"))
    t.option("batches_per_eval", N + "BatchDifferentiableSelectionCriterion", lambda v: call(cls, J, s.loader, batches_per_eval=v), (0, 1, 5), (-1, -3))
    mv = "gpmp.num:multivariate_normal."
    for f, pre in (("rvs", ()), ("logpdf", (w.arr("x", 2),))):
        W = N + "multivariate_normal." + f
        tail = (4,) if f == "rvs" else ()
        arg = (lambda m, c: pre + (m, c) + tail)
        t.accepts(f"{f} with a square covariance", W, lambda: call(mv + f, *arg(w.arr("m", 2), w.arr("C", 2, 2))))
        t.rejects(f"{f} with a rectangular covariance", W, lambda: call(mv + f, *arg(0.0, w.arr("C", 2, 3))))
        t.rejects(f"{f} with a vector covariance", W, lambda: call(mv + f, *arg(0.0, w.arr("C", 2))))
        t.rejects(f"{f} with a mean of another length", W, lambda: call(mv + f, *arg(w.arr("m", 3), w.arr("C", 2, 2))))
    t.rejects("logpdf of points of another dimension", N + "multivariate_normal.logpdf", lambda: call(mv + "logpdf", w.arr("x", 4, 3), 0.0, w.arr("C", 2, 2)))
    t.rejects("gradient of a vector function", N + "value_and_grad",
              lambda: call("gpmp.num:value_and_grad", UF("f", lambda it2, a, k: w.arr("y", 2)), w.arr("x", 2)))


def samplers(t, w, b):
    it = w.it
    call = lambda f, *a, **k: w.call(it.get(f) if isinstance(f, str) else f, list(a), k)
    H = "gpmp/mcmc/mh.py:MetropolisHastings."

    def chain(x0, n, burn, rep=None, **opt):
        c = Chain(w, 2, **opt)
        kw = {} if rep is None else dict(replicate_initial_state=rep)
        return w.meth(c.mh, "scheduler", x0, n, burn, **dict(kw, silent=True) if "silent" in _params(it, "gpmp.mcmc.mh:MetropolisHastings.scheduler") else kw)
    t.accepts("chain states", H + "scheduler", lambda: chain(w.arr("x0", 2, D), 1, 0))
    t.rejects("chain states for another number of chains", H + "scheduler", lambda: chain(w.arr("x0", 3, D), 1, 0))
    t.rejects("chain states of another dimension", H + "scheduler", lambda: chain(w.arr("x0", 2, D + 1), 1, 0))
    t.rejects("burn-in longer than the run", H + "scheduler", lambda: chain(w.arr("x0", 2, D), 1, 2))
    p0 = lambda *s: dict(proposal_distribution_param_init=w.arr("P0", *s))
    for s, good in (((D,), True), ((D, D), True), ((2, D), False if D != 2 else None), ((D + 1,), False), ((D, D + 1), False), ((3, D, D), False), ((2, D, D), True)):
        if good is not None:
            (t.accepts if good else t.rejects)(f"proposal parameter of shape {s}", H + "scheduler", lambda: chain(w.arr("x0", 2, D), 1, 0, **p0(*s)))
    t.option("adaptation method", H + "run_burnin",
             lambda v: chain(w.arr("x0", 2, D), 2, 2, adaptation_method=v, adaptation_interval=2, **p0(D)), ("RM", "Haario", "haario"), (OTHER, ""))
    # SMC
    S = "gpmp/mcmc/smc.py:"

    def parts(attr_, v, m):
        p, _ = start(w, 3, **{attr_: v})
        return w.meth(p, m)
    t.option("initial distribution", S + "ParticlesSet.__init__", lambda v: _make(w, initial_distribution_type=v), ("randunif",), (OTHER, "", "normal"))
    t.option("resampling scheme", S + "ParticlesSet.resample", lambda v: parts("resample_scheme", v, "resample"), (), (OTHER, "", "systematic"))
    t.option("perturbation covariance", S + "ParticlesSet.perturb", lambda v: parts("covariance_method", v, "perturb"), ("normal", "knn"), (OTHER, ""))

    def smc(v):
        c = w.call(it.get("gpmp.mcmc.smc:SMCConfig"), [], dict(compute_next_logpdf_param_method=v))
        it.st = c.st
        return call("gpmp.mcmc.smc:SMC", BOX, 3, smc_config=c.value)
    t.option("rule for the next density", S + "SMC.__init__", smc, ("p0", "ess"), (OTHER, "", "ESS"))
    t.rejects("box of another dimension", S + "ParticlesSet.particles_init",
              lambda: w.meth(make(w, 3), "particles_init", ((0.0,) * (D + 1), (1.0,) * (D + 1)), 3))
    f = UF("f", lambda it2, a, k: w.arr("fx", 3))
    lp = UF("lp", lambda it2, a, k: w.arr("lpx", 3))

    def ind(v):
        r = call("gpmp.mcmc.smc:log_indicator_density", f, 0.5, lp, tail=v)
        if not r.returned:
            return r
        it.st = r.st
        return w.call(r.value, [w.arr("x", 3, 2)])
    t.option("tail of the indicator", S + "log_indicator_density", ind, ("lower", "upper"), (OTHER, ""))
    inf = float("inf")
    R = S + "run_subset_simulation"
    t.rejects("subset simulation with another tail", R, lambda: call("gpmp.mcmc.smc:run_subset_simulation", f, (-inf, 0.0), BOX, lp, tail=OTHER))
    t.rejects("upper tail not starting at -inf", R, lambda: call("gpmp.mcmc.smc:run_subset_simulation", f, (0.0, 1.0), BOX, lp, tail="upper"))
    t.rejects("lower tail not starting at +inf", R, lambda: call("gpmp.mcmc.smc:run_subset_simulation", f, (-inf, 1.0), BOX, lp, tail="lower"))
    # SVGD
    V = "gpmp/mcmc/svgd.py:"
    dens = UF("dens", lambda it2, a, k: sc(atom_poly(Atom("lp", (it2.V(as_ten(it2, a[0])),))), w))

    def step(x=None, **k):
        d = Tempered(w, D)
        d.scales = [num(1), num(2), num(Fraction(1, 2)), num(-1)]
        with Differentiate(w, d), finite_inputs():
            return call("gpmp.mcmc.svgd:svgd_step", d.lp(), x if x is not None else w.arr("P", 2, D), **k)
    base = dict(step_size=0.5, temperature=1.0)
    t.option("Stein step size", V + "svgd_step", lambda v: step(**dict(base, step_size=v)), (0.5, 2.0), (0.0, -1.0))
    t.option("Stein temperature", V + "svgd_step", lambda v: step(**dict(base, temperature=v)), (0.5, 2.0), (0.0, -1.0))
    t.option("Stein bandwidth scale", V + "svgd_step", lambda v: step(**dict(base, bandwidth_scale=v)), (0.5,), (0.0, -1.0))
    t.option("Stein minimal bandwidth", V + "svgd_step", lambda v: step(**dict(base, bandwidth_min=v)), (0.5, None), (0.0, -1.0))
    t.rejects("one Stein particle without its dimension", V + "svgd_step", lambda: step(w.arr("P", D), **base))
    pre = lambda v: step(**dict(base, preconditioner_diag=v))
    t.accepts("Stein preconditioner", V + "svgd_step", lambda: pre(_stack([num(1), num(2)][:D], w)))
    t.rejects("Stein preconditioner of another length", V + "svgd_step", lambda: pre(_stack([num(1)] * (D + 1), w)))
    for k, v in (("zero", 0), ("negative", -1)):
        t.rejects(f"Stein preconditioner with a {k} entry", V + "svgd_step", lambda: pre(_stack([num(1), num(v)], w)))
    box = lambda v: step(**dict(base, sampling_box=v))
    t.accepts("Stein box", V + "svgd_step", lambda: box(((0.0,) * D, (1.0,) * D)))
    t.accepts("scalar Stein box", V + "svgd_step", lambda: box((0.0, 1.0)))
    t.rejects("Stein box of another dimension", V + "svgd_step", lambda: box(((0.0,) * (D + 1), (1.0,) * (D + 1))))
    t.rejects("Stein box with three parts", V + "svgd_step", lambda: box(((0.0,) * D, (1.0,) * D, (2.0,) * D)))

    def stein(x=None, opt=None, **k):
        d = Density(w, D)
        o = w.call(it.get("gpmp.mcmc.svgd:SVGDOptions"), [], dict(dict(n_steps=1, progress=False, verbose=0), **(opt or {})))
        it.st = o.st
        with Differentiate(w, d), finite_inputs():
            return call("gpmp.mcmc.svgd:svgd_sample", d.lp(), x, options=o.value, **k)
    X = w.arr("P", 2, D)
    t.rejects("Stein start without particles or box", V + "svgd_sample", lambda: stein())
    t.rejects("Stein start from a box without a number of particles", V + "svgd_sample", lambda: stein(init_box=BOX))
    t.rejects("Stein start with zero particles", V + "svgd_sample", lambda: stein(init_box=BOX, n_particles=0))
    t.rejects("Stein start from a scalar box without a dimension", V + "svgd_sample", lambda: stein(init_box=(py(0), py(1)), n_particles=2))
    t.rejects("Stein start from a box of another dimension", V + "svgd_sample", lambda: stein(init_box=BOX, n_particles=2, dim=3))
    t.rejects("Stein start with 3-D particles", V + "svgd_sample", lambda: stein(w.arr("P", 2, D, 1)))
    t.rejects("another number of Stein particles", V + "svgd_sample", lambda: stein(X, n_particles=3))
    t.rejects("another Stein dimension", V + "svgd_sample", lambda: stein(X, dim=D + 1))
    t.rejects("negative number of Stein steps", V + "svgd_sample", lambda: stein(X, dict(n_steps=-1)))
    for k in ("initial_temperature", "final_temperature"):
        for v in (0.0, -1.0):
            t.rejects(f"Stein {k} {v}", V + "svgd_sample", lambda: stein(X, dict(n_steps=3, **{k: v})))
    t.rejects("another annealing schedule", V + "svgd_sample", lambda: stein(X, dict(n_steps=3, annealing_schedule=OTHER)))
    # NUTS
    NU = "gpmp/mcmc/nuts.py:nuts_sample"

    def nuts(q, **k):
        it.intercept["gpmp.mcmc.nuts:nuts_transition"] = lambda it2, f_, a, kw: (w.arr("qn", D), 0.5, 1, 1, False)
        try:
            with finite_inputs():
                return call("gpmp.mcmc.nuts:nuts_sample", dens, q, 1, **dict(dict(num_warmup=0, init_step_size=0.5, progress=False, verbose=0), **k))
        finally:
            it.intercept.pop("gpmp.mcmc.nuts:nuts_transition", None)
    t.accepts("NUTS start", NU, lambda: nuts(w.arr("Q", 2, D)))
    t.rejects("1-D NUTS start", NU, lambda: nuts(w.arr("Q", D)))
    t.rejects("3-D NUTS start", NU, lambda: nuts(w.arr("Q", 2, D, 1)))
    t.accepts("NUTS metric", NU, lambda: nuts(w.arr("Q", 2, D), init_mass_diag=w.arr("md", D)))
    t.rejects("NUTS metric of another length", NU, lambda: nuts(w.arr("Q", 2, D), init_mass_diag=w.arr("md", D + 1)))
    # posterior sampling
    Jc = Criterion(w)
    res = w.arr("trace", 2, 2, D)
    kinds = {
        "mh": ("gpmp.mcmc.mh:MetropolisHastings.scheduler", ("self", "chains_state_initial"), "param_initial_states", res,
               dict(silent=True, plot_chains=False, plot_empirical_distributions=False, n_chains=2)),
        "nuts": ("gpmp.mcmc.nuts:nuts_sample", ("log_prob", "q_init"), "param_initial_states", (res, "info"), dict(n_chains=2, progress=False, verbose=0)),
        "svgd": ("gpmp.mcmc.svgd:svgd_sample", ("log_prob", "particles_initial"), "particles_initial", (res, "info"),
                 dict(n_particles=2, init_jitter=0.0, progress=False, verbose=0)),
    }
    for nm, (target, names, x0, out, extra) in kinds.items():
        F = "gpmp/mcmc/param_posterior.py:sample_from_selection_criterion_" + nm

        def go(**k):
            with Record(w, target, names, out), finite_inputs():
                return call("gpmp.mcmc.param_posterior:sample_from_selection_criterion_" + nm, **dict(extra, **k))
        S0, J1 = {x0: w.arr("S0", 2, D)}, dict(selection_criterion=Jc.uf())
        box = dict(init_box=((0.0,) * D, (1.0,) * D))
        t.accepts(f"{nm} with a criterion and starting states", F, lambda: go(**S0, **J1))
        t.rejects(f"{nm} without criterion or report", F, lambda: go(**S0))
        t.rejects(f"{nm} with a criterion and a report", F, lambda: go(info=_info(w, Jc), **S0, **J1))
        t.rejects(f"{nm} with a report without criterion", F, lambda: go(info=_info(w, None), **S0))
        t.accepts(f"{nm} with a report", F, lambda: go(info=_info(w, Jc), **S0))
        t.rejects(f"{nm} without starting states, report or box", F, lambda: go(**J1))
        t.rejects(f"{nm} with a random start without a box", F, lambda: go(random_init=True, **J1, **({} if nm == "svgd" else S0)))
        t.rejects(f"{nm} with starting states of another dimension", F, lambda: go(**{x0: w.arr("S0", 2, D + 1)}, info=None, sampling_box=((0.0,) * D, (1.0,) * D), **J1))
        t.rejects(f"{nm} with 3-D starting states", F, lambda: go(**{x0: w.arr("S0", 2, D, 1)}, **J1))
        if nm != "svgd":
            t.rejects(f"{nm} with another number of starting states", F, lambda: go(**{x0: w.arr("S0", 3, D)}, **J1))
        t.rejects(f"{nm} with a box of three parts", F, lambda: go(sampling_box=((0.0,) * D,) * 3, **S0, **J1))
        if nm == "mh":
            t.option(f"{nm} temperature", F, lambda v: go(temperature=v, **S0, **J1), (1.0, 0.5), (0.0, -1.0))
            t.rejects("mh with a burn-in longer than the run", F, lambda: go(n_steps_total=5, burnin_period=6, **S0, **J1))
    t.rejects("smc without a box", "gpmp/mcmc/param_posterior.py:sample_from_selection_criterion_smc",
              lambda: call("gpmp.mcmc.param_posterior:sample_from_selection_criterion_smc", selection_criterion=Jc.uf()))
    t.rejects("smc without criterion or report", "gpmp/mcmc/param_posterior.py:sample_from_selection_criterion_smc",
              lambda: call("gpmp.mcmc.param_posterior:sample_from_selection_criterion_smc", init_box=BOX))


def _params(it, q):
    f = it.get(q)
    a = f.node.args
    return {x.arg for x in a.args + a.kwonlyargs}


def _make(w, **cfg):
    it = w.it
    c = w.call(it.get("gpmp.mcmc.smc:ParticlesSetConfig"), [], cfg)
    if not c.returned:
        return c
    it.st = c.st
    return w.call(it.get("gpmp.mcmc.smc:ParticlesSet"), [BOX, 3], dict(config=c.value))


def _info(w, J):
    it = w.it
    f = J.uf() if J is not None else None
    r = w.call(it.get("spec.posterior:Info"), [w.arr("covparam", D), f, f])
    it.st = r.st
    return r.value


def data(t, w, b):
    it = w.it
    call = lambda f, *a, **k: w.call(it.get(f) if isinstance(f, str) else f, list(a), k)
    F = "gpmp/dataloader.py:"
    DS, DL = "gpmp.dataloader:Dataset", "gpmp.dataloader:DataLoader"
    a = w.arr
    L = lambda *x: it.mklist(list(x))
    t.accepts("dataset of one shard", F + "Dataset.__init__", lambda: call(DS, a("X", 4, 2), a("Z", 4)))
    t.accepts("dataset of two shards", F + "Dataset.__init__", lambda: call(DS, L(a("X", 4, 2), a("Y", 3, 2)), L(a("Z", 4), a("V", 3))))
    t.rejects("dataset with fewer observations", F + "Dataset.__init__", lambda: call(DS, a("X", 4, 2), a("Z", 3)))
    t.rejects("dataset with a shard too many", F + "Dataset.__init__", lambda: call(DS, L(a("X", 4, 2), a("Y", 3, 2)), L(a("Z", 4))))
    t.rejects("dataset with a shard of another length", F + "Dataset.__init__", lambda: call(DS, L(a("X", 4, 2), a("Y", 3, 2)), L(a("Z", 4), a("V", 2))))
    r = call(DS, L(a("X", 4, 2), a("Y", 3, 2)), L(a("Z", 4), a("V", 3)))
    if not r.returned:
        return
    it.st = r.st
    d = r.value
    t.option("dataset index", F + "Dataset.__getitem__", lambda v: w.meth(d, "__getitem__", v), (0, 6, -1, -7, 4), (7, -8, 100))
    t.rejects("subset by 2-D indices", F + "Dataset.subset", lambda: w.meth(d, "subset", a("ix", 2, 1, dt="i")))
    t.option("split ratios", F + "Dataset.split", lambda v: call(it.get(DS + ".split"), d, v), ((0.5, 0.25, 0.25), (1.0, 0.0, 0.0)), ((0.5, 0.25, 0.5), (0.5, 0.25, 0.0)))
    for m in ("x_quantile", "z_quantile"):
        t.option(m, F + "Dataset._reduce_quantile", lambda v: w.meth(d, m, v), (0.0, 0.5, 1.0), (-0.1, 1.1, 50.0))
    t.option("approximate quantile", F + "Dataset._reduce_quantile_approx", lambda v: w.meth(d, "_reduce_quantile_approx", "x", v), (0.0, 1.0), (-0.1, 1.1))
    t.option("batch_size", F + "DataLoader.__init__", lambda v: call(DL, d, batch_size=v), (1, 3, 100, None), (0, -1))

    def batch(i, **k):
        q = call(DL, d, batch_size=3, **dict(dict(shuffle=False), **k))
        it.st = q.st
        return w.meth(q.value, "__getitem__", i)
    t.option("batch index", F + "DataLoader.__getitem__", lambda v: batch(v), (0, 2, -1, -3), (3, -4))
    t.option("batch index without the last batch", F + "DataLoader.__getitem__", lambda v: batch(v, drop_last=True), (0, 1, -1), (2, -3))
    t.rejects("batch index while shuffling", F + "DataLoader.__getitem__", lambda: batch(0, shuffle=True))
    t.rejects("batch index of an infinite loader", F + "DataLoader.__getitem__", lambda: batch(0, infinite=True))
    t.rejects("batch index of another type", F + "DataLoader.__getitem__", lambda: batch("0"))
    t.rejects("no batches to collate", F + "collate_batches", lambda: call("gpmp.dataloader:collate_batches", L()))


def params(t, w, b):
    it = w.it
    call = lambda f, *a, **k: w.call(it.get(f) if isinstance(f, str) else f, list(a), k)
    F = "gpmp/parameter/param.py:"
    P = "gpmp.parameter:Param"
    L = lambda *x: it.mklist(list(x))
    v2 = lambda: w.arr("v", 2)
    t.option("normalisation", F + "Param.__init__", lambda v: call(P, v2(), normalizations=L(v, "none")), ("log", "log_inv", "none", "LOG"), (OTHER, "", 3))
    fields = {"paths": lambda n: L(*[L("a")] * n), "names": lambda n: L(*["n%d" % i for i in range(n)]),
              "normalizations": lambda n: L(*["log"] * n), "bounds": lambda n: L(*[None] * n)}
    for f, mk_ in fields.items():
        t.accepts(f"{f} of the right length", F + "Param.__init__", lambda: call(P, v2(), **{f: mk_(2)}))
        for n in (1, 3):
            t.rejects(f"{n} {f} for two values", F + "Param.__init__", lambda: call(P, v2(), **{f: mk_(n)}))
    r = call(P, v2(), names=L("a", "b"), paths=L(L("p", "q"), L("p", "r")))
    if r.returned:
        it.st = r.st
        o = r.value
        for at_ in ("values", "denormalized_values"):
            setter = UF("set", lambda it2, a, k: (it2.setattr(o, at_, a[0]), None)[1])
            t.accepts(f"two {at_}", F + "Param." + at_, lambda: w.call(setter, [w.arr("u", 2)]))
            for n in (1, 3):
                t.rejects(f"{n} {at_}", F + "Param." + at_, lambda: w.call(setter, [w.arr("u", n)]))
        t.rejects("unknown name", F + "Param.get_by_name", lambda: w.meth(o, "get_by_name", OTHER))
        t.rejects("setting an unknown name", F + "Param.set_by_name", lambda: w.meth(o, "set_by_name", OTHER, 1.0))
        sp = lambda path, n, **k: w.meth(o, "set_by_path", L(*path), w.arr("u", n), **k)
        t.accepts("one value at a path", F + "Param.set_by_path", lambda: sp(("p", "q"), 1))
        t.accepts("two values under a prefix", F + "Param.set_by_path", lambda: sp(("p",), 2, prefix_match=True))
        t.rejects("two values at a path of one", F + "Param.set_by_path", lambda: sp(("p", "q"), 2))
        t.rejects("one value under a prefix of two", F + "Param.set_by_path", lambda: sp(("p",), 1, prefix_match=True))
    A = "gpmp.parameter.param:make_anisotropic_param"
    W = F + "make_anisotropic_param"
    t.accepts("anisotropic parameter of a dimension", W, lambda: call(A, 2))
    t.accepts("anisotropic parameter of values", W, lambda: call(A, None, w.arr("u", 3)))
    t.accepts("anisotropic parameter of a dimension and its values", W, lambda: call(A, 2, w.arr("u", 3)))
    t.rejects("anisotropic parameter of nothing", W, lambda: call(A))
    t.rejects("anisotropic parameter of a dimension and other values", W, lambda: call(A, 2, w.arr("u", 5)))


def run(ck):
    ck.rule = "partial evaluation of every public function on each documented value and on a string equal to no literal of the source"
    for b in ("numpy", "torch"):
        for f in (core, kernel, numerical, samplers, data, params):
            def one():
                w = ck.world(b)
                base = w.it.st.copy()
                try:
                    f(Table(ck, w, b), w, b)
                finally:
                    w.it.st = base
            ck.guard(f"{f.__name__} [{b}]", one, "gpmp")

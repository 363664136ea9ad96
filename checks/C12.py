"""Random draws: every source of randomness in the library is the seeded generator or one the caller gave."""
import ast

from .common import *
from .C20 import Chain, _stack, sc
from .C21 import Density, Differentiate
from .C22 import make, start, do, D
from .C23 import Record, Criterion
from sa.census import Census, Local
from sa.prims import ExtInst, finite_inputs, new_gen

HIDDEN_MODULES = ("random", "secrets", "uuid")
ENTROPY = {"os.urandom", "os.getrandom", "uuid.uuid1", "uuid.uuid4", "time.time_ns"}
NP_OBJECTS = {"default_rng", "Generator", "RandomState", "SeedSequence", "PCG64", "MT19937", "Philox", "SFC64", "BitGenerator", "PCG64DXSM"}
NP_NODRAW = {"seed", "get_state", "set_state", "get_bit_generator", "set_bit_generator"}
TORCH_DRAWS = {"rand", "randn", "randint", "randperm", "multinomial", "normal", "bernoulli", "poisson", "rand_like", "randn_like",
               "randint_like", "binomial"}
TORCH_INPLACE = {"normal_", "uniform_", "random_", "bernoulli_", "exponential_", "cauchy_", "log_normal_", "geometric_"}
QMC = {"LatinHypercube", "Sobol", "Halton", "PoissonDisk", "MultinomialQMC", "MultivariateNormalQMC"}


def kwarg(n, *names):
    for k in n.keywords:
        if k.arg in names:
            return k.value
    return None


def none(e):
    return e is None or isinstance(e, ast.Constant) and e.value is None


def star(n):
    return any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args)


def entropy(c, e, m, scopes):
    """A call to a clock or an entropy source inside an expression."""
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            v = c.resolve(x.func, m, scopes)
            if isinstance(v, Ext) and (v.name in ENTROPY or v.name.startswith(("time.", "datetime.", "secrets.", "os.getpid", "random."))):
                return v.name
    return None


def verdict(c, m, scopes, n, v):
    """(kind of source, problem) of one call site, or None when it draws nothing."""
    name = v.name if isinstance(v, Ext) else None
    if name is None:
        if isinstance(n.func, ast.Attribute):
            a = n.func.attr
            if a in TORCH_INPLACE:
                return "in-place draw", "hidden global generator" if none(kwarg(n, "generator")) and not star(n) else None
            if a in ("sample", "rsample", "sample_n"):
                r = c.resolve(n.func.value, m, scopes)
                xs = r.exprs if isinstance(r, Local) else [n.func.value]
                for e in xs:
                    if isinstance(e, ast.Call):
                        k = c.resolve(e.func, m, scopes)
                        if isinstance(k, Ext) and k.name.startswith("torch.distributions"):
                            return "distribution sample", "torch distributions draw from the hidden global generator"
            if a == "rvs":
                r = c.resolve(n.func.value, m, scopes)
                xs = r.exprs if isinstance(r, Local) else [n.func.value]
                for e in xs:
                    if isinstance(e, ast.Call):
                        k = c.resolve(e.func, m, scopes)
                        if isinstance(k, Ext) and k.name.startswith("scipy.stats"):
                            return "frozen distribution", "hidden global generator" if none(kwarg(n, "random_state")) and not star(n) else None
        return None
    top, leaf = name.split(".")[0], name.split(".")[-1]
    if name.startswith("numpy.random."):
        if leaf in NP_NODRAW:
            return None
        if leaf in NP_OBJECTS:
            s = n.args[0] if n.args else kwarg(n, "seed", "entropy")
            if star(n):
                return "generator", None
            if none(s):
                return "generator", "created from fresh entropy"
            e = entropy(c, s, m, scopes)
            return "generator", f"seeded from {e}" if e else None
        return "legacy draw", "hidden global generator"
    if top in HIDDEN_MODULES or name in ENTROPY and name.startswith("os."):
        return (None if leaf in ("seed", "Random") and n.args else ("standard library draw", "hidden generator or entropy"))
    if name.startswith("scipy.stats.") and leaf == "rvs":
        return "scipy draw", "hidden global generator" if none(kwarg(n, "random_state")) and not star(n) and len(n.args) < 4 else None
    if name.startswith("scipy.stats.qmc.") and leaf in QMC:
        if isinstance(kwarg(n, "scramble"), ast.Constant) and kwarg(n, "scramble").value is False and leaf in ("Sobol", "Halton"):
            return None
        return "design sampler", "created from fresh entropy" if none(kwarg(n, "seed", "rng")) and not star(n) else None
    if top == "torch" and leaf in TORCH_DRAWS and name.count(".") == 1:
        if leaf.endswith("_like"):
            return "torch draw", "hidden global generator" if none(kwarg(n, "generator")) else None
        return "torch draw", "hidden global generator" if none(kwarg(n, "generator")) and not star(n) else None
    if name == "torch.utils.data.DataLoader" and kwarg(n, "shuffle") is not None:
        return "torch loader", "hidden global generator" if none(kwarg(n, "generator")) and not star(n) else None
    if name in ("torch.seed", "torch.random.seed", "torch.initial_seed"):
        return "torch seed", "fresh entropy"
    return None


def census(ck):
    seen = {}
    for b in ("numpy", "torch"):
        c = Census(ck.world(b))
        for m, scopes, n, v in c.calls():
            r = verdict(c, m, scopes, n, v)
            ck.count("call sites", 1)
            if r is None:
                continue
            k = (m.path, n.lineno, n.col_offset)
            where = c.place(m, scopes)
            what = f"{r[0]} {v.name if isinstance(v, Ext) else ast.unparse(n.func)[:60]}"
            if k not in seen or (r[1] and not seen[k][2]):
                seen[k] = (where, what, r[1])
    order = {}
    for k in sorted(seen):
        where, what, bad = seen[k]
        i = order[(where, what)] = order.get((where, what), 0) + 1
        ck.require(f"draw site {i}: {what} in {where}", not bad, where, f"{what}: {bad}", "every call site that draws names its generator")
    ck.count("draw sites", len(seen))


# --------------------------------------------------------------------------------------------- provenance
class Provenance:
    """Draws of one call, with the generator each came from."""

    def __init__(self, ck, w):
        self.ck, self.w, self.extra = ck, w, []

    def rvs(self, it, name, args, kw):
        rs = kw.get("random_state")
        self.extra.append(("counts", rs.attrs.get("gid", "?") if isinstance(rs, ExtInst) else "global:scipy" if rs is None else it.vkey(rs), name))
        n = as_ten(it, args[0] if args else kw["n"])
        p = it.V(as_ten(it, kw.get("p", args[1] if len(args) > 1 else None)))
        k = int(p.dims[0].const())
        return ops.with_tag(_stack([n.body] + [ZERO] * (k - 1), self.w), "np", "i")

    def failing(self, k):
        """The first k draws of a Gaussian vector fail as they do for a covariance that is not semi-definite."""
        left = [k]

        def rvs(it, name, args, kw):
            rs = kw.get("random_state", args[3] if len(args) > 3 else None)
            self.extra.append(("Gaussian vector", rs.attrs.get("gid", "?") if isinstance(rs, ExtInst) else "global:scipy" if rs is None else it.vkey(rs), name))
            if left[0] > 0:
                left[0] -= 1
                it.raise_(ExcV(Ext("builtins.ValueError"), ("the input matrix must be positive semidefinite",)))
            C = as_ten(it, kw.get("cov", args[1] if len(args) > 1 else None))
            n = int(at(as_ten(it, kw.get("size", args[2] if len(args) > 2 else 1)), ()).const())
            return self.w.arr(f"draw{len(self.extra)}", n, int(C.dims[0].const()), L="np")
        return rvs

    def __call__(self, clause, where, fn, marks, fail=None):
        ck, it = self.ck, self.w.it
        d0, self.extra = len(getattr(it, "draws", [])), []
        base = it.st.copy()
        G = "scipy.stats.multivariate_normal.rvs"
        if fail is not None:
            it.intercept[G] = self.failing(fail)
        it.intercept["scipy.stats.multinomial.rvs"] = self.rvs

        def go():
            fn()
        try:
            n0 = len(ck.clauses)
            ck.guard(clause, go, where)
            why = ck.clauses[n0:]
            del ck.clauses[n0:]
        finally:
            it.intercept.pop("scipy.stats.multinomial.rvs", None)
            it.intercept.pop(G, None)
            it.st = base
        ds = [(k, g, at_) for k, g, _, at_ in getattr(it, "draws", [])[d0:]] + self.extra
        bad = [(k, g, at_) for k, g, at_ in ds if not any(m in g for m in marks)]
        if bad:
            k, g, at_ = bad[0]
            ck.bad(clause, where, f"draw of kind {k} in {at_} comes from {g[:120]}, not from the seeded generator", "provenance of the draw")
        elif not ds:
            ck.und(clause, where, f"no draw reached {why}")
        else:
            ck.ok(clause, where, f"{len(ds)} draws", "provenance of the draw")
            ck.count("draws traced", len(ds))


def seeded(w, name):
    """The library generator seeded with a symbolic seed."""
    it = w.it
    s = w.anyint(name)
    r = w.call("gpmp.num:set_seed", [s])
    if not r.returned:
        raise Unsup("set_seed raises")
    it.st = r.st
    return s, "int:" + name


def provenance(ck, b):
    w = ck.world(b)
    it = w.it
    P = Provenance(ck, w)
    base = it.st.copy()
    s, mark = seeded(w, "seed")
    g = lambda n: it.get("gpmp.num:" + n)
    nb = f"gpmp/num/{b}_backend.py:"
    n, d = w.size("n"), w.size("d")
    call = lambda f, *a, **k: w.call(f, list(a), k)
    one = lambda c, where, f: P(f"{c} after seeding [{b}]", where, f, [mark])
    one("rand", nb + "rand", lambda: call(g("rand"), n, d))
    one("rand without shape", nb + "rand", lambda: call(g("rand")))
    one("randn", nb + "randn", lambda: call(g("randn"), n, d))
    one("randn without shape", nb + "randn", lambda: call(g("randn")))
    one("permutation of an integer", nb + "permutation", lambda: call(g("permutation"), 5))
    one("permutation of an array", nb + "permutation", lambda: call(g("permutation"), w.arr("x", "n")))
    for rep in (True, False):
        one(f"choice replace={rep}", nb + "choice", lambda: call(g("choice"), 5, size=3, replace=rep))
        one(f"choice among an array replace={rep}", nb + "choice", lambda: call(g("choice"), w.arr("x", 5), size=3, replace=rep))
    one("choice with probabilities", nb + "choice", lambda: call(g("choice"), 5, size=3, p=w.arr("p", 5)))
    rvs = it.get("gpmp.num:multivariate_normal.rvs")
    one("multivariate_normal.rvs, scalar variance", nb + "multivariate_normal.rvs", lambda: call(rvs, 0.0, w.scal("v"), 4))
    one("multivariate_normal.rvs, 1 x 1 covariance", nb + "multivariate_normal.rvs", lambda: call(rvs, 0.0, w.arr("V", 1, 1), 4))
    one("multivariate_normal.rvs, covariance matrix", nb + "multivariate_normal.rvs", lambda: call(rvs, w.arr("m", 2), w.arr("C", 2, 2), 4))
    de = "gpmp/misc/designs.py:"
    box = ((0.0, 0.0), (1.0, 2.0))
    for nm, kw in (("randunif", {}), ("ldrandunif", dict(max_iter=2)), ("maximinlhs", dict(max_iter=2)), ("maximinldlhs", {})):
        one(nm, de + nm, lambda: call(it.get("gpmp.misc.designs:" + nm), 2, 4, box, **kw))
    one("filldist_approx", de + "filldist_approx", lambda: call(it.get("gpmp.misc.designs:filldist_approx"), w.arr("xs", 3, 2, L="np"), box, 4))
    gp = Gp(w, "linear_predictor")
    one("sample_paths", "gpmp/core/sample_paths.py:sample_paths", lambda: w.meth(gp.m, "sample_paths", w.arr("xt", "nt", "d"), 3))
    dl = "gpmp/dataloader.py:"

    def data():
        r = call(it.get("gpmp.dataloader:Dataset"), w.arr("X", 4, 2), w.arr("Z", 4))
        it.st = r.st
        return r.value
    one("Dataset.split", dl + "Dataset.split", lambda: call(it.get("gpmp.dataloader:Dataset.split"), data(), (0.5, 0.25, 0.25)))
    one("k_fold_indices", dl + "Dataset.k_fold_indices", lambda: call(it.get("gpmp.dataloader:Dataset.k_fold_indices"), 4, 2))
    one("repeated_k_fold_indices", dl + "Dataset.repeated_k_fold_indices",
        lambda: call(it.get("gpmp.dataloader:Dataset.repeated_k_fold_indices"), 4, 2, 2))

    def loader(**kw):
        r = call(it.get("gpmp.dataloader:DataLoader"), data(), batch_size=2, **kw)
        it.st = r.st
        f = it.getattr(r.value, "__iter__")
        w.call(UF("drain", lambda it2, a, k: it2.mklist(it2.to_list(it2.call(f, [], {})) or [])), [], {})
    one("DataLoader", dl + "DataLoader.__iter__", loader)
    one("approximate quantile", dl + "Dataset._reduce_quantile_approx", lambda: w.meth(data(), "_reduce_quantile_approx", "x", 0.5))
    mh = "gpmp/mcmc/mh.py:MetropolisHastings."
    for shape, arr in (("variances", w.arr("p0", D)), ("covariance", w.arr("P0", D, D))):
        one(f"Metropolis-Hastings run, {shape}", mh + "scheduler",
            lambda: Chain(w, 2, own_proposal=False, proposal_distribution_param_init=arr).run(w.arr("x0", 2, D), 1, 0))
    one("proposal with jitter", "gpmp/mcmc/mh.py:sample_multivariate_normal_with_jitter",
        lambda: call(it.get("gpmp.mcmc.mh:sample_multivariate_normal_with_jitter"), w.arr("m", D), w.arr("C", D, D)))
    sm = "gpmp/mcmc/smc.py:"
    one("particles", sm + "ParticlesSet.__init__", lambda: make(w, 3))

    def moved():
        p, _ = start(w, 3)
        do(w, p, "move")
    one("particle move", sm + "ParticlesSet.move", moved)
    for k in (1, 2):
        P(f"particle move, {k} degenerate covariances, after seeding [{b}]", sm + "ParticlesSet.perturb", moved, [mark], fail=k)

    def resampled(scheme):
        p, _ = start(w, 3, resample_scheme=scheme)
        do(w, p, "resample")
    one("multinomial resampling", sm + "ParticlesSet.resample", lambda: resampled("multinomial"))
    one("residual resampling", sm + "ParticlesSet.resample", lambda: resampled("residual"))

    def smc():
        r = call(it.get("gpmp.mcmc.smc:SMC"), box, 3)
        it.st = r.st
    one("SMC start", sm + "SMC.__init__", smc)
    one("covariance by neighbours", "gpmp/mcmc/knn_cov.py:estimate_cov_matrix_knn",
        lambda: call(it.get("gpmp.mcmc.knn_cov:estimate_cov_matrix_knn"), w.arr("xx", 6, 2), n_random=2, n_neighbors=2))
    pp = "gpmp/mcmc/param_posterior.py:sample_from_selection_criterion_"
    J = Criterion(w)
    lo, hi = w.arr("ilo", D), w.arr("ihi", D)
    res = w.arr("trace", 2, 2, D)
    for nm, target, names, extra in (
            ("mh", "gpmp.mcmc.mh:MetropolisHastings.scheduler", ("self", "chains_state_initial"),
             dict(silent=True, plot_chains=False, plot_empirical_distributions=False, n_chains=2)),
            ("nuts", "gpmp.mcmc.nuts:nuts_sample", ("log_prob", "q_init"), dict(n_chains=2, progress=False, verbose=0)),
            ):
        def start_():
            with Record(w, target, names, (res, "info") if nm != "mh" else res), finite_inputs():
                w.call(it.get("gpmp.mcmc.param_posterior:sample_from_selection_criterion_" + nm), [],
                       dict(extra, selection_criterion=J.uf(), random_init=True, init_box=(lo, hi)))
        one(f"random start of {nm}", pp + nm, start_)

    def particles():
        o = w.call(it.get("gpmp.mcmc.svgd:SVGDOptions"), [], dict(n_steps=1, progress=False, verbose=0))
        it.st = o.st
        w.call(it.get("gpmp.mcmc.svgd:svgd_sample"), [Density(w, 2).lp()], dict(n_particles=2, dim=2, init_box=box, options=o.value))
    one("random start of svgd", "gpmp/mcmc/svgd.py:svgd_sample", particles)

    def transition():
        dens = Density(w, 1)
        with Differentiate(w, dens), finite_inputs():
            w.call(it.get("gpmp.mcmc.nuts:nuts_transition"), [dens.lp(), w.arr("q0", 1), w.scal("eps"), w.arr("im", 1), 0, 1000.0])
    one("NUTS transition", "gpmp/mcmc/nuts.py:nuts_transition", transition)

    # ------------------------------------------------------------ an explicit seed or generator wins
    s2 = w.anyint("own")
    own = "int:own"
    two = lambda c, where, f: P(f"{c} with its own seed [{b}]", where, f, [own])
    two("Dataset.split", dl + "Dataset.split", lambda: call(it.get("gpmp.dataloader:Dataset.split"), data(), (0.5, 0.25, 0.25), s2))
    two("k_fold_indices", dl + "Dataset.k_fold_indices", lambda: call(it.get("gpmp.dataloader:Dataset.k_fold_indices"), 4, 2, s2))
    two("repeated_k_fold_indices", dl + "Dataset.repeated_k_fold_indices",
        lambda: call(it.get("gpmp.dataloader:Dataset.repeated_k_fold_indices"), 4, 2, 2, s2))
    two("DataLoader", dl + "DataLoader.__iter__", lambda: loader(seed=s2))

    def nuts():
        it.intercept["gpmp.mcmc.nuts:nuts_transition"] = lambda it2, f, a, k: (it2.call(g("randn"), [1], {}), 0.5, 1, 1, False)
        try:
            with finite_inputs():
                w.call(it.get("gpmp.mcmc.nuts:nuts_sample"), [Density(w, 1).lp(), w.arr("Q", 1, 1), 1],
                       dict(num_warmup=0, init_step_size=0.5, seed=s2, progress=False, verbose=0))
        finally:
            it.intercept.pop("gpmp.mcmc.nuts:nuts_transition", None)
    two("NUTS", "gpmp/mcmc/nuts.py:nuts_sample", nuts)
    gen = new_gen(it, s2, "np")

    def with_rng():
        r = call(it.get("gpmp.mcmc.smc:ParticlesSet"), box, 3, rng=gen)
        it.st = r.st
        from .C22 import Target
        do(w, r.value, "set_logpdf", Target(w, "t0").uf())
        do(w, r.value, "reweight")
        do(w, r.value, "resample")
        do(w, r.value, "move")
    P(f"particles with the caller's generator [{b}]", sm + "ParticlesSet", with_rng, [own])

    def smc_rng():
        r = call(it.get("gpmp.mcmc.smc:SMC"), box, 3, rng=gen)
        it.st = r.st
    P(f"SMC with the caller's generator [{b}]", sm + "SMC.__init__", smc_rng, [own])
    it.st = base


def run(ck):
    ck.rule = "call-site census over the resolved program; provenance of every draw on the value graph"
    ck.guard("draw sites", lambda: census(ck), "gpmp")
    for b in ("numpy", "torch"):
        ck.guard(f"provenance [{b}]", lambda: provenance(ck, b), "gpmp")

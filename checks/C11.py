"""Exception flow: linear-algebra failures become infinite criteria or zero densities, everything else reaches the caller."""
import ast

from .common import *
from .C10 import Setup
from .C20 import Chain, _stack, sc
from .C21 import Density, Differentiate
from .C22 import make, do, D
from .C23 import Record, Tempered
from .optim import Optimiser
from sa import terms as T
from sa.prims import finite_inputs
from sa.world import Res

# errors of a user's function: none of them is a linear-algebra failure, whatever words its message contains
OTHERS = (
    ("ValueError", "wrong argument"), ("TypeError", "unsupported operand type(s)"), ("KeyError", "decomposition"),
    ("NameError", "name 'inverse' is not defined"), ("AttributeError", "module 'scipy.linalg' has no attribute 'choleski'"),
    ("IndexError", "index out of range"), ("AssertionError", ""), ("ZeroDivisionError", "division by zero"),
    ("RuntimeError", "unexpected state"), ("ImportError", "cannot import name 'cholesky'"), ("KeyboardInterrupt", ""), ("SystemExit", ""), ("MemoryError", ""),
)


def failures(w):
    lin = "torch.linalg.LinAlgError" if w.backend == "torch" else "numpy.linalg.LinAlgError"
    out = [(lin, "linalg.cholesky: the factorization could not be completed because the input is not positive-definite"), (lin, "")]
    if w.backend == "torch":
        out.append(("builtins.RuntimeError", "cholesky_cpu: the input matrix is singular"))
    else:
        out.append(("builtins.ValueError", "array must not contain infs or NaNs"))
    return out


class Raising:
    """A user's function that raises; hits counts the times it was reached."""

    def __init__(self, cls, msg):
        self.exc = ExcV(Ext(cls if "." in cls else "builtins." + cls), (msg,))
        self.hits = 0

    def __call__(self, it, args, kw):
        self.hits += 1
        it.raise_(self.exc)

    def uf(self):
        return UF("user", self)


class Flow:
    def __init__(self, ck, w, b):
        self.ck, self.w, self.b = ck, w, b

    def escapes(self, what, where, fn, only=None):
        """Every other exception raised by the user's function reaches the caller."""
        it = self.w.it
        for cls, msg in OTHERS:
            if only and cls not in only:
                continue
            c = f"{what}: {cls} reaches the caller [{self.b}]"
            u = Raising(cls, msg)
            base = it.st.copy()
            try:
                n0 = len(self.ck.clauses)
                r = self.ck.guard(c, lambda: fn(u), where)
                if len(self.ck.clauses) > n0:
                    continue
            finally:
                it.st = base
            if not u.hits:
                self.ck.und(c, where, "the user's function is not reached")
                continue
            names = {e.name.split(".")[-1] for _, e, _ in r.raises}
            ok = not r.returned and names == {cls}
            self.ck.require(c, ok, where, f"{cls} raised by the user's function " + ("is replaced by a value" if r.returned else f"becomes {sorted(names)}"),
                            "only linear-algebra failures are handled")

    def steps_back(self, what, where, fn, want):
        """A linear-algebra failure gives the value `want` (None: the call only has to return)."""
        it = self.w.it
        for cls, msg in failures(self.w):
            c = f"{what}: {cls} {msg[:24]!r} [{self.b}]"
            u = Raising(cls, msg)
            base = it.st.copy()
            try:
                n0 = len(self.ck.clauses)
                r = self.ck.guard(c, lambda: fn(u), where)
                if len(self.ck.clauses) > n0:
                    continue
                if not u.hits:
                    self.ck.und(c, where, "the user's function is not reached")
                elif not r.returned or r.raises:
                    self.ck.bad(c, where, "the failure escapes: " + "; ".join(str(e) for _, e, _ in r.raises[:2]), "a failed factorisation is handled")
                elif want is None:
                    self.ck.ok(c, where, "", "a failed factorisation is handled")
                else:
                    v = self.w.it.V(as_ten(it, r.value)) if not isinstance(r.value, tuple) else None
                    s = T._inf_sign(v.body) if v is not None and not v.rank else None
                    if v is not None and v.rank and all(d.const() == 1 for d in v.dims):
                        s = T._inf_sign(at(v, tuple(num(0) for _ in v.dims)))
                    self.ck.require(c, None if v is None else s == want, where, "the failure does not give " + ("+inf" if want > 0 else "-inf"),
                                    "a failed factorisation is handled")
            finally:
                it.st = base


def user_model(w, mt, u, which="cov"):
    """A model whose covariance (or mean) is the user's raising function."""
    it = w.it
    cov = u.uf() if which == "cov" else w.cov_uf()
    mean = None if mt == "zero" else u.uf() if which == "mean" else w.mean_uf(q=1)
    r = w.call(it.get("gpmp.core:Model"), [mean, cov], dict(meanparam=w.arr("mp", 1) if mt == "parameterized" else None, covparam=w.arr("cp", 3), meantype=mt))
    if not r.returned:
        raise Unsup("model construction raises")
    it.st = r.st
    return r.value


def core(f, w, b):
    it = w.it
    M = "gpmp/core/model.py:Model."
    X, Z, XT, th = w.arr("X", "n", 2), w.arr("Z", "n"), w.arr("XT", "m", 2), w.arr("theta", 3)
    few = ("ValueError", "NameError", "AttributeError", "KeyboardInterrupt")
    for mt in ("zero", "parameterized", "linear_predictor"):
        for which in ("cov",) if mt == "zero" else ("cov", "mean"):
            for nm, args in (("predict", (X, Z, XT)), ("loo", (X, Z)), ("sample_paths", (XT, 2)),
                             ("negative_log_likelihood_zero_mean", (th, X, Z)), ("negative_log_likelihood", (w.arr("b", 1), th, X, Z)),
                             ("negative_log_restricted_likelihood", (th, X, Z)), ("fisher_information", (X, th)), ("norm_k_sqrd_with_zero_mean", (X, Z, th)),
                             ("norm_k_sqrd", (X, Z, th))):
                if which == "mean" and nm in ("sample_paths", "negative_log_likelihood_zero_mean", "fisher_information", "norm_k_sqrd_with_zero_mean"):
                    continue
                if which == "mean" and mt == "parameterized" and nm in ("negative_log_restricted_likelihood", "norm_k_sqrd"):
                    continue
                if mt == "zero" and nm in ("negative_log_likelihood", "negative_log_restricted_likelihood", "norm_k_sqrd") or mt == "linear_predictor" and nm == "negative_log_likelihood":
                    continue
                if mt != "zero" and nm in ("negative_log_likelihood_zero_mean", "norm_k_sqrd_with_zero_mean", "fisher_information", "sample_paths"):
                    continue
                f.escapes(f"{nm}, {mt} mean, error in the {'covariance' if which == 'cov' else 'mean'}", M + nm,
                          lambda u: w.meth(user_model(w, mt, u, which), nm, *args), None if nm.startswith("neg") else few)
    for mt, nm, args in (("zero", "negative_log_likelihood_zero_mean", (th, X, Z)), ("parameterized", "negative_log_likelihood", (w.arr("b", 1), th, X, Z)),
                         ("linear_predictor", "negative_log_restricted_likelihood", (th, X, Z))):
        def lib(u):
            m = w.model(mt)
            with Fault(w, FACTOR, exc=u.exc) as fault:
                r = w.meth(m, nm, *args)
            u.hits = len(fault.seen)
            return r
        f.escapes(f"{nm}, error in a library call", M + nm, lib)
    P = "gpmp/kernel/priors.py:"
    for nm, extra in (("neg_log_restricted_posterior_with_jeffreys_prior", {}), ("neg_log_restricted_posterior_power_laws_prior", {}),
                      ("neg_log_restricted_posterior_logsigma2_prior", dict(log_sigma2_0=w.scal("l0")))):
        f.escapes(f"{nm}, error in the covariance", P + nm, lambda u: w.call(it.get("gpmp.kernel.priors:" + nm), [user_model(w, "linear_predictor", u), th, X, Z], extra), few)


def wrappers(f, w, b):
    it = w.it
    where = f"gpmp/num/{b}_backend.py:"
    names = ("evaluate", "evaluate_pre_grad", "evaluate_no_grad")
    for loader in (False, True):
        s = Setup(w, "linear_predictor", loader=loader)
        src = "loader" if loader else "arrays"
        cls = "BatchDifferentiableSelectionCriterion" if loader else "DifferentiableSelectionCriterion"
        for pm in (False, True):
            for k, nm in enumerate(names):
                def call(u):
                    r = w.call(it.get("gpmp.kernel:make_selection_criterion_with_gradient"), [s.m, u.uf()], dict(s.data, parameterized_mean=pm))
                    if not r.returned:
                        raise Unsup("criterion construction raises")
                    it.st = r.st
                    return w.call(w.items(r)[k], [w.arr("p", 4)])
                tag = f"{nm} on {src}" + (", parameterized mean" if pm else "")
                f.escapes(tag, where + cls + "." + nm, call)
                if loader or nm != "evaluate":  # on arrays, evaluate lets the failure through
                    f.steps_back(tag, where + cls + "." + nm, call, 1)
    few = ("ValueError", "TypeError", "NameError", "AttributeError", "KeyboardInterrupt", "RuntimeError", "KeyError")
    A = "gpmp/kernel/parameter_selection.py:autoselect_parameters"
    seen = []

    def auto(u):
        opt = Optimiser(w, script=(w.arr("q", 2, L="np"),), x=w.arr("xo", 2, L="np"), fun=w.scal("fo"))
        with opt:
            r = w.call(it.get("gpmp.kernel:autoselect_parameters"), [w.arr("p0", 2), u.uf(), UF("g", lambda it2, a, k: w.arr("gv", 2))])
        seen[:] = opt.values
        return r
    f.escapes("optimisation", A, auto, few)
    f.steps_back("optimisation", A, lambda u: (lambda r: Res(seen[0] if seen else r.value, r.raises, r.st) if r.returned else r)(auto(u)), 1)


def samplers(f, w, b):
    it = w.it
    H = "gpmp/mcmc/mh.py:MetropolisHastings."

    def mh(u):
        o = w.call(it.get("gpmp.mcmc.mh:MHOptions"), [], dict(dim=D, n_chains=2, init_msg=None))
        it.st = o.st
        r = w.call(it.get("gpmp.mcmc.mh:MetropolisHastings"), [u.uf()],
                   dict(options=o.value, prop_rnd=UF("prop", lambda it2, a, k: w.arr("y", D))))
        if not r.returned:
            return r
        it.st = r.st
        return w.meth(r.value, "scheduler", w.arr("x0", 2, D), 1, 0)
    stop = ("KeyboardInterrupt", "SystemExit")     # the samplers may treat a failing density as zero, never an interrupt
    f.escapes("Metropolis-Hastings target", H + "mhstep", mh, stop)
    f.steps_back("Metropolis-Hastings target", H + "mhstep", mh, None)
    PP = "gpmp/mcmc/param_posterior.py:sample_from_selection_criterion_"
    kinds = {
        "mh": ("gpmp.mcmc.mh:MetropolisHastings.scheduler", ("self", "chains_state_initial"), "param_initial_states",
               dict(silent=True, plot_chains=False, plot_empirical_distributions=False, n_chains=2, burnin_period=0)),
        "nuts": ("gpmp.mcmc.nuts:nuts_sample", ("log_prob", "q_init"), "param_initial_states", dict(n_chains=2, progress=False, verbose=0)),
        "svgd": ("gpmp.mcmc.svgd:svgd_sample", ("log_prob", "particles_initial"), "particles_initial",
                 dict(n_particles=2, init_jitter=0.0, progress=False, verbose=0)),
    }
    for nm, (target, names, x0, extra) in kinds.items():
        res = w.arr("trace", 2, 2, D)

        def dens(u):
            def result(it_, kw):
                if nm == "mh":
                    it_.setattr(kw["self"], "burnin_period", 0)
                    return res
                return (res, "info")
            with Record(w, target, names, result) as rec, finite_inputs():
                r = w.call(it.get("gpmp.mcmc.param_posterior:sample_from_selection_criterion_" + nm), [],
                           dict(extra, selection_criterion=u.uf(), **{x0: w.arr("S0", 2, D)}))
            if not r.returned or rec.kw is None:
                raise Unsup("sampler not run where expected")
            it.st = r.st
            fn = it.getattr(rec.kw["self"], "log_target") if nm == "mh" else rec.kw["log_prob"]
            with finite_inputs():
                return w.call(fn, [w.arr("theta", D)])
        f.escapes(f"{nm} posterior density", PP + nm, dens, stop)
        f.steps_back(f"{nm} posterior density", PP + nm, dens, -1)

    def smc(u):
        p = make(w, 3)
        do(w, p, "set_logpdf", u.uf())
        return w.meth(p, "reweight")
    few = ("ValueError", "TypeError", "NameError", "AttributeError", "KeyboardInterrupt", "RuntimeError")
    f.escapes("particle density", "gpmp/mcmc/smc.py:ParticlesSet.reweight", smc, few)
    st = lambda u: w.call(it.get("gpmp.mcmc.svgd:svgd_step"), [u.uf(), w.arr("P", 2, D)], dict(step_size=0.5, temperature=1.0))

    def stein(u):
        with finite_inputs():
            return st(u)
    f.escapes("Stein update", "gpmp/mcmc/svgd.py:svgd_step", stein, stop)
    f.steps_back("Stein update", "gpmp/mcmc/svgd.py:svgd_step", stein, None)

    def nuts(u):
        with finite_inputs():
            return w.call(it.get("gpmp.mcmc.nuts:nuts_transition"), [u.uf(), w.arr("q0", 1), w.scal("eps"), w.arr("im", 1), 0, 1000.0])
    f.escapes("NUTS density", "gpmp/mcmc/nuts.py:nuts_transition", nuts, few)

    def mean(u):
        s = Setup(w, "linear_predictor", loader=True)
        return w.meth(s.loader, "reduce_mean", u.uf())
    f.escapes("loader reduction", "gpmp/dataloader.py:DataLoader.reduce_mean", mean, few)


def handlers(ck):
    """No handler of the library stops interrupts: one that catches everything raises again."""
    w = ck.world("numpy")
    n = 0
    for name, m in sorted(w.it.repo.modules.items()):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ExceptHandler):
                n += 1
                ts = [] if x.type is None else x.type.elts if isinstance(x.type, ast.Tuple) else [x.type]
                wide = x.type is None or any(isinstance(t, ast.Name) and t.id in ("BaseException", "KeyboardInterrupt", "SystemExit") for t in ts)
                if wide:
                    again = any(isinstance(y, ast.Raise) for y in ast.walk(x))
                    ck.require(f"handler {n} in {m.path} lets interrupts pass", again, m.path, "an interrupt is swallowed", "interrupts reach the caller")
    ck.count("exception handlers", n)
    ck.ok("handlers of interrupts", "gpmp", f"{n} handlers", "interrupts reach the caller")


def run(ck):
    ck.rule = "exception flow on the value graph with a raising user function; exception-handler query over the syntax trees"
    ck.guard("handlers", lambda: handlers(ck), "gpmp")
    for b in BACKENDS:
        for part in (core, wrappers, samplers):
            def one():
                w = ck.world(b)
                base = w.it.st.copy()
                try:
                    part(Flow(ck, w, b), w, b)
                finally:
                    w.it.st = base
            ck.guard(f"{part.__name__} [{b}]", one, "gpmp")

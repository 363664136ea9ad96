"""Posterior samplers: the density handed to each sampler, its start and what is returned; Stein variational updates."""
from .common import *
from .C20 import by_cases, _stack, sc
from .C21 import Density, Differentiate, only
from .C22 import attr, pinf
from sa import terms as T
from sa.prims import INF
from sa.prims import finite_inputs

PP = "gpmp/mcmc/param_posterior.py:"
SV = "gpmp/mcmc/svgd.py:"
D = 2


class Record:
    """Replaces a function by one that records its arguments and returns a given value."""

    def __init__(self, w, name, names, result):
        self.w, self.name, self.names, self.result, self.kw = w, name, names, result, None
        self.calls = []

    def __enter__(self):
        self.w.it.intercept[self.name] = self.call
        return self

    def __exit__(self, *a):
        self.w.it.intercept.pop(self.name, None)

    def call(self, it, f, args, kw):
        self.kw = dict(dict(zip(self.names, args)), **kw)
        self.calls.append(self.kw)
        return self.result(it, self.kw) if callable(self.result) else self.result


class Criterion:
    def __init__(self, w):
        self.w = w

    def uf(self):
        return UF("criterion", lambda it, a, k: sc(self.val(as_ten(it, a[0])), self.w))

    def val(self, x):
        return by_cases(lambda q: atom_poly(Atom("crit", (q,))), tuple(at(x, (num(j),)) for j in range(D)))


def boxes(w):
    lo, hi = w.arr("lo", D), w.arr("hi", D)
    yield "no box", None, None, None
    yield "box", (lo, hi), lo, hi
    one = lambda v: ops.mk((num(D),), lambda i: num(v), False, (w.L, "f"))
    yield "scalar box", (-2.0, 3.0), one(-2), one(3)


def starts(w, n):
    """(label, keyword arguments, expected (n, D) states)"""
    v = w.arr("start", D)
    rep = ops.mk((num(n), num(D)), lambda i, j: at(v, (j,)), False, (w.L, "f"))
    yield "one state", dict(param_initial_states=v), rep
    m = w.arr("states", n, D)
    yield "one state per chain", dict(param_initial_states=m), m
    r = w.arr("row", 1, D)
    yield "a row", dict(param_initial_states=r), ops.mk((num(n), num(D)), lambda i, j: at(r, (T.ZERO, j)), False, (w.L, "f"))


def density(ck, w, tag, fn, r, J, lo, hi, temp, W, call=None):
    it = w.it
    p = w.arr("theta", D)
    it.st = r.st
    with finite_inputs():
        g = w.call(fn, [p] if call is None else [p, call])
        s = spec(w, "target", J.uf(), p, lo, hi, temp, mod="posterior")
    if not ck.returns(tag + " density", g, W):
        return
    ck.equal(tag + " density", w, only(it, g.value), s.value, g, s, W, "exp(-criterion / temperature) in the box, zero outside")


def mh(ck, w, b):
    it = w.it
    W = PP + "sample_from_selection_criterion_mh"
    C, N, B = 3, 5, 2
    fn = it.get("gpmp.mcmc.param_posterior:sample_from_selection_criterion_mh")
    J = Criterion(w)
    out = w.arr("trace", C, N, D)

    def sched(it, kw):
        it.setattr(kw["self"], "burnin_period", B)
        return out
    cases = [(bx, st) for bx in boxes(w) for st in starts(w, C)]
    for (bl, box, lo, hi), (sl, kw, st) in cases:
        if bl != "box" and sl != "one state":
            continue
        temp = w.scal("temperature")
        tag = f"MH {bl}, {sl} {b}"
        names = ("self", "chains_state_initial", "n_steps_total", "burnin_period")
        with Record(w, "gpmp.mcmc.mh:MetropolisHastings.scheduler", names, sched) as rec, finite_inputs():
            r = w.call(fn, [], dict(kw, selection_criterion=J.uf(), sampling_box=box, temperature=temp, n_chains=C, n_steps_total=N, burnin_period=B,
                                    silent=True, plot_chains=False, plot_empirical_distributions=False))
        if not ck.returns(tag, r, W):
            continue
        if rec.kw is None or "self" not in rec.kw:
            ck.und(tag, W, "the sampler is not run by its scheduler")
            continue
        it.st = r.st
        density(ck, w, tag, it.getattr(rec.kw["self"], "log_target"), r, J, lo, hi, temp, W)
        ck.equal(tag + " start", w, rec.kw.get("chains_state_initial"), st, r, None, W, "chains start at the given states")
        ck.equal(tag + " steps", w, rec.kw.get("n_steps_total"), N, r, None, W, "the requested number of steps")
        ck.equal(tag + " burn-in", w, rec.kw.get("burnin_period"), B, r, None, W, "the requested burn-in")
        ck.equal(tag + " samples", w, w.items(r)[0], ops.mk((num(C), num(N - B), num(D)), lambda i, t, j: at(out, (i, padd(t, num(B)), j)), False, (w.L, "f")), r, None, W, "the states after burn-in")


NUTS_ARGS = ("log_prob", "q_init", "num_samples", "num_warmup", "target_accept", "max_depth", "delta_max", "jitter", "init_step_size", "init_mass_diag", "seed", "progress", "verbose", "log_every", "options")


def nuts(ck, w, b):
    it = w.it
    W = PP + "sample_from_selection_criterion_nuts"
    C, N = 3, 4
    fn = it.get("gpmp.mcmc.param_posterior:sample_from_selection_criterion_nuts")
    J = Criterion(w)
    raw = w.arr("trace", N, C, D)
    for bl, box, lo, hi in boxes(w):
        for sl, kw, st in starts(w, C):
            if bl != "box" and sl != "one state":
                continue
            tag = f"NUTS {bl}, {sl} {b}"
            opt = dict(target_accept=w.scal("target_accept"), max_depth=w.intp("depth"), delta_max=w.scal("delta_max"), jitter=w.scal("jitter"),
                       init_step_size=w.scal("eps0"), init_mass_diag=w.arr("mass", D), seed=w.anyint("seed"), num_samples=N, num_warmup=w.intp("nw"))
            with Record(w, "gpmp.mcmc.nuts:nuts_sample", NUTS_ARGS, (raw, "info")) as rec, finite_inputs():
                r = w.call(fn, [], dict(kw, selection_criterion=J.uf(), sampling_box=box, n_chains=C, progress=False, verbose=0, **opt))
            if not ck.returns(tag, r, W):
                continue
            if rec.kw is None or "log_prob" not in rec.kw:
                ck.und(tag, W, "the sampler is not run by nuts_sample")
                continue
            density(ck, w, tag, rec.kw["log_prob"], r, J, lo, hi, 1, W)
            ck.equal(tag + " start", w, rec.kw.get("q_init"), st, r, None, W, "chains start at the given states")
            for k, v in opt.items():
                ck.equal(f"{tag} {k}", w, rec.kw.get(k), v, r, None, W, "the option reaches the sampler")
            ck.equal(tag + " samples", w, w.items(r)[0], ops.mk((num(C), num(N), num(D)), lambda i, t, j: at(raw, (t, i, j)), False, (w.L, "f")), r, None, W, "samples by chain")


SMC_ARGS = ("logpdf_parameterized_function", "initial_logpdf_param", "target_logpdf_param", "compute_next_logpdf_param_method", "min_ess_ratio", "p0", "init_box", "n_particles", "mh_steps", "debug", "plot_empirical_distributions")


def smc(ck, w, b):
    it = w.it
    W = PP + "sample_from_selection_criterion_smc"
    fn = it.get("gpmp.mcmc.param_posterior:sample_from_selection_criterion_smc")
    J = Criterion(w)
    for bl, box, lo, hi in boxes(w):
        tag = f"SMC {bl} {b}"
        init = ((-1.0,) * D, (1.0,) * D)
        opt = dict(initial_temperature=w.scal("ti"), final_temperature=w.scal("tf"), min_ess_ratio=w.scal("ess"), n_particles=w.intp("np"), mh_steps=w.intp("mhs"))
        with Record(w, "gpmp.mcmc.smc:run_smc_sampling", SMC_ARGS, ("particles", "smc")) as rec, finite_inputs():
            r = w.call(fn, [], dict(opt, selection_criterion=J.uf(), init_box=init, sampling_box=box))
        if not ck.returns(tag, r, W):
            continue
        if rec.kw is None or "logpdf_parameterized_function" not in rec.kw:
            ck.und(tag, W, "the sampler is not run by run_smc_sampling")
            continue
        f = rec.kw["logpdf_parameterized_function"]
        temp = w.scal("temp")
        density(ck, w, tag + " one point", f, r, J, lo, hi, temp, W, call=temp)
        x = w.arr("cloud", 3, D)
        it.st = r.st
        with finite_inputs():
            g = w.call(f, [x, temp])
            s = spec(w, "targets", J.uf(), x, 3, lo, hi, temp, mod="posterior")
        if ck.returns(tag + " density of particles", g, W):
            ck.equal(tag + " density of particles", w, g.value, s.value, g, s, W, "exp(-criterion / temperature) in the box, zero outside, for each particle")
        for k, n in (("initial_temperature", "initial_logpdf_param"), ("final_temperature", "target_logpdf_param"), ("min_ess_ratio", "min_ess_ratio"), ("n_particles", "n_particles"), ("mh_steps", "mh_steps")):
            ck.equal(f"{tag} {k}", w, rec.kw.get(n), opt[k], r, None, W, "the option reaches the sampler")
        for i in (0, 1):
            for k in range(D):
                ck.guard(f"{tag} initial box", lambda: ck.equal(f"{tag} initial box side {i} coordinate {k}", w, it.getitem(it.getitem(rec.kw.get("init_box"), i), k), float(2 * i - 1), r, None, W, "particles start in the initial box"), W)


SVGD_OPTS = ("n_steps", "step_size", "bandwidth", "bandwidth_scale", "bandwidth_min", "preconditioner_diag", "initial_temperature", "final_temperature", "jitter")


def svgd(ck, w, b):
    it = w.it
    W = PP + "sample_from_selection_criterion_svgd"
    fn = it.get("gpmp.mcmc.param_posterior:sample_from_selection_criterion_svgd")
    J = Criterion(w)
    n = 3
    for bl, box, lo, hi in boxes(w):
        for own in (False, True):
            x0 = w.arr("x0", n, D)
            tag = f"SVGD {bl}{', options given' if own else ''} {b}"
            opt = {k: w.scal(k) for k in SVGD_OPTS if k not in ("n_steps", "preconditioner_diag")}
            opt.update(n_steps=w.intp("n_steps"), preconditioner_diag=w.arr("pre", D), annealing_schedule="linear")
            kw = dict(opt)
            if own:
                o = w.call(it.get("gpmp.mcmc.svgd:SVGDOptions"), [], opt)
                if not ck.returns(tag + " options", o, SV + "SVGDOptions"):
                    continue
                it.st = o.st
                kw = dict(options=o.value)
            with Record(w, "gpmp.mcmc.svgd:svgd_sample", ("log_prob", "particles_initial"), (x0, "info")) as rec, finite_inputs():
                r = w.call(fn, [], dict(kw, selection_criterion=J.uf(), particles_initial=x0, sampling_box=box, n_particles=n, progress=False, verbose=0))
            if not ck.returns(tag, r, W):
                continue
            if rec.kw is None or "log_prob" not in rec.kw:
                ck.und(tag, W, "the sampler is not run by svgd_sample")
                continue
            density(ck, w, tag, rec.kw["log_prob"], r, J, lo, hi, 1, W)
            s = spec(w, "clip", x0, lo, hi, mod="posterior")
            ck.equal(tag + " start", w, rec.kw.get("particles_initial"), s.value, r, s, W, "particles start at the given states, moved into the box")
            it.st = r.st
            oo = rec.kw.get("options")
            for k, v in opt.items():
                if k != "annealing_schedule":
                    ck.guard(f"{tag} {k}", lambda: ck.equal(f"{tag} {k}", w, it.getattr(oo, k), v, r, None, W, "the option reaches the sampler"), W)
            got = it.resolve(it.getattr(oo, "annealing_schedule"))
            ck.require(f"{tag} schedule", got == "linear" if isinstance(got, str) else None, W, f"schedule {got}", "the option reaches the sampler")
            bx = it.resolve(it.getattr(oo, "sampling_box"))
            if box is None:
                ck.require(f"{tag} projection box", bx is None if not isinstance(bx, (Opq, Phi)) else None, W, "a projection box is set", "no projection without a box")
            elif bx is None:
                ck.bad(f"{tag} projection box", W, "the particles are not kept in the sampling box")
            else:
                for i, e in ((0, lo), (1, hi)):
                    g = it.V(as_ten(it, it.getitem(bx, i)))
                    gg = ops.mk((num(D),), lambda k: at(g, (k,) * len(g.formals)), False, (w.L, "f"))
                    ck.equal(f"{tag} projection box side {i}", w, gg, e, r, None, W, "particles are kept in the sampling box")


def random_start(ck, w, b):
    """Uniform starts lie in the initial box, coordinate by coordinate."""
    it = w.it
    J = Criterion(w)
    n = 2
    lo, hi = w.arr("ilo", D), w.arr("ihi", D)
    for name, target, names, key_, extra in (
            ("mh", "gpmp.mcmc.mh:MetropolisHastings.scheduler", ("self", "chains_state_initial"), "chains_state_initial", dict(silent=True, plot_chains=False, plot_empirical_distributions=False, n_chains=n)),
            ("nuts", "gpmp.mcmc.nuts:nuts_sample", NUTS_ARGS, "q_init", dict(n_chains=n, progress=False, verbose=0))):
        W = PP + "sample_from_selection_criterion_" + name
        res = w.arr("trace", n, n, D)

        def result(it, kw):
            if name == "mh":
                it.setattr(kw["self"], "burnin_period", 0)
                return res
            return (res, "info")
        d0 = len(getattr(it, "draws", []))
        with Record(w, target, names, result) as rec, finite_inputs():
            r = w.call(it.get("gpmp.mcmc.param_posterior:sample_from_selection_criterion_" + name), [], dict(extra, selection_criterion=J.uf(), random_init=True, init_box=(lo, hi)))
        tag = f"random start of {name} {b}"
        if not ck.returns(tag, r, W):
            continue
        us = [x[2] for x in it.draws[d0:] if x[0] == "U" and x[2].rank]
        if rec.kw is None or len(us) != 1 or us[0].rank != 2:
            ck.und(tag, W, "the start is not one array of uniform draws")
            continue
        s = spec(w, "uniform", us[0], lo, hi, mod="posterior")
        ck.equal(tag, w, rec.kw.get(key_), s.value, r, s, W, "uniform in the initial box")


SAMPLERS = {
    # sampler function, observation point, positional names, result, start, density, further arguments
    "mh": ("gpmp.mcmc.mh:MetropolisHastings.scheduler", ("self", "chains_state_initial"), "chains_state_initial", dict(silent=True, plot_chains=False, plot_empirical_distributions=False, n_chains=2, burnin_period=0)),
    "nuts": ("gpmp.mcmc.nuts:nuts_sample", NUTS_ARGS, "q_init", dict(n_chains=2, progress=False, verbose=0)),
    "smc": ("gpmp.mcmc.smc:run_smc_sampling", SMC_ARGS, None, dict(init_box=((-1.0,) * D, (1.0,) * D))),
    "svgd": ("gpmp.mcmc.svgd:svgd_sample", ("log_prob", "particles_initial"), "particles_initial", dict(n_particles=2, init_jitter=0.0, progress=False, verbose=0)),
}


def report(ck, w, b):
    """From a selection report: the samplers start at its parameters and use its criterion."""
    it = w.it
    J = Criterion(w)
    cov = w.arr("covparam", D)
    ro = w.call(it.get("spec.posterior:Info"), [cov, J.uf(), J.uf()])
    it.st = ro.st
    for name, (target, names, start, extra) in SAMPLERS.items():
        W = PP + "sample_from_selection_criterion_" + name
        res = w.arr("trace", 2, 2, D)

        def result(it, kw):
            if name == "mh":
                it.setattr(kw["self"], "burnin_period", 0)
                return res
            return (res, "info")
        tag = f"{name} from a report {b}"
        with Record(w, target, names, result) as rec, finite_inputs():
            r = w.call(it.get("gpmp.mcmc.param_posterior:sample_from_selection_criterion_" + name), [], dict(extra, info=ro.value))
        if not ck.returns(tag, r, W):
            continue
        if rec.kw is None:
            ck.und(tag, W, "the sampler is not run where expected")
            continue
        it.st = r.st
        if start:
            ck.equal(tag + " start", w, rec.kw.get(start), ops.mk((num(2), num(D)), lambda i, j: at(cov, (j,)), False, (w.L, "f")), r, None, W, "the estimated parameters")
        f = it.getattr(rec.kw["self"], "log_target") if name == "mh" else rec.kw.get("log_prob" if name != "smc" else "logpdf_parameterized_function")
        density(ck, w, tag, f, r, J, None, None, 1, W, call=1 if name == "smc" else None)


class Tempered(Density):
    """Differentiation of multiples of the log-density."""

    def vag(self, it, f, args, kw):
        fn, x = args[0], as_ten(it, args[1])
        y = it.V(as_ten(it, it.call(fn, [x], {})))
        if self.levels is not None:
            return (y, _stack([T.ZERO for j in range(self.d)], self.w))
        ps = self.vec(x)
        want = self.val(ps)
        for c in self.scales:
            if peq(T.renorm(y.body) if hasattr(T, "renorm") else y.body, pmul(want, c)):
                return (sc(y.body, self.w), _stack([pmul(self.grad(ps, j), c) for j in range(self.d)], self.w))
        if T._inf_sign(y.body) is not None:
            return (sc(y.body, self.w), _stack([T.ZERO for j in range(self.d)], self.w))
        raise Unsup("gradient of another function")


def steps(ck, w, b):
    it = w.it
    W = SV + "svgd_step"
    fn = it.get("gpmp.mcmc.svgd:svgd_step")
    for n, d in ((2, 1), (3, 1), (2, 2)):
        for dead in (None, 0) if n == 3 else (None,):
            for case in ("plain", "least bandwidth, preconditioner", "default preconditioner, temperature"):
                x = w.arr("x", n, d)
                temp = w.scal("temperature") if "temperature" in case else 1
                kw = dict(step_size=w.scal("step"), bandwidth=w.scal("h"), bandwidth_scale=w.scal("hs"), jitter=w.scal("jitter"))
                if n == 3:
                    kw.update(bandwidth=3.0, bandwidth_scale=0.5, jitter=1e-12)
                least = pre = None
                if "least" in case:
                    least, pre = w.scal("hmin"), w.arr("pre", d)
                    kw.update(bandwidth_min=least, preconditioner_diag=pre)
                if temp != 1:
                    kw["temperature"] = temp
                dens = Tempered(w, d)
                inv = T.ONE if temp == 1 else T.ppow(at(as_ten(it, temp), ()), num(-1))
                dens.scales = (inv,)
                if dead is not None:
                    base = dens.level
                    dead_name = dens.pos(tuple(at(x, (num(dead), num(j))) for j in range(d)))
                    dens.level = lambda q: pneg(INF) if q == dead_name else base(q)
                tag = f"SVGD step: {n} particles in dimension {d}, {case}{', one outside the support' if dead is not None else ''} {b}"
                with Differentiate(w, dens), finite_inputs():
                    r = w.call(fn, [dens.lp(), x], kw)
                if not ck.returns(tag, r, W):
                    continue
                score = ops.mk((num(n), num(d)), lambda i, j: _grid(lambda a, c: pmul(dens.grad(tuple(at(x, (num(a), num(k))) for k in range(d)), c), inv) if a != dead else T.ZERO, n, d, i, j), False, (w.L, "f"))
                alive = tuple(i != dead for i in range(n))
                h = spec(w, "bandwidth", kw["bandwidth"], kw["bandwidth_scale"], least, kw["jitter"], mod="posterior")
                pv = ops.mk((num(d),), lambda i: T.ONE, False, (w.L, "f")) if pre is None else spec(w, "clip", pre, kw["jitter"], pinf(w, 1), mod="posterior").value
                s = spec(w, "stein", x, None, score, alive, kw["step_size"], h.value, pv, None, None, mod="posterior")
                with finite_inputs():
                    ck.equal(tag, w, w.items(r)[0], s.value, r, s, W, "kernel-weighted score plus kernel gradient, averaged over the particles")


def _grid(f, n, d, i, j):
    r = T.ZERO
    for a in range(n):
        for c in range(d):
            di = T.delta(i, num(a)) if n > 1 else T.ONE
            dj = T.delta(j, num(c)) if d > 1 else T.ONE
            r = padd(r, pmul(pmul(di, dj), f(a, c)))
    return r


def boxed_step(ck, w, b):
    """With a box, particles enter and leave the update projected."""
    it = w.it
    W = SV + "svgd_step"
    x, lo, hi = w.arr("x", 1, 2), w.arr("lo", 2), w.arr("hi", 2)
    dens = Tempered(w, 2)
    dens.levels = (0,)
    dens.scales = (T.ONE,)
    with Differentiate(w, dens), finite_inputs():
        r = w.call(it.get("gpmp.mcmc.svgd:svgd_step"), [dens.lp(), x], dict(step_size=w.scal("step"), bandwidth=1.0, sampling_box=(lo, hi)))
    tag = f"SVGD step in a box {b}"
    if ck.returns(tag, r, W):
        s = spec(w, "clip", x, lo, hi, mod="posterior")
        s2 = spec(w, "clip", s.value, lo, hi, mod="posterior")
        ck.equal_any(tag, w, w.items(r)[0], [(s2.value, s2), (s.value, s)], r, W, "particles are kept in the box")


def schedule(ck, w, b):
    it = w.it
    W = SV + "svgd_sample"
    n, d = 2, 1
    for sched in ("linear", "geometric"):
        for N in (1, 3):
            names = ("log_prob", "particles")
            outs = [w.arr(f"after{k}", n, d) for k in range(N)]
            opt = {k: w.scal(k) for k in ("step_size", "bandwidth", "bandwidth_scale", "bandwidth_min", "initial_temperature", "final_temperature", "jitter")}
            opt["preconditioner_diag"] = w.arr("precond", d)
            box = (w.arr("boxlo", d), w.arr("boxhi", d))
            o = w.call(it.get("gpmp.mcmc.svgd:SVGDOptions"), [], dict(opt, sampling_box=box, n_steps=N, annealing_schedule=sched, progress=False, verbose=0, store_particles_history=True))
            it.st = o.st
            L = w.L
            zero = lambda *s: ops.mk(tuple(num(k) for k in s), lambda *i: T.ZERO, False, (L, "f"))

            def result(it, kw):
                k = len(rec.calls) - 1
                if k >= N:
                    raise Unsup("more steps than requested")
                info = it.mkdict({"log_prob_values": w.arr(f"lps{k}", n), "bandwidth": w.scal(f"bw{k}"), "temperature": w.scal(f"temp{k}"), "velocity": zero(n, d), "alive_mask": True, "alive_count": n}) if hasattr(it, "mkdict") else None
                return (outs[k], info)
            x0 = w.arr("x0", n, d)
            J = Density(w, d)
            tag = f"SVGD run: {sched} schedule, {N} steps {b}"
            with Record(w, "gpmp.mcmc.svgd:svgd_step", names, result) as rec, finite_inputs():
                r = w.call(it.get("gpmp.mcmc.svgd:svgd_sample"), [J.lp(), x0], dict(options=o.value))
            if not ck.returns(tag, r, W):
                continue
            if len(rec.calls) != N:
                (ck.bad if rec.calls else ck.und)(tag, W, f"{len(rec.calls)} updates for {N} steps")
                continue
            for k, c in enumerate(rec.calls):
                s = spec(w, "temperature", k, N, opt["initial_temperature"], opt["final_temperature"], sched == "geometric", mod="posterior")
                ck.equal(f"{tag} temperature {k}", w, c.get("temperature"), s.value, r, s, W, "annealing schedule ending at the final temperature")
                ck.equal(f"{tag} particles {k}", w, c.get("particles"), x0 if k == 0 else outs[k - 1], r, None, W, "each update continues from the last")
                for o_ in ("step_size", "bandwidth", "bandwidth_scale", "bandwidth_min", "jitter", "preconditioner_diag"):
                    ck.equal(f"{tag} {o_} {k}", w, c.get(o_), opt[o_], r, None, W, "the option reaches the update")
                ends = c.get("sampling_box")
                ends = None if ends is None else w.items(r, ends)
                if ends is None or len(ends) != 2:
                    ck.bad(f"{tag} sampling_box {k}", W, "the update is made without the box", "the option reaches the update")
                else:
                    for nm, g, v in zip(("lower", "upper"), ends, box):
                        ck.equal(f"{tag} sampling_box {k} {nm}", w, g, v, r, None, W, "the option reaches the update")
            ck.equal(f"{tag} result", w, w.items(r)[0], outs[-1], r, None, W, "particles after the last update")
            rule = "the report is that of the run"
            fin = _stack([J.val(tuple(at(outs[-1], (num(i), num(j))) for j in range(d))) for i in range(n)], w)
            pile = lambda ts: ops.mk((num(len(ts)),) + tuple(ts[0].dims), lambda k, *i: psum_list([pmul(delta(num(q), k), at(t, i)) for q, t in enumerate(ts)]), False, (L, "f"))
            for nm, v in (("log_prob_final", fin), ("particles_final", outs[-1]), ("particles_history", pile([x0] + outs)), ("log_prob_trace", pile([w.arr(f"lps{k}", n) for k in range(N)])),
                          ("bandwidth_trace", pile([w.scal(f"bw{k}") for k in range(N)])), ("temperature_trace", pile([w.scal(f"temp{k}") for k in range(N)]))):
                def entry():
                    s_ = it.st
                    it.st = r.st
                    try:
                        g = ops.copy(it.V(as_ten(it, it.getitem(it.resolve(w.items(r)[1]), nm))))
                    finally:
                        it.st = s_
                    ck.equal(f"{tag} {nm}", w, g, v, r, None, W, rule)
                ck.guard(f"{tag} {nm}", entry, W)


def run(ck):
    ck.explanation = ("Value graph of the density, start and options each posterior sampler receives, observed where the sampler is called, at a symbolic point for an "
                      "arbitrary criterion, box and temperature; of single Stein variational updates; and of the annealing schedule.")
    for b in BACKENDS:
        for name, f in (("mh", mh), ("nuts", nuts), ("smc", smc), ("svgd", svgd), ("random start", random_start), ("report", report), ("steps", steps), ("boxed step", boxed_step), ("schedule", schedule)):
            ck.guard(f"{name} {b}", lambda: f(ck, ck.world(b), b), PP)

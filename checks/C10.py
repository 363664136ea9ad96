"""Selection and update procedures: options, criterion, stored parameters, report."""
from .common import *
from .optim import Optimiser

K = "gpmp.kernel:"
SRC = "gpmp/kernel/parameter_selection.py:"


class At:
    def __init__(self, st):
        self.st = st


def attr(w, st, o, n):
    it = w.it
    s = it.st
    it.st = st
    try:
        return it.getattr(o, n)
    finally:
        it.st = s


def py(v):
    return Ten((), (), num(v), False, ("py", "f"))


class Setup:
    def __init__(self, w, mt, loader=False):
        self.w = w
        it = w.it
        nm = 1 if mt == "parameterized" else None
        self.m = w.model(mt, covparam=w.arr("covparam0", 3), meanparam=w.arr("meanparam0", 1) if nm else None)
        self.k, self.mu, self.mp = it.getattr(self.m, "covariance"), it.getattr(self.m, "mean"), it.getattr(self.m, "meanparam")
        self.cp = it.getattr(self.m, "covparam")
        self.n = 3 if loader else "n"
        self.xi, self.zi = w.arr("xi", self.n, 2), w.arr("zi", self.n)
        self.loader = None
        if loader:
            ds = w.call("gpmp.dataloader:Dataset", [self.xi, self.zi], keep=True).value
            self.loader = w.call("gpmp.dataloader:DataLoader", [ds], dict(batch_size=2, shuffle=False), keep=True).value
        self.data = dict(dataloader=self.loader) if loader else dict(xi=self.xi, zi=self.zi)

    def parts(self):
        """(weight, x, z) of what the criterion is averaged over."""
        if self.loader is None:
            return [(None, self.xi, self.zi)]
        row = lambda t, a, b: ops.index(t, [ops.SliceV(a, b, None)])
        return [(2, row(self.xi, 0, 2), row(self.zi, 0, 2)), (1, row(self.xi, 2, 3), row(self.zi, 2, 3))]


def expect(s, name, p, extra):
    """The criterion at p by its specification, averaged over the data parts."""
    w = s.w
    out = []
    for wt, x, z in s.parts():
        if name == "nll":
            i = lambda a, b: ops.index(p, [ops.SliceV(a, b, None)])
            r = spec(w, "nll_param", s.k, i(1, None), s.mu, i(0, 1), x, z)
        elif name == "user":
            r = extra(x, z)
        else:
            r = spec(w, name, s.k, p, s.mu, s.mp, x, z, *extra, mod="core" if name == "nlrl" else "prior")
        out.append((wt, r if isinstance(r, Ten) else w.ten(r)))
    if out[0][0] is None:
        return out[0][1]
    tot = None
    for wt, t in out:
        u = ops.elementwise(lambda q: pmul(num(wt), q), t)
        tot = u if tot is None else ops.elementwise(padd, tot, u)
    return ops.elementwise(lambda q: pmul(num(Fraction(1, 3)), q), tot)


def options(w, npar):
    it = w.it
    lo, hi = [w.scal(f"lo{k}") for k in range(npar)], [w.scal(f"hi{k}") for k in range(npar)]
    pairs = list(zip(lo, hi))

    def lst():
        o = Obj("list")
        it.st.heap[o] = tuple(pairs)
        return o
    ft = w.scal("ftol")
    return dict(pairs=pairs, bounds=lst, ftol=ft)


def check_call(ck, w, s, fn, lab, kw, npar, p0, crit, extra, opts, nmean=0, args=None, info=True, gtol=None):
    """One call of procedure fn; opts: what must reach the optimiser."""
    WH = SRC + fn
    it = w.it
    st0 = it.st.copy()
    p = w.arr("point", npar, L="np")

    def go():
        x = w.arr("opt", npar, L="np")
        with Optimiser(w, [], x, w.scal("J"), probe=p) as o:
            r = w.call(K + fn, [s.m] + list(args or []), dict(kw, info=info, **s.data))
        if not ck.returns(lab, r, WH):
            return
        if len(o.calls) != 1:
            ck.und(lab, WH, f"{len(o.calls)} optimiser calls")
            return
        a, at = o.calls[0], At(o.st)
        if p0 is not None:
            ck.equal(f"starting point, {lab}", w, a.get("x0"), p0, at, None, WH)
        # criterion
        e = expect(s, crit, p, extra)
        ck.equal(f"criterion minimised, {lab}", w, o.probed, e, At(o.probe_st), None, WH)
        # options
        ck.require(f"method, {lab}", it.resolve(a.get("method")) == opts.get("method", "SLSQP"), WH, f"{a.get('method')} reaches the optimiser", "option")
        bd = it.resolve(a.get("bounds"))
        want = opts.get("bounds")
        if want is None:
            ck.require(f"no bounds, {lab}", bd is None, WH, "bounds reach the optimiser although switched off", "option")
        elif bd is None:
            ck.bad(f"bounds, {lab}", WH, "no bounds reach the optimiser", "option")
        else:
            if callable(want):
                want = want(it.resolve(a.get("x0")))
            q = it.st
            it.st = o.st
            try:
                xs = [it.to_list(v) for v in it.to_list(bd)]
            finally:
                it.st = q
            ck.equal(f"bounds, {lab}", w, tuple(tuple(v) for v in xs), tuple(tuple(v) for v in want), at, None, WH)
        q = it.st
        it.st = o.st
        try:
            od = it.resolve(a.get("options"))
            od = dict(it.content(od)) if isinstance(od, Obj) else {}
        finally:
            it.st = q
        for k_, v in opts.get("options", {}).items():
            if k_ not in od:
                ck.bad(f"option {k_}, {lab}", WH, "does not reach the optimiser", "option")
            else:
                ck.equal(f"option {k_}, {lab}", w, od[k_], v, at, None, WH)
        # model and report
        res = w.items(r)
        ck.require(f"the model itself is returned, {lab}", it.resolve(res[0]) is s.m, WH, "another model is returned", "result")
        part = lambda u, v: ops.index(x, [ops.SliceV(u, v, None)])
        mean, cov = (part(0, nmean), part(nmean, None)) if nmean else (None, x)
        ck.equal(f"stored covariance parameters, {lab}", w, attr(w, r.st, s.m, "covparam"), cov, r, None, WH)
        ck.equal(f"stored mean parameters, {lab}", w, attr(w, r.st, s.m, "meanparam"), mean if nmean else s.mp, r, None, WH)
        if not info:
            ck.require(f"no report, {lab}", res[1] is None, WH, "a report although not asked for", "result")
            return
        rep = res[1]
        ck.equal(f"report covparam, {lab}", w, attr(w, r.st, rep, "covparam"), cov, r, None, WH)
        ck.equal(f"report meanparam, {lab}", w, attr(w, r.st, rep, "meanparam"), mean, r, None, WH)
        ck.equal(f"report covparam0 and meanparam0, {lab}", w, (attr(w, r.st, rep, "covparam0"), attr(w, r.st, rep, "meanparam0")),
                 tuple((ops.index(it.resolve(a["x0"]), [ops.SliceV(nmean, None, None)]),
                        ops.index(it.resolve(a["x0"]), [ops.SliceV(0, nmean, None)]) if nmean else None)), r, None, WH)
        for n in ("selection_criterion", "selection_criterion_nograd"):
            q = it.st
            it.st = r.st.copy()
            try:
                f = it.getattr(rep, n)
                pt = w.arr("point", npar)
                rr = w.call(f, [pt])
            finally:
                it.st = q
            if ck.returns(f"report {n}, {lab}", rr, WH):
                ck.equal(f"report {n}, {lab}", w, rr.value, e, rr, None, WH)
    ck.guard(lab, go, WH)
    w.it.st = st0


def auto(w, delta):
    def f(x0):
        out = []
        for k in range(size_const(x0)):
            s = spec(w, "auto_bounds", ops.index(x0, [k]), delta, mod="optim")
            out.append([w.ten(s, v) for v in w.items(s)])
        return out
    return f


def size_const(t):
    return int(t.dims[0].const())


def variants(w, npar):
    o = options(w, npar)
    D = lambda: w.it.mkdict(dict(ftol=o["ftol"]))
    dl = w.scal("delta")
    yield "all options", dict(bounds=o["bounds"](), bounds_auto=False, method="L-BFGS-B", method_options=D()), \
        dict(bounds=o["pairs"], method="L-BFGS-B", options=dict(ftol=o["ftol"]))
    yield "bounds given", dict(bounds=o["bounds"]()), dict(bounds=o["pairs"])
    yield "bound width", dict(bounds_delta=dl), dict(bounds=auto(w, dl))
    yield "no bounds", dict(bounds_auto=False), dict(bounds=None)
    yield "defaults", {}, dict(bounds=auto(w, py(10)))


SIMPLE = [("select_parameters_with_reml", "update_parameters_with_reml", "nlrl"),
          ("select_parameters_with_remap_with_power_laws_prior", "update_parameters_with_remap_with_power_laws_prior", "post_power")]


def simple(ck, w, b):
    for loader in (False, True):
        src = " from a loader" if loader else ""
        s = Setup(w, "linear_predictor", loader)
        c0 = w.arr("c0", 3)
        for sel, upd, crit in SIMPLE:
            vs = list(variants(w, 3))
            for tag, kw, opts in (vs if not loader else vs[:1]):
                check_call(ck, w, s, sel, f"{sel}, {tag}{src} {b}", dict(kw, covparam0=c0), 3, c0, crit, [], opts)
                check_call(ck, w, s, upd, f"{upd}, {tag}{src} {b}", kw, 3, s.cp, crit, [], opts)
            check_call(ck, w, s, sel, f"{sel}, no report{src} {b}", dict(covparam0=c0), 3, c0, crit, [], dict(bounds=auto(w, py(10))), info=False)
        guess(ck, w, s, "select_parameters_with_reml", "nlrl", [], f"{src} {b}")


def guess(ck, w, s, fn, crit, extra, tag):
    g = w.call(K + "anisotropic_parameters_initial_guess", [s.m], s.data)
    check_call(ck, w, s, fn, f"{fn}, start guessed{tag}", {}, 3, w.ten(g), crit, extra, dict(bounds=auto(w, py(10))))


def constant_mean(ck, w, b):
    for loader in (False, True):
        src = " from a loader" if loader else ""
        s = Setup(w, "parameterized", loader)
        c0, m0 = w.arr("c0", 3), w.arr("m0", 1)
        cat = lambda a, c: w.it.call_ext("numpy.concatenate", [(a, c)], {})
        sel, upd = "select_parameters_with_ml_constant_mean", "update_parameters_with_ml_constant_mean"
        vs = list(variants(w, 4))
        for tag, kw, opts in (vs if not loader else vs[:1]):
            check_call(ck, w, s, sel, f"{sel}, {tag}{src} {b}", dict(kw, covparam0=c0, meanparam0=m0), 4, cat(m0, c0), "nll", [], opts, 1)
            check_call(ck, w, s, upd, f"{upd}, {tag}{src} {b}", kw, 4, cat(s.mp, s.cp), "nll", [], opts, 1)
        g = w.call(K + "anisotropic_parameters_initial_guess_constant_mean", [s.m], s.data)
        gm, gc = [w.ten(g, v) for v in w.items(g)]
        d = dict(bounds=auto(w, py(10)))
        check_call(ck, w, s, sel, f"{sel}, covariance start guessed{src} {b}", dict(meanparam0=m0), 4, cat(m0, gc), "nll", [], d, 1)
        check_call(ck, w, s, sel, f"{sel}, mean start guessed{src} {b}", dict(covparam0=c0), 4, cat(gm, c0), "nll", [], d, 1)
        check_call(ck, w, s, sel, f"{sel}, start guessed{src} {b}", {}, 4, cat(gm, gc), "nll", [], d, 1)


def custom(ck, w, b):
    it = w.it
    for pm in (False, True):
        for loader in (False, True):
            src = " from a loader" if loader else ""
            s = Setup(w, "parameterized" if pm else "zero", loader)
            npar = 5 if pm else 3

            def crit(it_, a, k, pm=pm):
                mp, cp, x, z = a[1:] if pm else [None] + list(a[1:])
                return w.ten(spec(w, "user_criterion", w.arr("u", "q") if mp is None else mp, cp, x, z, mod="optim"))
            p = w.arr("point", npar)
            i = lambda u, v: ops.index(p, [ops.SliceV(u, v, None)])

            def want(x, z):
                mp, cp = (i(0, 2), i(2, None)) if pm else (w.arr("u", "q"), p)
                return w.ten(spec(w, "user_criterion", mp, cp, x, z, mod="optim"))
            c0, m0 = w.arr("c0", 3), w.arr("m0", 2)
            p0 = it.call_ext("numpy.concatenate", [(m0, c0)], {}) if pm else c0
            extra = dict(parameterized_mean=True, meanparam_len=2) if pm else {}
            fn = "select_parameters_with_criterion"
            up = "update_parameters_with_criterion"
            start = dict(covparam0=c0, **(dict(meanparam0=m0) if pm else {}))
            tag0 = " with mean" if pm else ""
            vs = list(variants(w, npar))
            cur = s.cp
            if pm:
                it.setattr(s.m, "meanparam", w.arr("meanparam0", 2))
                s.mp = it.getattr(s.m, "meanparam")
                cur = it.call_ext("numpy.concatenate", [(s.mp, s.cp)], {})
            for tag, kw, opts in (vs if not loader else vs[:1]):
                u = UF("criterion", crit)
                check_call(ck, w, s, fn, f"{fn}{tag0}, {tag}{src} {b}", dict(kw, **start, **extra), npar, p0, "user", want, opts, 2 if pm else 0, [u])
                check_call(ck, w, s, up, f"{up}{tag0}, {tag}{src} {b}", dict(kw, **extra), npar, cur, "user", want, opts, 2 if pm else 0, [u])


def remap(ck, w, b):
    """Posterior procedures: anchor, hyperparameters, explicit prior parameters and their defaults."""
    d10 = dict(bounds=auto(w, py(10)))
    for loader in (False, True):
        src = " from a loader" if loader else ""
        s = Setup(w, "linear_predictor", loader)
        c0, ci, cpr = w.arr("c0", 3), w.arr("cinit", 3), w.arr("cprior", 3)
        ga, co, al, rf = w.scal("gamma"), w.scal("cover"), w.scal("alpha"), w.scal("rf")
        s0, l0, lm = w.scal("s0"), w.arr("l0", 2), w.arr("lmin", 2)
        at = lambda t, k: ops.index(t, [k])
        neg = lambda t: ops.elementwise(pneg, ops.index(t, [ops.SliceV(1, None, None)]))
        D = [py(Fraction(3, 2)), py(Fraction(19, 20)), py(1), py(Fraction(1, 20))]
        gs = w.ten(w.call(K + "anisotropic_parameters_initial_guess", [s.m], s.data))
        lmin = lambda f: w.ten(w.call(K + "compute_logrho_min_from_xi", [s.xi], dict(prior_rho_min_range_factor=f)))
        hyp = dict(prior_gamma=ga, prior_sigma2_coverage=co)
        # log-variance prior
        fs, fu = "select_parameters_with_remap_gaussian_logsigma2", "update_parameters_with_remap_gaussian_logsigma2"
        G = "post_gauss"
        run = lambda fn, tag, kw, p0, crit, ex, opts=d10: check_call(ck, w, s, fn, f"{fn}, {tag}{src} {b}", kw, 3, p0, crit, ex, opts)
        for tag, kw, opts in list(variants(w, 3))[: 1 if loader else 4]:
            run(fs, tag, dict(kw, covparam0=c0, **hyp), c0, G, [at(c0, 0), ga, co], opts)
            run(fu, tag, dict(kw, **hyp), s.cp, G, [at(s.cp, 0), ga, co], opts)
        run(fs, "anchor and start", dict(covparam0=c0, covparam0_prior=cpr, covparam0_init=ci, **hyp), ci, G, [at(cpr, 0), ga, co])
        run(fs, "anchor", dict(covparam0_prior=cpr, **hyp), gs, G, [at(cpr, 0), ga, co])
        run(fs, "start", dict(covparam0_init=ci, **hyp), ci, G, [at(gs, 0), ga, co])
        run(fs, "default gamma", dict(covparam0=c0, prior_sigma2_coverage=co), c0, G, [at(c0, 0), D[0], co])
        run(fs, "default coverage", dict(covparam0=c0, prior_gamma=ga), c0, G, [at(c0, 0), ga, D[1]])
        run(fu, "anchor and start", dict(covparam0_prior=cpr, covparam0_init=ci, **hyp), ci, G, [at(cpr, 0), ga, co])
        run(fu, "common value", dict(covparam0=c0, **hyp), c0, G, [at(c0, 0), ga, co])
        run(fu, "default hyperparameters", {}, s.cp, G, [at(s.cp, 0), D[0], D[1]])
        # log-variance and length-scale priors
        B = "post_both"
        full = dict(prior_alpha=al, **hyp)
        for fs, fu in (("select_parameters_with_remap_gaussian_logsigma2_and_logrho_prior", "update_parameters_with_remap_gaussian_logsigma2_and_logrho_prior"),
                       ("select_parameters_with_remap", "update_parameters_with_remap")):
            ex = dict(prior_log_sigma2_0=s0, prior_logrho_0=l0, prior_logrho_min=lm)
            for tag, kw, opts in list(variants(w, 3))[: 1 if loader else 4]:
                run(fs, tag, dict(kw, covparam0=c0, **full, **ex), c0, B, [s0, ga, co, lm, l0, al], opts)
                run(fu, tag, dict(kw, **full, **ex), s.cp, B, [s0, ga, co, lm, l0, al], opts)
            run(fs, "anchor and start", dict(covparam0=c0, covparam0_prior=cpr, covparam0_init=ci, prior_logrho_min=lm, **full), ci, B,
                [at(cpr, 0), ga, co, lm, neg(cpr), al])
            run(fs, "range factor", dict(covparam0=c0, prior_rho_min_range_factor=rf, **full), c0, B, [at(c0, 0), ga, co, lmin(rf), neg(c0), al])
            run(fs, "default hyperparameters", dict(covparam0=c0), c0, B, [at(c0, 0), D[0], D[1], lmin(D[3]), neg(c0), D[2]])
            run(fs, "guess", dict(prior_logrho_min=lm, **full), gs, B, [at(gs, 0), ga, co, lm, neg(gs), al])
            if fs.endswith("prior"):
                run(fu, "anchor and start", dict(covparam0_prior=cpr, covparam0_init=ci, prior_logrho_min=lm, **full), ci, B,
                    [at(cpr, 0), ga, co, lm, neg(cpr), al])
                run(fu, "common value", dict(covparam0=c0, prior_logrho_min=lm, **full), c0, B, [at(c0, 0), ga, co, lm, neg(c0), al])
            run(fu, "range factor", dict(prior_rho_min_range_factor=rf, **full), s.cp, B, [at(s.cp, 0), ga, co, lmin(rf), neg(s.cp), al])
            run(fu, "default hyperparameters", {}, s.cp, B, [at(s.cp, 0), D[0], D[1], lmin(D[3]), neg(s.cp), D[2]])


def run(ck):
    ck.explanation = ("Every public select/update procedure analysed with the optimiser call as the observation point: starting point, bounds, "
                      "method, options, value graph of the objective at a symbolic point, stored parameters and report fields are compared "
                      "with what the arguments announce, for arrays and for a loader with two unequal batches.")
    for f in (simple, constant_mean, custom, remap):
        each(ck, f.__name__, lambda w, b: f(ck, w, b), SRC + "select_parameters_with_criterion")

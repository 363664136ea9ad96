"""Sequential Monte Carlo: weights, effective sample size, resampling, moves and schedules."""
from fractions import Fraction
from .common import *
from .C20 import by_cases, _stack, sc, find, ACCEPT, _b
from sa import terms as T
from sa.prims import finite_inputs

PS = "gpmp/mcmc/smc.py:ParticlesSet."
SM = "gpmp/mcmc/smc.py:SMC."
D = 2
INF = atom_poly(Atom("inf", ()))


def row(x, i):
    return tuple(at(x, (num(i), num(j))) for j in range(D))


def nrows(x):
    c = x.dims[0].const()
    if c is None:
        raise Unsup("number of particles")
    return int(c)


class Target:
    """Arbitrary density: an uninterpreted value per point (and parameter)."""

    def __init__(self, w, name, values=None):
        self.w, self.name, self.values, self.calls = w, name, values, []

    def of(self, ps, par=()):
        return by_cases(lambda q: atom_poly(Atom(self.name, (q,) + tuple(par))), ps)

    def uf(self):
        def f(it, args, kw):
            x = as_ten(it, args[0])
            par = [at(as_ten(it, a), ()) for a in list(args[1:]) + list(kw.values())]
            self.calls.append((x, par))
            return _stack([self.of(row(x, i), par) for i in range(nrows(x))], self.w)
        return UF(self.name, f)


class Fixed:
    """A density given by its values at the particle positions, per parameter."""

    def __init__(self, w, fn):
        self.w, self.fn, self.pars = w, fn, []

    def uf(self):
        def f(it, args, kw):
            x = as_ten(it, args[0])
            par = [at(as_ten(it, a), ()).const() for a in list(args[1:]) + list(kw.values())]
            if any(p is None for p in par):
                raise Unsup("symbolic parameter")
            self.pars.append(tuple(par))
            return _stack([self.fn(i, *par) for i in range(nrows(x))], self.w)
        return UF("density", f)


class Noise:
    """Gaussian perturbations become free symbols; their covariance argument is kept."""

    def __init__(self, w):
        self.w, self.calls = w, []

    def __enter__(self):
        self.w.it.intercept["scipy.stats.multivariate_normal.rvs"] = self.rvs
        return self

    def __exit__(self, *a):
        self.w.it.intercept.pop("scipy.stats.multivariate_normal.rvs", None)

    def rvs(self, it, name, args, kw):
        a = dict(zip(("mean", "cov", "size", "random_state"), args))
        a.update(kw)
        n = int(at(as_ten(it, a.get("size", 1)), ()).const())
        C = as_ten(it, a["cov"])
        k = len(self.calls)
        m = a.get("mean")
        self.calls.append((it.V(C), n, m))
        d = int(C.dims[0].const()) if C.rank else 1
        e = self.eps(k, n, d)
        if m is not None:
            return ops.elementwise(padd, as_ten(it, m), e)
        return e

    def eps(self, k, n, d=D):
        return ops.mk((num(n), num(d)), lambda i, j: atom_poly(Atom("eps", (str(k), i, j))), False, ("np", "f"))


class Counts:
    """Multinomial counts are scripted; the arguments of each draw are kept."""

    def __init__(self, w, script):
        self.w, self.script, self.calls = w, list(script), []

    def __enter__(self):
        self.w.it.intercept["scipy.stats.multinomial.rvs"] = self.rvs
        self.w.it.intercept["rng.multinomial"] = self.rng
        return self

    def __exit__(self, *a):
        self.w.it.intercept.pop("scipy.stats.multinomial.rvs", None)
        self.w.it.intercept.pop("rng.multinomial", None)

    def rng(self, it, name, args, kw):
        kw = {("p" if k == "pvals" else k): v for k, v in kw.items()}
        return self.rvs(it, name, args[-2:] if len(args) > 2 else args, kw)

    def rvs(self, it, name, args, kw):
        a = dict(zip(("n", "p"), args))
        a.update(kw)
        p = it.V(as_ten(it, a["p"]))
        n = at(as_ten(it, a["n"]), ()).const()
        k = len(self.calls)
        self.calls.append((n, p))
        c = self.script[min(k, len(self.script) - 1)]
        if callable(c):
            c = c(int(n), p)
        return ops.with_tag(_stack([num(v) for v in c], self.w), "np", "i")


def attr(w, r, obj, name):
    it, s = w.it, w.it.st
    it.st = r.st if r is not None else s
    try:
        v = it.resolve(it.getattr(obj, name))
        return it.V(as_ten(it, v))
    finally:
        it.st = s


def do(w, obj, name, *args, **kw):
    with finite_inputs():
        r = w.meth(obj, name, *args, **kw)
    if not r.returned:
        raise Unsup(name + " raises")
    w.it.st = r.st
    return r


def make(w, n, box=None, **cfg):
    it = w.it
    c = w.call(it.get("gpmp.mcmc.smc:ParticlesSetConfig"), [], cfg)
    it.st = c.st
    r = w.call(it.get("gpmp.mcmc.smc:ParticlesSet"), [box if box is not None else ((0.0,) * D, (1.0,) * D), n], dict(config=c.value))
    if not r.returned:
        raise Unsup("construction raises")
    it.st = r.st
    return r.value


def start(w, n, **cfg):
    """Particles with an arbitrary current density t0 reached by reweighting."""
    p = make(w, n, **cfg)
    t0 = Target(w, "t0")
    do(w, p, "set_logpdf", t0.uf())
    do(w, p, "reweight")
    return p, t0


def initial(ck, w, b):
    it = w.it
    box = w.arr("box", 2, D, L="np")
    d0 = len(getattr(it, "draws", []))
    p = make(w, 3, box)
    tag = f"initial particles {b}"
    us = [d[2] for d in it.draws[d0:] if d[0] == "U" and d[2].rank == 2]
    x = attr(w, None, p, "x")
    forms = [(s.value, s) for s in (spec(w, "uniform_in_box", u, box, mod="mcmc") for u in us)]
    k, und = find(ck, w, x, forms, None)
    ck.require(tag + " positions", True if k is not None else None if und or not us else False, PS + "particles_init",
               "positions: " + show(x)[:200], "uniform draws scaled to the box")
    third = ops.mk((num(3),), lambda i: num(Fraction(1, 3)), False, (w.L, "f"))
    zero = ops.mk((num(3),), lambda i: ZERO, False, (w.L, "f"))
    ck.equal(tag + " weights", w, attr(w, None, p, "w"), third, None, None, PS + "particles_init", "uniform weights")
    ck.equal(tag + " log-density", w, attr(w, None, p, "logpx"), zero, None, None, PS + "particles_init", "uniform density")


def reweight(ck, w, b):
    p, t0 = start(w, 3)
    x = attr(w, None, p, "x")
    third = ops.mk((num(3),), lambda i: num(Fraction(1, 3)), False, (w.L, "f"))
    zero = ops.mk((num(3),), lambda i: ZERO, False, (w.L, "f"))
    l0 = _stack([t0.of(row(x, i)) for i in range(3)], w)
    s = spec(w, "reweighted", third, l0, zero, mod="mcmc")
    tag = f"first reweighting {b}"
    W = PS + "reweight"
    ck.equal(tag + " log-density", w, attr(w, None, p, "logpx"), l0, None, None, W, "stored density is the new target's")
    ck.equal(tag + " weights", w, attr(w, None, p, "w"), s.value, None, s, W, "weights times the density ratio")
    t1 = Target(w, "t1")
    do(w, p, "set_logpdf_with_parameter", t1.uf(), w.scal("beta"))
    beta = at(w.scal("beta"), ())
    l1 = _stack([t1.of(row(x, i), (beta,)) for i in range(3)], w)
    s2 = spec(w, "reweighted", s.value, l1, l0, mod="mcmc")
    for upd in (True, False):
        with finite_inputs():
            r = w.meth(p, "reweight", update_logpx_and_w=upd)
        tag = f"second reweighting update={upd} {b}"
        if not ck.returns(tag, r, W):
            continue
        ck.equal(tag + " log-density", w, attr(w, r, p, "logpx"), l1 if upd else l0, r, None, W,
                 "stored density is the new target's" if upd else "a trial reweighting leaves the stored density")
        ck.equal(tag + " weights", w, attr(w, r, p, "w"), s2.value if upd else s.value, r, s2, W,
                 "weights times the ratio of new to old density" if upd else "a trial reweighting leaves the weights")
        ck.equal(tag + " particles", w, attr(w, r, p, "x"), x, r, None, W, "particles are not touched")
        st = w.it.st
        w.it.st = r.st
        with finite_inputs():
            e = w.meth(p, "ess")
        if ck.returns(tag + " effective sample size", e, PS + "ess"):
            se = spec(w, "ess", s2.value, mod="mcmc")
            ck.equal(tag + " effective sample size", w, e.value, se.value, e, se, PS + "ess", "(sum w)^2 / sum w^2 of the reweighted particles")
        w.it.st = st


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for a in range(n + 1):
        for r in compositions(n - a, k - 1):
            yield (a,) + r


def copies(ck, w, r, p, x, lp, counts, tag, where):
    """Resampled particles: the given number of copies of each (position, density) pair, uniform weights."""
    nx, nl = attr(w, r, p, "x"), attr(w, r, p, "logpx")
    n = nrows(nx)
    left = list(counts)
    for i in range(n):
        ri, li = row(nx, i), at(nl, (num(i),))
        js = [j for j in range(len(counts)) if all(peq(renorm(a), renorm(q)) for a, q in zip(ri, row(x, j)))]
        if not js:
            op = opaque_in(_stack(ri, w)) is not None
            ck.require(f"{tag} particle {i}", None if op else False, where, "position " + show(ri[0])[:160], "a resampled particle is a copy of one of the particles")
            return
        j = js[0]
        left[j] -= 1
        if not peq(renorm(li), renorm(at(lp, (num(j),)))):
            ck.require(f"{tag} density", None if opaque_in(_stack([li], w)) is not None else False, where,
                       f"particle {j} is copied with density {show(li)[:160]}", "the density goes with its particle")
            return
    ck.require(tag + " counts", not any(left), where, f"copies differ from the drawn counts by {left}", "as many copies as drawn")
    u = ops.mk((num(n),), lambda i: num(Fraction(1, n)), False, (w.L, "f"))
    for a in ("w", "w_tmp"):
        ck.equal(f"{tag} {a}", w, attr(w, r, p, a), u, r, None, where, "weights are reset to uniform")


def multinomial(ck, w, b):
    n = 3
    p, t0 = start(w, n, resample_scheme="multinomial")
    x, lp, wt = attr(w, None, p, "x"), attr(w, None, p, "logpx"), attr(w, None, p, "w")
    W = PS + "multinomial_resample"
    s = spec(w, "normalised", wt, mod="mcmc")
    for c in compositions(n, n):
        tag = f"multinomial resampling with counts {c} {b}"
        with Counts(w, [c]) as cs, finite_inputs():
            r = w.meth(p, "resample")
        if not ck.returns(tag, r, W):
            continue
        if len(cs.calls) != 1:
            ck.und(tag, W, "not one multinomial draw")
            continue
        ck.require(tag + " number", cs.calls[0][0] == n, W, f"{cs.calls[0][0]} draws for {n} particles", "as many draws as particles")
        ck.equal(tag + " probabilities", w, cs.calls[0][1], s.value, r, s, W, "probabilities are the normalised weights")
        copies(ck, w, r, p, x, lp, c, tag, W)


def weighted(w, vals, **cfg):
    """Particles whose weights are the given rationals (up to the common factor)."""
    p = make(w, len(vals), **cfg)
    lv = [T.f_log(num(Fraction(v))) if v else pneg(INF) for v in vals]
    do(w, p, "set_logpdf", Fixed(w, lambda i: lv[i]).uf())
    do(w, p, "reweight")
    return p


RESIDUAL = (("1/2", "3/10", "1/5", 0), ("1/2", "1/4", "1/4", 0), ("7/10", "1/10", "1/10", "1/10"), (1, 0, 0), ("2/5", "2/5", "1/5"))


def residual(ck, w, b):
    W = PS + "residual_resample"
    for vals in RESIDUAL:
        ps = [Fraction(v) for v in vals]
        n = len(ps)
        det = [int(n * q) for q in ps]
        res = [n * q - d for q, d in zip(ps, det)]
        m = n - sum(det)
        scripts = [c for c in compositions(m, n) if all(q or not k for q, k in zip(res, c))]
        for c in scripts[:4]:
            p = weighted(w, ps, resample_scheme="residual")
            x, lp = attr(w, None, p, "x"), attr(w, None, p, "logpx")
            tag = f"residual resampling of {'/'.join(map(str, vals))} with counts {c} {b}"
            with Counts(w, [c]) as cs, finite_inputs():
                r = w.meth(p, "resample")
            if not ck.returns(tag, r, W):
                continue
            real = [k for k in cs.calls if k[0] != 0]
            if m == 0:
                ck.require(tag + " draws", not real, W, f"{[str(k[0]) for k in real]} random copies", "no random copy when the expected counts are whole")
            elif len(real) != 1:
                ck.und(tag, W, "not one multinomial draw")
                continue
            else:
                ck.require(tag + " number", real[0][0] == m, W, f"{real[0][0]} random copies for {m} places", "the random copies fill the remaining places")
                want = _stack([num(q / m) for q in res], w)
                ck.equal(tag + " probabilities", w, real[0][1], want, r, None, W, "probabilities are the normalised residuals")
            copies(ck, w, r, p, x, lp, [a + d for a, d in zip(c, det)], tag, W)


def degenerate(ck, w, b):
    for scheme in ("multinomial", "residual"):
        p = weighted(w, [0, 0, 0], resample_scheme=scheme)
        x, lp = attr(w, None, p, "x"), attr(w, None, p, "logpx")
        W = PS + scheme + "_resample"
        tag = f"all weights zero {scheme} {b}"
        with finite_inputs():
            e = w.meth(p, "ess")
        if ck.returns(tag + " effective sample size", e, PS + "ess"):
            ck.equal(tag + " effective sample size", w, e.value, sc(ZERO, w), e, None, PS + "ess", "no effective sample")
        with Counts(w, [(1, 1, 1)]) as cs, finite_inputs():
            r = w.meth(p, "resample")
        if not ck.returns(tag, r, W):
            continue
        for n, q in cs.calls:
            if n:
                ck.equal(tag + " probabilities", w, q, _stack([num(Fraction(1, 3))] * 3, w), r, None, W, "uniform probabilities")
        copies(ck, w, r, p, x, lp, (1, 1, 1), tag, W)


def accept_vector(w, u, new, old):
    ratio = ops.elementwise(psub, new, old)
    return [spec(w, f, u, ratio, mod="mcmc") for f in ACCEPT]


def move(ck, w, b):
    n = 3
    s0 = w.scal("scale")
    p, t0 = start(w, n, param_s_initial_value=s0, param_s_lower_bound=pinf(w, -1), param_s_upper_bound=pinf(w, 1))
    x, lp = attr(w, None, p, "x"), attr(w, None, p, "logpx")
    t1 = Target(w, "t1")
    do(w, p, "set_logpdf", t1.uf())
    do(w, p, "reweight")
    lp = attr(w, None, p, "logpx")
    W = PS + "move"
    tag = f"move {b}"
    d0 = len(w.it.draws)
    with Noise(w) as nz, finite_inputs():
        r = w.meth(p, "move")
    if not ck.returns(tag, r, W):
        return
    if len(nz.calls) != 1 or nz.calls[0][1] != n:
        ck.und(tag, W, "the perturbation is not one Gaussian draw per particle")
        return
    C, _, mean = nz.calls[0]
    s = spec(w, "particle_cov", s0, x, mod="mcmc")
    ck.equal(tag + " covariance", w, C, s.value, r, s, PS + "perturb", "scale times the sample covariance of the particles")
    e = nz.eps(0, n)
    y = ops.elementwise(padd, x, e)
    ly = _stack([t1.of(row(y, i)) for i in range(n)], w)
    us = [d[2] for d in w.it.draws[d0:] if d[0] == "U" and d[2].rank == 1]
    gx, gl = attr(w, r, p, "x"), attr(w, r, p, "logpx")
    hit, und = None, False
    for u in us:
        for a in accept_vector(w, u, ly, lp):
            v = spec(w, "moved_rows", a.value, y, x, mod="mcmc")
            st, _ = ck.compare(w, gx, v.value, r, v)
            if st == "eq":
                hit = (a, v)
                break
            und = und or st == "und"
        if hit:
            break
    if hit is None:
        ck.require(tag + " positions", None if und or not [d for d in w.it.draws[d0:] if d[0] == "U"] else False, W, "positions: " + show(gx)[:300],
                   "a particle moves when the log of its uniform draw is below the log-ratio of the current density")
        return
    ck.ok(tag + " positions", W)
    v = spec(w, "next_state", hit[0].value, ly, lp, mod="mcmc")
    ck.equal(tag + " log-density", w, gl, v.value, r, v, W, "the stored density moves with the particle")
    v = spec(w, "rate", hit[0].value, mod="mcmc")
    ck.equal(tag + " rate", w, r.value, v.value, r, v, W, "accepted fraction")
    ck.equal(tag + " weights", w, attr(w, r, p, "w"), attr(w, None, p, "w"), r, None, W, "weights are not touched")


def pinf(w, sign):
    return ops.mk((), lambda: INF if sign > 0 else pneg(INF), False, ("py", "f"))


def sampler(w, n, cfg=None, **kw):
    it = w.it
    kw.setdefault("mh_adjustment_max_iterations", 1)
    c = w.call(it.get("gpmp.mcmc.smc:ParticlesSetConfig"), [], dict(cfg or {}))
    it.st = c.st
    s = w.call(it.get("gpmp.mcmc.smc:SMCConfig"), [], kw)
    it.st = s.st
    r = w.call(it.get("gpmp.mcmc.smc:SMC"), [((0.0,) * D, (1.0,) * D), n], dict(particles_config=c.value, smc_config=s.value))
    if not r.returned:
        raise Unsup("construction raises")
    it.st = r.st
    return r.value


def consistent(ck, w, r, p, t, par, tag, where):
    x, lp = attr(w, r, p, "x"), attr(w, r, p, "logpx")
    for i in range(nrows(x)):
        ck.equal(f"{tag} particle {i}", w, sc(at(lp, (num(i),)), w), sc(t.of(row(x, i), par), w), r, None, where,
                 "stored log-density is that of the current target at the particle")


def step(ck, w, b):
    n = 2
    for scheme, cs in (("multinomial", (1, 1)), ("multinomial", (2, 0))):
        s = sampler(w, n, dict(resample_scheme=scheme), mh_steps=2)
        p = w.it.getattr(s, "particles")
        t = Target(w, "t")
        beta = w.scal("beta")
        tag = f"step with counts {cs} {b}"
        x = attr(w, None, p, "x")
        with Noise(w) as nz, Counts(w, [cs]) as mc, finite_inputs():
            r = w.meth(s, "step", t.uf(), beta)
        W = SM + "step"
        if not ck.returns(tag, r, W):
            continue
        par = (at(beta, ()),)
        consistent(ck, w, r, p, t, par, tag, W)
        if len(mc.calls) == 1:
            l = _stack([t.of(row(x, i), par) for i in range(n)], w)
            v = spec(w, "normalised", spec(w, "reweighted", _stack([num(Fraction(1, 2))] * 2, w), l, _stack([ZERO] * 2, w), mod="mcmc").value, mod="mcmc")
            ck.equal(tag + " resampling", w, mc.calls[0][1], v.value, r, v, W, "particles are reweighted before they are resampled")
        else:
            ck.und(tag + " resampling", W, "not one multinomial draw")
        ck.require(tag + " moves", True if len(nz.calls) == 2 else None if not nz.calls else False, W, f"{len(nz.calls)} moves", "as many moves as requested")
        par0 = [c[1] for c in t.calls]
        ck.require(tag + " target", all(len(q) == 1 and peq(q[0], par[0]) for q in par0), W, "density evaluated at another parameter",
                   "one step uses one target")
        ck.equal(tag + " weights", w, attr(w, r, p, "w"), _stack([num(Fraction(1, 2))] * 2, w), r, None, W, "weights are uniform after a step")
        if len(nz.calls) == 2:
            rates = [v for e in logged(w, r, s) for v in e["acceptation_rate_sequence"]]
            ck.require(tag + " record", len(rates) == 2, W, f"{len(rates)} acceptance rates recorded for 2 moves", "the log holds the acceptance rate of every move")


def logged(w, r, s):
    """The records of the log, as dictionaries (sequences as lists)."""
    it, st = w.it, w.it.st
    it.st = r.st
    try:
        out = []
        for e in it.to_list(it.resolve(it.getattr(s, "log"))) or []:
            o = it.resolve(e)
            d = {}
            for nm in ("current_logpdf_param", "ess", "logpdf_param_sequence", "acceptation_rate_sequence"):
                v = it.resolve(it.getitem(o, nm))
                d[nm] = list(it.to_list(v)) if isinstance(v, Obj) and v.kind == "list" else v
            out.append(d)
        return out
    finally:
        it.st = st


def record(ck, w, b):
    """What was recorded before stays as it was recorded."""
    s = sampler(w, 2)
    W, rule = SM + "log_snapshot", "a record holds what happened since the previous one"
    r0, r1, r2 = (w.scal(f"rate{k}") for k in range(3))
    par, par2, ess = w.scal("par"), w.scal("par2"), w.scal("essv")
    do(w, s, "update_log", logpdf_param=par, ess=ess, acceptation_rate=r0)
    do(w, s, "update_log", acceptation_rate=r1)
    do(w, s, "log_snapshot")
    do(w, s, "update_log", logpdf_param=par2, acceptation_rate=r2)
    r = w.meth(s, "log_snapshot")
    tag = f"records {b}"
    if not ck.returns(tag, r, W):
        return
    es = logged(w, r, s)
    ck.require(tag + " number", len(es) == 2, W, f"{len(es)} records for two snapshots", rule)
    if len(es) != 2:
        return
    for k, (x, rates, q) in enumerate(((es[0], (r0, r1), par), (es[1], (r2,), par2))):
        got = x["acceptation_rate_sequence"]
        ck.require(f"{tag} {k} number of rates", len(got) == len(rates), W, f"{len(got)} rates, {len(rates)} made", rule)
        for j, (u, v) in enumerate(zip(got, rates)):
            ck.equal(f"{tag} {k} rate {j}", w, u, v, r, None, W, rule)
        ck.equal(f"{tag} {k} parameter", w, x["current_logpdf_param"], q, r, None, W, rule)
        ck.equal(f"{tag} {k} effective sample size", w, x["ess"], ess, r, None, W, rule)


def scale(ck, w, b):
    """The move scale is adjusted towards the acceptance window."""
    n = 2
    W = SM + "move_with_controlled_acceptation_rate"
    lo, hi, f = Fraction(1, 4), Fraction(3, 4), w.scal("factor")
    for low, high, want in ((Fraction(1, 2), 1, "down"), (0, Fraction(1, 2), "up"), (0, 1, "keep")):
        for acc in (0, 1):
            s = sampler(w, n, dict(param_s_initial_value=2.0), mh_acceptation_rate_min=float(low), mh_acceptation_rate_max=float(high), mh_adjustment_factor=f)
            p = w.it.getattr(s, "particles")
            # every proposal is rejected (acc = 0) or accepted (acc = 1)
            do(w, p, "set_logpdf", Fixed(w, lambda i: num(0)).uf())
            do(w, p, "reweight")
            do(w, p, "set_logpdf", Fixed(w, lambda i: num(100 if acc else -100)).uf())
            with Noise(w), finite_inputs():
                r = w.meth(s, "move_with_controlled_acceptation_rate")
            tag = f"scale with acceptance rate {acc} in window {low}-{high} {b}"
            if not ck.returns(tag, r, W):
                continue
            v = spec(w, "scaled", 2.0, acc, float(low), float(high), f, mod="mcmc")
            ck.equal(tag, w, attr(w, r, p, "param_s"), v.value, r, v, W, "decrease below the window, increase above it")


def cv(it, v):
    v = it.resolve(v)
    c = at(as_ten(it, v), ()).const() if not isinstance(v, (Opq, Phi)) else None
    if c is None:
        raise Unsup("not a constant")
    return Fraction(c)


def next_p0(ck, w, b):
    W = SM + "compute_next_logpdf_param_p0"
    log1 = lambda v: T.f_log(num(v)) if v > 0 else pneg(INF)
    for name, dens, cur, tgt, p0 in (
            ("falling", lambda q: 1 - q, Fraction(0), Fraction(31, 32), 0.25),
            ("falling", lambda q: 1 - q, Fraction(0), Fraction(31, 32), 0.625),
            ("rising", lambda q: q, Fraction(1), Fraction(1, 32), 0.3125),
            ("reached", lambda q: 1 - q, Fraction(0), Fraction(1, 2), 0.25),
            ("just reached", lambda q: 1 - q, Fraction(0), Fraction(3, 4), 0.25)):
        s = sampler(w, 2, compute_next_logpdf_param_method="p0")
        d = Fixed(w, lambda i, q: log1(dens(q)))
        with finite_inputs():
            r = w.meth(s, "compute_next_logpdf_param", d.uf(), float(cur), float(tgt), p0)
        tag = f"next parameter by survival fraction {name} {p0} {b}"
        if not ck.returns(tag, r, W):
            continue
        v = cv(w.it, r.value)
        pr = lambda q: dens(q) / dens(cur)
        if pr(tgt) >= Fraction(p0):
            ck.require(tag, v == tgt, W, f"parameter {v} although the target keeps {float(pr(tgt)):.3f} of the mass", "the target is taken when enough mass survives")
        else:
            inside = min(cur, tgt) <= v <= max(cur, tgt)
            ck.require(tag + " range", inside, W, f"parameter {v}", "between the current parameter and the target")
            ck.require(tag + " fraction", abs(pr(v) - Fraction(p0)) <= Fraction(1, 20), W, f"surviving fraction {float(pr(v)):.3f}",
                       "surviving fraction close to p0")


class Root:
    def __init__(self, w, value=None, probes=()):
        self.w, self.value, self.probes, self.calls = w, value, probes, []

    def __enter__(self):
        self.w.it.intercept["scipy.optimize.brentq"] = self.run
        return self

    def __exit__(self, *a):
        self.w.it.intercept.pop("scipy.optimize.brentq", None)

    def run(self, it, name, args, kw):
        a = dict(zip(("f", "a", "b"), args))
        a.update(kw)
        vals = [(q, cv(it, it.call(a["f"], [float(q)], {}))) for q in self.probes]
        self.calls.append((cv(it, a["a"]), cv(it, a["b"]), vals))
        return float(self.value)


def ess_of(ws):
    return sum(ws) ** 2 / sum(v * v for v in ws)


def next_ess(ck, w, b):
    """Two particles with weights 1 and 1 - q at parameter q."""
    W = SM + "compute_next_logpdf_param_ess"
    dens = lambda i, q: T.f_log(num(1 if i == 0 else 1 - q))
    ratio = lambda q: ess_of([Fraction(1), 1 - q]) / 2
    for cur, tgt, eta in ((Fraction(0), Fraction(1, 4), 0.75), (Fraction(0), Fraction(7, 8), 0.75), (Fraction(7, 8), Fraction(0), 0.75), (Fraction(1, 16), Fraction(7, 8), 0.75),
                          (Fraction(7, 8), Fraction(1, 16), 0.75)):
        s = sampler(w, 2, compute_next_logpdf_param_method="ess")
        with Root(w, Fraction(1, 2), (Fraction(1, 2), Fraction(1, 8))) as rt, finite_inputs():
            r = w.meth(s, "compute_next_logpdf_param", Fixed(w, dens).uf(), float(cur), float(tgt), eta)
        tag = f"next parameter by effective sample size from {cur} to {tgt} {b}"
        if not ck.returns(tag, r, W):
            continue
        v = cv(w.it, r.value)
        if ratio(tgt) > Fraction(eta):
            ck.require(tag, v == tgt, W, f"parameter {v} although the target is reachable", "the target is taken when the sample stays effective")
            continue
        if len(rt.calls) != 1:
            ck.und(tag, W, "not one root search")
            continue
        lo, hi, vals = rt.calls[0]
        ck.require(tag + " bracket", {lo, hi} == {cur, tgt}, W, f"bracket {lo}, {hi}", "the root is searched between the current parameter and the target")
        for q, f in vals:
            ck.require(f"{tag} objective at {q}", f == ratio(q) - Fraction(eta), W, f"objective {f}", "effective fraction minus its threshold")
        ck.require(tag + " root", v == Fraction(1, 2), W, f"parameter {v}", "the root is the next parameter")
    # densities that vanish on a part of the box: a particle outside one trial target is inside another
    full = (Fraction(1, 2), Fraction(1, 2))
    out = lambda i, q: pneg(INF) if i == 1 and q > Fraction(1, 2) else ZERO
    for cur, tgt in ((Fraction(0), Fraction(7, 8)), (Fraction(1, 16), Fraction(1))):
        s = sampler(w, 2, compute_next_logpdf_param_method="ess")
        p = w.it.getattr(s, "particles")
        tag = f"search over shrinking supports from {cur} to {tgt} {b}"
        with Root(w, Fraction(1, 2), (Fraction(3, 4), Fraction(1, 2), Fraction(1, 4))) as rt, finite_inputs():
            r = w.meth(s, "compute_next_logpdf_param", Fixed(w, out).uf(), float(cur), float(tgt), 0.75)
        if not ck.returns(tag, r, W):
            continue
        ck.require(tag, cv(w.it, r.value) != tgt, W, "the target is taken although half of the particles are outside it", "the target is taken when the sample stays effective")
        if len(rt.calls) != 1:
            continue
        for q, f in rt.calls[0][2]:
            ck.require(f"{tag} objective at {q}", f == (Fraction(1, 2) if q > Fraction(1, 2) else 1) - Fraction(3, 4), W, f"objective {f}",
                       "trial targets are weighed against the current one, not against each other")
        it = w.it
        it.st = r.st
        with finite_inputs():
            do(w, p, "set_logpdf_with_parameter", Fixed(w, out).uf(), 0.5)
            do(w, p, "reweight")
        ck.equal(tag + ": weights at the next target", w, attr(w, None, p, "w"), _stack([num(q) for q in full], w), None, None, W,
                 "the search leaves the weights of the particles as they were")


def restart(ck, w, b):
    """A target too far away is reached through intermediate targets from a fresh sample."""
    W = SM + "step_with_possible_restart"
    r1, r2 = Fraction(1, 2), Fraction(1, 64)
    table = {Fraction(0): (1, 1), Fraction(1, 2): (1, r1), Fraction(1): (1, r2), }
    dens = lambda i, q: T.f_log(num(Fraction(table[q][i])))
    for far in (True, False):
        eta = 0.75 if far else 0.25
        s = sampler(w, 2, compute_next_logpdf_param_method="ess", mh_steps=1)
        p = w.it.getattr(s, "particles")
        d = Fixed(w, dens)
        nx = [Fraction(1, 2), Fraction(1)]

        class Steps(Root):
            def run(self, it, name, args, kw):
                self.value = nx[min(len(self.calls), 1)]
                return Root.run(self, it, name, args, kw)
        u0 = len(w.it.draws)
        x0 = attr(w, None, p, "x")
        with Noise(w), Counts(w, [(1, 1)]) as mc, Steps(w) as rt, finite_inputs():
            r = w.meth(s, "step_with_possible_restart", d.uf(), 0.0, 1.0, eta, 0.5)
        tag = f"{'restart' if far else 'direct step'} {b}"
        if not ck.returns(tag, r, W):
            continue
        want = [[Fraction(1, 1 + r1), r1 / (1 + r1)], [r1 / (r1 + r2), r2 / (r1 + r2)]] if far else [[Fraction(1, 1 + r2), r2 / (1 + r2)]]
        got = [c[1] for c in mc.calls]
        ck.require(tag + " targets", True if len(got) == len(want) else None if not got else False, W, f"{len(got)} resampling steps", "the schedule goes through each target once")
        if len(got) == len(want):
            for k, (g, v) in enumerate(zip(got, want)):
                ck.equal(f"{tag} weights at target {k}", w, g, _stack([num(q) for q in v], w), r, None, W,
                         "weights are ratios of each target to the one before, from uniform")
        fin = _stack([dens(i, Fraction(1)) for i in range(2)], w)
        ck.equal(tag + " final density", w, attr(w, r, p, "logpx"), fin, r, None, W, "the schedule ends at the target")
        if far:
            def history():
                seqs = [[cv(w.it, v) for v in e["logpdf_param_sequence"]] for e in logged(w, r, s)]
                seqs = [q for q in seqs if q]
                c = tag + " record"
                if len(seqs) < 2 or any(v is None for q in seqs for v in q):
                    return ck.und(c, W, "fewer than two records of the targets")
                ck.require(c + " of the targets", seqs[-1] == [0] + nx, W, f"targets recorded: {[str(v) for v in seqs[-1]]}", "the record lists the targets visited")
                ck.require(c + " kept", len(seqs[0]) < len(seqs[-1]), W, "an earlier record contains later targets", "a record is not changed afterwards")
            ck.guard(tag + " record", history, W)
        fresh = [dr[2] for dr in w.it.draws[u0:] if dr[0] == "U" and dr[2].rank == 2]
        ck.require(tag + " fresh sample", (len(fresh) == 1) == far, W, f"{len(fresh)} new samples of the box", "only a restart draws a new sample from the box")


def subset(ck, w, b):
    it = w.it
    fname = "gpmp.mcmc.smc:run_subset_simulation"
    W = "gpmp/mcmc/smc.py:run_subset_simulation"
    vals = (1, 3, 5, 7)
    for tail in ("upper", "lower"):
        for accept in (False, True):
            sg = 1 if tail == "upper" else -1
            seen = {}

            def f_row(ps):
                if any(a.op == "eps" for q in ps for a in walk_atoms(q)):
                    return num(sg * (10 if accept else -10))
                k = key(ps[0])
                if k not in seen:
                    seen[k] = vals[len(seen) % 4]
                return num(sg * seen[k])

            def f(it, args, kw):
                x = as_ten(it, args[0])
                return _stack([by_cases(f_row, row(x, i)) for i in range(nrows(x))], w)
            zero = UF("log_px", lambda it, a, k: ops.mk((as_ten(it, a[0]).dims[0],), lambda i: ZERO, False, (w.L, "f")))

            def copy(n, p):
                live = [i for i in range(4) if at(p, (num(i),)).terms]
                c = [0] * 4
                for k in range(n):
                    c[live[k % len(live)]] += 1
                return c
            ths = (pinf(w, -sg), float(sg * 2), float(sg * 6))
            with Noise(w), Counts(w, [copy]), finite_inputs():
                r = w.call(it.get(fname), [UF("f", f), ths, ((0.0,) * D, (1.0,) * D), zero],
                           dict(tail=tail, n_particles=4, mh_steps=2, min_acceptation=0.0, max_acceptation=1.0, resample_scheme="multinomial"))
            tag = f"subset simulation {tail} tail, proposals {'accepted' if accept else 'rejected'} {b}"
            if not ck.returns(tag, r, W):
                continue
            items = w.items(r)
            # rejected: 1,3,5,7 -> 3/4 above 2; copies 3,3,5,7 -> 1/4 above 6.  accepted: all at 10 -> 1
            p1, p2 = Fraction(3, 4), Fraction(1) if accept else Fraction(1, 4)
            ck.equal(tag + " stage probabilities", w, items[1], _stack([num(p1), num(p2)], w), r, None, W, "fraction of the particles beyond the threshold")
            ck.equal(tag + " estimate", w, items[0], sc(num(p1 * p2), w), r, None, W, "product of the stage probabilities")
            p = it_get(w, r, items[2], "particles")
            x, lp = attr(w, r, p, "x"), attr(w, r, p, "logpx")
            fin = [by_cases(f_row, row(x, i)).const() for i in range(4)]
            ck.require(tag + " final particles", None if any(v is None for v in fin) else all(sg * v > 6 for v in fin), W,
                       f"final values {[str(v) for v in fin]}", "every particle is beyond the last threshold")
            ck.equal(tag + " final density", w, lp, _stack([ZERO] * 4, w), r, None, W, "stored density of the restricted target")


def it_get(w, r, obj, name):
    it, s = w.it, w.it.st
    it.st = r.st
    try:
        return it.getattr(obj, name)
    finally:
        it.st = s


def indicator(ck, w, b):
    it = w.it
    W = "gpmp/mcmc/smc.py:log_indicator_density"
    x = w.arr("x", 2, D)
    f, lp, u = Target(w, "f"), Target(w, "lp"), w.scal("u")
    for tail in ("lower", "upper"):
        r = w.call(it.get("gpmp.mcmc.smc:log_indicator_density"), [f.uf(), u, lp.uf()], dict(tail=tail))
        tag = f"restricted density {tail} {b}"
        if not ck.returns(tag, r, W):
            continue
        it.st = r.st
        q = w.call(r.value, [x])
        if not ck.returns(tag, q, W):
            continue
        v = it.V(as_ten(it, q.value))
        for i in range(2):
            fi, g = f.of(row(x, i)), at(v, (num(i),))
            ui = at(u, ())
            ins = [c for c in ((T.c_lt(fi, ui), T.c_le(fi, ui)) if tail == "lower" else (T.c_lt(ui, fi), T.c_le(ui, fi)))]
            inds = T.indicators(g)
            if len(inds) != 1:
                ck.require(f"{tag} row {i}", None if opaque_in(_stack([g], w)) is not None or inds else False, W, show(g)[:200], "depends on the threshold")
                continue
            k = key(inds[0])
            inside = [T.assume(c, k, 1).const() for c in ins]
            inside = [c for c in inside if c is not None]
            if not inside:
                ck.require(f"{tag} row {i}", False, W, "tests " + show(atom_poly(inds[0]))[:200], "compares the value with the threshold")
                continue
            one = T.assume(g, k, 1 if inside[0] else 0)
            zer = T.assume(g, k, 0 if inside[0] else 1).const()
            low = zer is not None and zer < -10 ** 6 or T._inf_sign(T.assume(g, k, 0 if inside[0] else 1)) == -1
            ck.equal(f"{tag} row {i} inside", w, sc(one, w), sc(lp.of(row(x, i)), w), q, None, W, "the density inside the tail")
            ck.require(f"{tag} row {i} outside", bool(low), W, "outside: " + show(T.assume(g, k, 0 if inside[0] else 1))[:120], "no density outside the tail")


def entry(ck, w, b):
    """The driver runs the sampler it is asked for and returns its particles."""
    it = w.it
    W = "gpmp/mcmc/smc.py:run_smc_sampling"
    f = it.get("gpmp.mcmc.smc:run_smc_sampling")
    d = Target(w, "dens").uf()
    box = w.arr("box", 2, D, L="np")
    names = ("self", "logpdf_parameterized_function", "initial_logpdf_param", "target_logpdf_param", "min_ess_ratio", "p0", "debug")
    pc = w.call(it.get("gpmp.mcmc.smc:ParticlesSetConfig"), [], dict(resample_scheme="multinomial", param_s_initial_value=0.25))
    it.st = pc.st
    sc_ = w.call(it.get("gpmp.mcmc.smc:SMCConfig"), [], dict(compute_next_logpdf_param_method="ess", mh_steps=7))
    it.st = sc_.st
    for label, kw, method, steps, scheme in (
            ("defaults", {}, "p0", 20, "residual"), ("options", dict(mh_steps=3, n_particles=4), "p0", 3, "residual"),
            ("configurations", dict(particles_config=pc.value, smc_config=sc_.value, n_particles=3), "ess", 7, "multinomial"),
            ("ess", dict(method="ess"), "ess", 20, "residual")):
        kw = dict(kw)
        a, z, e, q = (w.scal(n) for n in ("q0", "q1", "eta", "p"))
        got = {}

        def step(it, fn, args, k):
            got.update(dict(zip(names, args)), **k)
            return None
        key_ = "gpmp.mcmc.smc:SMC.step_with_possible_restart"
        it.intercept[key_] = step
        try:
            r = w.call(f, [d, a, z, kw.pop("method", "p0"), e], dict(kw, p0=q, init_box=box))
        finally:
            it.intercept.pop(key_, None)
        tag = f"driver, {label} {b}"
        if not ck.returns(tag, r, W):
            continue
        if "self" not in got:
            ck.und(tag, W, "the sampler's step is not reached")
            continue
        for nm, v in (("initial_logpdf_param", a), ("target_logpdf_param", z), ("min_ess_ratio", e), ("p0", q)):
            ck.equal(f"{tag}: {nm}", w, got.get(nm), v, r, None, W, "the argument reaches the sampler under its own name")
        ck.require(f"{tag}: density", it.resolve(got.get("logpdf_parameterized_function")) is d, W, "another density is sampled")
        s_, st = it.resolve(got["self"]), it.st
        it.st = r.st
        n = kw.get("n_particles", 1000)
        cfg, p = it.resolve(it.getattr(s_, "smc_config")) if hasattr_(it, s_, "smc_config") else it.resolve(it.getattr(s_, "config")), it.resolve(it.getattr(s_, "particles"))
        pcf = it.resolve(it.getattr(p, "config"))
        for nm, v, want in (("tempering rule", it.getattr(cfg, "compute_next_logpdf_param_method"), method),
                            ("resampling scheme", it.getattr(pcf, "resample_scheme"), scheme)):
            ck.require(f"{tag}: {nm}", it.resolve(v) == want, W, f"{it.resolve(v)!r}, requested {want!r}")
        for nm, v, want in (("moves", it.getattr(cfg, "mh_steps"), steps), ("particles", it.getattr(p, "n"), n)):
            ck.require(f"{tag}: {nm}", T.peq(at(as_ten(it, v), ()), num(want)), W, f"{show(at(as_ten(it, v), ()))[:60]}, requested {want}")
        x, s2 = [it.resolve(v) for v in w.items(r)[:2]]
        ck.require(f"{tag}: returned sampler", s2 is s_, W, "another sampler is returned")
        ck.equal(f"{tag}: returned particles", w, x, it.getattr(p, "x"), r, r, W, "the positions of the final particles")
        it.st = st


def hasattr_(it, o, n):
    try:
        it.getattr(o, n)
        return True
    except Stop:
        return False


def run(ck):
    ck.explanation = ("Value graph of particle operations and whole sampler runs with two to four particles in two dimensions; densities are "
                      "arbitrary (or given rationals for schedules), Gaussian and uniform draws are free symbols, resampling counts enumerate "
                      "all count vectors.")
    for b in BACKENDS:
        for name, f in (("initial", initial), ("reweight", reweight), ("multinomial", multinomial), ("residual", residual),
                        ("degenerate", degenerate), ("move", move), ("step", step), ("record", record), ("scale", scale), ("next p0", next_p0), ("next ess", next_ess),
                        ("restart", restart), ("subset", subset), ("indicator", indicator), ("entry", entry)):
            ck.guard(f"{name} {b}", lambda: f(ck, ck.world(b), b), "gpmp/mcmc/smc.py")

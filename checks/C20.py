"""Metropolis-Hastings: acceptance rule, recorded trace, proposals, adaptation and its end."""
from .common import *
from sa import terms as T
from sa.prims import finite_inputs

MH = "gpmp/mcmc/mh.py:MetropolisHastings."
ACCEPT = ("accept_log", "accept_log_le", "accept_exp", "accept_exp_le", "accept_log_min", "accept_exp_min")
D = 2


def by_cases(f, ps):
    """f of a vector, distributed over the accept/reject cases its entries are made of."""
    for p in ps:
        xs = T.indicators(p)
        if xs:
            a = xs[0]
            k = key(a)
            f1 = by_cases(f, tuple(T.assume(q, k, 1) for q in ps))
            f0 = by_cases(f, tuple(T.assume(q, k, 0) for q in ps))
            return f1 if peq(f1, f0) else padd(f0, pmul(atom_poly(a), psub(f1, f0)))
    return f(ps)


def vec(x, n=D):
    return tuple(at(x, (num(i),)) for i in range(n))


def _stack(ps, w):
    def body(i):
        r = ZERO
        for k, p in enumerate(ps):
            r = padd(r, pmul(T.delta(i, num(k)), p))
        return r
    return ops.mk((num(len(ps)),), body, False, (w.L, "f"))


def sc(p, w):
    return ops.mk((), lambda: p, False, (w.L, "f"))


class Chain:
    """A sampler with an arbitrary target, arbitrary proposals and D-dimensional chains."""

    def __init__(self, w, n_chains, own_proposal=True, **opt):
        self.w, self.n = w, n_chains
        it = w.it
        self.calls = []
        o = w.call(it.get("gpmp.mcmc.mh:MHOptions"), [], dict(dim=D, n_chains=n_chains, init_msg=None, **opt))
        if not o.returned:
            raise Unsup("options raise")
        it.st = o.st
        self.opt = o.value
        kw = dict(options=o.value)
        if own_proposal:
            kw["prop_rnd"] = UF("prop", self.prop)
        r = w.call(it.get("gpmp.mcmc.mh:MetropolisHastings"), [UF("target", self.tgt)], kw)
        if not r.returned:
            raise Unsup("construction raises")
        it.st = r.st
        self.mh = r.value

    def target(self, ps):
        return by_cases(lambda q: atom_poly(Atom("target", (q,))), ps)

    def tgt(self, it, args, kw):
        x = as_ten(it, args[0])
        return sc(self.target(vec(x)), self.w)

    def prop(self, it, args, kw):
        x, c = as_ten(it, args[0]), args[1]
        k = len(self.calls)
        self.calls.append((vec(x), c))
        return ops.mk((num(D),), lambda i: atom_poly(Atom("prop", (str(k), i))), False, (self.w.L, "f"))

    def run(self, x0, n, burnin):
        w = self.w
        self.d0 = len(getattr(w.it, "draws", []))
        with finite_inputs():
            r = w.meth(self.mh, "scheduler", x0, n, burnin)
        self.r = r
        return r

    def draws(self, kind):
        return [d for d in getattr(self.w.it, "draws", [])[self.d0:] if d[0] == kind]

    def attr(self, name):
        it, s = self.w.it, self.w.it.st
        it.st = self.r.st
        try:
            return it.V(as_ten(it, it.getattr(self.mh, name)))
        finally:
            it.st = s

    def item(self, name, c):
        it, s = self.w.it, self.w.it.st
        it.st = self.r.st
        try:
            v = it.resolve(it.to_list(it.getattr(self.mh, name))[c])
            return it.V(as_ten(it, v))
        finally:
            it.st = s


def find(ck, w, got, wants, r):
    """(index, any undecided) of the first equal candidate."""
    und = opaque_in(got) is not None
    for k, (v, rv) in enumerate(wants):
        s, d = ck.compare(w, got, v, r, rv)
        if s == "eq":
            return k, False
        und = und or s == "und"
    return None, und


def trace(ck, ch, tag, n, logq=None, proposals=None):
    """Every recorded transition is a Metropolis-Hastings transition of its own chain."""
    w, r = ch.w, ch.r
    it = w.it
    x, acc, lt = ch.attr("x"), ch.attr("accept"), ch.attr("log_target_values")
    us = ch.draws("U")
    used = set()
    where = MH + "mhstep"
    for c in range(ch.n):
        for t in range(1, n + 1):
            row = lambda s: tuple(at(x, (num(c), num(s), num(i))) for i in range(D))
            xp, xn = row(t - 1), row(t)
            lx = ch.target(xp)
            a = at(acc, (num(c), num(t)))
            lab = f"{tag} chain {c} step {t}"
            cand = proposals(c, t, xp) if proposals else [
                (k, tuple(atom_poly(Atom("prop", (str(k), num(i)))) for i in range(D)))
                for k, (xa, ca) in enumerate(ch.calls)
                if all(peq(p, q) for p, q in zip(xa, xp)) and it.vkey(ca) == it.vkey(c)]
            if not cand:
                ck.require(lab + " proposal", None if opaque_in(_stack(xp, w)) is not None else False, where,
                           "no proposal is drawn from the chain's current state with its own index", "the proposal starts at the current state")
                continue
            hit, und = None, False
            for k, y in cand:
                ratio = psub(ch.target(y), lx)
                if logq is not None:
                    ratio = padd(ratio, psub(logq(y, xp, c), logq(xp, y, c)))
                ga = sc(a, w)
                for ui, u in enumerate(us):
                    if u[2].rank:
                        continue
                    forms = [(s.value, s) for s in (spec(w, f, u[2], sc(ratio, w), mod="mcmc") for f in ACCEPT)]
                    m, ud = find(ck, w, ga, forms, r)
                    und = und or ud
                    if m is not None:
                        hit = (k, y, ui)
                        break
                if hit:
                    break
            if hit is None:
                ck.require(lab + " acceptance", None if und else False, where, "acceptance flag: " + show(a)[:300],
                           "accept when the log of a uniform draw is below the log-ratio of the densities")
                continue
            ck.ok(lab + " acceptance", where)
            ck.require(lab + " fresh draws", ("p", hit[0]) not in used and ("u", hit[2]) not in used, where,
                       "a proposal or uniform draw is used by two transitions", "each transition has its own draws")
            used |= {("p", hit[0]), ("u", hit[2])}
            s = spec(w, "next_state", _b(a, w), _stack(hit[1], w), _stack(xp, w), mod="mcmc")
            ck.equal(lab + " recorded state", w, _stack(xn, w), s.value, r, s, where, "a rejected step repeats the state")
            ck.equal(lab + " recorded log-target", w, sc(at(lt, (num(c), num(t))), w), sc(ch.target(xn), w), r, r, where,
                     "the recorded log-target is that of the recorded state")


def _b(p, w):
    return ops.mk((), lambda: p, True, (w.L, "b"))


def basic(ck, w, b):
    x0 = w.arr("x0", 2, D)
    ch = Chain(w, 2)
    r = ch.run(x0, 2, 0)
    tag = f"symmetric proposals {b}"
    if not ck.returns(tag, r, MH + "scheduler"):
        return
    trace(ck, ch, tag, 2)
    x = ch.attr("x")
    ck.equal(tag + " returned chain", w, r.value, ops.mk((num(2), num(2), num(D)), lambda c, t, i: at(x, (c, t, i)), False, x.tag), r, r,
             MH + "scheduler", "the returned array is the recorded chain")
    first = ops.mk((num(2), num(D)), lambda c, i: at(x, (c, ZERO, i)), False, x.tag)
    ck.equal(tag + " initial state", w, first, x0, r, None, MH + "scheduler", "chains start at the given states")


def replicated(ck, w, b):
    x0 = w.arr("x0", D)
    ch = Chain(w, 2)
    r = ch.run(x0, 1, 0)
    tag = f"replicated initial state {b}"
    if not ck.returns(tag, r, MH + "scheduler"):
        return
    x = ch.attr("x")
    for c in range(2):
        v = ops.mk((num(D),), lambda i: at(x, (num(c), ZERO, i)), False, x.tag)
        ck.equal(f"{tag} chain {c}", w, v, x0, r, None, MH + "scheduler", "chains start at the given state")


def asymmetric(ck, w, b):
    x0 = w.arr("x0", 1, D)
    ch = Chain(w, 1, symmetric=False)
    it = w.it
    q = lambda x, y, c: by_cases(lambda z: atom_poly(Atom("logq", (z, str(c)))), tuple(x) + tuple(y))

    def logq(it, args, kw):
        x, y = (vec(as_ten(it, a)) for a in args[:2])
        return sc(q(x, y, it.vkey(args[2])), w)
    it.setattr(ch.mh, "_log_prop", UF("logq", logq))
    r = ch.run(x0, 2, 0)
    tag = f"asymmetric proposals {b}"
    if ck.returns(tag, r, MH + "scheduler"):
        trace(ck, ch, tag, 2, logq=lambda x, y, c: q(x, y, it.vkey(c)))


def gaussian(ck, w, b):
    """The built-in random walk: increments with the chain's own covariance parameter."""
    for shape, arr, sym in (("variances", w.arr("p0", D), True), ("covariance", w.arr("P0", D, D), True), ("per chain", w.arr("P3", 2, D, D), True),
                            ("variances", w.arr("p0", D), False), ("covariance", w.arr("P0", D, D), False)):
        x0 = w.arr("x0", 2, D)
        ch = Chain(w, 2, own_proposal=False, proposal_distribution_param_init=arr, symmetric=sym)
        r = ch.run(x0, 1, 0)
        tag = f"random walk with {shape}{'' if sym else ' and its own density'} {b}"
        if not ck.returns(tag, r, MH + "scheduler"):
            continue

        def proposals(c, t, xp):
            out = []
            p = ops.mk((num(D), num(D)), lambda i, j: at(arr, (num(c), i, j)), False, arr.tag) if shape == "per chain" else arr
            cov = spec(w, "diag_cov", p, mod="mcmc").value if shape == "variances" else p
            for k, d in enumerate(ch.draws("N")):
                z = d[2]
                if z.rank == 2:
                    z = ops.mk((num(D),), lambda i, z=z: at(z, (ZERO, i)), False, z.tag)
                if z.rank != 1:
                    continue
                fs = [spec(w, "step_full", _stack(xp, w), cov, z, mod="mcmc")]
                if shape == "variances":
                    fs.append(spec(w, "step_diag", _stack(xp, w), p, z, mod="mcmc"))
                out += [(k, vec(f.value)) for f in fs]
            return out
        trace(ck, ch, tag, 1, proposals=proposals)


def rates(ch, w, c, i0, i1):
    acc = ch.attr("accept")
    return spec(w, "block_mean", _stack([at(acc, (num(c), num(t))) for t in range(i0, i1)], w), mod="mcmc").value


def adapt(ck, w, b):
    """Proposal parameters after the run follow the stated rules; nothing is adapted after burn-in when frozen."""
    p0 = w.arr("p0", D)
    ta, g = w.scal("target"), w.scal("gain")
    x0 = w.arr("x0", 1, D)
    ex = lambda s: s.value
    for dim in (True, False):
        for burn, n in ((2, 2), (2, 4), (3, 3)):
            ch = Chain(w, 1, adaptation_method="RM", adaptation_interval=2, RM_adapt_factor=g, RM_diminishing=dim,
                       target_acceptance=ta, proposal_distribution_param_init=p0)
            r = ch.run(x0, n, burn)
            tag = f"Robbins-Monro diminishing={dim} burn-in {burn} of {n} {b}"
            if not ck.returns(tag, r, MH + "scheduler"):
                continue
            gain = ex(spec(w, "cosine_gain", 2, burn, g, mod="mcmc")) if dim else g
            s = spec(w, "rm_update", p0, gain, rates(ch, w, 0, 1, 3), ta, mod="mcmc")
            ck.equal(tag, w, ch.item("proposal_distribution_params", 0), s.value, r, s, MH + "run_adaptive_RM",
                     "parameters are multiplied by exp(gain * (block acceptance rate - target)), during burn-in only")
    f1, f2, s0 = w.scal("f_burnin"), w.scal("f_sampling"), w.scal("scale0")
    for frozen in (True, False):
        ch = Chain(w, 1, adaptation_interval=2, target_acceptance=ta, haario_adapt_factor_burnin_phase=f1,
                   haario_adapt_factor_sampling_phase=f2, haario_initial_scaling_factor=s0, freeze_adaptation=frozen)
        r = ch.run(x0, 3, 2) if frozen else ch.run(x0, 2, 0)
        tag = f"Haario frozen={frozen} {b}"
        if not ck.returns(tag, r, MH + "scheduler"):
            continue
        x = ch.attr("x")
        blk = lambda i0: ops.mk((num(2), num(D)), lambda t, i: psum_sel(x, [(0, i0), (0, i0 + 1)], t, i), False, x.tag)
        eps = w.call("spec.mcmc:block_mean", [1e-6]).value
        if frozen:
            sc1 = ex(spec(w, "haario_scale", s0, f1, rates(ch, w, 0, 1, 3), ta, mod="mcmc"))
            s = spec(w, "haario_cov", sc1, blk(1), eps, mod="mcmc")
        else:
            s = spec(w, "haario_cov", ex(spec(w, "haario_scale", s0, f2, rates(ch, w, 0, 1, 3), ta, mod="mcmc")), blk(1), eps, mod="mcmc")
        ck.equal(tag, w, ch.item("proposal_distribution_params", 0), s.value, r, s, MH + "run_adaptive_Haario",
                 "scaled empirical covariance of the last block plus a small multiple of the identity, adapted from past states")
    for pool, nc in ((1, 2), (2, 2), (2, 4)):
        ch = Chain(w, nc, adaptation_interval=2, target_acceptance=ta, n_pool=pool)
        r = ch.run(w.arr("x0", nc, D), 2, 2)
        tag = f"Haario pooling {pool} of {nc} chains {b}"
        if not ck.returns(tag, r, MH + "scheduler"):
            continue
        x = ch.attr("x")
        for c in range(nc):
            first = c - c % pool
            rows = [(k, t) for k in range(first, first + pool) for t in (1, 2)]
            blk = ops.mk((num(len(rows)), num(D)), lambda t, i: psum_sel(x, rows, t, i), False, x.tag)
            sc1 = ex(spec(w, "haario_scale", 1, 1, rates(ch, w, c, 1, 3), ta, mod="mcmc"))
            s = spec(w, "haario_cov", sc1, blk, w.call("spec.mcmc:block_mean", [1e-6]).value, mod="mcmc")
            ck.equal(f"{tag} chain {c}", w, ch.item("proposal_distribution_params", c), s.value, r, s, MH + "run_adaptive_Haario",
                     "scaled empirical covariance of the pooled chains")


def psum_sel(x, rows, t, i):
    r = ZERO
    for k, (c, s) in enumerate(rows):
        r = padd(r, pmul(T.c_eq(t, num(k)), at(x, (num(c), num(s), i))))
    return r


def diagnostics(ck, w, b):
    it = w.it
    ch = Chain(w, 2)
    ch.r = None
    x = w.arr("chain", 2, padd(dim("S"), num(2)), D)
    it.setattr(ch.mh, "x", x)
    it.setattr(ch.mh, "global_iter", ops.mk((), lambda: x.dims[1], False, ("py", "i")))
    r = w.meth(ch.mh, "compute_gelman_rubin_rhat", burnin_period=0)
    tag = f"Gelman-Rubin {b}"
    if ck.returns(tag, r, MH + "compute_gelman_rubin_rhat"):
        s = spec(w, "rhat", x, mod="mcmc")
        ck.equal(tag, w, r.value, s.value, r, s, MH + "compute_gelman_rubin_rhat", "potential scale reduction from within and between variances")
    acc = w.arr("acc", 2, 5)
    it.setattr(ch.mh, "accept", acc)
    it.setattr(ch.mh, "global_iter", 5)
    for wd in (1, 2, 3, 7):
        r = w.meth(ch.mh, "compute_sliding_rates", wd)
        tag = f"sliding acceptance rate over {wd} {b}"
        if ck.returns(tag, r, MH + "compute_sliding_rates"):
            s = spec(w, "sliding", acc, min(wd, 5), mod="mcmc")
            ck.equal(tag, w, r.value, s.value, r, s, MH + "compute_sliding_rates", "mean of the flags in the window")


class Comparisons:
    """Two-sample tests with arbitrary results that depend on the two samples only, in either order."""

    def __init__(self, w):
        self.w, self.seen = w, []

    def __enter__(self):
        self.w.it.intercept["scipy.stats.ks_2samp"] = self.test
        return self

    def __exit__(self, *a):
        self.w.it.intercept.pop("scipy.stats.ks_2samp", None)

    def key(self, it, v):
        t = it.V(as_ten(it, v))
        return tuple(repr(at(t, (num(k),))) for k in range(int(t.dims[0].const())))

    def of(self, what, a, b):
        return atom_poly(Atom(what, tuple(sorted((str(a), str(b))))))

    def test(self, it, name, args, kw):
        a = dict(zip(("data1", "data2", "alternative", "method"), args))
        a.update(kw)
        if it.resolve(a.get("alternative", "two-sided")) != "two-sided":
            raise Unsup("one-sided test")
        k = (self.key(it, a["data1"]), self.key(it, a["data2"]))
        self.seen.append(k)
        f = lambda p: ops.mk((), lambda: p, False, ("np", "f"))
        return it.new("inst", dict(statistic=f(self.of("ks", *k)), pvalue=f(self.of("pv", *k))), None, "KstestResult")


def records(ck, w, b):
    """Diagnostics and covariances read the recorded states of the iterations and chains they name."""
    it = w.it
    n, t = 4, 2
    ch = Chain(w, n)
    x = w.arr("chain", n, t, D)
    start = it.st.copy()
    it.setattr(ch.mh, "x", x)
    it.setattr(ch.mh, "burnin_period", 1)
    part = lambda c0, c1, t0: ops.index(x, (ops.SliceV(c0, c1, None), ops.SliceV(t0, None, None)))
    W = MH + "compute_empirical_covariance_whole_chain"
    for b0 in (None, 0):
        k = 1 if b0 is None else b0
        kw = {} if b0 is None else dict(burnin=b0)
        r = w.meth(ch.mh, "compute_empirical_covariance_whole_chain", pooled=True, **kw)
        tag = f"covariance of all chains from {b0} {b}"
        if ck.returns(tag, r, W):
            s = spec(w, "chains_cov", part(0, n, k), mod="mcmc")
            ck.equal(tag, w, r.value, s.value, r, s, W, "covariance of the recorded states after burn-in")
        for g in (1, 2, 4):
            r = w.meth(ch.mh, "compute_empirical_covariance_whole_chain", n_pool=g, **kw)
            if not ck.returns(f"covariance by groups of {g} from {b0} {b}", r, W):
                continue
            vs = w.items(r)
            ck.require(f"number of groups of {g} from {b0} {b}", len(vs) == n // g, W, f"{len(vs)} groups")
            for i, v in enumerate(vs[:n // g]):
                s = spec(w, "chains_cov", part(i * g, (i + 1) * g, k), mod="mcmc")
                ck.equal(f"covariance of group {i} of {g} from {b0} {b}", w, v, s.value, r, s, W, "covariance of the recorded states after burn-in")
    W = MH + "recompute_all_chains_full_covariance"
    n, t = 2, 5
    ch = Chain(w, n)
    x = w.arr("chain", n, t, D)
    it.setattr(ch.mh, "x", x)
    it.setattr(ch.mh, "burnin_period", 2)
    base = it.st.copy()
    for lab, kw in (("default", {}), ("given", dict(burnin=1, scaling=w.scal("sc"), epsilon=w.scal("ep")))):
        it.st = base.copy()
        it.setattr(ch.mh, "proposal_distribution_params", it.mklist([w.arr(f"old{c}", D, D) for c in range(n)]))
        r = w.meth(ch.mh, "recompute_all_chains_full_covariance", **kw)
        if not ck.returns(f"proposals recomputed, {lab} {b}", r, W):
            continue
        ch.r = r
        for c in range(n):
            a = (kw["scaling"], kw["epsilon"]) if kw else (2.38 ** 2 / D, 1e-6)
            s = spec(w, "haario", spec(w, "chains_cov", part(c, c + 1, kw.get("burnin", 2)), mod="mcmc").value, *a, mod="mcmc")
            ck.equal(f"proposal of chain {c} recomputed, {lab} {b}", w, ch.item("proposal_distribution_params", c), s.value, r, s, W,
                     "scaling * covariance of the chain's own states + epsilon * I")
    it.st = base.copy()
    W = MH + "ks_statistics"
    al = w.scal("alpha")
    with Comparisons(w) as q:
        for nb, size in ((2, 2), (1, 3), (1, 5)):
            r = w.meth(ch.mh, "ks_statistics", nb, size, alpha=al, return_significance=True, return_statistic=True)
            tag = f"block comparison {nb} x {size} {b}"
            if not ck.returns(tag, r, W):
                continue
            ks, pv, sig = [w.ten(r, v) for v in w.items(r)[:3]]
            blocks = []
            for c in range(n):
                for j in range(nb):
                    s0 = t - nb * size + j * size
                    blocks.append(lambda d, c=c, s0=s0: tuple(repr(at(x, (num(c), num(s0 + k), num(d)))) for k in range(size)))
            B = len(blocks)
            bad, und = [], 0
            for d in range(D):
                for i in range(B):
                    for j in range(B):
                        ix = (num(d), num(i), num(j))
                        p = at(pv, ix)
                        if i == j:
                            want = [("no difference with itself", at(ks, ix), ZERO), ("no difference with itself", p, num(1))]
                        else:
                            k = (blocks[i](d), blocks[j](d))
                            want = [("statistic", at(ks, ix), q.of("ks", *k)), ("p-value", p, q.of("pv", *k))]
                        for what, got, w_ in want:
                            if not T.peq(got, w_):
                                if any(a.op in ("opq", "phi") for a in walk_atoms(got)):
                                    und += 1
                                else:
                                    bad.append((what, d, i, j, show(got)[:80]))
                        g = at(sig, ix)
                        if not T.peq(g, T.c_lt(p, at(as_ten(it, al), ()))):
                            bad.append(("significance", d, i, j, show(g)[:80]))
            ck.require(tag, None if und and not bad else not bad, W, f"{bad[:2]}", "each entry is the test of the two blocks it names")
        for nm, kw in (("p-values", dict(return_significance=False)), ("significance", {}), ("statistics", dict(return_significance=False, return_statistic=True))):
            r2 = w.meth(ch.mh, "ks_statistics", 2, 2, alpha=al, **kw)
            r = w.meth(ch.mh, "ks_statistics", 2, 2, alpha=al, return_significance=True, return_statistic=True)
            if not ck.returns(f"block comparison, {nm} {b}", r2, W):
                continue
            ks, pv, sig = w.items(r)[:3]
            want = {"p-values": [pv], "significance": [pv, sig], "statistics": [ks, pv]}[nm]
            got = [r2.value] if nm == "p-values" else w.items(r2)
            ck.require(f"number of results, {nm} {b}", len(got) == len(want), W, f"{len(got)}")
            for k, (u, v) in enumerate(zip(got, want)):
                ck.equal(f"block comparison, {nm} {k} {b}", w, u, v, r2, r, W, "the requested matrices in the documented order")
        W = MH + "check_convergence_ks"
        th = w.scal("threshold")
        for lab, kw, size in (("", {}, 4), (", own size", dict(single_block_size=3), 3)):
            r = w.meth(ch.mh, "check_convergence_ks", 2, 2, alpha=al, fraction_threshold=th, verbose=False, **kw)
            tag = f"convergence by blocks{lab} {b}"
            if not ck.returns(tag, r, W):
                continue
            it.st, keep = r.st, it.st
            get = lambda d, k: it.resolve(it.getitem(d, k))
            both = []
            for key, nb, sz in (("multi_block", 2, 2), ("single_block", 1, size)):
                d = get(r.value, key)
                got = it.V(as_ten(it, get(d, "frac_significant")))
                r2 = w.meth(ch.mh, "ks_statistics", nb, sz, alpha=al)
                sig = w.ten(r2, w.items(r2)[1])
                B = n * nb
                each = [at(sig, (num(c), num(i), num(j))) for c in range(D) for i in range(B) for j in range(B) if i != j]
                own = [at(sig, (num(c), num(i), num(i))) for c in range(D) for i in range(B)]
                allp, off = T.psum_list(each + own), T.psum_list(each)
                wants = [(sc(pmul(p, num(Fraction(1, m))), w), r2) for p, m in ((allp, D * B * B), (off, D * B * (B - 1)))]
                ck.equal_any(f"{tag}: fraction, {key}", w, got, wants, r, W, "share of the comparisons that are significant")
                for nm, v in (("n_blocks", nb), ("block_size", sz)):
                    ck.require(f"{tag}: {nm}, {key}", T.peq(at(as_ten(it, get(d, nm)), ()), num(v)), W, f"reports {show(at(as_ten(it, get(d, nm)), ()))[:80]}, used {v}")
                both.append(at(got, ()))
            t_ = at(as_ten(it, th), ())
            ok_ = at(it.V(as_ten(it, get(r.value, "ok"))), ())
            ck.equal(f"{tag}: verdict", w, sc(ok_, w), sc(pmul(T.c_lt(both[0], t_), T.c_lt(both[1], t_)), w), r, r, W, "both shares are below the threshold")
            it.st = keep
    W = "gpmp/mcmc/param_posterior.py:get_log_target_values"
    it.st = base.copy()
    v = w.arr("logt", n, t)
    it.setattr(ch.mh, "log_target_values", v)
    f = it.get("gpmp.mcmc.param_posterior:get_log_target_values")
    for lab, kw, k in (("all", {}, 0), ("after burn-in", dict(discard_burnin=True), 2)):
        r = w.call(f, [ch.mh], kw)
        tag = f"stored log-target values, {lab} {b}"
        if ck.returns(tag, r, W):
            ck.equal(tag, w, r.value, ops.index(v, (ops.SliceV(None, None, None), ops.SliceV(k, None, None))), r, r, W, "the recorded values")
    it.st = start


def single_chain(ck, w, b):
    """A burn-in long enough for the early-stopping diagnostics works with one chain."""
    it = w.it
    for m in ("RM", "Haario"):
        ch = Chain(w, 1, adaptation_interval=2, adaptation_method=m)
        x0 = w.arr("x0", 1, D)
        n = 2
        h0 = dict(it.intercept)
        full = {}

        def diag(it, f, args, kw):
            kw = dict(kw)
            kw.setdefault("n_blocks_convergence_diag", 1)
            it.intercept.pop(name, None)
            return it.call(f, args, kw)
        name = "gpmp.mcmc.mh:MetropolisHastings.run_burnin"
        it.intercept[name] = diag
        try:
            r = ch.run(x0, n, n)
        finally:
            it.intercept = h0
        tag = f"one chain {m} {b}"
        if ck.returns(tag, r, MH + "run_burnin"):
            errs = [e for _, e, _ in r.raises]
            ck.require(tag + " no error", not errs, MH + "run_burnin", "raises " + "; ".join(str(e)[:120] for e in errs[:2]),
                       "a run with one chain completes")


def run(ck):
    ck.explanation = ("Value graph of complete sampler runs (one or two chains, up to four transitions, two coordinates) with an arbitrary "
                      "target and arbitrary proposals; random draws are free symbols, accept and reject are both followed by selector nodes.")
    for b in BACKENDS:
        for name, f in (("basic", basic), ("replicated", replicated), ("asymmetric", asymmetric), ("gaussian", gaussian), ("adapt", adapt), ("diagnostics", diagnostics), ("records", records),
                        ("single chain", single_chain)):
            ck.guard(f"{name} {b}", lambda: f(ck, ck.world(b), b), MH + "scheduler")

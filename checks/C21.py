"""NUTS: complete transitions against the slice-sampling tree algorithm; warm-up and recording of whole runs."""
from fractions import Fraction
from itertools import permutations
from .common import *
from .C20 import by_cases, _stack, sc, find
from .C22 import attr, pinf
from sa import terms as T
from sa.prims import finite_inputs
from sa.prims import ExtInst

NU = "gpmp/mcmc/nuts.py:"


class Draws:
    """Scalar uniform draws: scripted constants at given positions, symbols elsewhere; normal draws are symbols."""

    NAMES = {"numpy": ("rng.random", "rng.uniform"), "torch": ("torch.rand",)}
    NORMAL = {"numpy": ("rng.normal", "rng.standard_normal"), "torch": ("torch.randn",)}

    def __init__(self, w, script):
        self.w, self.script, self.k, self.z = w, script, 0, None
        self.odd = False

    def __enter__(self):
        for n in self.NAMES[self.w.backend]:
            self.w.it.intercept[n] = self.uni
        return self

    def __exit__(self, *a):
        for n in self.NAMES[self.w.backend]:
            self.w.it.intercept.pop(n, None)

    def uni(self, it, name, args, kw):
        sh = [a for a in args if not isinstance(a, ExtInst)]
        if any(x not in ((),) for x in sh) or kw.get("size") not in (None, ()):
            self.odd = True
        k = self.k
        self.k += 1
        return self.at(k)

    def at(self, k):
        v = num(self.script[k]) if k in self.script else atom_poly(Atom("rng", ("U", "scripted", k, (), ())))
        return ops.mk((), lambda: v, False, (self.w.L, "f"))


class Density:
    """Arbitrary log-density with its gradient."""

    def __init__(self, w, d, levels=None):
        self.w, self.d, self.levels = w, d, levels
        self.seen = []
        self.names = {}                  # position -> name, so that values at a position stay small terms

    def pos(self, q):
        if tuple(T.key(p) for p in q) not in self.names:
            self.seen.append(q)
        return "x%d" % self.names.setdefault(tuple(T.key(p) for p in q), len(self.names))

    def vec(self, x):
        return tuple(at(x, (num(j),)) for j in range(self.d))

    def val(self, ps):
        return by_cases(lambda q: self.level(self.pos(q)), ps)

    def level(self, x):
        if self.levels is None:
            return atom_poly(Atom("lp", (x,)))
        v = self.levels[int(x[1:]) % len(self.levels)]
        return at(as_ten(self.w.it, pinf(self.w, -1)), ()) if v == NO else num(v)

    def grad(self, ps, j):
        if self.levels is not None:
            return T.ZERO
        return by_cases(lambda q: atom_poly(Atom("glp", (self.pos(q), num(j)))), ps)

    def lp(self):
        return UF("log_prob", lambda it, a, k: sc(self.val(self.vec(as_ten(it, a[0]))), self.w))

    def U(self):
        return UF("U", lambda it, a, k: sc(pneg(self.val(self.vec(as_ten(it, a[0])))), self.w))

    def dU(self):
        return UF("dU", lambda it, a, k: _stack([pneg(self.grad(self.vec(as_ten(it, a[0])), j)) for j in range(self.d)], self.w))

    def vag(self, it, f, args, kw):
        """value_and_grad of a function that is affine in the log-density at the point."""
        fn, x = args[0], as_ten(it, args[1])
        y = it.V(as_ten(it, it.call(fn, [x], {})))
        if y.rank:
            raise Unsup("value")
        ps = self.vec(x)
        want = self.val(ps)
        for c in (-1, 1):
            if peq(y.body, pscale(want, c)):
                return (sc(y.body, self.w), _stack([pscale(self.grad(ps, j), c) for j in range(self.d)], self.w))
        raise Unsup("gradient of another function")


class Differentiate:
    def __init__(self, w, dens):
        self.w, self.dens = w, dens

    def __enter__(self):
        self.n = f"gpmp.num.{self.w.backend}_backend:value_and_grad"
        self.w.it.intercept[self.n] = self.dens.vag

    def __exit__(self, *a):
        self.w.it.intercept.pop(self.n, None)


def transition(ck, w, b, tag, dens, dirs, dm, names):
    it = w.it
    W = NU + "nuts_transition"
    d = dens.d
    q0, im, eps = w.arr("q0", d), w.arr("invmass", d), w.scal("eps")
    script = {1: Fraction(1, 4) if dirs[0] < 0 else Fraction(3, 4)}
    if len(dirs) > 1:
        script[3] = Fraction(1, 4) if dirs[1] < 0 else Fraction(3, 4)
    d0 = len(getattr(it, "draws", []))
    with Draws(w, script) as dr, Differentiate(w, dens), finite_inputs():
        r = w.call(it.get("gpmp.mcmc.nuts:nuts_transition"), [dens.lp(), q0, eps, im, len(dirs), dm])
    if not ck.returns(tag, r, W):
        return
    zs = [x[2] for x in it.draws[d0:] if x[0] == "N"]
    if len(zs) != 1 or dr.odd:
        return ck.und(tag, W, f"{len(zs)} normal draws")
    # draws in the order of the algorithm: slice, direction, choice, direction, choice within the subtree, choice; independent uniform
    # draws may be used in another order
    want = draws(dirs, dens.levels)
    if want is not None and dr.k != want:
        return ck.und(tag, W, f"{dr.k} uniform draws: the draws do not match the algorithm's")
    free = (0, 2, 4, 5) if len(dirs) > 1 else (0, 2)
    first = None
    for o in permutations(free):
        o = o + (4, 5)[:4 - len(o)]
        with finite_inputs():
            s = spec(w, "transition", dens.U(), dens.dU(), q0, zs[0], dr.at(o[0]), dirs, (dr.at(o[1]), dr.at(o[3])), (dr.at(o[2]),), eps, im, dm, mod="nuts")
        first = first or s
        if all(ck.compare(w, w.items(r)[k], w.items(s)[k], r, s)[0] == "eq" for k, n in enumerate(PARTS) if n in names):
            break
        if dens.levels is None and len(dirs) > 1:
            break
    else:
        s = first
    for k, name in enumerate(PARTS):
        if name in names:
            ck.equal(f"{tag} {name}", w, w.items(r)[k], w.items(s)[k], r, s, W, "the transition of the slice-sampling tree algorithm")


PARTS = ("state", "acceptance statistic", "leapfrog steps", "depth", "divergence")


def draws(dirs, levels):
    if levels is None:
        return 3 if len(dirs) == 1 else 6
    return None


def transitions(ck, w, b):
    """Arbitrary density, gradient, slice variable and choices; the directions are given."""
    for d, dirs in ((2, (-1,)), (2, (1,)), (1, (-1, -1)), (1, (-1, 1)), (1, (1, -1)), (1, (1, 1))):
        transition(ck, w, b, f"transition with directions {dirs} in dimension {d} {b}", Density(w, d), dirs, w.scal("dmax"), PARTS[0 if len(dirs) == 1 else 1:])


# log-density relative to the start: inside the slice, outside it, divergent
IN, OUT, DIV = 0, -500, -10 ** 6
NO = float("-inf")                      # outside the support


def plateaus(ck, w, b):
    """Piecewise constant densities: which points are in the slice and where the trajectory stops is decided, the choices are not."""
    pats = [(x, y, z) for x in (IN, OUT, DIV) for y in (IN, OUT, DIV) for z in (IN, OUT, DIV) if (y, z) == (IN, IN) or x != DIV]
    pats += [(NO, IN, IN), (IN, NO, IN), (IN, IN, NO)]
    for dirs in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
        for p in pats:
            transition(ck, w, b, f"transition with directions {dirs} over levels {p} {b}", Density(w, 1, (0,) + p), dirs, 1000, ("state", "leapfrog steps", "depth", "divergence"))


class Steps:
    """Transitions replaced by arbitrary results; their arguments are recorded."""

    NAMES = ("log_prob", "q0", "step_size", "inv_mass_diag", "max_depth", "delta_max")

    def __init__(self, w, d):
        self.w, self.d, self.calls = w, d, []

    def __enter__(self):
        self.w.it.intercept["gpmp.mcmc.nuts:nuts_transition"] = self.call
        return self

    def __exit__(self, *a):
        self.w.it.intercept.pop("gpmp.mcmc.nuts:nuts_transition", None)

    def out(self, k):
        q = _stack([atom_poly(Atom("qn", (k, j))) for j in range(self.d)], self.w)
        a, n, dep = (atom_poly(Atom(x, (k,))) for x in ("acc", "nlf", "depth"))
        return (q, ops.mk((), lambda: a, False, ("py", "f")), ops.mk((), lambda: n, False, ("py", "i")), ops.mk((), lambda: dep, False, ("py", "i")), False)

    def call(self, it, f, args, kw):
        kw = dict(kw, **dict(zip(self.NAMES, args)))
        if set(kw) != set(self.NAMES):
            raise Unsup("arguments of the transition")
        for n in ("q0", "inv_mass_diag"):
            v = it.V(as_ten(it, kw[n]))
            kw[n] = ops.mk(v.dims, lambda *i: at(v, i), False, v.tag)
        self.calls.append(kw)
        return self.out(len(self.calls) - 1)


RUNS = {
    # number of warm-up iterations, options, windows
    "two windows": (5, dict(warmup_min_no_window=0, warmup_large_threshold=1, warmup_large_init_buffer=1, warmup_large_term_buffer=1, warmup_large_base_window=2), ((1, 3), (3, 4))),
    "no window": (2, {}, ()),
    "no warm-up": (0, {}, ()),
}


def chains(ck, w, b):
    it = w.it
    W = NU + "nuts_sample"
    C, d, N = 2, 1, 2
    for case, (nw, extra, windows) in RUNS.items():
        for mass in ((False, True) if case == "two windows" else (False,)):
            dens = Density(w, d)
            q0 = w.arr("qinit", C, d)
            eps0 = Fraction(1, 2)
            lo, hi = Fraction(1, 10 ** 6), 100
            opt = {k: w.scal(k) for k in ("target_accept", "dual_averaging_gamma", "dual_averaging_t0", "dual_averaging_kappa")}
            dmax, jit = w.scal("delta_max"), w.scal("jitter")
            tag = f"run: {case}{', metric given' if mass else ''} {b}"
            ro = w.call(it.get("gpmp.mcmc.nuts:NUTSOptions"), [], dict(opt, num_warmup=nw, init_step_size=0.5, max_depth=7, delta_max=dmax, jitter=jit, progress=False, verbose=0,
                                                                   init_mass_diag=w.arr("mass0", d) if mass else None, **extra))
            if not ck.returns(tag + " options", ro, NU + "NUTSOptions"):
                continue
            it.st = ro.st
            with Steps(w, d) as st, Differentiate(w, dens), finite_inputs():
                r = w.call(it.get("gpmp.mcmc.nuts:nuts_sample"), [dens.lp(), q0, N], dict(options=ro.value))
            if not ck.returns(tag, r, W):
                continue
            if len(st.calls) != (nw + N) * C:
                (ck.bad if len(st.calls) % C == 0 and len(st.calls) else ck.und)(tag + " transitions", W, f"{len(st.calls)} transitions for {nw} + {N} iterations of {C} chains")
                continue
            it.st = r.st
            acc = _stack2([[atom_poly(Atom("acc", (t * C + c,))) for c in range(C)] for t in range(nw + N)], w)
            pos = _stack2([[atom_poly(Atom("qn", (t * C + c, 0))) for c in range(C)] for t in range(nw + N)], w)
            m0 = w.arr("mass0", d) if mass else None
            with finite_inputs():
                s = spec(w, "run", q0, acc, pos, m0, nw, N, C, num2(w, eps0), windows, opt["target_accept"], opt["dual_averaging_gamma"], opt["dual_averaging_t0"],
                         opt["dual_averaging_kappa"], 10, jit, num2(w, lo), hi, mod="nuts")
            if not ck.returns(tag + " spec", s, W):
                continue
            steps, metrics, starts, eps_final, mass_final = w.items(s)
            for i, c in enumerate(st.calls):
                t = f"{tag} transition {i}"
                ck.equal(t + " step size", w, c["step_size"], steps[i // C], r, s, W, "step size of the iteration")
                ck.equal(t + " metric", w, c["inv_mass_diag"], metrics[i // C], r, s, W, "inverse mass of the iteration")
                ck.equal(t + " start", w, c["q0"], starts[i], r, s, W, "each transition starts where its chain is")
                ck.equal(t + " depth limit", w, c["max_depth"], 7, r, None, W, "the requested maximal depth")
                ck.equal(t + " divergence limit", w, c["delta_max"], dmax, r, None, W, "the requested divergence threshold")
            smp, info = w.items(r)[:2]
            val = lambda k: it.getitem(info, k)
            k0 = nw * C
            if smp is not None:
                ck.equal(tag + " samples", w, smp, _stack3([[[atom_poly(Atom("qn", (k0 + t * C + c, 0)))] for c in range(C)] for t in range(N)], w), r, None, W, "states of the sampling phase")
            for name, first, n, f in (("accept_stat", nw, N, lambda k: atom_poly(Atom("acc", (k,)))),
                                      ("n_leapfrog", nw, N, lambda k: atom_poly(Atom("nlf", (k,)))),
                                      ("tree_depth", nw, N, lambda k: atom_poly(Atom("depth", (k,)))),
                                      ("log_prob_trace", nw, N, lambda k: dens.val((atom_poly(Atom("qn", (k, 0))),))),
                                      ("warmup_accept_stat", 0, nw, lambda k: atom_poly(Atom("acc", (k,)))),
                                      ("warmup_n_leapfrog", 0, nw, lambda k: atom_poly(Atom("nlf", (k,)))),
                                      ("warmup_tree_depth", 0, nw, lambda k: atom_poly(Atom("depth", (k,)))),
                                      ("warmup_log_prob_trace", 0, nw, lambda k: dens.val((atom_poly(Atom("qn", (k, 0))),)))):
                if n:
                    want = _stack2([[f((first + t) * C + c) for c in range(C)] for t in range(n)], w)
                    ck.guard(f"{tag} {name}", lambda: ck.equal(f"{tag} {name}", w, val(name), want, r, None, W, "what is recorded is what happened"), W)
            ck.guard(f"{tag} final step", lambda: ck.equal(f"{tag} final step size", w, only(it, val("step_size_final")), eps_final, r, s, W, "averaged step size"), W)
            ck.guard(f"{tag} final metric", lambda: ck.equal(f"{tag} final metric", w, val("mass_diag_final"), mass_final, r, s, W, "metric of the sampling phase"), W)


HI, LO = Fraction(-1, 10), -5            # acceptance above and below one half
SEARCHES = (
    # density levels met by the trials, options (initial size, factor, least, largest), sizes tried, result
    ((HI, HI, LO), (1, 2, Fraction(1, 1000), 1000), (1, 2, 4), 4),
    ((HI, LO), (Fraction(1, 2), 3, Fraction(1, 1000), 1000), (Fraction(1, 2), Fraction(3, 2)), Fraction(3, 2)),
    ((LO, LO, HI), (1, 2, Fraction(1, 1000), 1000), (1, Fraction(1, 2), Fraction(1, 4)), Fraction(1, 4)),
    ((LO, HI), (4, 4, Fraction(1, 1000), 1000), (4, 1), 1),
    ((HI, HI, HI, HI), (1, 2, Fraction(1, 1000), 3), (1, 2, 4), 3),
    ((LO, LO, LO, LO), (1, 2, Fraction(2, 5), 1000), (1, Fraction(1, 2), Fraction(1, 4)), Fraction(2, 5)),
    ((NO, LO, HI), (1, 2, Fraction(1, 1000), 1000), (1, Fraction(1, 2), Fraction(1, 4)), Fraction(1, 4)),
)


def search(ck, w, b):
    """The initial step size: scaled from the given one until the acceptance of one step crosses its target."""
    it = w.it
    W = NU + "nuts_sample"
    d = 2
    for n, (levels, (first, base, least, most), steps, final) in enumerate(SEARCHES):
        tag = f"initial step size {n} {b}"

        def one():
            dens = Density(w, d, (0,) + levels)
            q0, m0 = w.arr("qinit", 1, d), w.arr("mass0", d)
            fl = lambda x: num2(w, Fraction(x))
            ro = w.call(it.get("gpmp.mcmc.nuts:NUTSOptions"), [], dict(num_warmup=1, max_depth=7, progress=False, verbose=0, init_mass_diag=m0, jitter=w.scal("jitter"), find_eps_init=fl(first),
                                                                   find_eps_target_accept=fl(Fraction(1, 2)), find_eps_scale_base=fl(base), find_eps_min=fl(least), find_eps_max=fl(most)))
            if not ck.returns(tag + " options", ro, NU + "NUTSOptions"):
                return
            it.st = ro.st
            k0 = len(getattr(it, "draws", []))
            with Steps(w, d) as st, Differentiate(w, dens), finite_inputs():
                r = w.call(it.get("gpmp.mcmc.nuts:nuts_sample"), [dens.lp(), q0, 1], dict(options=ro.value))
            if not ck.returns(tag, r, W):
                return
            zs = [x[2] for x in it.draws[k0:] if x[0] == "N"]
            if len(zs) == 1:
                with finite_inputs():
                    m = spec(w, "trial", ops.index(q0, [0]), zs[0], m0, w.scal("jitter"), mod="nuts")
                x0, v = w.items(m)
                for k, e in enumerate((0,) + steps):
                    want = ops.mk((num(d),), lambda j: T.padd(at(as_ten(it, x0), (j,)), T.pscale(at(as_ten(it, v), (j,)), Fraction(e))), False, q0.tag)
                    got = _stack(list(dens.seen[k]), w) if k < len(dens.seen) else None
                    if got is None:
                        ck.bad(f"{tag} trial {k}", W, f"no trial with step size {e}", "the trials multiply the step size by the factor")
                    else:
                        ck.equal(f"{tag} trial {k}", w, got, want, None, m, W, "each trial is one step from the first state with momentum of the metric")
            ck.equal(tag, w, st.calls[0]["step_size"], fl(final), r, None, W, "the first size at which the acceptance of one step crosses its target, kept in the allowed interval")
        ck.guard(tag, one, W)


def only(it, v):
    v = it.resolve(v)
    if isinstance(v, Phi):
        return it.phi(v.c, only(it, v.a), only(it, v.b))
    t = it.V(as_ten(it, v))
    return ops.mk((), lambda: at(t, (num(0),) * t.rank), False, t.tag)


def num2(w, c):
    return ops.mk((), lambda: num(c), False, ("py", "f"))


def _stack2(rows, w):
    return ops.mk((num(len(rows)), num(len(rows[0]))), lambda i, j: _pick([_pick(r, j) for r in rows], i), False, (w.L, "f"))


def _stack3(rows, w):
    return ops.mk((num(len(rows)), num(len(rows[0])), num(len(rows[0][0]))), lambda i, j, k: _pick([_pick([_pick(x, k) for x in r], j) for r in rows], i), False, (w.L, "f"))


def _pick(ps, i):
    r = T.ZERO
    for k, p in enumerate(ps):
        r = padd(r, T.pmul(T.delta(i, num(k)), p)) if len(ps) > 1 else p
    return r


def stan_windows(n, init, term, base):
    """Adaptation windows between the buffers: each twice the previous one, the last one ending at the final buffer."""
    a, end, out, size = init, n - term, [], base
    if end <= a:
        return ()
    size = min(size, end - a)
    while a + size < end:
        out.append((a, a + size))
        a, size = a + size, min(2 * size, end - a - size)
    return tuple(out + ([(a, end)] if a < end else []))


def windows(ck, w, b):
    W = NU + "make_warmup_windows"
    cases = [(n, {}) for n in (0, 20, 21, 40, 100, 149, 150, 151, 300, 1000)]
    cases += [(30, dict(min_no_window=30)), (30, dict(init_buffer_ratio=0.5, term_buffer_ratio=0.25, base_window_divisor=2.0)),
              (60, dict(large_threshold=60, large_init_buffer=7, large_term_buffer=11, large_base_window=3)), (40, dict(init_buffer_ratio=0.75, term_buffer_ratio=0.5))]
    for n, o in cases:
        g = dict(min_no_window=20, large_threshold=150, large_init_buffer=75, large_term_buffer=50, large_base_window=25,
                 init_buffer_ratio=0.15, term_buffer_ratio=0.10, base_window_divisor=3.0)
        g.update(o)
        if n <= g["min_no_window"]:
            want = ()
        elif n >= g["large_threshold"]:
            want = stan_windows(n, g["large_init_buffer"], g["large_term_buffer"], g["large_base_window"])
        else:
            i, t = (max(1, int(g[k] * n)) for k in ("init_buffer_ratio", "term_buffer_ratio"))
            want = stan_windows(n, i, t, max(1, int((n - i - t) / g["base_window_divisor"])))
        tag = f"adaptation windows {n} iterations {o} {b}"

        def one():
            r = w.call("gpmp.mcmc.nuts:make_warmup_windows", [n], o)
            if not ck.returns(tag, r, W):
                return
            vs = w.items(r)
            got = tuple(tuple(int(at(as_ten(w.it, x), ()).const()) for x in w.items(r, p)) for p in vs) if vs is not None else None
            ck.require(tag, None if got is None else got == want, W, f"windows {got} instead of {want}", "doubling windows fill the space between the buffers")
        ck.guard(tag, one, W)


def run(ck):
    ck.explanation = ("Value graph of complete NUTS transitions with up to two doublings in every direction and of whole runs, for an arbitrary "
                      "density with arbitrary gradient, symbolic metric, step size and draws.")
    for b in BACKENDS:
        for name, f in (("transitions", transitions), ("plateaus", plateaus), ("chains", chains), ("search", search), ("windows", windows)):
            ck.guard(f"{name} {b}", lambda: f(ck, ck.world(b), b), NU)

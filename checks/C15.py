"""Differentiability on the automatic-differentiation backend: no path from the parameters to a criterion is cut."""
from .common import *
from .C10 import Setup
from .C20 import sc
from .C22 import D
from .C23 import Record
from .optim import Optimiser
from sa.ops import gradient_of, severed, unsever
from sa.prims import finite_inputs

RULE = "every path from the parameters to the value is differentiable"
K = "gpmp.kernel:"
P = "gpmp.kernel.priors:"


def parts(it, v, out):
    v = it.resolve(v)
    if isinstance(v, Ten):
        out.append(it.V(v))
    elif isinstance(v, Phi):
        parts(it, v.a, out)
        parts(it, v.b, out)
    elif isinstance(v, tuple):
        for x in v:
            parts(it, x, out)
    elif isinstance(v, Obj) and v.kind == "list":
        for x in it.to_list(v) or []:
            parts(it, x, out)


def uncut(ck, w, clause, where, fn, names=("theta",), pick=None):
    """fn() is a library value as a function of the named inputs: nothing on the way cuts the gradient."""
    it = w.it

    def go():
        base = it.st.copy()
        try:
            with gradient_of(*names):
                r = fn()
                if not ck.returns(clause, r, where):
                    return
                it.st = r.st
                ts = []
                parts(it, pick(r.value) if pick else r.value, ts)
            if not ts:
                ck.und(clause, where, "no numerical result")
                return
            hit = [a for t in ts for a in severed(t)]
            dep = any(a.op == "in" and a.args[0] in names for t in ts for a in walk_atoms(t.body))
            o = next((x for x in map(opaque_in, ts) if x is not None), None)
            if hit:
                ck.bad(clause, where, "the dependence on the parameters passes through a stop-gradient operation: " + show(atom_poly(hit[0]))[:160], RULE)
            elif not dep:
                ck.bad(clause, where, "the value does not depend on the parameters", RULE)
            elif o is not None:
                ck.und(clause, where, "opaque node " + show(atom_poly(o))[:120])
            else:
                ck.ok(clause, where, "", RULE)
        finally:
            it.st = base
    ck.guard(clause, go, where)


def shipped(w, p, noise=False):
    """A model with the library's covariance and a user's mean."""
    it = w.it

    def cov(it2, args, kw):
        a = dict(zip(("x", "y", "covparam", "pairwise"), args))
        a.update(kw)
        f = it2.get("gpmp.kernel:maternp_covariance")
        return it2.call(f, [a["x"], a.get("y"), p, a["covparam"], a.get("pairwise", False)], {})
    return UF("matern", cov)


def kernels(ck, w):
    x, y, y1 = w.arr("x", "n", "d"), w.arr("y", "m", "d"), w.arr("y1", "n", "d")
    th = w.arr("theta", padd(dim("d"), ONE))
    l = w.arr("theta", "d")
    M = "gpmp/kernel/matern.py:"
    for p in (0, 1, 2, 3):
        for tag, yy, pw in (("same points", x, False), ("omitted second argument", None, False), ("distinct points", y, False),
                            ("same points pairwise", x, True), ("omitted pairwise", None, True), ("distinct points pairwise", y1, True)):
            uncut(ck, w, f"Matern covariance p={p}, {tag}", M + "maternp_covariance", lambda: w.call(K + "maternp_covariance", [x, yy, p, th], dict(pairwise=pw)))
        uncut(ck, w, f"Matern kernel p={p}", M + "maternp_kernel", lambda: w.call(K + "maternp_kernel", [p, w.arr("theta", "n", "m")]))
    uncut(ck, w, "Matern 3/2 kernel", M + "matern32_kernel", lambda: w.call(K + "matern32_kernel", [w.arr("theta", "n", "m")]))
    uncut(ck, w, "exponential kernel", "gpmp/kernel/exponential.py:exponential_kernel", lambda: w.call(K + "exponential_kernel", [w.arr("theta", "n", "m")]))
    N = "gpmp.num:"
    W = "gpmp/num/torch_backend.py:"
    for nm, args in (("scaled_distance", [l, x, y]), ("scaled_distance_elementwise", [l, x, y1]), ("cdist", [w.arr("theta", "n", "d"), y]),
                     ("logdet", [w.arr("theta", "n", "n")]), ("cholesky_solve", [w.arr("theta", "n", "n"), w.arr("b", "n")]),
                     ("cholesky_inv", [w.arr("theta", "n", "n")]), ("solve", [w.arr("theta", "n", "n"), w.arr("b", "n")]),
                     ("cho_factor", [w.arr("theta", "n", "n")]), ("inftobigf", [w.arr("theta", "n")]), ("clip", [w.arr("theta", "n"), -1.0, 1.0]),
                     ("where", [w.arr("c", "n", dt="b"), w.arr("theta", "n"), w.arr("b", "n")]), ("concatenate", [(w.arr("theta", "n"), w.arr("b", "m"))]),
                     ("einsum", ["ij,j->i", w.arr("theta", "n", "m"), w.arr("b", "m")]), ("asarray", [w.arr("theta", "n")]),
                     ("stack", [(w.arr("theta", "n"), w.arr("b", "n"))]), ("solve_triangular", [w.arr("theta", "n", "n"), w.arr("b", "n")]),
                     ("matmul", [w.arr("theta", "n", "m"), w.arr("b", "m")]), ("diag", [w.arr("theta", "n")]), ("sum", [w.arr("theta", "n")]),
                     ("exp", [w.arr("theta", "n")]), ("log", [w.arr("theta", "n")]), ("sqrt", [w.arr("theta", "n")]), ("mean", [w.arr("theta", "n")]),
                     ("reshape", [w.arr("theta", "n", "m"), (-1,)]), ("maximum", [w.arr("theta", "n"), w.arr("b", "n")]),
                     ("minimum", [w.arr("theta", "n"), w.arr("b", "n")]), ("norm", [w.arr("theta", "n")]),
                     ("abs", [w.arr("theta", "n")]), ("cumsum", [w.arr("theta", "n"), 0]), ("outer", [w.arr("theta", "n"), w.arr("b", "m")]),
                     ("hstack", [(w.arr("theta", "n"), w.arr("b", "m"))]), ("vstack", [(w.arr("theta", "n", "k"), w.arr("b", "m", "k"))]),
                     ("inner", [w.arr("theta", "n"), w.arr("b", "n")]), ("trace", [w.arr("theta", "n", "n")]), ("var", [w.arr("theta", "n")]),
                     ("std", [w.arr("theta", "n")]), ("logsumexp", [w.arr("theta", "n")]), ("tile", [w.arr("theta", "n"), (2, 1)])):
        v = w.it.mod_get(w.it.load("gpmp.num"), nm)
        if not isinstance(v, (Func, Ext, UF)):
            continue
        uncut(ck, w, f"operation {nm}", W + nm, lambda: w.call(v, [w.it.mklist(list(a)) if isinstance(a, tuple) and any(isinstance(u, Ten) for u in a) else a for a in args]))


def coincident(ck, w):
    """Square roots have no derivative at zero: where two points coincide the distance must not take one."""
    it = w.it
    th, l = w.arr("theta", padd(dim("d"), ONE)), w.arr("theta", "d")
    i, off = fresh(), fresh()
    R = "no square root of an expression that vanishes where two points coincide"
    M = "gpmp/kernel/matern.py:maternp_covariance"
    S = "gpmp/num/torch_backend.py:"
    todo = [(f"Matern covariance p={p}, {tag}", M, K + "maternp_covariance", lambda x, y, p=p: [x, y, p, th], kw)
            for p in (0, 1, 2) for tag, kw in (("matrix", {}), ("pairwise", dict(pairwise=True)))]
    todo += [("scaled distance", S + "scaled_distance", "gpmp.num:scaled_distance", lambda x, y: [l, x, y], {}),
             ("elementwise scaled distance", S + "scaled_distance_elementwise", "gpmp.num:scaled_distance_elementwise", lambda x, y: [l, x, y], {})]
    for lab, where, f, args, kw in todo:
        for same in (True, False):
            def go():
                base = it.st.copy()
                try:
                    x = w.arr("x", "n", "d")
                    y = ops.mk(x.dims, lambda a, b: at(x, (padd(a, ivar(off)), b)), False, x.tag)
                    with gradient_of("theta"):
                        r = w.call(f, args(x, x if same else y), kw)
                        if not ck.returns(clause, r, where):
                            return
                        roots = list(ops.ROOTS)
                    for t in roots:
                        e = t
                        for _ in range(t.rank):
                            e = ops.index(e, [ivar(i)])
                        if not ops.alive(t.body, {"theta"}):
                            continue
                        if not subst(e.body, {off: ZERO}).terms:
                            ck.bad(clause, where, "square root of an expression that is zero where the two points coincide: the gradient is not a number", R)
                            return
                    ck.ok(clause, where, f"{len(roots)} square roots", R)
                finally:
                    it.st = base
            clause = f"coincident points, {lab}, {'same array' if same else 'equal rows'}"
            ck.guard(clause, go, where)


def criteria(ck, w):
    it = w.it
    b1 = w.arr("beta", 1)
    L = "gpmp/core/likelihood.py:"
    for kind in ("user", 0, 2):
        X, Z, th = w.arr("xi", "n", 2), w.arr("zi", "n"), w.arr("theta", 3)

        def model(mt):
            cov = w.cov_uf() if kind == "user" else shipped(w, kind)
            mean = None if mt == "zero" else w.mean_uf(q=1)
            r = w.call(it.get("gpmp.core:Model"), [mean, cov], dict(meanparam=b1 if mt == "parameterized" else None, covparam=w.arr("cp", 3), meantype=mt))
            it.st = r.st
            return r.value
        lab = "user's covariance" if kind == "user" else f"Matern p={kind}"
        uncut(ck, w, f"zero-mean likelihood, {lab}", L + "negative_log_likelihood_zero_mean", lambda: w.meth(model("zero"), "negative_log_likelihood_zero_mean", th, X, Z))
        uncut(ck, w, f"likelihood, {lab}", L + "negative_log_likelihood", lambda: w.meth(model("parameterized"), "negative_log_likelihood", b1, th, X, Z))
        uncut(ck, w, f"likelihood in the mean parameters, {lab}", L + "negative_log_likelihood",
              lambda: w.meth(model("parameterized"), "negative_log_likelihood", b1, th, X, Z), ("beta",))
        uncut(ck, w, f"restricted likelihood, {lab}", L + "negative_log_restricted_likelihood", lambda: w.meth(model("linear_predictor"), "negative_log_restricted_likelihood", th, X, Z))
        for nm, mt, args in (("negative_log_likelihood_zero_mean", "zero", [th, X, Z]), ("negative_log_likelihood", "parameterized", [b1, th, X, Z]),
                             ("negative_log_restricted_likelihood", "linear_predictor", [th, X, Z])):
            if kind == "user":
                uncut(ck, w, f"kernel.{nm}, {lab}", "gpmp/kernel/parameter_selection.py:" + nm, lambda: w.call(K + nm, [model(mt)] + args))
        s0, gamma, cover, alpha = (w.scal(n) for n in ("s0", "gamma", "cover", "alpha"))
        lmin, l0 = w.arr("lmin", 2), w.arr("l0", 2)
        n = "neg_log_restricted_posterior_"
        W = "gpmp/kernel/priors.py:"
        for f, a, kw in ((n + "with_jeffreys_prior", [], {}), (n + "power_laws_prior", [], {}), (n + "logsigma2_prior", [s0], dict(gamma=gamma, sigma2_coverage=cover)),
                         (n + "with_logrho_prior", [lmin, l0], dict(alpha=alpha)),
                         (n + "logsigma2_and_logrho_prior", [s0], dict(logrho_min=lmin, logrho_0=l0))):
            uncut(ck, w, f"{f}, {lab}", W + f, lambda: w.call(P + f, [model("linear_predictor"), th, X, Z] + a, kw))
    th = w.arr("theta", 3)
    W = "gpmp/kernel/priors.py:"
    for f, a, kw in (("log_prior_jeffreys_variance", [th], {}), ("log_prior_power_law", [th], {}), ("log_prior_gaussian_logsigma2", [th, w.scal("s0")], {}),
                     ("neglog_f_logrho", [w.arr("theta", 2), w.arr("lmin", 2), w.arr("l0", 2)], {}),
                     ("log_prior_logrho_barrier_linear", [th, w.arr("lmin", 2), w.arr("l0", 2)], {})):
        uncut(ck, w, f, W + f, lambda: w.call(K + f, a, kw))


class Crit:
    """A user's criterion; remembers whether gradients were being recorded."""

    def __init__(self, w):
        self.w, self.nograd, self.hits = w, [], 0

    def uf(self):
        return UF("crit", self.call)

    def call(self, it, args, kw):
        self.hits += 1
        self.nograd.append(it.st.nograd)
        t = as_ten(it, args[0])
        rest = tuple(self.w.param(it, a) for a in args[1:])
        return it.recorded(Ten((), (), atom_poly(Atom("crit", (Ten(t.formals, t.dims, t.body),) + rest)), False, (self.w.L, "f")))

    def at(self, p, *rest):
        w = self.w
        return Ten((), (), atom_poly(Atom("crit", (Ten(p.formals, p.dims, p.body),) + tuple(w.param(w.it, a) for a in rest))), False, (w.L, "f"))


def free(w, v, r):
    """The value without the mark of having been returned detached."""
    st, w.it.st = w.it.st, r.st
    try:
        v = w.it.resolve(v)
        return unsever(w.it.V(v)) if isinstance(v, Ten) else v
    finally:
        w.it.st = st


def scale(c, t):
    return ops.elementwise(lambda q: pmul(num(c), q), t)


def wrappers(ck, w):
    """Value and gradient returned by the four callables: those of the criterion at the given point."""
    it = w.it
    T_ = "gpmp/num/torch_backend.py:"
    for loader in (False, True):
        s = Setup(w, "linear_predictor", loader=loader)
        src = "loader" if loader else "arrays"
        cls = ("Batch" if loader else "") + "DifferentiableSelectionCriterion"

        def go():
            base = it.st.copy()
            try:
                c = Crit(w)
                crit = UF("crit", lambda it2, a, k: c.call(it2, [a[1], a[2], a[3]], k))
                r = w.call(it.get(K + "make_selection_criterion_with_gradient"), [s.m, crit], dict(s.data))
                if not ck.returns(f"criterion on {src}", r, T_ + cls):
                    return
                it.st = r.st
                ev, pre, nog, grad = w.items(r)[:4]
                p = w.arr("p", 3, L="np")
                pt = w.arr("p", 3)
                want_v = want_g = None
                for wt, x, z in s.parts():
                    v = c.at(pt, x, z)
                    g = ops.autograd(v, pt)
                    if wt is not None:
                        v, g = scale(Fraction(wt, 3), v), scale(Fraction(wt, 3), g)
                    want_v = v if want_v is None else ops.elementwise(padd, want_v, v)
                    want_g = g if want_g is None else ops.elementwise(padd, want_g, g)
                with finite_inputs():
                    st = it.st.copy()
                    r = w.call(nog, [p])
                    if ck.returns(f"value without gradient on {src}", r, T_ + cls + ".evaluate_no_grad"):
                        ck.equal(f"value without gradient on {src}", w, free(w, r.value, r), want_v, r, None, T_ + cls + ".evaluate_no_grad")
                    it.st = st.copy()
                with finite_inputs(), gradient_of("p", "p2"):
                    c.nograd.clear()
                    r = w.call(pre, [p])
                    W1 = T_ + cls + ".evaluate_pre_grad"
                    if not ck.returns(f"value with gradient on {src}", r, W1):
                        return
                    ck.equal(f"value with gradient on {src}", w, free(w, r.value, r), want_v, r, None, W1)
                    ck.require(f"gradients are recorded on {src}", bool(c.nograd) and not any(c.nograd), W1, "gradient recording is disabled during the evaluation", RULE)
                    it.st = r.st
                    for rep in (1, 2):      # a second point after the first: nothing stale
                        r2 = w.call(grad, [p])
                        W2 = T_ + cls + ".gradient"
                        if not ck.returns(f"gradient on {src}, point {rep}", r2, W2):
                            return
                        ck.equal(f"gradient on {src}, point {rep}", w, free(w, r2.value, r2), want_g, r2, None, W2)
                        if rep == 2:
                            break
                        it.st = r2.st
                        q, qt = w.arr("p2", 3, L="np"), w.arr("p2", 3)
                        r = w.call(pre, [q])
                        if not ck.returns(f"second point on {src}", r, W1):
                            return
                        it.st = r.st
                        ren = None
                        for wt, x, z in s.parts():
                            g = ops.autograd(c.at(qt, x, z), qt)
                            g = g if wt is None else scale(Fraction(wt, 3), g)
                            ren = g if ren is None else ops.elementwise(padd, ren, g)
                        p, want_g = q, ren
            finally:
                it.st = base
        ck.guard(f"value and gradient on {src}", go, T_ + cls)


def functions(ck, w):
    """grad and value_and_grad."""
    it = w.it
    T_ = "gpmp/num/torch_backend.py:"
    for nm in ("grad", "value_and_grad"):
        def go():
            base = it.st.copy()
            try:
                c = Crit(w)
                x = w.arr("p", 3)
                with finite_inputs(), gradient_of("p"):
                    if nm == "grad":
                        f = w.call("gpmp.num:grad", [c.uf()])
                        if not ck.returns("gradient function", f, T_ + nm):
                            return
                        it.st = f.st
                        r = w.call(f.value, [x])
                        out = [r.value]
                    else:
                        r = w.call("gpmp.num:value_and_grad", [c.uf(), x])
                        out = list(w.items(r)) if r.returned else []
                    if not ck.returns(nm, r, T_ + nm):
                        return
                v = c.at(x)
                want = [ops.autograd(v, x)] if nm == "grad" else [v, ops.autograd(v, x)]
                for lab, g, e in zip(("gradient",) if nm == "grad" else ("value", "gradient"), out, want):
                    ck.equal(f"{nm}: {lab}", w, free(w, g, r), e, r, None, T_ + nm)
                ck.require(f"{nm}: gradients are recorded", c.hits > 0 and not any(c.nograd), T_ + nm, "gradient recording is disabled during the evaluation", RULE)
            finally:
                it.st = base
        ck.guard(nm, go, T_ + nm)


def optimiser(ck, w):
    """The gradient handed to the optimiser is that of the criterion it minimises."""
    it = w.it
    A = "gpmp/kernel/parameter_selection.py:select_parameters_with_criterion"
    for loader in (False, True):
        s = Setup(w, "linear_predictor", loader=loader)
        src = "loader" if loader else "arrays"

        def go():
            base = it.st.copy()
            try:
                c = Crit(w)
                crit = UF("crit", lambda it2, a, k: c.call(it2, [a[1], a[2], a[3]], k))
                p = w.arr("point", 3, L="np")
                opt = Optimiser(w, script=(p,), x=w.arr("xo", 3, L="np"), fun=w.scal("fo"), grads=True)
                with opt, finite_inputs(), gradient_of("point"):
                    r = w.call(it.get(K + "select_parameters_with_criterion"), [s.m, crit], dict(s.data, covparam0=w.arr("c0", 3)))
                if not ck.returns(f"selection on {src}", r, A):
                    return
                pt = w.arr("point", 3)
                want = None
                for wt, x, z in s.parts():
                    g = ops.autograd(c.at(pt, x, z), pt)
                    g = g if wt is None else scale(Fraction(wt, 3), g)
                    want = g if want is None else ops.elementwise(padd, want, g)
                if not opt.grads:
                    ck.bad(f"gradient for the optimiser on {src}", A, "no gradient reaches the optimiser", RULE)
                    return
                ck.equal(f"gradient for the optimiser on {src}", w, free(w, opt.grads[0], r), want, r, None, A)
            finally:
                it.st = base
        ck.guard(f"optimiser on {src}", go, A)


def densities(ck, w):
    """Target densities differentiated by the samplers."""
    it = w.it
    PP = "gpmp/mcmc/param_posterior.py:sample_from_selection_criterion_"
    kinds = {
        "nuts": ("gpmp.mcmc.nuts:nuts_sample", ("log_prob", "q_init"), "param_initial_states", dict(n_chains=2, progress=False, verbose=0)),
        "svgd": ("gpmp.mcmc.svgd:svgd_sample", ("log_prob", "particles_initial"), "particles_initial", dict(n_particles=2, init_jitter=0.0, progress=False, verbose=0)),
    }
    for nm, (target, names, x0, extra) in kinds.items():
        for tag, box in (("no box", None), ("box", (w.arr("lo", D), w.arr("hi", D)))):
            def dens():
                c = Crit(w)
                kw = dict(extra, selection_criterion=c.uf(), **{x0: w.arr("S0", 2, D)})
                if box is not None:
                    kw["sampling_box"] = box
                with Record(w, target, names, (w.arr("trace", 2, 2, D), "info")) as rec, finite_inputs():
                    r = w.call(it.get("gpmp.mcmc.param_posterior:sample_from_selection_criterion_" + nm), [], kw)
                if not r.returned or rec.kw is None:
                    raise Unsup("sampler not run where expected")
                it.st = r.st
                with finite_inputs():
                    return w.call(rec.kw["log_prob"], [w.arr("theta", D)])
            uncut(ck, w, f"{nm} density, {tag}", PP + nm, dens)


def differences(ck, w):
    """Without automatic differentiation: gradients of a function that is affine in each coordinate, which any difference formula gives exactly."""
    it, x = w.it, w.arr("x", 3)
    c = [sym(f"in:c{k}") for k in range(6)]

    def value(v):
        e = [at(v, (num(k),)) for k in range(3)]
        return psum_list([c[0]] + [pmul(c[k + 1], e[k]) for k in range(3)] + [pmul(c[4], pmul(e[0], e[1])), pmul(c[5], pmul(e[1], e[2]))])
    X = [at(x, (num(k),)) for k in range(3)]
    g = [padd(c[1], pmul(c[4], X[1])), psum_list([c[2], pmul(c[4], X[0]), pmul(c[5], X[2])]), padd(c[3], pmul(c[5], X[1]))]
    want = ops.mk((num(3),), lambda i: psum_list([pmul(delta(num(k), i), p) for k, p in enumerate(g)]), False, (w.L, "f"))
    f = UF("f", lambda it, a, k: S(value(it.V(as_ten(it, a[0]))), "f", w.L))
    where = "gpmp/num/numpy_backend.py:"
    lab = "numpy grad"
    r = w.call("gpmp.num:grad", [f], keep=True)
    if ck.returns(lab, r, where + "grad"):
        r = w.call(r.value, [x])
        if ck.returns(lab + " evaluated", r, where + "grad"):
            ck.equal(lab + " of a function affine in each coordinate", w, r.value, want, r, None, where + "grad")
    lab = "numpy value_and_grad"
    r = w.call("gpmp.num:value_and_grad", [f, x])
    if ck.returns(lab, r, where + "value_and_grad"):
        y, d = w.items(r)
        ck.equal(lab + " value", w, y, S(value(x), "f", w.L), r, None, where + "value_and_grad")
        ck.equal(lab + " gradient of a function affine in each coordinate", w, d, want, r, None, where + "value_and_grad")

    def square(it, a, k):
        v = it.V(as_ten(it, a[0]))
        return S(psum_list([pmul(c[j], pmul(at(v, (num(j),)), at(v, (num(j),)))) for j in range(3)]), "f", w.L)
    f2 = UF("f2", square)

    def error(lab, r, v, where):
        """What the formula adds to the derivative of a quadratic function does not depend on the point."""
        t = w.ten(r, v)
        res = [psub(renorm(at(t, (num(j),))), pscale(pmul(c[j], X[j]), 2)) for j in range(3)]
        bad = [j for j, p in enumerate(res) if any(a.op == "in" and a.args[0] == "x" for a in walk_atoms(renorm(p)))]
        ck.require(lab, not bad, where, f"derivative {bad[0]} of a sum of squares is {show(at(t, (num(bad[0]),)))[:120]}" if bad else "", "derivative at the point")
    r = w.call("gpmp.num:grad", [f2], keep=True)
    if r.returned:
        r = w.call(r.value, [x])
        if ck.returns("numpy grad of squares", r, where + "grad"):
            error("numpy grad of squares", r, r.value, where + "grad")
    r = w.call("gpmp.num:value_and_grad", [f2, x])
    if ck.returns("numpy value_and_grad of squares", r, where + "value_and_grad"):
        error("numpy value_and_grad of squares", r, w.items(r)[1], where + "value_and_grad")


def run(ck):
    ck.rule = "stop-gradient dataflow on the value graph of the automatic-differentiation backend; derivative as a linear operator on value-graph nodes"
    w = ck.world("torch")
    for f in (kernels, coincident, criteria, wrappers, functions, optimiser, densities):
        ck.guard(f.__name__, lambda: f(ck, w), "gpmp")
    ck.guard("differences", lambda: differences(ck, ck.world("numpy")), "gpmp/num/numpy_backend.py")

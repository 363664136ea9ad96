"""Matern covariances: one parameterisation in every calling mode, regularisation on the same-point diagonal only."""
from fractions import Fraction
from sa.prims import finite_inputs
from .common import *

MAT = "gpmp/kernel/matern.py:"
NUM = "gpmp/num:"
REG = Fraction(1, 10 ** 7)


def sp(w, name, *a):
    return spec(w, name, *a, mod="kernel")


def covariance(ck, w, b, p):
    n, d = dim("n"), dim("d")
    x, y, y1 = w.arr("x", "n", "d"), w.arr("y", "m", "d"), w.arr("y1", "n", "d")
    th = w.arr("theta", padd(d, ONE))
    fn, where = "gpmp.kernel:maternp_covariance", MAT + "maternp_covariance"
    l = ops.index(th, [ops.SliceV(1, None, None)])

    def want(dist, *a):
        r = sp(w, dist, l, *a)
        return sp(w, "cov", p, th, r.value)

    for tag, yy, pw, s in (("distinct points", y, False, lambda: want("dist", x, y)),
                           ("distinct points pairwise", y1, True, lambda: want("dist_pairs", x, y1)),
                           ("same points pairwise", x, True, lambda: sp(w, "var", th, x)),
                           ("omitted second argument pairwise", None, True, lambda: sp(w, "var", th, x))):
        def go():
            r = w.call(fn, [x, yy, p, th], dict(pairwise=pw))
            if ck.returns(f"{tag} p={p} {b}", r, where):
                e = s()
                ck.equal(f"{tag} p={p} {b}", w, r.value, e.value, r, e, where)
        ck.guard(f"{tag} p={p} {b}", go, where)
    for tag, yy in (("same points", x), ("omitted second argument", None)):
        def go():
            r = w.call(fn, [x, yy, p, th])
            clause = f"{tag} p={p} {b}"
            if not ck.returns(clause, r, where):
                return
            g, e = w.ten(r), w.ten(want("dist", x, x))
            if g.rank != 2:
                ck.bad(clause, where, f"result has rank {g.rank}")
                return
            i, j = ivar(fresh()), ivar(fresh())
            off = psub(at(g, (i, j)), at(e, (i, j)))
            diag = psub(at(g, (i, i)), at(e, (i, i)))
            # off the diagonal nothing is added; on it a small nonnegative multiple of the variance
            rest = [(m, c) for m, c in off.terms if not any(a.op == "delta" for a, _ in m.factors)]
            o = opaque_in(g)
            if o is not None:
                ck.und(clause, where, "opaque node " + show(atom_poly(o))[:120])
            elif rest:
                ck.bad(clause, where, "off-diagonal entries differ from the cross-covariance by " + show(collect(rest))[:200],
                       "same-point matrix equals the cross-covariance plus a diagonal term")
            else:
                q = pmul(diag, f_exp(pneg(at(th, (ZERO,)))))
                ok, why = small(q)
                ck.require(clause, ok, where, "diagonal term is " + show(diag)[:200] + ": " + why,
                           "diagonal term is a small nonnegative multiple of the variance")
        ck.guard(f"{tag} p={p} {b}", go, where)


def small(q):
    """q is a nonnegative constant no larger than REG (machine epsilon counted as 2.3e-16)."""
    tot = Fraction(0)
    for m, c in q.terms:
        v = c
        for a, e in m.factors:
            if a.op == "eps" and e.const() is not None:
                v *= Fraction(1, 2 ** 52) ** int(e.const()) if e.const().denominator == 1 else Fraction(1, 2 ** 26)
            else:
                return False, "not proportional to the variance"
        tot += v
    if tot < 0:
        return False, "negative"
    if tot > REG:
        return False, "larger than a rounding-level regularisation"
    return True, ""


def kernels(ck, w, b, ps):
    h = w.arr("h", "n")
    for p in ps:
        def go():
            r = w.call("gpmp.kernel:maternp_kernel", [p, h])
            if ck.returns(f"correlation p={p} {b}", r, MAT + "maternp_kernel"):
                e = sp(w, "matern", p, h)
                ck.equal(f"correlation p={p} {b}", w, r.value, e.value, r, e, MAT + "maternp_kernel")
        ck.guard(f"correlation p={p} {b}", go, MAT + "maternp_kernel")
    for f, s, where in (("matern32_kernel", "matern32", MAT), ("exponential_kernel", "expo", "gpmp/kernel/exponential.py:")):
        def go():
            r = w.call("gpmp.kernel:" + f, [h])
            if ck.returns(f"{f} {b}", r, where + f):
                e = sp(w, s, h)
                ck.equal(f"{f} {b}", w, r.value, e.value, r, e, where + f)
        ck.guard(f"{f} {b}", go, where + f)

    def any_p():
        P = w.intp("P")
        r = w.call("gpmp.kernel:maternp_kernel", [P, h])
        e = sp(w, "matern_any", P, h)
        q, d = ck.compare(w, r.value, e.value, r, e)
        (ck.ok if q == "eq" else ck.und)(f"correlation any p {b}", MAT + "maternp_kernel", "" if q == "eq" else "summation order differs",
                                         rule="value graph equals specification")
    ck.guard(f"correlation any p {b}", any_p, MAT + "maternp_kernel")

    def history():
        """The table of log-gamma values may be cached and extended: results do not depend on earlier calls."""
        it = w.it
        st0 = it.st.copy()
        try:
            for p in (1, 3, 0, 2, 5, 1):
                r = w.call("gpmp.kernel:maternp_kernel", [p, h], keep=True)
                e = sp(w, "matern", p, h)
                ck.equal(f"correlation p={p} after other regularities {b}", w, r.value, e.value, r, e, MAT + "maternp_kernel")
        finally:
            it.st = st0
    ck.guard(f"correlation history {b}", history, MAT + "maternp_kernel")


def distances(ck, w, b):
    l, x, y, y1 = w.arr("l", "d"), w.arr("x", "n", "d"), w.arr("y", "m", "d"), w.arr("y1", "n", "d")
    for clause, f, a, s, sa in (("distance", "scaled_distance", (l, x, y), "dist", (l, x, y)),
                                ("distance same object", "scaled_distance", (l, x, x), "dist", (l, x, x)),
                                ("elementwise distance", "scaled_distance_elementwise", (l, x, y1), "dist_pairs", (l, x, y1)),
                                ("elementwise distance same object", "scaled_distance_elementwise", (l, x, x), "dist_pairs", (l, x, x)),
                                ("elementwise distance omitted", "scaled_distance_elementwise", (l, x, None), "dist_pairs", (l, x, x))):
        def go():
            r = w.call("gpmp.num:" + f, a)
            if ck.returns(f"{clause} {b}", r, NUM + f):
                e = sp(w, s, *sa)
                ck.equal(f"{clause} {b}", w, r.value, e.value, r, e, NUM + f)
        ck.guard(f"{clause} {b}", go, NUM + f)


def run(ck):
    thorough = ck.tier == "thorough"
    ck.explanation = ("Value graphs of the kernels, distances and covariances compared with the Matern formula for every calling mode, "
                      "for all points, dimensions and parameters; regularities enumerated and once left symbolic.")
    with finite_inputs():
        for b in BACKENDS:
            w = ck.world(b)
            ck.guard(f"distances {b}", lambda: distances(ck, w, b))
            ck.guard(f"kernels {b}", lambda: kernels(ck, w, b, range(0, 13 if thorough else 9)))
            for p in (range(0, 7) if thorough else (0, 1, 2, 4)):
                ck.guard(f"covariance p={p} {b}", lambda: covariance(ck, w, b, p))

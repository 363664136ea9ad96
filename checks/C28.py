"""Starting values, empirical bounds and length-scale floors from the data."""
from sa.prims import finite_inputs
from sa.world import Res
from .common import *
from .C10 import Setup, At

K = "gpmp.kernel:"
INI = "gpmp/kernel/init.py:"
sp = lambda w, n, *a: spec(w, n, *a, mod="init")


def wmean(w, s, f):
    """Average of f over the data parts, weighted by their sizes."""
    parts = s.parts()
    if parts[0][0] is None:
        return f(parts[0][1], parts[0][2])
    tot = None
    for wt, x, z in parts:
        t = f(x, z)
        u = ops.elementwise(lambda q: pmul(num(Fraction(wt, 3)), q), t)
        tot = u if tot is None else ops.elementwise(padd, tot, u)
    return tot


def guesses(ck, w, b):
    for loader in (False, True):
        tag = (" from a loader" if loader else "") + " " + b
        for mt, fn in (("zero", "anisotropic_parameters_initial_guess_zero_mean"),
                       ("linear_predictor", "anisotropic_parameters_initial_guess"),
                       ("parameterized", "anisotropic_parameters_initial_guess_constant_mean")):
            def one():
                s = Setup(w, mt, loader)
                r = w.call(K + fn, [s.m], s.data)
                lab = f"{fn}{tag}"
                if not ck.returns(lab, r, INI + fn):
                    return
                ten = lambda n, *a: w.ten(sp(w, n, *a))
                if mt == "zero":
                    s2 = wmean(w, s, lambda x, z: ten("guess_zero", s.k, s.xi, x, z, 2))
                elif mt == "linear_predictor":
                    s2 = wmean(w, s, lambda x, z: ten("guess_lin", s.k, s.mu, s.mp, s.xi, x, z, 2))
                else:
                    s2 = wmean(w, s, lambda x, z: ten("guess_const_var", s.k, s.xi, x, z, 2))
                cov = sp(w, "pack", s2, s.xi, 2)
                if mt == "parameterized":
                    m = wmean(w, s, lambda x, z: ten("guess_const_mean", s.k, s.xi, x, z, 2))
                    m = ops.expand(m, 0)
                    ck.equal(lab, w, r.value, (m, w.ten(cov)), r, None, INI + fn)
                else:
                    ck.equal(lab, w, r.value, cov.value, r, cov, INI + fn)
            ck.guard(f"{fn}{tag}", one, INI + fn)


SELECT = ("nz", "nnz")


def soft_equal(ck, clause, w, got, want, rg, rw, where):
    """Equality; a difference counts only when both sides select the same elements."""
    r, d = ck.compare(w, got, want, rg, rw)
    if r == "diff":
        try:
            sets = [{key(a) for a in walk_atoms(w.ten(q, v)) if a.op in SELECT} for q, v in ((rg, got), (rw, want))]
        except Unsup:
            sets = [1, 2]
        if sets[0] != sets[1]:
            ck.und(clause, where, "the selected elements are written differently")
            return
        ck.bad(clause, where, d, "value graph")
        return
    if r == "und":
        ck.und(clause, where, d)
    else:
        ck.ok(clause, where, "value graph")


def bounds(ck, w, b):
    n = padd(dim("n"), ONE)
    xi, zi = w.arr("xi", n, 2), w.arr("zi", n)
    col = lambda j: ops.index(xi, [ops.SliceV(None, None, None), j])
    lo, hi, lf = w.scal("lo"), w.scal("hi"), w.scal("lf")
    fn = "empirical_bounds_factory"
    where = "gpmp/kernel/bounds.py:" + fn
    inf = atom_poly(Atom("inf", ()))
    sc = lambda p: Ten((), (), p, False, ("np", "f"))
    for nm in (0, 2):
        for kw, (a, c, f) in ((dict(var_lower_factor=lo, var_upper_factor=hi, length_lower_factor=lf), (lo, hi, lf)),
                              ({}, (2, 10, 2))):
            lab = f"bounds with {nm} mean parameters{'' if kw else ', default factors'} {b}"

            def one():
                with finite_inputs(), ops.some_selected():
                    r = w.call(K + fn, [xi, zi], dict(kw, mean_paramlength=nm))
                    if not ck.returns(lab, r, where):
                        return
                    t = w.ten(r)
                    if t.rank != 2 or t.dims[0] is None or t.dims[0].const() != nm + 3:
                        ck.bad(lab, where, f"shape of the bounds: {[show(d) for d in t.dims if d is not None]}", "shape")
                        return
                    v = sp(w, "var_bounds", zi, a, c)
                    rows = [(sc(pneg(inf)), sc(inf))] * nm + [tuple(w.ten(v, q) for q in w.items(v))]
                    for j in range(2):
                        rows.append((sc(pneg(inf)), w.ten(sp(w, "gap_upper", col(j), f))))
                    for i, row in enumerate(rows):
                        for q in (0, 1):
                            soft_equal(ck, f"entry ({i},{q}), {lab}", w, ops.index(t, [i, q]), row[q], r, r, where)
            ck.guard(lab, one, where)
    fn = "compute_logrho_min_from_xi"
    where = "gpmp/kernel/prior_helpers.py:" + fn
    for kw, f in ((dict(prior_rho_min_range_factor=lf), lf), ({}, Fraction(1, 20))):
        lab = f"length-scale floor{'' if kw else ', default factor'} {b}"

        def two():
            with finite_inputs(), ops.some_selected():
                r = w.call(K + fn, [xi], kw)
                if not ck.returns(lab, r, where):
                    return
                t = w.ten(r)
                for j in range(2):
                    fv = f if isinstance(f, Ten) else sc(num(f))
                    e = sp(w, "floor_both", col(j), fv)
                    soft_equal(ck, f"component {j}, {lab}", w, ops.index(t, [j]), w.ten(e), r, r, where)
        ck.guard(lab, two, where)


def ordered(ck, w, b):
    """Three or four points of known order, given in every order, gaps arbitrary."""
    from itertools import permutations
    it = w.it
    s, u, v = (w.scal(q).body for q in ("s", "u", "v"))
    p = [s, padd(s, f_exp(u)), padd(padd(s, f_exp(u)), f_exp(v))]
    fac = w.scal("lf")
    orders = [(o, f"order {''.join(map(str, o))}") for o in permutations(range(3))] + [((1, 0, 1, 2), "repeated point"), ((2, 1, 0, 1), "repeated point 2"), ((1, 1), "one distinct point")]
    for o, name in orders:
        x = ops.stack([Ten((), (), p[i], False, (w.L, "f")) for i in o], 0)
        xi = ops.expand(x, 1)
        z = w.arr("zi", num(len(o)))
        for fn, mod, spec_, pick in (("empirical_bounds_factory", "kernel/bounds.py", "gap_upper", lambda t: ops.index(t, [1, 1])),
                                     ("compute_logrho_min_from_xi", "kernel/prior_helpers.py", "floor_both", lambda t: ops.index(t, [0]))):
            lab = f"{fn} {name} {b}"
            where = f"gpmp/{mod}:{fn}"

            def one():
                with finite_inputs():
                    if fn.startswith("emp"):
                        r = w.call(K + fn, [xi, z], dict(length_lower_factor=fac))
                    else:
                        r = w.call(K + fn, [xi], dict(prior_rho_min_range_factor=fac))
                    if not ck.returns(lab, r, where):
                        return
                    if len(set(o)) == 1:
                        inf = atom_poly(Atom("inf", ()))
                        e = Res(Ten((), (), inf if fn.startswith("emp") else pneg(inf), False, (w.L, "f")), [], it.st)
                    else:
                        e = sp(w, spec_, x, fac)
                    soft_equal(ck, lab, w, pick(w.ten(r)), w.ten(e), r, e, where)
            ck.guard(lab, one, where)


def run(ck):
    ck.explanation = ("Value graphs of the starting values for the three mean types (arrays and loader), of the empirical bounds and of the "
                      "length-scale floors, compared with their formulas for symbolic data; spacing-based quantities in the scenario "
                      "of finite points with at least one positive gap.")
    each(ck, "starting values", lambda w, b: guesses(ck, w, b), INI + "anisotropic_parameters_initial_guess")
    each(ck, "ordered points", lambda w, b: ordered(ck, w, b), "gpmp/kernel/bounds.py:empirical_bounds_factory")
    each(ck, "bounds", lambda w, b: bounds(ck, w, b), "gpmp/kernel/bounds.py:empirical_bounds_factory")

"""C29: model diagnosis reports the moments, quantiles, bounds and scales it names."""
from .common import *
from .C09 import py
from .C23 import Record
from sa import terms as T
from sa.prims import INF, finite_inputs

UD = "gpmp/modeldiagnosis/un1ddist.py:Unnormalized1DDistribution"
PS = "gpmp/modeldiagnosis/param_stats.py:"
RE = "gpmp/modeldiagnosis/report.py:"
UT = "gpmp/modeldiagnosis/utils.py:"
DIST = "gpmp.modeldiagnosis.un1ddist:Unnormalized1DDistribution"
QUANT = (Fraction(1, 10), Fraction(1, 4), Fraction(1, 2), Fraction(3, 4), Fraction(9, 10))


def num_py(v):
    """A Python number."""
    return Ten((), (), v if isinstance(v, Poly) else num(Fraction(v)), False, ("py", "f"))


def f_div(a, b):
    return pmul(a, ppow(b, num(-1)))


def same(a, b):
    """Equal as rational functions."""
    d = renorm(psub(a, b))
    return not d.terms or not T.clear_denominators(d).terms


def coeffs(p, x):
    """Coefficients of a polynomial in the symbol x: {power: Poly}, or None."""
    out = {}
    for m, c in p.terms:
        k, rest = 0, num(c)
        for f, e in m.factors:
            if key(f) == key(x):
                e = e.const()
                if e is None or e < 0 or e != int(e):
                    return None
                k += int(e)
            else:
                if any(key(a) == key(x) for a in walk_atoms(atom_poly(f))):
                    return None
                rest = pmul(rest, ppow(atom_poly(f), e))
        out[k] = padd(out.get(k, ZERO), rest)
    return out


class Integrals:
    """Stands for scipy.integrate.quad: integrals of x^k w(x) over (lo, hi), linear in the integrand."""

    def __init__(self, w, ck=None, total=None):
        self.w, self.level, self.total, self.calls, self.bad = w, 0, total, 0, []

    def __enter__(self):
        self.w.it.intercept["scipy.integrate.quad"] = self.quad
        return self

    def __exit__(self, *a):
        self.w.it.intercept.pop("scipy.integrate.quad", None)

    def moment(self, k, lo, hi):
        return atom_poly(Atom("moment", (num(k), lo, hi)))

    def at(self, it, f, x, level):
        keep, self.level = self.level, level
        try:
            return as_ten(it, it.call(f, [x], {})).body
        finally:
            self.level = keep

    def quad(self, it, name, args, kw):
        self.calls += 1
        f, lo, hi = args[0], as_ten(it, args[1]).body, as_ten(it, args[2]).body
        if self.total is not None:
            return (num_py(self.total), num_py(0))
        x = sym("in:abscissa")
        X = x.terms[0][0].factors[0][0]
        p = self.at(it, f, num_py(x), 0)
        c = coeffs(p, X)
        if c is None:
            raise Unsup("integrand")
        for lv in (-1, 2):
            if not peq(renorm(self.at(it, f, num_py(x), lv)), renorm(pmul(p, f_un("exp", num(lv))))):
                self.bad.append("the integrand is not proportional to exp(log_pdf)")
        out = ZERO
        for k, v in c.items():
            out = padd(out, pmul(v, self.moment(k, lo, hi)))
        return (num_py(out), num_py(0))

    def log_pdf(self):
        """A log density equal to the current level everywhere."""
        return UF("log_pdf", lambda it, a, k: num_py(self.level))


def distribution(ck, w, b):
    it = w.it
    A_, B_ = num(-2), num(3)
    bounds = (num_py(-2), num_py(3))
    Q = Integrals(w)

    def make(q):
        with q:
            return w.call(DIST, [q.log_pdf(), bounds], keep=True)
    r = make(Q)
    if not ck.returns(f"construction {b}", r, UD):
        return
    if not Q.calls:
        return ck.und(f"construction {b}", UD, "not built on scipy.integrate.quad")
    o = r.value
    m = lambda k: Q.moment(k, A_, B_)
    z = lambda p: num_py(renorm(p))

    def meth(name, args, want, lab=None, kw=None):
        where = f"{UD}.{name}"
        lab = f"{lab or name} {b}"

        def one():
            with Q:
                r = w.call(it.getattr(o, name), args, kw)
            if ck.returns(lab, r, where):
                ck.equal(lab, w, r.value, num_py(want), r, None, where, "moments of the density proportional to exp(log_pdf)")
        ck.guard(lab, one, where)
    meth("mean", [], f_div(m(1), m(0)))
    meth("var", [], psub(f_div(m(2), m(0)), ppow(f_div(m(1), m(0)), num(2))))
    meth("cdf", [num_py(1)], f_div(Q.moment(0, A_, num(1)), m(0)), "cdf inside")
    for x, v in ((-2, 0), (-5, 0), (3, 1), (7, 1)):
        meth("cdf", [num_py(x)], num(v), f"cdf({x})")

    def dens():
        for name, div in (("f", None), ("pdf", m(0))):
            for lv in (0, -1):
                Q.level = lv
                with Q:
                    r = w.call(it.getattr(o, name), [it.mklist([num_py(0), num_py(1)])])
                Q.level = 0
                lab = f"{name} {lv} {b}"
                if ck.returns(lab, r, f"{UD}.{name}"):
                    v = f_un("exp", num(lv)) if lv else ONE
                    v = v if div is None else f_div(v, div)
                    ck.equal(lab, w, r.value, ops.mk((num(2),), lambda i: v, False, (w.L, "f")), r, None, f"{UD}.{name}", "density")
    ck.guard(f"density {b}", dens, UD + ".pdf")

    def quantile():
        where = UD + ".quantile"
        p = sym("in:level")
        for pv in (Fraction(1, 10), Fraction(3, 4)):
            got = {}

            def root(it, name, args, kw):
                got["bounds"] = (as_ten(it, args[1]).body, as_ten(it, args[2]).body)
                for t in (-2, 1, 3):
                    got[t] = as_ten(it, it.call(args[0], [num_py(t)], {})).body
                return num_py(sym("in:root"))
            it.intercept["scipy.optimize.brentq"] = root
            try:
                with Q:
                    r = w.call(it.getattr(o, "quantile"), [num_py(pv)])
            finally:
                it.intercept.pop("scipy.optimize.brentq", None)
            lab = f"quantile {pv} {b}"
            if not ck.returns(lab, r, where):
                continue
            if not got:
                ck.und(lab, where, "not computed with scipy.optimize.brentq")
                continue
            ck.equal(lab + ": value", w, r.value, num_py(sym("in:root")), r, None, where, "the root found")
            ck.require(lab + ": interval", peq(got["bounds"][0], A_) and peq(got["bounds"][1], B_), where, "the root is not searched between the bounds", "root bracket")
            want = {-2: num(-pv), 3: num(1 - pv), 1: psub(f_div(Q.moment(0, A_, num(1)), m(0)), num(pv))}
            sign = 1 if peq(renorm(got[-2]), want[-2]) else -1
            ok = all(peq(renorm(got[t]), renorm(pscale(v, sign))) for t, v in want.items())
            ck.require(lab + ": equation", ok, where, "the equation solved is not cdf(x) = p", "root equation")
        for pv in (0, 1, -1, 2):
            with Q:
                r = w.call(it.getattr(o, "quantile"), [num_py(pv)])
            ck.require(f"quantile({pv}) rejected {b}", not r.returned, where, "a level outside (0, 1) is accepted", "exception flow")
    ck.guard(f"quantile {b}", quantile, UD + ".quantile")

    def rejected():
        inf = as_ten(it, float("inf"))
        for lab, bd, tot in (("a > b", (num_py(3), num_py(-2)), None), ("a = b", (num_py(1), num_py(1)), None), ("Z = 0", bounds, 0), ("Z < 0", bounds, -1)):
            q = Integrals(w, total=tot)
            with q:
                r = w.call(DIST, [q.log_pdf(), bd])
            ck.require(f"construction with {lab} rejected {b}", not r.returned, UD + ".__init__", "no exception", "exception flow")
    ck.guard(f"rejected arguments {b}", rejected, UD)
    ck.require(f"integrands {b}", not Q.bad, UD, "; ".join(Q.bad[:2]), "integrand proportional to exp(log_pdf)")


def trapezoid_stats(ck, w, b):
    """Grid summaries on four points."""
    it, where = w.it, PS + "fast_univariate_stats"
    for vals, lo, hi in (((1, 0, 2, 1), sym("in:lo"), sym("in:hi")), ((5, 6, 3, 4), sym("in:lo"), sym("in:hi")), ((2, 3, 4, 0), sym("in:lo"), sym("in:hi")),
                         ((2, 0, 1, 3), num(-1), num(2))):
        lab = f"fast_univariate_stats {vals}{'' if lo.const() is None else ' given interval'} {b}"

        def one():
            n = [0]
            asked = []

            def f(it, args, kw):
                asked.append(as_ten(it, args[0]).body)
                n[0] += 1
                return Ten((), (), num(vals[(n[0] - 1) % 4]), False, (w.L, "f"))
            with finite_inputs():
                r = w.call("gpmp.modeldiagnosis.param_stats:fast_univariate_stats", [UF("criterion", f), num_py(lo), num_py(hi)], dict(n_points=Ten((), (), num(4), False, ("py", "i"))))
            if not ck.returns(lab, r, where):
                return
            xs = [padd(lo, pscale(psub(hi, lo), Fraction(k, 3))) for k in range(4)]
            ck.require(lab + ": grid", len(asked) == 4 and all(peq(renorm(a), renorm(x)) for a, x in zip(asked, xs)) if len(asked) == 4 else None, where,
                       "the function is not evaluated on the regular grid", "evaluation points")
            out = w.items(r)
            if out is None or len(out) != 4:
                return ck.bad(lab, where, "not (mean, variance, quantiles, mode)", "result")
            h = pscale(psub(hi, lo), Fraction(1, 3))

            def tz(ys):
                s = ZERO
                for i in range(3):
                    s = padd(s, pscale(pmul(h, padd(ys[i], ys[i + 1])), Fraction(1, 2)))
                return s
            wants = []
            for shift in (min(vals), 0):
                ws = [f_un("exp", num(shift - v)) if v != shift else ONE for v in vals]
                Z = tz(ws)
                mean = f_div(tz([pmul(a, c) for a, c in zip(xs, ws)]), Z)
                m2 = f_div(tz([pmul(pmul(a, a), c) for a, c in zip(xs, ws)]), Z)
                wants.append((mean, psub(m2, ppow(mean, num(2)))))
            ck.equal_any(lab + ": mean", w, out[0], [(num_py(m), None) for m, _ in wants], r, where, "trapezoidal mean of exp(-criterion)")
            ck.equal_any(lab + ": variance", w, out[1], [(num_py(v), None) for _, v in wants], r, where, "trapezoidal variance of exp(-criterion)")
            ck.equal(lab + ": mode", w, out[3], num_py(xs[vals.index(min(vals))]), r, None, where, "grid point of the smallest criterion")
            s, it.st = it.st, r.st
            try:
                d = it.st.heap.get(out[2]) if isinstance(out[2], Obj) else None
                d = dict(d) if isinstance(d, dict) else None
            finally:
                it.st = s
            if d is None:
                return ck.und(lab + ": quantiles", where, "not a dictionary")
            ck.require(lab + ": quantile names", set(d) == {"0.1", "0.25", "0.5", "0.75", "0.9"}, where, f"keys {sorted(map(str, d))}", "keys")
            for q in QUANT:
                k = str(float(q))
                if k not in d:
                    continue
                t = w.ten(r, d[k])
                ip = [a for a in walk_atoms(t.body) if a.op == "interp"]
                if len(ip) != 1 or not peq(t.body, atom_poly(ip[0])):
                    ck.und(f"{lab}: quantile {k}", where, "not an interpolation of the cumulative integral")
                    continue
                xp, fp, p = ip[0].args
                okp = peq(p, num(q))
                okx = [d.const() for d in fp.dims] == [4] and all(peq(renorm(at(fp, (num(i),))), renorm(xs[i])) for i in range(4))
                okc = None
                if [d.const() for d in xp.dims] == [4]:
                    okc = False
                    for shift in (min(vals), 0):
                        ws = [f_un("exp", num(shift - v)) if v != shift else ONE for v in vals]
                        Z, acc, good = tz(ws), ZERO, True
                        for i in range(4):
                            if i:
                                acc = padd(acc, pscale(pmul(h, padd(ws[i - 1], ws[i])), Fraction(1, 2)))
                            g = at(xp, (num(i),))
                            good = good and same(g, f_div(acc, Z))
                        okc = okc or good
                ck.require(f"{lab}: quantile {k}", okp and okx and okc if okc is not None else None, where, "not the inverse of the cumulative trapezoidal integral at that level",
                           "interpolation of the cumulative integral")
        ck.guard(lab, one, where)


def frozen(ck, w, b):
    it, where = w.it, PS + "make_single_param_criterion_function"
    cp = w.arr("covparam", 3)
    for j in range(3):
        seen = []

        def f(it, args, kw):
            seen.append(it.V(it.resolve(args[0])))
            return S(sym("in:crit"), "f", w.L)

        def one():
            r = w.call("gpmp.modeldiagnosis.param_stats:make_single_param_criterion_function", [UF("criterion", f), cp, Ten((), (), num(j), False, ("py", "i"))], keep=True)
            if not ck.returns(f"frozen parameters {j} {b}", r, where):
                return
            for v in ("u", "v"):
                r2 = w.call(r.value, [num_py(sym("in:" + v))], keep=True)
                if not ck.returns(f"frozen parameters {j} {b}", r2, where) or not seen:
                    return
                ck.require(f"frozen parameters: entry {j} at {v} {b}", all(peq(at(seen[-1], (num(i),)), sym("in:" + v) if i == j else at(cp, (num(i),))) for i in range(3)), where,
                           "the criterion is not evaluated at the reference with one entry replaced", "argument of the criterion")
                ck.equal(f"frozen parameters {j}: value {b}", w, r2.value, S(sym("in:crit"), "f", w.L), r2, None, where)
        ck.guard(f"frozen parameters {j} {b}", one, where)


def model_stub(w, seen):
    it = w.it

    def fisher(it, args, kw):
        seen.append(dict(zip(("xi", "covparam", "epsilon"), args), **kw))
        return w.arr("FISHER", 2, 2)
    return it.new("inst", dict(fisher_information=UF("fisher_information", fisher)), None, "Model")


def table_of(ck, w, r, lab, where):
    it = w.it
    s, it.st = it.st, r.st
    try:
        d = it.getitem(r.value, "parameter_statistics")
        f = it.getitem(r.value, "fisher_information")
        rn, cn, t = it.to_list(it.getattr(d, "rownames")), it.to_list(it.getattr(d, "colnames")), it.getattr(d, "data")
        return rn, cn, w.ten(r, t), f
    finally:
        it.st = s


COLS = ["mean", "variance", "quantile_0.1", "quantile_0.25", "quantile_0.5", "quantile_0.75", "quantile_0.9", "mode"]


def statistics_table(ck, w, b):
    it = w.it
    xi = w.arr("xi", "n", "d")
    one3 = lambda *v: ops.stack([Ten((), (), num(x), False, (w.L, "f")) for x in v], 0)
    cp = one3(1, -2, 4)
    box = ops.stack([ops.stack([Ten((), (), num(v), False, ("np", "f")) for v in row], 0) for row in ((-3, -7, 0), (2, 5, 9))], 0)
    crit = UF("criterion", lambda it, a, k: S(atom_poly(Atom("crit", tuple(at(as_ten(it, a[0]), (num(i),)) for i in range(3)))), "f", w.L))
    iv = lambda k: Ten((), (), num(k), False, ("py", "i"))

    def expected(rows, lab, where, got, cols=COLS):
        rn, cn, t, f = got
        ck.require(lab + ": names", rn == [f"param_{j}" for j in rows] and cn == cols, where, f"rows {rn}, columns {cn}", "names of the table")
        return t, f

    for ind in (None, (2, 0)):
        for bx in (None, box):
            rows = list(range(3)) if ind is None else list(ind)
            lims = {j: ((-3, 2), (-7, 5), (0, 9))[j] if bx is not None else ((1, -2, 4)[j] - 5, (1, -2, 4)[j] + 5) for j in rows}
            kw = dict(selection_criterion=crit, covparam=cp, xi=xi)
            if ind is not None:
                kw["ind"] = it.mklist([iv(k) for k in ind])
            if bx is not None:
                kw["param_box"] = bx

            def fast():
                name, where = "selection_criterion_statistics_fast", PS + "selection_criterion_statistics_fast"
                lab = f"{name} ind={ind} {'box' if bx is not None else 'delta'} {b}"
                seen, calls = [], []

                def stats(it, kw):
                    k = len(calls)
                    calls.append(kw)
                    s = lambda nm: num_py(sym(f"in:{nm}{k}"))
                    st, it2 = it.st.copy(), None
                    kw["probe"] = as_ten(it, it.call(kw["single_param_fn"], [num_py(sym("in:t"))], {})).body
                    d = it.new("dict", {str(float(q)): s(f"q{q.numerator}_{q.denominator}_") for q in QUANT})
                    return (s("mean"), s("var"), d, s("mode"))
                with Record(w, "gpmp.modeldiagnosis.param_stats:fast_univariate_stats", ("single_param_fn", "lower_bound", "upper_bound", "n_points"), stats):
                    r = w.call("gpmp.modeldiagnosis.param_stats:" + name, [], dict(kw, model=model_stub(w, seen)))
                if not ck.returns(lab, r, where):
                    return
                if len(calls) != len(rows):
                    return ck.und(lab, where, "summaries not computed by fast_univariate_stats")
                t, f = expected(rows, lab, where, table_of(ck, w, r, lab, where))
                for k, j in enumerate(rows):
                    c = calls[k]
                    ck.require(f"{lab}: interval of parameter {j}", peq(as_ten(it, c["lower_bound"]).body, num(lims[j][0])) and peq(as_ten(it, c["upper_bound"]).body, num(lims[j][1])),
                               where, "not the requested interval", "arguments of the summary")
                    want = atom_poly(Atom("crit", tuple(sym("in:t") if i == j else num((1, -2, 4)[i]) for i in range(3))))
                    ck.require(f"{lab}: profile of parameter {j}", peq(c["probe"], want), where, "the summarised function does not vary that parameter alone", "arguments of the summary")
                    vals = [sym(f"in:{nm}{k}") for nm in ["mean", "var"] + [f"q{q.numerator}_{q.denominator}_" for q in QUANT] + ["mode"]]
                    ck.require(f"{lab}: row of parameter {j}", t.rank == 2 and all(peq(at(t, (num(k), num(c))), v) for c, v in enumerate(vals)), where,
                               "the row does not hold the summaries under their columns", "data under the names")
                fisher(lab, where, seen, f)

            def fisher(lab, where, seen, f):
                if len(seen) != 1:
                    return ck.und(lab + ": Fisher information", where, "not obtained from the model")
                ck.require(lab + ": Fisher information", seen[0].get("xi") is not None and ck.compare(w, seen[0]["xi"], xi)[0] == "eq" and
                           ck.compare(w, seen[0].get("covparam"), cp)[0] == "eq" and ck.compare(w, f, w.arr("FISHER", 2, 2))[0] == "eq", where,
                           "not the Fisher information of the model at xi and covparam", "arguments and result")

            def full():
                name, where = "selection_criterion_statistics", PS + "selection_criterion_statistics"
                lab = f"{name} ind={ind} {'box' if bx is not None else 'delta'} {b}"
                for success in (True, False):
                    seen, mins = [], []
                    Q = Integrals(w)
                    lev = UF("criterion", lambda it, a, k: Ten((), (), num(-Q.level), False, (w.L, "f")))

                    def root(it, nm, args, kw):
                        p = pscale(as_ten(it, it.call(args[0], [args[1]], {})).body, -1)
                        return num_py(atom_poly(Atom("root", (p, as_ten(it, args[1]).body, as_ten(it, args[2]).body))))

                    def minimise(it, nm, args, kw):
                        a = dict(zip(("fun", "bracket", "bounds"), args), **kw)
                        mins.append(a)
                        a["probe"] = as_ten(it, it.call(a["fun"], [num_py(2)], {})).body
                        return it.new("inst", dict(x=num_py(sym(f"in:min{len(mins) - 1}")), fun=num_py(0), success=success), None, "OptimizeResult")
                    it.intercept["scipy.optimize.brentq"], it.intercept["scipy.optimize.minimize_scalar"] = root, minimise
                    try:
                        with Q:
                            r = w.call("gpmp.modeldiagnosis.param_stats:" + name, [], dict(kw, selection_criterion=lev, model=model_stub(w, seen)))
                    finally:
                        it.intercept.pop("scipy.optimize.brentq", None)
                        it.intercept.pop("scipy.optimize.minimize_scalar", None)
                    l2 = f"{lab} success={success}"
                    if not ck.returns(l2, r, where):
                        continue
                    if not Q.calls or len(mins) != len(rows):
                        ck.und(l2, where, "not built on the known integration and optimisation routines")
                        continue
                    t, f = expected(rows, l2, where, table_of(ck, w, r, l2, where))
                    for k, j in enumerate(rows):
                        lo, hi = map(num, lims[j])
                        m = lambda q: Q.moment(q, lo, hi)
                        vals = [f_div(m(1), m(0)), psub(f_div(m(2), m(0)), ppow(f_div(m(1), m(0)), num(2)))]
                        vals += [atom_poly(Atom("root", (num(q), lo, hi))) for q in QUANT]
                        vals.append(sym(f"in:min{k}") if success else num((1, -2, 4)[j]))
                        for c, v in enumerate(vals):
                            g = at(t, (num(k), num(c)))
                            ck.require(f"{l2}: {COLS[c]} of parameter {j}", same(g, v), where,
                                       f"{COLS[c]} is {show(g)[:200]}", "data under the names")
                    fisher(l2, where, seen, f)
            ck.guard(f"fast statistics ind={ind} {bx is not None} {b}", fast, PS + "selection_criterion_statistics_fast")
            ck.guard(f"statistics ind={ind} {bx is not None} {b}", full, PS + "selection_criterion_statistics")


def scales(ck, w, b):
    it = w.it

    def extract():
        where = UT + "sigma_rho_from_covparam"
        cp = w.arr("covparam", 4)
        r = w.call("gpmp.modeldiagnosis.utils:sigma_rho_from_covparam", [cp])
        if not ck.returns(f"sigma_rho_from_covparam {b}", r, where):
            return
        d = r.st.heap.get(r.value) if isinstance(r.value, Obj) else None
        if not isinstance(d, dict):
            return ck.und(f"sigma_rho_from_covparam {b}", where, "not a dictionary")
        want = {"sigma": f_un("exp", pscale(at(cp, (ZERO,)), Fraction(1, 2)))}
        want.update({f"rho{i}": f_un("exp", pscale(at(cp, (num(i + 1),)), -1)) for i in range(3)})
        ck.require(f"sigma_rho_from_covparam: keys {b}", set(d) == set(want), where, f"keys {sorted(map(str, d))}", "keys")
        for k, v in want.items():
            if k in d:
                ck.equal(f"sigma_rho_from_covparam: {k} {b}", w, d[k], S(v, "f", w.L), r, None, where)
    ck.guard(f"sigma_rho_from_covparam {b}", extract, UT + "sigma_rho_from_covparam")

    def describe():
        where = UT + "describe_array"
        for lab, x, fac in (("vector", w.arr("x", 3), None), ("vector, factor", w.arr("x", 3), num_py(sym("in:fac"))), ("matrix, factors", w.arr("x", 3, 2), w.arr("fac", 2, L="np")),
                            ("matrix, factor", w.arr("x", 3, 2), num_py(sym("in:fac")))):
            l = f"describe_array {lab} {b}"
            d = 1 if x.rank == 1 else 2
            r = w.call("gpmp.modeldiagnosis.utils:describe_array", [x, it.mklist([f"v{j}" for j in range(d)])] + ([fac] if fac is not None else []))
            if not ck.returns(l, r, where):
                continue
            s, it.st = it.st, r.st
            try:
                rn, cn, t = it.to_list(it.getattr(r.value, "rownames")), it.to_list(it.getattr(r.value, "colnames")), w.ten(r, it.getattr(r.value, "data"))
            finally:
                it.st = s
            cols = ["min", "max", "delta", "mean", "std"] + (["delta_over_sigma"] if fac is not None else [])
            ck.require(l + ": names", rn == [f"v{j}" for j in range(d)] and cn == cols, where, f"rows {rn}, columns {cn}", "names of the table")
            for j in range(d):
                e = [at(x, (num(i),) if d == 1 else (num(i), num(j))) for i in range(3)]
                hi, lo = f_max(f_max(e[0], e[1]), e[2]), f_min(f_min(e[0], e[1]), e[2])
                mean = pscale(padd(padd(e[0], e[1]), e[2]), Fraction(1, 3))
                var = pscale(padd(padd(*(ppow(psub(v, mean), num(2)) for v in e[:2])), ppow(psub(e[2], mean), num(2))), Fraction(1, 3))
                want = [lo, hi, psub(hi, lo), mean, ppow(var, num(Fraction(1, 2)))]
                if fac is not None:
                    want.append(pmul(psub(hi, lo), fac.body if fac.rank == 0 else at(fac, (num(j),))))
                for c, v in enumerate(want):
                    ck.equal(f"{l}: {cols[c]} of column {j}", w, num_py(at(t, (num(j), num(c)))), num_py(v), r, None, where, "data under the names")
        r = w.call("gpmp.modeldiagnosis.utils:describe_array", [w.arr("x", 3, 2), it.mklist(["a", "b"]), w.arr("fac", 3, L="np")])
        ck.require(f"describe_array: factors of another length rejected {b}", not r.returned, where, "accepted", "exception flow")
    ck.guard(f"describe_array {b}", describe, UT + "describe_array")


def report(ck, w, b):
    it = w.it
    fl = lambda v: Ten((), (), num(v) if not isinstance(v, Poly) else v, False, (w.L, "f"))

    def info(bounds=None):
        crit = UF("criterion", lambda it, a, k: S(atom_poly(Atom("crit", (w.param(it, a[0]),))), "f", w.L))
        d = dict(success=True, best_value_returned=True, nfev=Ten((), (), num(17), False, ("py", "i")), total_time=num_py(sym("in:time")), selection_criterion=crit,
                 initial_params=w.arr("start", 3), fun=num_py(sym("in:fun")))
        if bounds is not None:
            d["bounds"] = bounds
        return it.new("inst", d, None, "OptimizeResult")

    def model(mp):
        return it.new("inst", dict(covparam=w.arr("covparam", 3), meanparam=mp), None, "Model")
    inf = lambda s: as_ten(it, float("inf") * s)

    def mat(rows):
        return ops.stack([ops.stack([fl(v) if not isinstance(v, Ten) else ops.with_tag(v, w.L, "f") for v in r], 0) for r in rows], 0)
    B = [[-1, 2], [-3, inf(1)], [inf(-1), inf(1)]]

    def init():
        where = RE + "modeldiagnosis_init"
        for lab, mp, bd in (("no bounds", None, None), ("bounds", None, B), ("bounds with mean parameters", w.arr("meanparam", 2), [[-8, 8], [-9, 9]] + B)):
            l = f"modeldiagnosis_init {lab} {b}"
            inf_ = info(mat(bd) if bd else None)
            r = w.call("gpmp.modeldiagnosis.report:modeldiagnosis_init", [model(mp), inf_], keep=True)
            if not ck.returns(l, r, where):
                continue
            ps = it.getitem(r.value, "param_selection")
            start = w.arr("start", 3)
            want = dict(cvg_reached=True, n_evals=Ten((), (), num(17), False, ("py", "i")), time=num_py(sym("in:time")), final_val=num_py(sym("in:fun")),
                        initial_val=S(atom_poly(Atom("crit", (w.param(it, start),))), "f", w.L))
            for k, v in want.items():
                try:
                    g = it.getitem(ps, k)
                except Exception:      # noqa
                    ck.bad(f"{l}: {k}", where, "entry missing", "entries of the report")
                    continue
                ck.equal(f"{l}: {k}", w, g, v, r, None, where, "entries of the report")
            pars = it.getitem(r.value, "parameters")
            d = it.st.heap.get(pars)
            cp = w.arr("covparam", 3)
            vals = [f_un("exp", at(cp, (ZERO,)))] + [f_un("exp", pscale(at(cp, (num(k),)), -1)) for k in (1, 2)]
            if isinstance(d, dict):
                ck.require(f"{l}: number of parameters", len(d) == 3, where, f"{len(d)} parameters", "entries of the report")
                for (k, g), v in zip(d.items(), vals):
                    ck.equal(f"{l}: parameter {k}", w, g, num_py(v), r, None, where, "natural value of the parameter")
            po = it.getitem(r.value, "param_obj")
            bs = it.to_list(it.getattr(po, "bounds"))
            if bs is None:
                ck.und(f"{l}: bounds", where, "not a list")
                continue
            for k in range(3):
                g = bs[k]
                if bd is None or k == 2:
                    ck.require(f"{l}: bounds of covariance parameter {k}", g is None, where, f"{str(g)[:100]} instead of None", "bounds projected on the parameters")
                else:
                    lo, hi = B[k]
                    ck.equal(f"{l}: bounds of covariance parameter {k}", w, g, (num_py(lo), hi if isinstance(hi, Ten) else num_py(hi)), r, None, where, "bounds projected on the parameters")
        r = w.call("gpmp.modeldiagnosis.report:modeldiagnosis_init", [model(None), info()], dict(model_type="other"))
        ck.require(f"modeldiagnosis_init: unknown model type rejected {b}", not r.returned, where, "accepted", "exception flow")
    ck.guard(f"modeldiagnosis_init {b}", init, RE + "modeldiagnosis_init")

    def disp():
        """The data ranges are compared with the standard deviation and the lengthscales of the model."""
        where = RE + "model_diagnosis_disp"
        r = w.call("gpmp.modeldiagnosis.report:modeldiagnosis_init", [model(None), info()], keep=True)
        if not ck.returns(f"model_diagnosis_disp {b}", r, where):
            return
        xi, zi = w.arr("xi", 4, 2), w.arr("zi", 4)
        calls = []

        def desc(it, kw):
            calls.append(kw)
            x = it.V(it.resolve(kw["x"]))
            d = 1 if x.rank == 1 else int(x.dims[1].const())
            data = w.arr(f"described{len(calls)}", d, 6, L="np")
            return it.call(it.get("gpmp.misc.dataframe:DataFrame"), [data, it.mklist(["a", "b", "c", "d", "e", "f"]), kw["rownames"]], {})
        with Record(w, "gpmp.modeldiagnosis.utils:describe_array", ("x", "rownames", "sigma_factor"), desc):
            r2 = w.call("gpmp.modeldiagnosis.report:model_diagnosis_disp", [r.value, xi, zi])
        lab = f"model_diagnosis_disp {b}"
        if len(calls) != 2:
            return ck.und(lab, where, "data not described by describe_array")
        cp = w.arr("covparam", 3)
        for c in calls:
            x = it.V(it.resolve(c["x"]))
            f = c.get("sigma_factor")
            if f is None:
                ck.und(lab, where, "no factor")
            elif x.rank == 1:
                ck.equal(lab + ": scale of the observations", w, f, S(f_un("exp", pscale(at(cp, (ZERO,)), Fraction(-1, 2))), "f", "np"), None, None, where,
                         "range divided by the standard deviation")
            else:
                t = as_ten(it, f)
                ok = t.rank == 1 and all(peq(renorm(at(t, (num(k),))), f_un("exp", at(cp, (num(k + 1),)))) for k in range(2))
                ck.require(lab + ": scale of the inputs", None if not ok and opaque_in(t) is not None else ok, where, "not the inverse lengthscales", "range divided by the lengthscale")
    ck.guard(f"model_diagnosis_disp {b}", disp, RE + "model_diagnosis_disp")

    def diag():
        where = RE + "diag"
        md, m, i_ = it.mkdict({}), model(None), info()
        xi, zi, po = w.arr("xi", 4, 2), w.arr("zi", 4), it.mkdict({})
        for lab, kw, mt in (("default", {}, "linear_mean_matern_anisotropic"), ("given", dict(model_type="linear_mean_matern_anisotropic_noisy", param_obj=po), "linear_mean_matern_anisotropic_noisy")):
            with Record(w, "gpmp.modeldiagnosis.report:modeldiagnosis_init", ("model", "info"), md) as a, \
                    Record(w, "gpmp.modeldiagnosis.report:model_diagnosis_disp", ("md", "xi", "zi"), None) as d:
                r = w.call("gpmp.modeldiagnosis.report:diag", [m, i_, xi, zi], kw)
            tag = f"diag, {lab} {b}"
            if not ck.returns(tag, r, where):
                continue
            if len(a.calls) != 1 or len(d.calls) != 1:
                ck.und(tag, where, "does not use the public report functions")
                continue
            ck.require(tag + ": model and selection", it.resolve(a.kw["model"]) is m and it.resolve(a.kw["info"]) is i_, where, "another model or selection is described")
            ck.require(tag + ": model type", it.resolve(a.kw.get("model_type", "linear_mean_matern_anisotropic")) == mt, where, f"{a.kw.get('model_type')}")
            ck.require(tag + ": parameter object", (it.resolve(a.kw.get("param_obj")) is po) == bool(kw), where, "the parameter object is not the given one")
            ck.require(tag + ": report", it.resolve(d.kw["md"]) is md and it.resolve(d.kw["xi"]) is xi and it.resolve(d.kw["zi"]) is zi, where, "another report or other data are displayed")
    ck.guard(f"diag {b}", diag, RE + "diag")


def run(ck):
    ck.explanation = ("Diagnosis helpers against their documented meaning: integrals are linear functionals of the integrand (moments), roots and minimisers are labels; "
                      "symbolic data, both backends.")
    for b in BACKENDS:
        w = ck.world(b)
        for f in (distribution, trapezoid_stats, frozen, statistics_table, scales, report):
            ck.guard(f.__name__ + " " + b, lambda: f(ck, w, b))

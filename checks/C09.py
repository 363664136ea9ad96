"""Parameter selection: what reaches the optimiser and what is returned."""
from itertools import permutations
from sa.prims import finite_inputs, NAN
from .common import *
from .optim import Optimiser

MOD = "gpmp.kernel.parameter_selection:"
WH = "gpmp/kernel/parameter_selection.py:autoselect_parameters"
INF = atom_poly(Atom("inf", ()))


def py(p):
    return Ten((), (), p if isinstance(p, Poly) else num(p), False, ("py", "f"))


def attr(w, r, o, n):
    it = w.it
    s = it.st
    it.st = r.st
    try:
        return it.getattr(o, n)
    finally:
        it.st = s


def criterion(w, vals, seen):
    def f(it, args, kw):
        k = len(seen)
        seen.append(it.V(args[0]) if isinstance(args[0], Ten) else args[0])
        v = vals[k]
        if isinstance(v, ExcV):
            it.raise_(v)
        return v
    return UF("criterion", f)


def story(ck, w, b, lab, vals, rk, rfun, best, finite=False):
    """Three evaluations with the given values; the optimiser reports point rk with value rfun; expected point best (index)."""
    P = [w.arr(f"p{k}", 2, L="np") for k in range(len(vals))]
    seen = []
    g = UF("gradient", lambda it, a, k: a[0])
    rx = w.it.call_ext("numpy.array", [P[rk] if rk is not None else w.arr("elsewhere", 2, L="np")], {})
    p0 = w.arr("start", 2, L="np")

    def one():
        with Optimiser(w, P, rx, rfun) as o:
            r = w.call(MOD + "autoselect_parameters", [p0, criterion(w, vals, seen), g], dict(info=True))
        if not ck.returns(lab, r, WH):
            return
        x, info = w.items(r)
        if len(o.calls) != 1:
            ck.und(lab, WH, f"{len(o.calls)} optimiser calls")
            return
        want = P[best] if isinstance(best, int) else best
        ck.equal(f"returned point, {lab}", w, x, want, r, None, WH)
        ck.equal(f"point in the report, {lab}", w, attr(w, r, info, "x"), want, r, None, WH)
        fun = attr(w, r, info, "fun")
        ck.equal(f"value in the report, {lab}", w, fun, vals[best] if isinstance(best, int) else rfun, r, None, WH)
        flag = w.it.resolve(attr(w, r, info, "best_value_returned"))
        kept = best == rk or not isinstance(best, int)
        ck.require(f"best value flag, {lab}", flag is kept if isinstance(flag, bool) else None, WH, f"flag {flag}", "tells whether the optimiser's own point is the one returned")
        exp = [py(INF) if isinstance(v, ExcV) else v for v in vals]
        for k, v in enumerate(o.values):
            ck.equal(f"value seen by the optimiser at evaluation {k}, {lab}", w, v, exp[k], r, None, WH)
            ck.equal(f"point evaluated at evaluation {k}, {lab}", w, seen[k], P[k], r, None, WH)
        hp = w.items(r, attr(w, r, info, "history_params"))
        hc = w.items(r, attr(w, r, info, "history_criterion"))
        if hp is None or hc is None:
            ck.und(f"history, {lab}", WH, "history is not a list of known length")
            return
        ck.require(f"history length, {lab}", len(hp) == len(hc) == len(P), WH, f"{len(hp)} points, {len(hc)} values for {len(P)} evaluations", "history")
        for k, (p, v) in enumerate(zip(hp, hc)):
            ck.equal(f"recorded point {k}, {lab}", w, p, P[k], r, None, WH)
            ck.equal(f"recorded value {k}, {lab}", w, v, exp[k], r, None, WH)
    ck.guard(lab, one, WH)


def best_point(ck, w, b):
    for vs in permutations((1, 2, 3)):
        vals = [py(v) for v in vs]
        k = vs.index(1)
        story(ck, w, b, f"values {vs}, last point reported {b}", vals, 2, vals[2], k)
        story(ck, w, b, f"values {vs}, first point reported {b}", vals, 0, vals[0], k)
    e = linalg_error(w)
    other = py(NAN)
    story(ck, w, b, f"failed factorisation between, {b}", [py(2), e, py(3)], 2, py(3), 0)
    story(ck, w, b, f"failed factorisation first and reported, {b}", [e, py(2), py(3)], 0, py(INF), 1)
    story(ck, w, b, f"failed factorisation last and reported, {b}", [py(3), py(2), e], 2, py(INF), 1)
    story(ck, w, b, f"infinite value reported, {b}", [py(3), py(INF), py(2)], 1, py(INF), 2)
    story(ck, w, b, f"not-a-number reported, {b}", [py(3), py(2), other], 2, other, 1)
    story(ck, w, b, f"not-a-number first, {b}", [other, py(2), py(3)], 2, py(3), 1)
    story(ck, w, b, f"optimiser reports a better unseen value, {b}", [py(3), py(2), py(4)], None, py(1), w.arr("elsewhere", 2, L="np"))
    story(ck, w, b, f"negative values, {b}", [py(-3), py(-5), py(-4)], 2, py(-4), 1)


def arguments(ck, w, b):
    it = w.it
    g = UF("gradient", lambda it_, a, k: a[0])
    p0 = w.arr("start", 3, L="np")
    lo, hi = [w.scal(f"lo{k}") for k in range(3)], [w.scal(f"hi{k}") for k in range(3)]

    def L(v):
        o = Obj("list")
        it.st.heap[o] = tuple(v)
        return o

    def go(lab, kw, check, ret=None):
        def one():
            seen = []
            with Optimiser(w, [], w.arr("opt", 3, L="np"), w.scal("J")) as o:
                r = w.call(MOD + "autoselect_parameters", [p0, criterion(w, [], seen), g], kw)
            if not ck.returns(lab, r, WH):
                return
            if len(o.calls) != 1:
                ck.und(lab, WH, f"{len(o.calls)} optimiser calls")
                return
            check(lab, r, o.calls[0], o.st)
        ck.guard(lab, one, WH)

    class At:
        def __init__(self, st):
            self.st = st

    def common(lab, r, a, st):
        ck.equal(f"starting point, {lab}", w, a.get("x0"), p0, At(st), None, WH)
        ck.require(f"gradient, {lab}", a.get("jac") is g, WH, "the gradient given is not the one used", "argument of the optimiser")

    def bounds_are(want):
        def f(lab, r, a, st):
            common(lab, r, a, st)
            bd = it.resolve(a.get("bounds"))
            if want is None:
                ck.require(f"no bounds, {lab}", bd is None, WH, "bounds reach the optimiser although switched off", "argument of the optimiser")
                return
            if bd is None:
                ck.bad(f"bounds, {lab}", WH, "no bounds reach the optimiser", "argument of the optimiser")
                return
            s = it.st
            it.st = st
            try:
                xs = [it.to_list(v) for v in it.to_list(bd)]
            finally:
                it.st = s
            if len(xs) != len(want):
                ck.bad(f"bounds, {lab}", WH, f"{len(xs)} bounds for {len(want)} parameters", "argument of the optimiser")
                return
            for k, (u, v) in enumerate(zip(xs, want)):
                for q in (0, 1):
                    ck.equal(f"bound {k}.{q}, {lab}", w, u[q], v[q], At(st), None, WH)
            rb = attr(w, r, w.items(r)[1], "bounds")
            ck.equal(f"bounds in the report, {lab}", w, rb, tuple(tuple(v) for v in want), r, None, WH)
        return f
    given = list(zip(lo, hi))

    def auto(delta):
        out = []
        for k in range(3):
            x = ops.index(p0, [k])
            s = spec(w, "auto_bounds", x, delta, mod="optim")
            out.append([w.ten(s, v) for v in w.items(s)])
        return out
    d10 = py(10)
    dl = w.scal("delta")
    go(f"explicit bounds {b}", dict(bounds=L(given), info=True), bounds_are(given))
    go(f"explicit bounds, automatic off {b}", dict(bounds=L(given), bounds_auto=False, info=True), bounds_are(given))
    go(f"automatic bounds {b}", dict(info=True), bounds_are(auto(d10)))
    go(f"automatic bounds of given width {b}", dict(bounds_delta=dl, info=True), bounds_are(auto(dl)))
    go(f"no bounds {b}", dict(bounds_auto=False, info=True), bounds_are(None))

    def method_is(m, opts, sil):
        def f(lab, r, a, st):
            common(lab, r, a, st)
            ck.require(f"method, {lab}", it.resolve(a.get("method")) == m, WH, f"{a.get('method')} instead of {m}", "argument of the optimiser")
            s = it.st
            it.st = st
            try:
                o = it.resolve(a.get("options"))
                c = dict(it.content(o)) if isinstance(o, Obj) else {}
            finally:
                it.st = s
            for k, v in opts.items():
                if k not in c:
                    ck.bad(f"option {k}, {lab}", WH, "the option does not reach the optimiser", "argument of the optimiser")
                else:
                    ck.equal(f"option {k}, {lab}", w, c[k], v, At(st), None, WH)
            if "disp" in c:
                ck.require(f"display, {lab}", c["disp"] is (not sil) if isinstance(c["disp"], bool) else None, WH, "wrong verbosity", "argument of the optimiser")
        return f
    D = lambda **k: it.mkdict(k)
    ft, mi = w.scal("ftol"), w.size("maxit")
    for m in ("SLSQP", "L-BFGS-B"):
        go(f"method {m} {b}", dict(method=m), method_is(m, {}, True))
        go(f"method {m} loud {b}", dict(method=m, silent=False), method_is(m, {}, False))
        go(f"method {m} with options {b}", dict(method=m, method_options=D(ftol=ft, maxiter=mi)), method_is(m, dict(ftol=ft, maxiter=mi), True))

    def plain(lab, r, a, st):
        xs = w.items(r)
        ck.require(f"report omitted, {lab}", len(xs) == 2 and xs[1] is None, WH, "a report is returned although not asked for", "shape of the result")
        ck.equal(f"point returned, {lab}", w, xs[0], w.arr("opt", 3, L="np"), r, None, WH)
    go(f"without info {b}", {}, plain)


def run(ck):
    ck.explanation = ("The optimiser call is the library boundary: the value graph of the objective handed to it is evaluated at scripted symbolic "
                      "points held in one reused work array, with every order of three criterion values, failures, infinities and not-a-number; "
                      "every argument of the optimiser is compared with the caller's.")
    each(ck, "best point", lambda w, b: best_point(ck, w, b), WH)
    each(ck, "arguments", lambda w, b: arguments(ck, w, b), WH)

"""Figures display what they name."""
from .common import *
from .canvas import Canvas
from .C20 import by_cases
from sa import terms as T
from sa.prims import finite_inputs

PU = "gpmp/plot/plotutils.py:"
PD = "gpmp/modeldiagnosis/plotting.py:"
N = 3
NT = 4      # points of a cross section, not the number of observations


def sp(w, name, *a):
    return spec(w, name, *a, mod="figures")


def part(v, lo, hi, step=None):
    c = lambda k: num(k) if k is not None else None
    return ops.index(v, [ops.SliceV(c(lo), c(hi), c(step))])


def flat(v):
    return v if v.rank == 1 else ops.flatten(v)


def size(v):
    c = ops.size_of(v).const()
    if c is None:
        raise Unsup("size of a curve")
    return int(c)


def match(ck, clause, got, want, cmp, where, rule, show=str):
    """One-to-one correspondence between what is drawn and what is expected."""
    left, und = list(got), False
    missing = []
    for x in want:
        for g in left:
            r = cmp(g, x)
            if r == "eq":
                left.remove(g)
                break
            und = und or r == "und"
        else:
            missing.append(x)
    ck.count("drawn items matched", len(want))
    if not missing and not left:
        return ck.ok(clause, where, "", rule)
    if und:
        return ck.und(clause, where, "not comparable", rule)
    ck.bad(clause, where, f"{len(got)} drawn, {len(want)} expected, {len(missing)} of the expected are not drawn" +
           (f" (first: {show(missing[0])})" if missing else ""), rule)


def both(*rs):
    return "diff" if "diff" in rs else "und" if "und" in rs else "eq"


def bands(cv, ax=None):
    """(x, y1, y2, label) of every filled band."""
    out = []
    for d in cv.of("fill", "fill_between", ax=ax):
        if d.name == "fill":
            x, y = flat(d.args[0]), flat(d.args[1])
            n = size(x)
            if n % 2:
                raise Unsup("polygon")
            h = n // 2
            if size(y) != n:
                out.append((x, None, None, None, d.kw.get("label")))
                continue
            out.append((part(x, 0, h), part(y, 0, h), part(y, h, n), part(x, h, n), d.kw.get("label")))
        else:
            g = lambda k, n: flat(d.args[k] if len(d.args) > k else d.kw[n])
            x = g(0, "x")
            out.append((x, g(1, "y1"), g(2, "y2"), None, d.kw.get("label")))
    return out


def rev(v):
    n = size(v)
    return ops.mk(v.dims, lambda i: at(v, (psub(num(n - 1), i),)), False, v.tag)


def band_cmp(ck, w, x, labels=True):
    def cmp(g, e):
        gx, y1, y2, x2, lab = g
        lo, hi, r, name = e
        if y1 is None:
            return "diff"
        if labels and isinstance(lab, str) and lab != name:
            return "diff"
        c = lambda a, b, rb=None: ck.compare(w, a, b, None, rb)[0]
        if x2 is not None:
            y2, x2 = rev(y2), rev(x2)
            rx = both(c(gx, x), c(x2, x))
        else:
            rx = c(gx, x)
        rs = [both(rx, c(y1, a, r), c(y2, b, r)) for a, b in ((hi, lo), (lo, hi))]
        res = "eq" if "eq" in rs else "und" if "und" in rs else "diff"
        if labels and not isinstance(lab, str) and res == "eq":
            return "und" if lab is not None else "diff"
        return res
    return cmp


def curve_cmp(ck, w):
    def cmp(d, e):
        x, y, r = e[:3]
        if len(e) > 3 and isinstance(d.kw.get("label"), str) and d.kw["label"] != e[3]:
            return "diff"
        if len(d.args) < 2 or not isinstance(d.args[1], Ten) or not isinstance(d.args[0], Ten):
            return "diff"
        a, b = (flat(v) if v.rank == 2 and v.dims[1].const() == 1 else v for v in d.args[:2])
        return both(ck.compare(w, a, x, None, r)[0], ck.compare(w, b, y, None, r)[0])
    return cmp


def arrays(ds):
    """The drawing calls that show arrays of points (not single markers)."""
    return [d for d in ds if d.args and isinstance(d.args[-1 if len(d.args) == 1 else 1], Ten) and
            d.args[-1 if len(d.args) == 1 else 1].rank >= 1]


def posterior(ck, w, b):
    it = w.it
    where = PU + "Figure.plotgp"
    x, m, v = (w.arr(n, N, L="np") for n in ("x", "m", "v"))
    lv = [w.scal(f"level{k}") for k in range(3)]
    col = lambda t: ops.mk((num(N), ONE), lambda i, j: at(t, (i,)), False, t.tag)
    own = dict(ci=lv, ci_labels=["first", "second", "third"])
    dft = [(0.95, "CI 95%"), (0.99, "CI 99%"), (0.999, "CI 99.9%")]
    mine = list(zip(lv, ("first", "second", "third")))
    for label, kw, want, arg in (("default", {}, dft, (x, m, v)), ("own levels", own, mine, (x, m, v)),
                                 ("two levels", dict(ci=lv[:2], ci_labels=["first", "second"]), mine[:2], (x, m, v)),
                                 ("columns", {}, dft, (col(x), col(m), col(v))),
                                 ("bw", dict(own, colorscheme="bw"), mine[:1], (x, m, v)),
                                 ("simple", dict(own, colorscheme="simple"), mine[:1], (x, m, v)),
                                 ("hue", dict(own, colorscheme="hue", rgb_hue=[10, 20, 30]), mine[:1], (x, m, v)),
                                 ("no labels", dict(own, show_ci_labels=False, show_mean_label=False), [(l, "") for l in lv], (x, m, v))):
        tag = f"posterior plot, {label} {b}"

        def one():
            k = {a: it.mklist(c) if isinstance(c, list) else c for a, c in kw.items()}
            with Canvas(w) as cv:
                f = w.call(it.get("gpmp.plot.plotutils:Figure"), [], {}, keep=True)
                if not f.returned:
                    raise Unsup("figure construction")
                with finite_inputs():
                    r = w.meth(f.value, "plotgp", *arg, **k)
            if not ck.returns(tag, r, where):
                return
            exp = []
            for l, name in want:
                e = sp(w, "band", m, v, as_ten(it, l))
                lo, hi = w.items(e)
                exp.append((lo, hi, e, name))
            match(ck, tag + ": bands", bands(cv), exp, band_cmp(ck, w, x), where, "band of level p is mean +- norm.ppf((1+p)/2) std",
                  lambda e: e[3])
            cu = arrays(cv.of("plot"))
            exp2 = [(x, m, None)]
            if kw.get("colorscheme") == "bw":
                exp2 += [(x, exp[0][0], exp[0][2]), (x, exp[0][1], exp[0][2])]
            match(ck, tag + ": curves", cu, exp2, curve_cmp(ck, w), where, "the mean is drawn at the points", lambda e: "mean curve")
            ck.require(tag + ": one panel", len(cv.panels()) == 1, where, "several panels")
        ck.guard(tag, one, where)


class Predictor:
    """Any model: posterior mean and variance are functions of the rows asked for."""

    def __init__(self, w):
        self.w, self.calls = w, []

    def obj(self):
        return self.w.it.new("inst", dict(predict=UF("predict", self.predict)), None, "model")

    def predict(self, it, args, kw):
        a = dict(zip(("xi", "zi", "xt"), args), **kw)
        xt = it.V(as_ten(it, a["xt"]))
        self.calls.append((it.V(as_ten(it, a["xi"])), it.V(as_ten(it, a["zi"])), xt))
        return tuple(self.val(xt, n) for n in ("pm", "pv"))

    def val(self, xt, n):
        d = int(xt.dims[1].const())
        row = lambda i: tuple(at(xt, (i, num(j))) for j in range(d))
        return ops.mk((xt.dims[0],), lambda i: by_cases(lambda q: atom_poly(Atom(n, (q,))), row(i)), False, (self.w.L, "f"))


def sections(ck, w, b):
    it = w.it
    where = PU + "crosssections"
    d = 2
    box = w.arr("box", 2, d, L="np")
    xi = w.arr("xi", 3, d)
    zs = w.arr("zi", 3)
    znum = as_ten(it, it.mklist([2.0, 1.0, 3.0]))
    znum = Ten(znum.formals, znum.dims, znum.body, False, (w.L, "f"))
    zc = ops.mk((num(3), ONE), lambda i, j: at(zs, (i,)), False, zs.tag)
    for label, kw, z, anchors, dims in (
            ("one anchor", dict(ind_i=1), zs, [1], [0, 1]), ("two anchors", dict(ind_i=[2, 0]), zs, [2, 0], [0, 1]),
            ("one coordinate", dict(ind_i=2, ind_dim=1), zs, [2], [1]), ("coordinates reversed", dict(ind_i=[0], ind_dim=[1, 0]), zs, [0], [1, 0]),
            ("column", dict(ind_i=1, show_data=False), zc, [1], [0, 1]),
            ("smallest", dict(), znum, [1], [0, 1]), ("largest", dict(ind_i="max"), znum, [2], [0, 1])):
        tag = f"cross sections, {label} {b}"

        def one():
            k = {a: it.mklist(c) if isinstance(c, list) else c for a, c in kw.items()}
            pr = Predictor(w)
            with Canvas(w) as cv, finite_inputs():
                r = w.call(it.get("gpmp.plot.plotutils:crosssections"), [pr.obj(), xi, z, box], dict(k, nt=NT))
            if not ck.returns(tag, r, where):
                return
            ck.require(tag + ": data", all(ck.compare(w, a, xi)[0] == "eq" and ck.compare(w, c, z)[0] == "eq" for a, c, _ in pr.calls),
                       where, "the model is not asked about the given data", "predictions use the data given")
            panels = {}
            for a in anchors:
                for j in dims:
                    t = sp(w, "sweep", at_(w, box, 0, j), at_(w, box, 1, j), NT, at_(w, xi, a, j))
                    tv = w.ten(t, t.value)
                    xt = matrix(it, [[at(tv, (num(p),)) if q == j else at(xi, (num(a), num(q))) for q in range(d)] for p in range(NT)])
                    pm, pv = pr.val(xt, "pm"), pr.val(xt, "pv")
                    var = sp(w, "positive", pv)
                    cmp = curve_cmp(ck, w)
                    rs = [(p, [cmp(c, (tv, pm, t)) for c in arrays(cv.of("plot", ax=p))]) for p in cv.panels()]
                    found = [p for p, c in rs if "eq" in c]
                    cl = f"{tag}: anchor {a}, coordinate {j}"
                    rule = "the other coordinates stay at the anchor, the swept one goes through its range, and the model is evaluated there"
                    if not found:
                        if any("und" in c for _, c in rs):
                            ck.und(cl, where, "not comparable", rule)
                        else:
                            ck.bad(cl, where, "no panel shows the posterior mean along that cross section", rule)
                        continue
                    ck.ok(cl, where, "", rule)
                    p = found[0]
                    ck.require(cl + ": own panel", id(p) not in panels, where, "two cross sections in one panel")
                    panels[id(p)] = 1
                    exp = []
                    for l in (0.95, 0.99, 0.999):
                        e = sp(w, "band", pm, w.ten(var, var.value), l)
                        lo, hi = w.items(e)
                        exp.append((lo, hi, e, ""))
                    match(ck, cl + ": bands", bands(cv, p), exp, band_cmp(ck, w, tv, False), where, "bands of the predicted variance")
                    lab = cv.text(p, "set_xlabel")
                    if isinstance(lab, str):
                        ck.require(cl + ": axis name", str(j) in lab, where, f"the axis of coordinate {j} is named {lab}", "axes name the coordinate swept")
                    v = [q for q in cv.of("axvline", ax=p)]
                    if v:
                        ck.equal(cl + ": anchor line", w, v[-1].args[0] if v[-1].args else v[-1].kw.get("x"), at_(w, xi, a, j), None, None, where,
                                 "the line marks the anchor")
                    if kw.get("show_data", True):
                        zz = ops.mk((num(3),), lambda i: at(z, (i,)), False, z.tag) if z.rank == 1 else flat(z)
                        xc = ops.mk((num(3),), lambda i: at(xi, (i, num(j))), False, xi.tag)
                        rr = [cmp(c, (xc, zz, None)) for c in arrays(cv.of("plot", ax=p))]
                        ck.require(cl + ": observations", True if "eq" in rr else None if "und" in rr else False, where,
                                   "observations are not drawn at that coordinate", "observations are shown at the swept coordinate")
        ck.guard(tag, one, where)


def at_(w, t, *k):
    return Ten((), (), at(t, tuple(num(i) for i in k)), False, ("np", "f"))


def matrix(it, rows):
    f = lambda p: Ten((), (), p, False, ("py", "f"))
    return as_ten(it, it.mklist([it.mklist([f(p) for p in r]) for r in rows]))


def loo(ck, w, b):
    it = w.it
    where = PU + "plot_loo"
    z, m, v = (w.arr(n, "n") for n in ("z", "m", "v"))
    tag = f"leave-one-out plot {b}"
    with Canvas(w) as cv, finite_inputs():
        r = w.call(it.get("gpmp.plot.plotutils:plot_loo"), [z, m, v], {})
    if not ck.returns(tag, r, where):
        return
    e = cv.of("errorbar")
    if not any(atoms_named(q, n) for n in ("v",) for d in cv.draws for q in list(d.args) + list(d.kw.values()) if isinstance(q, Ten)):
        return ck.bad(tag, where, "nothing drawn depends on the leave-one-out variances", "intervals are shown")
    if len(e) != 1:
        return ck.und(tag, where, "no error bars recognised")
    e = e[0]
    g = lambda k, n: e.args[k] if len(e.args) > k else e.kw.get(n)
    ck.equal(tag + ": observations", w, g(0, "x"), z, None, None, where)
    ck.equal(tag + ": predictions", w, g(1, "y"), m, None, None, where)
    a, c = sp(w, "half", v, 1.96), sp(w, "exact_half", v)
    ck.equal_any(tag + ": 95% intervals", w, g(2, "yerr"), [(a.value, a), (c.value, c)], None, where, "half-width is the 97.5% normal quantile times the std")


class Criterion:
    def __init__(self, w, name):
        self.w, self.name = w, name

    def uf(self):
        return UF(self.name, lambda it, a, k: Ten((), (), self.val(vec3(it.V(as_ten(it, a[0])))), False, (self.w.L, "f")))

    def val(self, ps):
        return by_cases(lambda q: atom_poly(Atom(self.name, (q,))), tuple(ps))


def vec3(t):
    return tuple(at(t, (num(i),)) for i in range(int(t.dims[0].const())))


def criterion(ck, w, b):
    it = w.it
    where = PD + "plot_selection_criterion_crosssections"
    P = 3
    ref, box = w.arr("ref", P), w.arr("box", 2, P, L="np")
    other = w.arr("other", P)
    c1, c2 = Criterion(w, "c1"), Criterion(w, "c2")
    info = it.new("inst", dict(selection_criterion_nograd=c1.uf(), covparam=ref, covparam0=other), None, "info")
    dl = w.scal("delta")
    names = ["alpha", "beta", "gamma"]
    for label, kw, crits, refp, ind, pooled, bx in (
            ("all", dict(info=info, param_box=box), [c1], ref, [0, 1, 2], [], box),
            ("subset", dict(info=info, param_box=box, ind=[2, 0], param_names=names), [c1], ref, [2, 0], [], box),
            ("one", dict(info=info, param_box=box, ind=[1]), [c1], ref, [1], [], box),
            ("pooled", dict(info=info, param_box_pooled=box, ind_pooled=[2, 1]), [c1], ref, [], [2, 1], box),
            ("given reference", dict(info=info, covparam=other, param_box=box), [c1], other, [0, 1, 2], [], box),
            ("two criteria", dict(selection_criteria=[c1.uf(), c2.uf()], criterion_names=["A", "B"], covparam=ref, param_box=box), [c1, c2], ref,
             [0, 1, 2], [], box),
            ("one criterion", dict(selection_criterion=c2.uf(), covparam=ref, param_box=box), [c2], ref, [0, 1, 2], [], box),
            ("around the reference", dict(info=info, delta=dl), [c1], ref, [0, 1, 2], [], None)):
        tag = f"criterion cross sections, {label} {b}"

        def one():
            k = {a: it.mklist(c) if isinstance(c, list) else c for a, c in kw.items()}
            with Canvas(w) as cv, finite_inputs():
                r = w.call(it.get("gpmp.modeldiagnosis.plotting:plot_selection_criterion_crosssections"), [], dict(k, n_points=N))
            if not ck.returns(tag, r, where):
                return
            ps = cv.panels()
            lists = [(i, ps[i:i + 1], [j]) for i, j in enumerate(ind)] + ([(len(ind), ps[len(ind):len(ind) + 1], pooled)] if pooled else [])
            ck.require(tag + ": panels", len(ps) == len(lists), where, f"{len(ps)} panels, {len(lists)} expected")
            for i, p, js in lists:
                if not p:
                    continue
                exp = []
                for j in js:
                    if bx is None:
                        lo, hi = (Ten((), (), f(at(refp, (num(j),)), dl.body), False, ("py", "f")) for f in (psub, padd))
                    else:
                        lo, hi = at_(w, bx, 0, j), at_(w, bx, 1, j)
                    t = sp(w, "grid", lo, hi, N)
                    tv = w.ten(t, t.value)
                    for c, nm in zip(crits, kw.get("criterion_names", [None])):
                        y = it.prims.as_ten(it, it.mklist([Ten((), (), c.val([at(tv, (num(q),)) if u == j else at(refp, (num(u),)) for u in range(P)]),
                                                               False, ("py", "f")) for q in range(N)]))
                        exp.append((tv, y, t) + ((nm,) if nm else ()))
                cl = f"{tag}: panel {i}"
                match(ck, cl, arrays(cv.of("plot", ax=p[0])), exp, curve_cmp(ck, w), where,
                      "the criterion along one parameter over its own bounds, the others at the reference", lambda e: f"curve of parameter(s) {js}")
                vs = cv.of("axvline", ax=p[0])
                match(ck, cl + ": reference", vs, [at_(w, refp, j) for j in js],
                      lambda q, e: ck.compare(w, q.args[0] if q.args else q.kw.get("x"), e)[0], where, "lines mark the reference values")
                ti = cv.text(p[0], "set_title")
                if "param_names" in kw and isinstance(ti, str) and len(js) == 1:
                    ck.require(cl + ": title", names[js[0]] in ti, where, f"parameter {names[js[0]]} under the title {ti}", "panels name their parameter")
        ck.guard(tag, one, where)


def pit(ck, w, b):
    it = w.it
    where = PD + "plot_pit_ecdf"
    v = w.arr("pit", N)
    st = sp(w, "sorted_", v)
    srt = w.ten(st, st.value)
    for given in (False, True):
        tag = f"PIT curve, {'given' if given else 'new'} figure {b}"

        def one():
            with Canvas(w) as cv, finite_inputs():
                mine = cv.new_fig()
                cv.new_fig()
                kw = dict(fig=mine) if given else {}
                n0 = len(cv.figs)
                r = w.call(it.get("gpmp.modeldiagnosis.plotting:plot_pit_ecdf"), [v], kw)
            if not ck.returns(tag, r, where):
                return
            s = cv.of("step")
            if not any(atoms_named(q, "pit") for d in cv.draws for q in list(d.args) + list(d.kw.values()) if isinstance(q, Ten)):
                return ck.bad(tag, where, "nothing drawn depends on the PIT values", "the empirical distribution function is shown")
            if len(s) != 1:
                return ck.und(tag, where, "no step curve recognised")
            d = s[0]
            f = d.ax.attrs["figure"]
            ck.require(tag + ": figure", f is mine if given else cv.figs.index(f) >= n0, where, "drawn in another figure", "draws in the figure asked for")
            x, y, wh = flat(d.args[0]), flat(d.args[1]), d.kw.get("where", "pre")
            n = size(x)
            if wh not in ("pre", "post"):
                return ck.und(tag, where, "steps in the middle")
            got = [(at(x, (num(k),)), at(x, (num(k + 1),)), at(y, (num(k + (wh == "pre")),))) for k in range(n - 1)]
            got = [g for g in got if not T.peq(g[0], g[1])]
            edge = [ZERO] + [at(srt, (num(k),)) for k in range(N)]
            want = [(edge[k], edge[k + 1], num(Fraction(k, N))) for k in range(N)]
            ok = got[-1:] if len(got) == N + 1 else []
            if ok and T.peq(ok[0][2], ONE):
                got = got[:-1]
            sc0 = lambda p: Ten((), (), p, False, ("np", "f"))
            rs = [ck.compare(w, sc0(p), sc0(q))[0] for g, e in zip(got, want) for p, q in zip(g, e)]
            res = "diff" if len(got) != len(want) else both(*rs)
            ck.require(tag + ": heights", {"eq": True, "und": None, "diff": False}[res], where,
                       "between the k-th and the next value the curve is not k/n", "the curve is the share of values not exceeding the abscissa")
        ck.guard(tag, one, where)


def profile(ck, w, b):
    """Two-parameter profile: the value at a displayed point is the criterion at the parameters the point stands for."""
    it = w.it
    P, n = 3, 2
    ref, cur = w.arr("ref", P), w.arr("cur", P)
    c1 = Criterion(w, "c1")
    first = w.arr("first", P)
    info = it.new("inst", dict(selection_criterion_nograd=c1.uf(), covparam=ref, covparam0=first), None, "info")
    model = it.new("inst", dict(covparam=cur), None, "model")
    for name, kw, idx, shift in (("2d", {}, (0, 1), False), ("2d", dict(param_indices=(1, 2)), (1, 2), False),
                                 ("2d", dict(param_indices=(2, 0), param_names=("alpha", "beta")), (2, 0), True), ("sigma_rho", {}, (0, 1), True)):
        fn = "plot_selection_criterion_" + name
        where = PD + fn
        tag = f"{fn} {idx} {b}"

        def one():
            with Canvas(w) as cv, finite_inputs():
                r = w.call(it.get("gpmp.modeldiagnosis.plotting:" + fn), [model, info], dict(kw, n=n, factor=4.0, shift_criterion=shift))
            if not ck.returns(tag, r, where):
                return
            d = cv.of("contourf", "contour", "pcolormesh")
            if len(d) != 1 or len(d[0].args) < 3:
                return ck.und(tag, where, "no contour recognised")
            x, y, z = d[0].args[:3]
            f = lambda p: Ten((), (), p, False, ("np", "f"))
            rows = []
            for i in range(n):
                rows.append([])
                for j in range(n):
                    at2 = lambda t: f(at(t, (num(i), num(j))))
                    th = [w.ten(e, e.value).body for e in (sp(w, "coordinate", at2(x), idx[0] == 0), sp(w, "coordinate", at2(y), idx[1] == 0))]
                    rows[-1].append(c1.val([th[idx.index(u)] if u in idx else at(ref, (num(u),)) for u in range(P)]))
            e = sp(w, "shown", matrix(it, rows), shift)
            ck.equal(f"{tag}: values", w, z, e.value, None, e, where, "the criterion at the parameters the displayed point stands for")
            for t, u in ((x, idx[0]), (y, idx[1])):
                for k in (0, n - 1):
                    e = sp(w, "displayed_end", at_(w, cur, u), u == 0, 4.0, 1 if k else -1)
                    ck.equal(f"{tag}: range of parameter {u}, end {k}", w, f(at(t, (num(k), num(k)))), e.value, None, e, where,
                             "the grid goes from the current value divided by the factor to its multiple")
            m = [q for q in cv.of("plot", "scatter") if len(q.args) >= 2 and isinstance(q.args[0], Ten)]
            want = [[sp(w, "displayed", at_(w, v, u), u == 0) for u in idx] for v in (ref, first)]
            match(ck, tag + ": markers", m, want, lambda q, e: both(*(ck.compare(w, q.args[k], e[k].value, None, e[k])[0] for k in (0, 1))), where,
                  "the markers are at the selected and the initial parameters", lambda e: "a marker")
            nm = kw.get("param_names")
            for k, set_ in enumerate(("set_xlabel", "set_ylabel")):
                lab = cv.text(d[0].ax, set_)
                if isinstance(lab, str) and name == "2d":
                    ck.require(f"{tag}: name of axis {k}", (nm[k] if nm else str(idx[k])) in lab, where, f"the axis of parameter {idx[k]} is named {lab}",
                               "axes name the parameters displayed")
        ck.guard(tag, one, where)


def shown_samples(ck, cv, w, tag, exp, where, panels=None, cmp=None):
    """One density per expected sample: histogram or kernel estimate of exactly those values."""
    ps = cv.panels()
    if panels is not None:
        ck.require(tag + ": panels", len(ps) == panels, where, f"{len(ps)} panels, {panels} expected")
    for k, want in enumerate(exp):
        if k >= len(ps):
            break
        hs = cv.of("hist", ax=ps[k])
        cmp = cmp or (lambda d, e: ck.compare(w, d.args[0] if d.args else d.kw.get("x"), e)[0])
        match(ck, f"{tag}: panel {k}", hs, want, cmp, where, "the values shown are the samples of that parameter", lambda e: f"samples of panel {k}")


def column(t, j, *lead):
    """Entries of one coordinate."""
    n = t.dims[len(lead)]
    return ops.mk((n,), lambda i: at(t, tuple(num(q) for q in lead) + (i, num(j))), False, t.tag)


def particles(ck, w, b):
    """Marginal densities of particle clouds."""
    it = w.it
    where = "gpmp/mcmc/svgd.py:plot_svgd_empirical_distributions"
    n, d = 3, 3
    x = w.arr("cloud", n, d)
    lp = as_ten(it, it.mklist([0.5, float("-inf"), 1.5]))
    lp = Ten(lp.formals, lp.dims, lp.body, False, (w.L, "f"))
    kept = matrix(it, [[at(x, (num(i), num(j))) for j in range(d)] for i in (0, 2)])
    full = dict(particles_final=x, log_prob_final=lp)
    for label, arg, cloud, kw in (("array", x, x, dict(parameter_indices=[2, 0])), ("one", x, x, dict(parameter_indices=[1])),
                                  ("pooled", x, x, dict(parameter_indices_pooled=[0, 2])),
                                  ("result", full, kept, dict(parameter_indices=[1, 2])),
                                  ("result without densities", dict(particles_final=x), x, dict(parameter_indices=[0, 1, 2]))):
        tag = f"particle densities, {label} {b}"

        def one():
            k = {a: it.mklist(c) for a, c in kw.items()}
            with Canvas(w) as cv, finite_inputs():
                r = w.call(it.get("gpmp.mcmc.svgd:plot_svgd_empirical_distributions"), [it.mkdict(arg) if isinstance(arg, dict) else arg], k)
            if not ck.returns(tag, r, where):
                return
            idx = kw.get("parameter_indices")
            exp = [[column(cloud, j)] for j in idx] if idx else [[column(cloud, j) for j in kw["parameter_indices_pooled"]]]
            shown_samples(ck, cv, w, tag, exp, where, len(exp))
        ck.guard(tag, one, where)
    where = "gpmp/mcmc/smc.py:SMC.plot_empirical_distributions"
    from . import C22
    s = w.call(it.get("gpmp.mcmc.smc:SMC"), [((0.0, 0.0), (1.0, 1.0))], dict(n=3), keep=True)
    if not s.returned:
        return ck.und("sampler densities " + b, where, "construction")
    cloud = C22.attr(w, None, it.getattr(s.value, "particles"), "x")
    for label, kw in (("each", dict(parameter_indices=[1, 0])), ("one", dict(parameter_indices=[1])), ("pooled", dict(parameter_indices_pooled=[0, 1]))):
        tag = f"sampler densities, {label} {b}"

        def two():
            with Canvas(w) as cv, finite_inputs():
                r = w.meth(s.value, "plot_empirical_distributions", **{a: it.mklist(c) for a, c in kw.items()})
            if not ck.returns(tag, r, where):
                return
            idx = kw.get("parameter_indices")
            exp = [[column(cloud, j)] for j in idx] if idx else [[column(cloud, j) for j in kw["parameter_indices_pooled"]]]
            shown_samples(ck, cv, w, tag, exp, where, len(exp))
        ck.guard(tag, two, where)


def chains(ck, w, b):
    """Traces and densities of Metropolis-Hastings chains."""
    from .C20 import Chain, D
    it = w.it
    where = "gpmp/mcmc/mh.py:MetropolisHastings."
    c = Chain(w, 2)
    r = c.run(w.arr("x0", 2, D), 3, 1)
    if not r.returned:
        return ck.und("chains " + b, where, "the sampler raises")
    x = c.attr("x")
    n = int(x.dims[1].const())
    it.st = r.st
    upto = lambda e, g: part(e, 0, size(g)) if isinstance(g, Ten) and size(g) in (size(e), size(e) - 1) else e    # with or without the last state
    cmp1 = lambda d, e: ck.compare(w, d.args[0], upto(e, d.args[0]))[0] if len(d.args) == 1 else "und"
    cmp2 = lambda d, e: ck.compare(w, d.args[0], upto(e, d.args[0]))[0] if d.args else "und"
    for label, kw, idx, rate in (("all", {}, [0, 1], True), ("subset", dict(parameter_indices=[1], show_rate=False), [1], False),
                                 ("reversed", dict(parameter_indices=[1, 0], burnin=2), [1, 0], True)):
        tag = f"traces, {label} {b}"
        bn = kw.get("burnin", 1)

        def one():
            with Canvas(w) as cv, finite_inputs():
                q = w.meth(c.mh, "plot_chains", **{a: it.mklist(v) if isinstance(v, list) else v for a, v in kw.items()})
            if not ck.returns(tag, q, where + "plot_chains"):
                return
            ps = cv.panels()
            ck.require(tag + ": panels", len(ps) == len(idx) + rate, where + "plot_chains", f"{len(ps)} panels")
            for k, j in enumerate(idx):
                match(ck, f"{tag}: x_{j}", cv.of("plot", ax=ps[k]), [column(x, j, ch) for ch in range(2)], cmp1, where + "plot_chains",
                      "the recorded states of that coordinate", lambda e: "trace of a chain")
                for v in cv.of("axvline", ax=ps[k]):
                    ck.equal(f"{tag}: end of burn-in, x_{j}", w, v.args[0] if v.args else v.kw.get("x"), as_ten(it, bn), None, None, where + "plot_chains")
                lab = cv.text(ps[k], "set_ylabel")
                if isinstance(lab, str):
                    ck.require(f"{tag}: name of x_{j}", str(j) in lab, where + "plot_chains", lab, "panels name their coordinate")
        ck.guard(tag, one, where + "plot_chains")
        tag2 = f"chain densities, {label} {b}"

        def two():
            k = {a: it.mklist(v) if isinstance(v, list) else v for a, v in kw.items() if a != "show_rate"}
            with Canvas(w) as cv, finite_inputs():
                q = w.meth(c.mh, "plot_empirical_distributions", smooth=False, **k)
            if not ck.returns(tag2, q, where + "plot_empirical_distributions"):
                return
            exp = [[part(column(x, j, ch), bn, n) for ch in range(2)] for j in idx]
            shown_samples(ck, cv, w, tag2, exp, where + "plot_empirical_distributions", len(idx), cmp2)
        ck.guard(tag2, two, where + "plot_empirical_distributions")


def diagnostics(ck, w, b):
    """Per-iteration averages over the chains."""
    it = w.it
    where = "gpmp/mcmc/nuts.py:plot_nuts_diagnostics"
    n, m, c = 4, 3, 2
    inf = dict(warmup_step_size=w.arr("eps", m), warmup_accept_stat=w.arr("wacc", m, c), warmup_divergent=w.arr("wdiv", m, c),
               accept_stat=w.arr("acc", n, c), divergent=w.arr("div", n, c))
    tag = "NUTS diagnostics " + b
    with Canvas(w) as cv, finite_inputs():
        r = w.call(it.get("gpmp.mcmc.nuts:plot_nuts_diagnostics"), [it.mkdict(inf)], dict(window=50, show=False))
    if not ck.returns(tag, r, where):
        return
    want = []
    for k, v in inf.items():
        if v.rank == 1:
            want.append(v)
        else:
            e = sp(w, "over_chains", v)
            want.append(w.ten(e, e.value))
    match(ck, tag, cv.of("plot"), want, lambda d, e: ck.compare(w, d.args[-1], e)[0] if d.args else "und", where,
          "averages over the chains, iteration by iteration", lambda e: "a diagnostic")
    figs = {id(d.ax.attrs["figure"]) for d in cv.of("plot")}
    ck.require(tag + ": figures", len(figs) == 5, where, f"{len(figs)} figures")


def run(ck):
    ck.explanation = ("Value graph of the plotting functions with the drawing library replaced by a record of what is given to each drawing call: "
                      "three points or parameters, arbitrary data, models and criteria (uninterpreted).")
    for b in BACKENDS:
        for name, f in (("posterior", posterior), ("sections", sections), ("loo", loo), ("criterion", criterion), ("pit", pit), ("profile", profile), ("particles", particles),
                        ("chains", chains), ("diagnostics", diagnostics)):
            ck.guard(f"{name} {b}", lambda: f(ck, ck.world(b), b), "gpmp/plot")

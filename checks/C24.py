"""Scoring rules and performance metrics."""
from .common import *
from sa.prims import finite_inputs

SR = "gpmp/misc/scoringrules.py:"
PF = "gpmp/modeldiagnosis/performance.py:"
KEYS = ("n", "std", "tss", "press", "press_over_tss", "log10_press_over_tss", "rmse", "rmse_over_std", "Q2")
TKEYS = ("n", "std", "tss", "rss", "rss_over_tss", "log10_rss_over_tss", "rmse", "rmse_over_std", "R2")


def scores(ck, w, b):
    mu, sg, z = (w.arr(x, "n") for x in ("mu", "sigma", "z"))
    a_, b_ = w.arr("a", 1), w.arr("b", 1)
    inf = w.it.prims.as_ten(w.it, float("inf"))
    ninf = w.it.prims.as_ten(w.it, float("-inf"))
    sp = lambda n, *a: spec(w, n, *a, mod="scores")
    cases = [("crps_gaussian", (mu, sg, z), {}, sp("crps", mu, sg, z)),
             ("ei1_up", (mu, sg, z), {}, sp("ei1", mu, sg, z)),
             ("ei2_up", (mu, sg, z), {}, sp("ei2", mu, sg, z)),
             ("tcrps_gaussian", (mu, sg, z), {}, sp("crps", mu, sg, z)),
             ("tcrps_gaussian", (mu, sg, z), dict(b=b_), sp("tcrps_b", mu, sg, z, b_)),
             ("tcrps_gaussian", (mu, sg, z), dict(a=a_), sp("tcrps_a", mu, sg, z, a_)),
             ("tcrps_gaussian", (mu, sg, z), dict(a=a_, b=b_), sp("tcrps_ab", mu, sg, z, a_, b_)),
             ("tcrps_gaussian", (mu, sg, z), dict(a=ninf, b=inf), sp("crps", mu, sg, z))]
    for f, args, kw, want in cases:
        lab = f"{f}({', '.join(kw)}) {b}"

        def one():
            with finite_inputs():
                r = w.call("gpmp.misc.scoringrules:" + f, args, kw)
            if ck.returns(lab, r, SR + f):
                ck.equal(lab, w, r.value, want.value, r, want, SR + f)
        ck.guard(lab, one, SR + f)


def perf(ck, w, b):
    it = w.it
    g = Gp(w, "zero")
    zt, zpm, zpv = w.arr("zt", "m"), w.arr("zpm", "m"), w.arr("zpv", "m")
    el, lm, lv = w.arr("eloo", "n"), w.arr("zloom", "n"), w.arr("zloov", "n")
    zc = lambda v, d: ops.mk((dim(d), ONE), lambda i, j: at(v, (i,)), False, v.tag)
    sp = lambda n, *a: spec(w, n, *a, mod="scores")
    fn = "gpmp.modeldiagnosis.performance:compute_performance"
    where = PF + "compute_performance"

    def dic(r, k):
        s = it.st
        it.st = r.st
        try:
            return it.getitem(r.value, k)
        finally:
            it.st = s

    def comp(lab, kw, keys, pre, want, pit=None, zi=None):
        def one():
            with finite_inputs():
                r = w.call(fn, [g.m, g.xi, g.zi if zi is None else zi], kw)
            if not ck.returns(lab, r, where):
                return
            ws = w.items(want)
            for k, x in zip(keys, ws):
                ck.equal(f"{lab} {pre}_{k}", w, dic(r, f"{pre}_{k}"), x, r, want, where)
            if pit is not None:
                ck.equal(f"{lab} {pre}_pit", w, dic(r, f"{pre}_pit"), pit.value, r, pit, where)
        ck.guard(lab, one, where)
    comp(f"loo given {b}", dict(loo_res=(lm, lv, el), compute_pit=True), KEYS, "loo", sp("metrics", g.zi, el), sp("pit", g.zi, lm, lv))
    comp(f"loo given column zi {b}", dict(loo_res=(lm, lv, el)), KEYS, "loo", sp("metrics", g.zi, el), zi=zc(g.zi, "n"))
    own = w.meth(g.m, "loo", g.xi, g.zi)
    o = w.items(own)
    comp(f"loo computed {b}", dict(compute_pit=True), KEYS, "loo", sp("metrics", g.zi, w.ten(own, o[2])), sp("pit", g.zi, w.ten(own, o[0]), w.ten(own, o[1])))
    rt = w.meth(g.m, "predict", g.xi, g.zi, g.xt)
    q = [w.ten(rt, x) for x in w.items(rt)[:2]]
    df = lambda a, c: ops.elementwise(psub, a, c)
    comp(f"test given {b}", dict(loo=False, xtzt=(g.xt, zt), zpmzpv=(zpm, zpv), compute_pit=True), TKEYS, "test", sp("metrics", zt, df(zt, zpm)), sp("pit", zt, zpm, zpv))
    comp(f"test given column zt {b}", dict(loo=False, xtzt=(g.xt, zc(zt, "m")), zpmzpv=(zpm, zpv)), TKEYS, "test", sp("metrics", zt, df(zt, zpm)))
    comp(f"test computed {b}", dict(loo=False, xtzt=(g.xt, zt), compute_pit=True), TKEYS, "test", sp("metrics", zt, df(zt, q[0])), sp("pit", zt, q[0], q[1]))
    for tag, kw, el2, pr in (("given", dict(loo_res=(lm, lv, el), zpmzpv=(zpm, zpv)), el, zpm), ("computed", {}, w.ten(own, o[2]), q[0])):
        comp(f"both {tag} {b}", dict(kw, xtzt=(g.xt, zt)), KEYS, "loo", sp("metrics", g.zi, el2))
        comp(f"both {tag} {b}", dict(kw, xtzt=(g.xt, zt)), TKEYS, "test", sp("metrics", zt, df(zt, pr)))


ROWS = (("std(z)", "tss", "press", "press/tss", "log10(press/tss)", "rmse", "rmse/std(z)", "Q2"),
        ("std(z)", "tss", "rss", "rss/tss", "log10(rss/tss)", "rmse", "rmse/std(z)", "R2"))


def printed(ck, w, b):
    """The printed tables hold each metric under its name."""
    it = w.it
    g = Gp(w, "zero")
    zt, zpm, zpv = w.arr("zt", "m"), w.arr("zpm", "m"), w.arr("zpv", "m")
    el, lm, lv = w.arr("eloo", "n"), w.arr("zloom", "n"), w.arr("zloov", "n")
    sp = lambda n, *a: spec(w, n, *a, mod="scores")
    where = PF + "perf"
    err = ops.elementwise(psub, zt, zpm)
    res = dict(loo_res=(lm, lv, el))
    tst = dict(xtzt=(g.xt, zt), zpmzpv=(zpm, zpv))
    for lab, kw, tables in (("loo", res, [(0, sp("metrics", g.zi, el))]), ("test", dict(tst, loo=False), [(1, sp("metrics", zt, err))]),
                            ("both", dict(res, **tst), [(0, sp("metrics", g.zi, el)), (1, sp("metrics", zt, err))])):
        got = []

        def frame(it, f, args, k):
            a = dict(zip(("data", "colnames", "rownames"), args), **k)
            got.append(([it.resolve(x) for x in it.to_list(a["rownames"])], as_ten(it, a["data"])))
            return None
        it.intercept["gpmp.misc.dataframe:DataFrame"] = frame
        try:
            with finite_inputs():
                r = w.call("gpmp.modeldiagnosis.performance:perf", [g.m, g.xi, g.zi], kw)
        finally:
            it.intercept.pop("gpmp.misc.dataframe:DataFrame", None)
        if not ck.returns(f"printed {lab} {b}", r, where):
            continue
        if len(got) != len(tables) or any(not isinstance(n, str) for ns, _ in got for n in ns):
            ck.und(f"printed {lab} {b}", where, f"{len(got)} tables found")
            continue
        for (ns, data), (k, want) in zip(got, tables):
            ws = dict(zip(ROWS[k], w.items(want)[1:]))
            for i, n in enumerate(ns):
                if n not in ws:
                    ck.und(f"printed {lab} {n} {b}", where, "a row without definition")
                    continue
                it.st, keep = r.st, it.st
                v = at(it.V(data), (num(i), ZERO) if data.rank == 2 else (num(i),))
                it.st = keep
                ck.equal(f"printed {lab} table {k} {n} {b}", w, ops.mk((), lambda: v, False, ("np", "f")), ws[n], r, want, where, "the row holds the metric it names")


def run(ck):
    ck.explanation = ("Value graphs of the scoring rules (all finite/infinite bound cases) and of every entry of compute_performance "
                      "(given or computed results, row or column observations) compared with closed forms on both backends.")
    each(ck, "scoring rules", lambda w, b: scores(ck, w, b), SR)
    each(ck, "printed tables", lambda w, b: printed(ck, w, b), PF)
    each(ck, "performance", lambda w, b: perf(ck, w, b), PF)

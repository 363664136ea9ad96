"""C30: designs of experiments, benchmark functions and tables are what they document."""
from functools import reduce
from itertools import permutations
from sa.ops import SliceV
from .common import *
from .C09 import py

DE, TF, DF = "gpmp/misc/designs.py:", "gpmp/misc/testfunctions.py:", "gpmp/misc/dataframe.py:DataFrame"
FUNCTIONS = (("twobumps", None), ("wave", 2), ("braninhoo", 2), ("hartmann4", 4), ("hartmann6", 6), ("borehole", 8), ("detpep8d", 8), ("ishigami", 3))


def functions(ck, w, b):
    """Value of every benchmark function at every point."""
    for name, d in FUNCTIONS:
        x = w.arr("x", "n", L="np") if d is None else w.arr("x", "n", d, L="np")

        def one():
            r = w.call("gpmp.misc.testfunctions:" + name, [x])
            if ck.returns(f"{name} {b}", r, TF + name):
                s = spec(w, name, x, mod="misc")
                ck.equal(f"{name} {b}", w, r.value, s.value, r, s, TF + name)
        ck.guard(f"{name} {b}", one, TF + name)


def distance(x, i, y, j):
    f = fresh()
    return ppow(psum(ppow(psub(at(x, (num(i), ivar(f))), at(y, (num(j), ivar(f)))), num(2)), f, x.dims[1]), num(Fraction(1, 2)))


def statistics(ck, w, b):
    """Separation, diameter and fill distance of a sample."""
    x, y = w.arr("sample", 4, "d", L="np"), w.arr("points", 3, "d", L="np")
    pairs = [distance(x, i, x, j) for i in range(4) for j in range(i)]
    for name, ext in (("maxdist", f_max), ("mindist", f_min)):
        def one():
            r = w.call("gpmp.misc.designs:" + name, [x])
            if ck.returns(f"{name} {b}", r, DE + name):
                ck.equal_any(f"{name} {b}", w, r.value, [(S(reduce(ext, pairs + z), "f", "np"), None) for z in ([], [ZERO])[:1 + (name == "maxdist")]], r, DE + name,
                             "extreme of the distances over all pairs of points")
        ck.guard(f"{name} {b}", one, DE + name)

    def fill():
        """Distance values chosen so that every kind of extremum differs: D[i][j] between sample i and point j."""
        box = (w.arr("lo", 2, L="np"), w.arr("hi", 2, L="np"))
        for D in (((1, 5, 9), (4, 2, 8)), ((7, 1, 3), (6, 8, 2)), ((3, 4, 5), (2, 6, 1))):
            want = max(min(r[j] for r in D) for j in range(3))
            S2, X2 = w.arr("s2", 2, 2, L="np"), w.arr("x2", 3, 2, L="np")
            calls = []

            def rows(t, base, n):
                """Indices of the rows of base that t holds."""
                k = t.dims[0].const()
                out = []
                for i in range(int(k)):
                    out.append(next(j for j in range(n) if all(peq(at(t, (num(i), num(c))), at(base, (num(j), num(c)))) for c in (0, 1))))
                return out

            def cd(it, f, args, kw):
                a, c = (it.V(it.resolve(v)) for v in args[:2])
                calls.append(1)
                try:
                    ri, ci = rows(a, S2, 2), rows(c, X2, 3)
                    M = [[D[i][j] for j in ci] for i in ri]
                except StopIteration:
                    ri, ci = rows(a, X2, 3), rows(c, S2, 2)
                    M = [[D[j][i] for j in ci] for i in ri]
                return ops.stack([ops.stack([Ten((), (), num(v), False, ("np", "f")) for v in row], 0) for row in M], 0)
            w.it.intercept["scipy.spatial.distance.cdist"] = cd
            try:
                r = w.call("gpmp.misc.designs:filldist_approx", [S2, box], dict(x=X2))
            finally:
                del w.it.intercept["scipy.spatial.distance.cdist"]
            lab = f"filldist_approx {D} {b}"
            if not ck.returns(lab, r, DE + "filldist_approx"):
                continue
            t = w.ten(r)
            v = t.body.const() if not t.rank else None
            ck.require(lab, None if v is None or not calls else v == want, DE + "filldist_approx",
                       f"the largest distance from a point to the sample is {want}, not {v}", "largest of the smallest distances")
    ck.guard(f"filldist_approx {b}", fill, DE + "filldist_approx")


def inside(ck, w, b):
    """Random designs: n points drawn in the unit cube and mapped to the box, coordinate by coordinate; best of the drawn samples."""
    it = w.it
    box = (w.arr("lo", 2, L="np"), w.arr("hi", 2, L="np"))
    lo, hi = box

    def design(name, kw, lab, best=None, library=None, values=()):
        where = DE + name
        it.draws = getattr(it, "draws", [])
        n0, seen = len(it.draws), []
        if library:
            def measure(it, f, args, kw):
                seen.append(it.V(it.resolve(args[0])))
                v = Ten((), (), num(values[(len(seen) - 1) % len(values)]), False, ("np", "f"))
                return ops.stack([v], 0) if library.endswith("pdist") else v
            it.intercept[library] = measure
        try:
            r = w.call("gpmp.misc.designs:" + name, [Ten((), (), num(2), False, ("py", "i")), Ten((), (), num(4), False, ("py", "i")), box], kw)
        finally:
            it.intercept.pop(library, None)
        if not ck.returns(lab, r, where):
            return
        t = w.ten(r)
        ck.require(lab + ": size", t.rank == 2 and [d.const() for d in t.dims] == [4, 2], where, f"the design has size {[show(d) for d in t.dims]} instead of 4 x 2",
                   "size of the result")
        if t.rank != 2:
            return
        draws = [d for d in it.draws[n0:] if d[2].rank == 2]
        if library and not seen or not draws:
            return ck.und(lab, where, "no sample drawn by a known generator")
        cand = [seen[k] for k in best] if library else [d[2] for d in draws]
        ok = any(all(peq(renorm(at(t, (num(i), num(j)))), renorm(padd(at(lo, (num(j),)), pmul(at(c, (num(i), num(j))), psub(at(hi, (num(j),)), at(lo, (num(j),)))))))
                     for i in range(4) for j in (0, 1)) for c in cand)
        if not ok and opaque_in(t) is not None:
            ok = None
        ck.require(lab + ": points", ok, where, "the design is not the selected sample of the unit cube mapped to the box", "result as affine image of a draw")

    ck.guard(f"randunif {b}", lambda: design("randunif", {}, f"randunif {b}"), DE + "randunif")
    for vals in permutations((1, 2, 3)):
        top, low = vals.index(3), vals.index(1)
        ck.guard(f"ldrandunif {vals} {b}", lambda: design("ldrandunif", dict(max_iter=3), f"ldrandunif {vals} {b}", (low,), "scipy.stats.qmc.discrepancy", vals),
                 DE + "ldrandunif")
        ck.guard(f"maximinlhs {vals} {b}", lambda: design("maximinlhs", dict(max_iter=3), f"maximinlhs {vals} {b}", (top,), "scipy.spatial.distance.pdist", vals),
                 DE + "maximinlhs")
    for k in (0, 4, 9):
        vals = tuple(100 if i == k else i + 1 for i in range(10))
        ck.guard(f"maximinldlhs {k} {b}", lambda: design("maximinldlhs", {}, f"maximinldlhs best at {k} {b}", (k,), "scipy.spatial.distance.pdist", vals),
                 DE + "maximinldlhs")


def grid(ck, w, b):
    """Regular grid: all combinations of equally spaced levels, once each."""
    it = w.it
    for d, n in ((1, 3), (2, 2), (2, (3, 2)), (3, (2, 1, 3)), (2, 1)):
        lab, where = f"regulargrid dim={d} n={n} {b}", DE + "regulargrid"

        def one():
            lo, hi = w.arr("lo", d, L="np"), w.arr("hi", d, L="np")
            nv = it.mklist([Ten((), (), num(k), False, ("py", "i")) for k in n]) if isinstance(n, tuple) else Ten((), (), num(n), False, ("py", "i"))
            r = w.call("gpmp.misc.designs:regulargrid", [Ten((), (), num(d), False, ("py", "i")), nv, (lo, hi)])
            if not ck.returns(lab, r, where):
                return
            ns = n if isinstance(n, tuple) else (n,) * d
            t = w.ten(r)
            N = 1
            for k in ns:
                N *= k
            if t.rank != 2 or [c.const() for c in t.dims] != [N, d]:
                return ck.bad(lab, where, f"size {[show(c) for c in t.dims]} instead of {N} x {d}", "size of the result")
            lev = [[renorm(padd(at(lo, (num(i),)), pscale(psub(at(hi, (num(i),)), at(lo, (num(i),))), Fraction(k, max(ns[i] - 1, 1))))) for k in range(ns[i])]
                   for i in range(d)]
            want = [()]
            for i in range(d):
                want = [p + (key(v),) for p in want for v in lev[i]]
            got = [tuple(key(renorm(at(t, (num(i), num(j))))) for j in range(d)) for i in range(N)]
            ok = sorted(map(str, got)) == sorted(map(str, want))
            ck.require(lab, None if not ok and opaque_in(t) is not None else ok, where, "the rows are not the combinations of the levels", "multiset of rows")
        ck.guard(lab, one, where)


def table(ck, w, b):
    """Rows and columns keep their names through selection, assignment, appending and concatenation."""
    it = w.it
    R, C = ("r0", "r1", "r2"), ("c0", "c1")
    names = lambda xs: it.mklist(list(xs))
    i_ = lambda k: Ten((), (), num(k), False, ("py", "i"))

    def frame(nm="data", R=R, C=C):
        data = w.arr(nm, 3, 2, L="np")
        r = w.call("gpmp.misc.dataframe:DataFrame", [data, names(C), names(R)], keep=True)
        if not r.returned:
            raise Unsup("construction raises")
        return data, r.value

    def content(lab, r, o, want, rows, cols, where):
        """The frame holds `want` (function of row and column) with these names."""
        s = it.st
        it.st = r.st
        try:
            rn, cn = (it.to_list(it.getattr(o, a)) for a in ("rownames", "colnames"))
            t = w.ten(r, it.getattr(o, "data"))
        finally:
            it.st = s
        if rn is None or cn is None:
            return ck.und(lab, where, "names not known")
        ck.require(lab + ": names", list(rn) == list(rows) and list(cn) == list(cols), where, f"rows {rn} and columns {cn} instead of {list(rows)} and {list(cols)}", "names")
        if t.rank != 2 or [d.const() for d in t.dims] != [len(rows), len(cols)]:
            return ck.bad(lab + ": data", where, f"data of size {[show(d) for d in t.dims]} instead of {len(rows)} x {len(cols)}", "data under the names")
        ok = all(peq(renorm(at(t, (num(i), num(j)))), renorm(want(i, j))) for i in range(len(rows)) for j in range(len(cols)))
        ck.require(lab + ": data", None if not ok and opaque_in(t) is not None else ok, where, "the data are not those of the names", "data under the names")

    whole = lambda: SliceV(None, None, None)
    gets = [("df['r1']", "r1", (1,), (0, 1)), ("df['c1']", "c1", (0, 1, 2), (1,)),
            ("df['r2', :]", ("r2", whole()), (2,), (0, 1)), ("df[:, 'c0']", (whole(), "c0"), (0, 1, 2), (0,)),
            ("df[1:, :1]", (SliceV(i_(1), None, None), SliceV(None, i_(1), None)), (1, 2), (0,)),
            ("df[1:, 'c1']", (SliceV(i_(1), None, None), "c1"), (1, 2), (1,))]
    for lab, k, ri, ci in gets:
        def one():
            data, o = frame()
            r = w.call(it.getattr(o, "__getitem__"), [k])
            l = f"{lab} {b}"
            if ck.returns(l, r, DF + ".__getitem__"):
                if not isinstance(r.value, Obj):
                    return ck.bad(l, DF + ".__getitem__", "not a table", "selection is a table")
                content(l, r, r.value, lambda i, j: at(data, (num(ri[i]), num(ci[j]))), [R[i] for i in ri], [C[j] for j in ci], DF + ".__getitem__")
        ck.guard(f"{lab} {b}", one, DF + ".__getitem__")

    def cell():
        data, o = frame()
        r = w.call(it.getattr(o, "__getitem__"), [("r1", "c1")])
        if ck.returns(f"df['r1', 'c1'] {b}", r, DF + ".__getitem__"):
            ck.equal(f"df['r1', 'c1'] {b}", w, r.value, S(at(data, (ONE, ONE)), "f", "np"), r, None, DF + ".__getitem__")
        for k in ("other",):
            r = w.call(it.getattr(o, "__getitem__"), [k])
            ck.require(f"df['other'] raises KeyError {b}", not r.returned and all("KeyError" in str(getattr(e, "cls", e)) or "KeyError" in str(e) for _, e, _ in r.raises),
                       DF + ".__getitem__", "an unknown name is not rejected with KeyError", "exception flow")
    ck.guard(f"df['r1', 'c1'] {b}", cell, DF + ".__getitem__")

    for lab, k, hit in ([("df[%s] = v" % l[3:-1], k, (ri, ci)) for l, k, ri, ci in gets] + [("df['r1', 'c1'] = v", ("r1", "c1"), ((1,), (1,)))]):
        def one():
            data, o = frame()
            v = py(sym("in:v"))
            r = w.call(it.getattr(o, "__setitem__"), [k, v])
            if ck.returns(f"{lab} {b}", r, DF + ".__setitem__"):
                content(f"{lab} {b}", r, o, lambda i, j: v.body if i in hit[0] and j in hit[1] else at(data, (num(i), num(j))), R, C, DF + ".__setitem__")
        ck.guard(f"{lab} {b}", one, DF + ".__setitem__")

    def append():
        data, o = frame()
        row = w.arr("row", 2, L="np")
        r = w.call(it.getattr(o, "append_row"), [row, "r3"])
        if ck.returns(f"append_row {b}", r, DF + ".append_row"):
            content(f"append_row {b}", r, o, lambda i, j: at(row, (num(j),)) if i == 3 else at(data, (num(i), num(j))), R + ("r3",), C, DF + ".append_row")
        col = w.arr("col", 3, L="np")
        r = w.call(it.getattr(o, "append_col"), [col, "c2"])
        if ck.returns(f"append_col {b}", r, DF + ".append_col"):
            content(f"append_col {b}", r, o, lambda i, j: at(col, (num(i),)) if j == 2 else at(data, (num(i), num(j))), R, C + ("c2",), DF + ".append_col")
    ck.guard(f"append {b}", append, DF)

    def concat():
        data, o = frame()
        R2, C2 = ("s0", "s1", "s2"), ("d0", "d1")
        for ax in (0, 1):
            d2, o2 = frame("data2", R2 if ax == 0 else R, C if ax == 0 else C2)
            lab, where = f"concat axis={ax} {b}", DF + ".concat"
            r = w.call(it.getattr(o, "concat"), [o2], dict(axis=i_(ax)), keep=True)
            if not ck.returns(lab, r, where):
                continue
            pick = lambda i, j: (at(data, (num(i), num(j))) if (i < 3 if ax == 0 else j < 2) else at(d2, (num(i - 3), num(j)) if ax == 0 else (num(i), num(j - 2))))
            rows, cols = (R + R2, C) if ax == 0 else (R, C + C2)
            content(lab, r, r.value, pick, rows, cols, where)
            # a table made from another one is independent of it
            v = r.value
            m, arg, nm = ("append_col", w.arr("col6", 6, L="np"), "new") if ax == 0 else ("append_row", w.arr("row4", 4, L="np"), "new")
            r2 = w.call(it.getattr(v, m), [arg, nm])
            if ck.returns(lab + " then " + m, r2, where):
                content(f"{lab} then {m}: the first table", r2, o, lambda i, j: at(data, (num(i), num(j))), R, C, where)
            _, o3 = frame("data3", R, C2) if ax == 0 else frame("data3", R2, C)
            r = w.call(it.getattr(o, "concat"), [o3], dict(axis=i_(ax)))
            ck.require(f"concat axis={ax}: names that differ along the other axis {b}", not r.returned, where, "accepted", "exception flow")
        r = w.call(it.getattr(o, "concat"), [frame("data2")[1]], dict(axis=i_(2)))
        ck.require(f"concat axis=2 raises {b}", not r.returned, DF + ".concat", "an axis other than 0 and 1 is accepted", "exception flow")
    ck.guard(f"concat {b}", concat, DF + ".concat")

    def caller():
        """The lists of names belong to the caller."""
        data = w.arr("data", 3, 2, L="np")
        cn, rn = names(C), names(R)
        o = w.call("gpmp.misc.dataframe:DataFrame", [data, cn, rn], keep=True).value
        for m, a in (("append_row", [w.arr("row", 2, L="np"), "r3"]), ("append_col", [w.arr("col", 3, L="np"), "c2"])):
            r = w.call(it.getattr(o, m), a)
            if not ck.returns(f"{m} {b}", r, DF + "." + m):
                continue
            s, it.st = it.st, r.st
            try:
                same = it.to_list(rn) == list(R) and it.to_list(cn) == list(C)
            finally:
                it.st = s
            ck.require(f"{m}: the lists given to the constructor {b}", same, DF + "." + m, "the caller's list of names is changed", "effects on arguments")
        r = w.call(it.getattr(o, "__setitem__"), [("r0", "c1"), py(5)])
        if ck.returns(f"assignment {b}", r, DF + ".__setitem__"):
            t = w.ten(r, data)
            ck.require(f"assignment: the array given to the constructor {b}", peq(at(t, (ZERO, ONE)), at(w.arr("data", 3, 2, L="np"), (ZERO, ONE))), DF + ".__setitem__",
                       "the caller's array is changed", "effects on arguments")
    ck.guard(f"names of the caller {b}", caller, DF)


def run(ck):
    ck.explanation = "Benchmark functions, designs and tables against their documented meaning, on symbolic points, boxes and data."
    for b in BACKENDS:
        w = ck.world(b)
        for f in (functions, statistics, inside, grid, table):
            ck.guard(f.__name__ + " " + b, lambda: f(ck, w, b))

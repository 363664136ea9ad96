"""Data sets, loaders, splits and folds."""
from .common import *

DLM = "gpmp/dataloader.py:"
MOD = "gpmp.dataloader:"


def lst(w, v):
    o = Obj("list")
    w.it.st.heap[o] = tuple(v)
    return o


def isum(*ps):
    r = ZERO
    for p in ps:
        r = padd(r, p)
    return r


def iv(p):
    return Ten((), (), p, False, ("py", "i"))


class Data:
    """Dataset over shards with the given sizes (names, polynomials or integers)."""

    def __init__(self, w, sizes, z_as_x=False):
        self.w = w
        self.dims = [num(s) if isinstance(s, int) else s if isinstance(s, Poly) else dim(s) for s in sizes]
        self.N = isum(*self.dims)

        self.xs = [w.arr(f"x{k}", d, "d") for k, d in enumerate(self.dims)]
        self.zs = [w.arr(f"z{k}", d) for k, d in enumerate(self.dims)]
        r = w.call(MOD + "Dataset", [lst(w, self.xs), lst(w, self.zs)], keep=True)
        if not r.returned:
            raise Unsup("dataset construction raises")
        self.ds = r.value

    def loader(self, **kw):
        r = self.w.call(MOD + "DataLoader", [self.ds], kw, keep=True)
        if not r.returned:
            raise Unsup("loader construction raises")
        return r.value


def raised(r, names):
    """True when the call always raises one of these exceptions, False when it returns, None otherwise."""
    if r.returned:
        return False
    for p, e, _ in r.raises:
        c = getattr(e, "cls", None)
        n = getattr(c, "name", None) or str(c)
        if n.rsplit(".", 1)[-1] not in names:
            return None
    return True


def getitem(ck, w, b):
    where = DLM + "Dataset.__getitem__"
    j, t = sym("dim:0:j"), sym("dim:0:t")
    for K in (1, 2, 3):
        for s in range(K):
            sizes = [f"n{k}" for k in range(K)]
            sizes[s] = isum(j, t, ONE)
            D = Data(w, sizes)
            pre, post = isum(*D.dims[:s]), isum(*D.dims[s + 1:])
            row = [ops.index(D.xs[s], [iv(j)]), ops.index(D.zs[s], [iv(j)])]
            for lab, idx in (("", padd(pre, j)), (" from the end", psub(ZERO, isum(post, t, ONE)))):
                r = w.call(w.it.getattr(D.ds, "__getitem__"), [iv(idx)])
                cl = f"row of shard {s + 1} of {K}{lab} {b}"
                if not ck.returns(cl, r, where):
                    continue
                got = w.items(r)
                ck.equal(cl + " x", w, got[0], row[0], r, None, where)
                ck.equal(cl + " z", w, got[1], row[1], r, None, where)
        D = Data(w, [f"n{k}" for k in range(K)])
        for lab, idx in (("above", padd(D.N, t)), ("below", psub(ZERO, isum(D.N, t, ONE)))):
            r = w.call(w.it.getattr(D.ds, "__getitem__"), [iv(idx)])
            ck.require(f"index {lab} the range is refused, {K} shards {b}", raised(r, ("IndexError",)), where,
                       "an index outside the data set does not raise IndexError", "raise set of an out-of-range index")
        r = w.call(w.it.getattr(D.ds, "__len__"), [])
        ck.equal(f"length {K} shards {b}", w, r.value, iv(D.N), r, None, DLM + "Dataset.__len__")


def perm_of(it, n0, N):
    """The permutation drawn since position n0, if there is exactly one draw."""
    ds = it.draws[n0:]
    if len(ds) != 1 or ds[0][0] != "perm" or not peq(ds[0][2].dims[0], N):
        return None
    return ds[0][2]


def rows(w, D, which, b):
    a = D.xs if which == 0 else D.zs
    alts = []
    sp = lambda n, *v: spec(w, n, *v, mod="data")
    if len(a) == 1:
        r = sp("rows1", a[0], b)
        return [(r.value, r)]
    if len(a) == 2:
        r = sp("rows_by_shard2", a[0], a[1], iv(D.dims[0]), b)
        alts.append((r.value, r))
    full = w.ten(sp("cat", *a))
    r = sp("rows1", full, b)
    alts.append((r.value, r))
    return alts


def segments(w, r):
    h = r.st.heap.get(r.value) if isinstance(r.value, Obj) else None
    return getattr(h, "segs", None)


def epochs(ck, w, b):
    it = w.it
    where = DLM + "DataLoader.__iter__"
    it.draws = getattr(it, "draws", [])
    for K in (1, 2):
        D = Data(w, [f"n{k}" for k in range(K)])
        for shuffle in (False, True):
            for drop in (False, True):
                for seeded in (False, True):
                    if seeded and not shuffle:
                        continue
                    lab = f"{K} shard(s) shuffle={shuffle} drop_last={drop} seeded={seeded} {b}"

                    def one():
                        kw = dict(batch_size=w.size("bs"), shuffle=shuffle, drop_last=drop)
                        if seeded:
                            kw["seed"] = w.anyint("seed")
                        dl = D.loader(**kw)
                        if seeded:
                            w.call(it.getattr(dl, "set_epoch"), [w.intp("epoch")], keep=True)
                        n0 = len(it.draws)
                        with ops.some_selected():
                            r = w.call(it.getattr(dl, "__iter__"), [])
                        if not ck.returns(lab, r, where):
                            return
                        segs = segments(w, r)
                        if not segs or len(segs) != 1 or segs[0][0] != "map":
                            ck.und(lab, where, "iteration is not one indexed sequence")
                            return
                        _, n, k, val = segs[0]
                        bs = dim("bs")
                        if drop:
                            wn = spec(w, "n_full_batches", iv(D.N), iv(bs), mod="data")
                        else:
                            wn = spec(w, "n_batches", iv(D.N), iv(bs), mod="data")
                        ck.equal(f"number of batches, {lab}", w, iv(n), wn.value, r, wn, where)
                        rl = w.call(it.getattr(dl, "__len__"), [])
                        ck.equal(f"reported number of batches, {lab}", w, rl.value, wn.value, rl, wn, DLM + "DataLoader.__len__")
                        if shuffle:
                            idx = perm_of(it, n0, D.N)
                            if idx is None:
                                ck.require(f"one permutation per epoch, {lab}", False if not it.draws[n0:] else None, where,
                                           "a shuffled epoch draws no permutation of the rows", "provenance of the row order")
                                return
                            g = it.draws[n0][1]
                            if seeded:
                                ck.require(f"order fixed by seed and epoch, {lab}",
                                           "int:seed" in g and "dim:0:epoch" in g, where,
                                           f"generator {g} is not determined by seed and epoch", "provenance of the row order")
                        else:
                            idx = w.ten(spec(w, "arange", iv(D.N), mod="data"))
                        kk = ivar(k)
                        lo = pmul(kk, bs)
                        his = [f_min(padd(lo, bs), D.N)] + ([padd(lo, bs)] if drop else [])
                        bidx = [ops.mk((psub(hi, lo),), lambda i: at(idx, (padd(i, lo),)), False, idx.tag) for hi in his]
                        with ops.some_selected():
                            got = w.items(r, val)
                            for q in (0, 1):
                                ck.equal_any(f"{'xz'[q]} of batch k, {lab}", w, got[q], [a for v in bidx for a in rows(w, D, q, v)], r, where)
                    ck.guard(lab, one, where)


def second_epoch(ck, w, b):
    it = w.it
    where = DLM + "DataLoader.__iter__"
    D = Data(w, ["n0"])
    dl = D.loader(batch_size=w.size("bs"), seed=w.anyint("seed"))
    n0 = len(it.draws)
    w.call(it.getattr(dl, "__iter__"), [], keep=True)
    w.call(it.getattr(dl, "__iter__"), [], keep=True)
    g = [d[1] for d in it.draws[n0:]]
    if len(g) != 2:
        ck.und(f"successive epochs {b}", where, f"{len(g)} draws")
    else:
        ck.require(f"successive epochs use different orders {b}", g[0] != g[1], where, "both epochs use " + g[0], "provenance of the row order")


def endless(ck, w, b):
    """An endless loader orders its k-th epoch as a loader set to that epoch does, whatever is drawn in between."""
    it = w.it
    where = DLM + "DataLoader.__iter__"

    def order(n0):
        return [d[1] for d in it.draws[n0:]]
    D = Data(w, [3])
    flag = it.call(it.get("spec.data:Turns"), [2], {})
    n0 = len(it.draws)
    w.call(it.getattr(D.loader(batch_size=3, seed=w.anyint("seed"), infinite=flag), "__iter__"), [], keep=True)
    got = order(n0)
    if len(got) < 2:
        return ck.und(f"endless loader {b}", where, f"{len(got)} orders drawn")
    for e, g in enumerate(got):
        dl = D.loader(batch_size=3, seed=w.anyint("seed"))
        w.call(it.getattr(dl, "set_epoch"), [e], keep=True)
        n0 = len(it.draws)
        w.call(it.getattr(dl, "__iter__"), [], keep=True)
        want = order(n0)
        if len(want) != 1:
            return ck.und(f"endless loader {b}", where, f"{len(want)} draws in one epoch")
        ck.require(f"endless loader epoch {e} {b}", g == want[0], where, f"order drawn from {g} instead of {want[0]}", "the order depends on the seed and the epoch only")


def explicit(ck, w, b):
    """Constant sizes: every row of every batch, in order, without any assumption on masks."""
    it = w.it
    where = DLM + "DataLoader.__iter__"
    for sizes, bs in (((2, 3, 2), 3), ((1, 4), 2), ((4,), 4), ((3, 1, 1, 2), 2)):
        N = sum(sizes)
        loc = [(s, i) for s, n in enumerate(sizes) for i in range(n)]
        for drop in (False, True):
            lab = f"shards {sizes} batches of {bs} drop_last={drop} {b}"

            def one():
                D = Data(w, list(sizes))
                dl = D.loader(batch_size=bs, shuffle=False, drop_last=drop)
                r = w.call(it.getattr(dl, "__iter__"), [])
                if not ck.returns(lab, r, where):
                    return
                got = w.items(r)
                want = [list(range(k, min(k + bs, N))) for k in range(0, N, bs)]
                if drop:
                    want = [v for v in want if len(v) == bs]
                ck.require(f"count of batches, {lab}", len(got) == len(want), where, f"{len(got)} batches instead of {len(want)}", "yields of one epoch")
                for k, (g, v) in enumerate(zip(got, want)):
                    xz = w.items(r, g)
                    exp(ck, w, D, loc, v, xz, r, f"batch {k}, {lab}", where)
                nb = len(want)
                for k in list(range(nb)) + [-1]:
                    rk = w.call(it.getattr(dl, "__getitem__"), [k])
                    cl = f"loader[{k}], {lab}"
                    if ck.returns(cl, rk, DLM + "DataLoader.__getitem__"):
                        exp(ck, w, D, loc, want[k], w.items(rk), rk, cl, DLM + "DataLoader.__getitem__")
                for c in ((None, None, None), (1, None, None), (None, -1, None), (-2, None, None), (None, None, 2), (None, None, -1), (0, nb + 2, None), (nb, None, None)):
                    rk = w.call(it.getattr(dl, "__getitem__"), [ops.SliceV(*c)])
                    cl = f"loader[{':'.join('' if q is None else str(q) for q in c)}], {lab}"
                    if not ck.returns(cl, rk, DLM + "DataLoader.__getitem__"):
                        continue
                    part, bs_ = want[slice(*c)], w.items(rk)
                    ck.require(cl + " count", None if bs_ is None else len(bs_) == len(part), DLM + "DataLoader.__getitem__", f"not {len(part)} batches", "a slice of batches is a slice of the epoch")
                    for k, v in enumerate(part if bs_ is not None and len(bs_) == len(part) else ()):
                        exp(ck, w, D, loc, v, w.items(rk, bs_[k]), rk, f"{cl} batch {k}", DLM + "DataLoader.__getitem__")
                for k in (nb, -nb - 1):
                    rk = w.call(it.getattr(dl, "__getitem__"), [k])
                    ck.require(f"loader[{k}] refused, {lab}", raised(rk, ("IndexError",)), DLM + "DataLoader.__getitem__",
                               "an index outside the epoch does not raise IndexError", "raise set of an out-of-range index")
            ck.guard(lab, one, where)


def exp(ck, w, D, loc, v, xz, r, cl, where):
    for q, nm in ((0, "x"), (1, "z")):
        g = w.ten(r, xz[q])
        a = D.xs if q == 0 else D.zs
        if g.dims[0] is None or g.dims[0].const() is None:
            ck.und(f"{nm} {cl}", where, "unknown batch length")
            continue
        if g.dims[0].const() != len(v):
            ck.bad(f"{nm} {cl}", where, f"{g.dims[0].const()} rows instead of {len(v)}", "rows of a batch")
            continue
        for i, n in enumerate(v):
            s, k = loc[n]
            ck.equal(f"{nm} {cl} row {i}", w, ops.index(g, [iv(num(i))]), ops.index(a[s], [iv(num(k))]), r, None, where)


def subset(ck, w, b):
    it = w.it
    where = DLM + "Dataset.subset"
    for K in (1, 2):
        D = Data(w, [f"n{k}" for k in range(K)])
        perm = w.call("gpmp.num:permutation", [iv(D.N)])
        p = w.ten(perm)
        m = sym("dim:0:j")
        # the first j rows of a random order
        big = Data(w, ([isum(m, ONE)] if K == 1 else ["n0", isum(m, ONE)]))
        p = w.ten(w.call("gpmp.num:permutation", [iv(big.N)]))
        idx = ops.mk((m,), lambda i: at(p, (i,)), False, p.tag)
        lab = f"subset {K} shard(s) {b}"

        def one():
            with ops.some_selected():
                r = w.call(it.getattr(big.ds, "subset"), [idx], keep=False)
                if not ck.returns(lab, r, where):
                    return
                so = w.ten(w.call("gpmp.num:sort", [idx]))
                whole(ck, w, big, r, [so, idx], lab, where)
        ck.guard(lab, one, where)


def whole(ck, w, D, r, orders, lab, where):
    """Rows of a data set r.value, read through its own list interface, against the given row orders of D."""
    it = w.it
    s = it.st
    it.st = r.st
    try:
        for q, nm in ((0, "x"), (1, "z")):
            lists = it.to_list(it.getattr(r.value, nm + "_list"))
            got = ops.concat([as_ten(it, v) for v in lists], 0)
            alts = [a for o in orders for a in rows(w, D, q, o)]
            ck.equal_any(f"{nm} of {lab}", w, got, alts, r, where)
    finally:
        it.st = s


def split(ck, w, b):
    it = w.it
    where = DLM + "Dataset.split"
    for ratios in ((0.5, 0.25, 0.25), (0.25, 0.5, 0.25), (0.75, 0.25, 0.0)):
        for seeded in (False, True):
            lab = f"split {ratios} seeded={seeded} {b}"

            def one():
                D = Data(w, ["n0"])
                n0 = len(it.draws)
                with ops.some_selected():
                    r = w.call(it.getattr(it.get(MOD + "Dataset"), "split"), [D.ds],
                               dict(ratios=ratios, seed=w.anyint("seed") if seeded else None))
                    if not ck.returns(lab, r, where):
                        return
                    p = perm_of(it, n0, D.N)
                    if p is None:
                        ck.und(lab, where, "no single permutation")
                        return
                    if seeded:
                        ck.require(f"order fixed by the seed, {lab}", "int:seed" in it.draws[n0][1], where,
                                   "the order does not come from the seed", "provenance of the row order")
                    parts = w.items(r)
                    tot = []
                    s = it.st
                    it.st = r.st
                    try:
                        sizes = [as_ten(it, it.getattr(v, "size")).body for v in parts]
                    finally:
                        it.st = s
                    ck.equal(f"sizes add up, {lab}", w, iv(isum(*sizes)), iv(D.N), None, None, where)
                    lo = ZERO
                    for k, v in enumerate(parts):
                        n = sizes[k]
                        sl = ops.mk((n,), lambda i, lo=lo: at(p, (padd(i, lo),)), False, p.tag)
                        so = w.ten(w.call("gpmp.num:sort", [sl]))
                        from sa.world import Res
                        whole(ck, w, D, Res(v, r.raises, r.st), [so, sl], f"part {k}, {lab}", where)
                        lo = padd(lo, n)
            ck.guard(lab, one, where)


def folds(ck, w, b):
    it = w.it
    where = DLM + "Dataset.k_fold_indices"
    cls = it.get(MOD + "Dataset")
    N = dim("N")
    for K in (2, 3, 5):
        for seeded in (False, True):
            lab = f"{K} folds seeded={seeded} {b}"

            def one():
                n0 = len(it.draws)
                r = w.call(it.getattr(cls, "k_fold_indices"), [w.size("N"), K, w.anyint("seed") if seeded else None])
                if not ck.returns(lab, r, where):
                    return
                p = perm_of(it, n0, N)
                if p is None:
                    ck.und(lab, where, "no single permutation")
                    return
                check_folds(ck, w, r, w.items(r), p, K, lab, where)
                if seeded:
                    ck.require(f"order fixed by the seed, {lab}", "int:seed" in it.draws[n0][1], where,
                               "the order does not come from the seed", "provenance of the row order")
            ck.guard(lab, one, where)
    for n, K in ((7, 3), (11, 4), (6, 3), (5, 4)):
        def sizes():
            r = w.call(it.getattr(cls, "k_fold_indices"), [n, K])
            lab = f"{n} samples in {K} folds {b}"
            if ck.returns(lab, r, where):
                got = [w.ten(r, w.items(r, x)[1]).dims[0].const() for x in w.items(r)]
                ck.require(f"sizes, {lab}", None if None in got else max(got) - min(got) <= 1, where, f"folds of sizes {[str(g) for g in got]}", "folds of approximately the same size")
        ck.guard(f"{n} samples in {K} folds {b}", sizes, where)
    where = DLM + "Dataset.repeated_k_fold_indices"
    for seeded in (False, True):
        lab = f"2 repetitions of 3 folds seeded={seeded} {b}"

        def two():
            n0 = len(it.draws)
            r = w.call(it.getattr(cls, "repeated_k_fold_indices"), [w.size("N"), 3, 2, w.anyint("seed") if seeded else None])
            if not ck.returns(lab, r, where):
                return
            ds = it.draws[n0:]
            out = w.items(r)
            ck.require(f"number of folds, {lab}", len(out) == 6, where, f"{len(out)} folds instead of 6", "length of the result")
            if len(ds) != 2 or len(out) != 6:
                ck.und(lab, where, f"{len(ds)} draws")
                return
            for q in (0, 1):
                check_folds(ck, w, r, out[3 * q:3 * q + 3], ds[q][2], 3, f"repetition {q}, {lab}", where)
            if seeded:
                ck.require(f"orders fixed by the seed, {lab}", all("int:seed" in d[1] for d in ds), where,
                           "the order does not come from the seed", "provenance of the row order")
                ck.require(f"repetitions differ, {lab}", ds[0][1] != ds[1][1], where, "both repetitions use the same order", "provenance of the row order")
        ck.guard(lab, two, where)


def check_folds(ck, w, r, out, p, K, lab, where):
    if len(out) != K:
        ck.bad(f"number of folds, {lab}", where, f"{len(out)} instead of {K}", "length of the result")
        return
    pairs = [[w.ten(r, v) for v in w.items(r, f)] for f in out]
    vals = [v for _, v in pairs]
    ck.equal(f"validation parts make up the permutation, {lab}", w, ops.concat(vals, 0), p, r, None, where)
    for k, (tr, _) in enumerate(pairs):
        ck.equal(f"training part of fold {k}, {lab}", w, tr, ops.concat([v for q, v in enumerate(vals) if q != k], 0), r, None, where)


def stats(ck, w, b):
    it = w.it
    sp = lambda n, *a: spec(w, n, *a, mod="data")
    for K in (1, 2, 3):
        D = Data(w, [f"n{k}" for k in range(K)])
        dl = D.loader()
        for fld, a in (("x", D.xs), ("z", D.zs)):
            for st, sn in (("min", "lowest"), ("max", "highest"), ("mean", "mean"), ("var", "var"), ("std", "std"),
                           ("median", None), ("quantile", None)):
                lab = f"{fld}_{st} {K} shard(s) {b}"
                where = DLM + f"Dataset._reduce_{st}"

                def one():
                    args = [] if st != "quantile" else [0.3]
                    if sn:
                        want = sp(sn, *a)
                    else:
                        want = sp("quantile", as_ten(it, 0.3 if st == "quantile" else 0.5), *a)
                    r = w.call(it.getattr(D.ds, f"{fld}_{st}"), args)
                    if ck.returns(lab, r, where):
                        ck.equal(lab, w, r.value, want.value, r, want, where)
                    r = w.call(it.getattr(dl, f"dataset_{fld}_{st}"), args)
                    if ck.returns(lab + " through the loader", r, where):
                        ck.equal(lab + " through the loader", w, r.value, want.value, r, want, where)
                ck.guard(lab, one, where)


def loader_misc(ck, w, b):
    it = w.it
    where = DLM + "DataLoader.__init__"
    D = Data(w, ["n0", "n1"])
    t = sym("dim:0:t")
    r = w.call(MOD + "DataLoader", [D.ds], dict(batch_size=iv(pneg(t))))
    ck.require(f"non-positive batch size refused {b}", raised(r, ("ValueError",)), where, "a batch size below one is accepted", "raise set")
    dl = D.loader()
    r = w.call(it.getattr(dl, "__len__"), [])
    ck.equal(f"default batch is the whole data set {b}", w, r.value, iv(ONE), r, None, where)
    where = DLM + "DataLoader.reduce_mean"
    for sizes, bs in (((5,), 2), ((2, 3), 2), ((4,), 2), ((2, 1), None)):
        lab = f"reduce_mean shards {sizes} batches of {bs} {b}"

        def one():
            D = Data(w, list(sizes))
            X, Z = ops.concat(D.xs, 0), ops.concat(D.zs, 0)
            dl = D.loader(batch_size=bs, shuffle=False)
            r = w.call(it.getattr(dl, "reduce_mean"), [it.get("spec.data:msq")])
            if ck.returns(lab, r, where):
                want = spec(w, "msq_all", X, Z, mod="data")
                ck.equal(lab, w, r.value, want.value, r, want, where)
        ck.guard(lab, one, where)
    where = DLM + "collate_batches"

    def two():
        D = Data(w, ["n0", "n1", "n2"])
        r = w.call(MOD + "collate_batches", [lst(w, [(x, z) for x, z in zip(D.xs, D.zs)])])
        if ck.returns(f"collate {b}", r, where):
            got = w.items(r)
            for q, a in ((0, D.xs), (1, D.zs)):
                want = spec(w, "cat", *a, mod="data")
                ck.equal(f"collated {'xz'[q]} {b}", w, got[q], want.value, r, want, where)
        r = w.call(MOD + "collate_batches", [lst(w, [])])
        ck.require(f"collating nothing is refused {b}", raised(r, ("ValueError",)), where, "an empty list is accepted", "raise set")
    ck.guard(f"collate {b}", two, where)


def batch_index(ck, w, b):
    """loader[i] for symbolic i inside the epoch."""
    it = w.it
    where = DLM + "DataLoader.__getitem__"
    i, t, bs = sym("dim:0:i"), sym("dim:0:t"), dim("bs")
    N = isum(pmul(i, bs), bs, t)
    D = Data(w, [N])
    for drop in (False, True):
        lab = f"loader[i] complete batch drop_last={drop} {b}"

        def one():
            dl = D.loader(batch_size=w.size("bs"), shuffle=False, drop_last=drop)
            r = w.call(it.getattr(dl, "__getitem__"), [iv(i)])
            if not ck.returns(lab, r, where):
                return
            got = w.items(r)
            lo = pmul(i, bs)
            for q, a in ((0, D.xs[0]), (1, D.zs[0])):
                want = ops.mk((bs,) + tuple(a.dims[1:]), lambda *ix: at(a, (padd(ix[0], lo),) + tuple(ix[1:])), False, a.tag)
                ck.equal(f"{'xz'[q]} of {lab}", w, got[q], want, r, None, where)
        ck.guard(lab, one, where)


def run(ck):
    ck.explanation = ("Value graphs of the index arithmetic of Dataset and DataLoader: rows by symbolic index in 1-3 shards, batch k of an epoch, "
                      "epoch length, k-fold and split partitions of one permutation, shard reductions; constant-size layouts enumerated row by row.")
    for nm, f in (("rows", getitem), ("epochs", epochs), ("second epoch", second_epoch), ("endless", endless), ("explicit layouts", explicit), ("subset", subset),
                  ("split", split), ("folds", folds), ("statistics", stats), ("loader", loader_misc), ("batch index", batch_index)):
        each(ck, nm, lambda w, b: f(ck, w, b), DLM)

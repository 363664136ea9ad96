"""Scalers: inverse transform, fitted location and spread, nonzero scale, input untouched."""
from .common import *

DL = "gpmp/dataloader.py:"


def cases(p):
    """[(conditions, value)] of a term over its top-level indicators."""
    out = [((), p)]
    for _ in range(4):
        nxt, more = [], False
        for cs, q in out:
            ind = indicators(q)
            if not ind:
                nxt.append((cs, q))
                continue
            more = True
            k = key(ind[0])
            nxt.append((cs + ((ind[0], True),), assume(q, k, 1)))
            nxt.append((cs + ((ind[0], False),), assume(q, k, 0)))
        out = nxt
        if not more:
            break
    return out


def scaler(ck, w, b, cls, args, sp, x, y):
    it = w.it
    where = DL + cls
    lab = f"{cls} {b}"
    c = it.get("gpmp.dataloader:" + cls)
    r = w.call(it.getattr(c, "fit"), [x] + args, keep=True)
    if not ck.returns(lab + " fit", r, where + ".fit"):
        return
    s = r.value
    untouched(ck, w, lab + " fit leaves data", r, x, where + ".fit")
    roundtrip(ck, w, lab + " fitted", s, y, where)
    one, zero = (ops.const(y.dims, k, y.tag) for k in (ONE, ZERO))
    ta, tb = w.meth(s, "transform", one), w.meth(s, "transform", zero)
    if not (ta.returned and tb.returned):
        return
    A, B = w.ten(ta), w.ten(tb)
    if A.rank != y.rank or B.rank != y.rank:
        ck.bad(lab + " shape", where + ".transform", f"transform changes the number of axes ({A.rank})")
        return
    ix = [ivar(f) for f in A.formals]
    slope = psub(A.body, at(B, ix))
    shift = at(B, ix)
    want = spec(w, sp, x, *args, mod="scalers")
    loc, spread = (w.ten(want, v) for v in w.items(want))
    jx = ix[1:]
    m, sd = at(loc, jx), at(spread, jx)
    isd = ppow(sd, num(-1))
    o = opaque_in(slope) or opaque_in(shift)
    nreg = 0
    for cs, sl in cases(slope):
        sh = shift
        for i, v in cs:
            sh = assume(sh, key(i), 1 if v else 0)
        name = f"{lab} {'constant column' if any(v for _, v in cs) else 'regular column'}"
        k = sl.const()
        if k is not None:
            # replaced scale: only where the spread is tiny
            ok = k > 0 and any(v and _tiny(i, sd) for i, v in cs)
            bad = "the scale is replaced on columns whose spread is not tiny" if k > 0 else "the replaced scale is not positive"
            okloc = peq(sh, pscale(m, -k))
        else:
            nreg += 1
            ok = peq(sl, isd) and any(not v and _tiny(i, sd) for i, v in cs)
            bad = "the scale is not the documented spread, or a zero spread is not replaced: 1/scale = " + show(sl)[:160]
            okloc = peq(sh, pneg(pmul(m, isd)))
        st = "ok" if ok else "undecided" if o is not None else "violation"
        ck.add(name + " scale", st, where, "" if ok else bad, "scale is the documented spread, replaced by a positive constant where the spread is tiny")
        st = "ok" if okloc else "undecided" if o is not None else "violation"
        ck.add(name + " location", st, where, "" if okloc else "the location is not the documented one: shift = " + show(sh)[:160], "location is the documented statistic")
    if not nreg:
        ck.add(lab + " regular columns", "undecided" if o is not None else "violation", where, "the scale never is the spread of the data", "scale is the documented spread")


def _tiny(i, sd):
    """The indicator says: spread < c for a small positive constant c."""
    a = i.args[0]
    if a.op != "lt":
        return False
    p = a.args[0]
    cst = ZERO
    rest = []
    for m, c in p.terms:
        if not m.factors and not m.sums:
            cst = num(c)
        else:
            rest.append((m, c))
    q = collect(rest)
    if not q.terms or cst.const() is None or cst.const() >= 0:
        return False
    for t, c in sd.terms[:1]:
        for t2, c2 in q.terms:
            r = c2 / c
            if peq(q, pscale(sd, r)) and r > 0:
                return -cst.const() / r <= 1
    return False


def untouched(ck, w, lab, r, x, where):
    ck.add(lab, "violation" if x in r.st.heap and r.st.heap[x] is not x else "ok", where, "the caller's array is written", "no store reaches the argument")


def roundtrip(ck, w, lab, s, y, where):
    for cp in (True, False):
        f = w.meth(s, "transform", y, copy=cp)
        if not ck.returns(f"{lab} transform copy={cp}", f, where + ".transform"):
            continue
        untouched(ck, w, f"{lab} transform leaves input copy={cp}", f, y, where + ".transform")
        t = w.ten(f)
        g = w.meth(s, "inverse_transform", t, copy=cp)
        if ck.returns(f"{lab} inverse copy={cp}", g, where + ".inverse_transform"):
            ck.equal(f"{lab} inverse of transform copy={cp}", w, g.value, y, g, None, where + ".inverse_transform", "inverse_transform(transform(y)) = y")
            untouched(ck, w, f"{lab} inverse leaves input copy={cp}", g, t, where + ".inverse_transform")
        h = w.meth(s, "inverse_transform", y, copy=cp)
        if h.returned:
            k = w.meth(s, "transform", w.ten(h), copy=cp)
            if ck.returns(f"{lab} transform of inverse copy={cp}", k, where):
                ck.equal(f"{lab} transform of inverse copy={cp}", w, k.value, y, k, None, where, "transform(inverse_transform(y)) = y")


def built(ck, w, b, cls, y):
    """Constructor arguments chosen by the user, not by fit."""
    loc, sc = (w.arr("loc", 1, "d"), w.arr("scale", 1, "d")) if y.rank == 2 else (w.scal("loc"), w.scal("scale"))
    r = w.call("gpmp.dataloader:" + cls, [loc, sc], keep=True)
    if ck.returns(f"{cls} {b} constructor", r, DL + cls):
        roundtrip(ck, w, f"{cls} {b} built", r.value, y, DL + cls)


def run(ck):
    ck.explanation = ("Value graphs of fit, transform and inverse_transform of the four scalers on both backends: round trips, "
                      "fitted statistics, replacement of tiny spreads, and stores into arguments.")
    for b in BACKENDS:
        w = ck.world(b)
        x, y, z, u = w.arr("x", "n", "d"), w.arr("y", "m", "d"), w.arr("z", "n"), w.arr("u", "m")
        lo, hi = w.scal("qlo"), w.scal("qhi")
        for cls, args, sp, a, c in (("Normalizer", [], "normalizer", x, y), ("RobustScaler", [], "robust", x, y),
                                    ("RobustScaler", [lo, hi], "robust_q", x, y),
                                    ("MinMaxScaler", [], "minmax", x, y), ("ObservationScaler", [], "observation", z, u)):
            ck.guard(f"{cls} {b}", lambda: scaler(ck, w, b, cls, args, sp, a, c), DL + cls)
        for cls, c in (("Normalizer", y), ("RobustScaler", y), ("MinMaxScaler", y), ("ObservationScaler", u)):
            ck.guard(f"{cls} {b} built", lambda: built(ck, w, b, cls, c), DL + cls)

"""Summaries for loops over symbolic ranges.

The body is translated once with every loop-carried cell replaced by a hole; the relation between the hole and
the value after the body decides the summary: sum, running extremum, product, element-wise store, list map, plain
overwrite, or (otherwise) a recurrence node.
"""
from fractions import Fraction

from .terms import *
from . import ops
from .ops import Unsup
from .vgraph import Obj, Opq, Phi, SymSeq, Stop, UNDEF, State


class Hole:
    """Contents of a loop-carried list before the iteration."""

    def __init__(self, n):
        self.n = n


def has_hole(v, ids):
    """Does a term mention one of the hole atoms?"""
    if isinstance(v, (Poly, Ten, Atom)):
        for a in walk_atoms(v):
            if a.op == "hole" and a.args[0] in ids:
                return True
        return False
    if isinstance(v, tuple):
        return any(has_hole(x, ids) for x in v)
    if isinstance(v, Phi):
        return has_hole(v.c, ids) or has_hole(v.a, ids) or has_hole(v.b, ids)
    if isinstance(v, Opq):
        return "hole(" in v.k
    return False


def run_body(it, s, value, ivar_id, breaks=None):
    """Translate the body once; returns (end state, new raises)."""
    fr = it.fr
    fr.loops.append({"break": [], "continue": []})
    nret, nra = len(fr.returns), len(fr.raises)
    it.loop_ivars = getattr(it, "loop_ivars", ()) + (ivar_id,)
    ybase, fr.ybase = fr.ybase, (it.st.pc, nra)
    try:
        it.assign(s.target, value)
        it.tr_block(s.body)
        ends = [(it.st.pc, it.st)]
    except Stop:
        ends = []
    finally:
        lp = fr.loops.pop()
        fr.ybase = ybase
        it.loop_ivars = it.loop_ivars[:-1]
    if lp["break"] and breaks is not None and len(lp["break"]) == 1:
        breaks.append(lp["break"][0])
    elif lp["break"]:
        raise_clean(it, fr, nret, nra, "break in symbolic loop")
    if len(fr.returns) > nret:
        raise_clean(it, fr, nret, nra, "return in symbolic loop")
    ends += lp["continue"]
    raises = fr.raises[nra:]
    del fr.raises[nra:]
    if not ends:
        return None, raises
    return it.merge_many(ends), raises


def stop_after(c, b, n):
    """Number of completed iterations when the loop stops at the first index b with c(b) = [p0 - p1*b < 0]."""
    if len(c.terms) == 1 and c.terms[0][1] == 1:
        m = c.terms[0][0]
        if not m.sums and len(m.factors) == 1 and m.factors[0][0].op == "ind" and m.factors[0][0].args[0].op == "lt":
            p = m.factors[0][0].args[0].args[0]
            p0, p1 = [], []
            for t, k in p.terms:
                if b not in t.free:
                    p0.append((t, k))
                    continue
                fs = [(a, e) for a, e in t.factors if not (a.op == "ivar" and a.args[0] == b and e.const() == 1)]
                rest = Mono(t.sums, fs)
                if len(fs) != len(t.factors) - 1 or b in rest.free:
                    raise Unsup("break condition")
                p1.append((rest, -k))
            step = collect(p1)
            lb = size_lb(step)
            if lb is not None and lb > 0 and int_sizes(collect(p0)):
                k = padd(f_un("floor", pmul(collect(p0), ppow(step, num(-1)))), ONE)
                return f_max(f_max(k, ZERO), n, "min"), c
    raise Unsup("break in symbolic loop")


def raise_clean(it, fr, nret, nra, why):
    del fr.returns[nret:]
    del fr.raises[nra:]
    raise Unsup(why)


def cells(st0, st1):
    """Heap cells whose contents differ: [(obj, slot or None)]."""
    out = []
    for o, c1 in st1.heap.items():
        c0 = st0.heap.get(o, UNDEF)
        if isinstance(o, Ten):
            if c0 is UNDEF:
                out.append((o, None))
            elif c0 is not c1:
                out.append((o, None))
            continue
        if c0 is UNDEF or c0 is c1:
            continue
        if isinstance(c1, dict) and isinstance(c0, dict) and o.kind in ("env", "inst", "dict"):
            for k, v in c1.items():
                if k not in c0:
                    out.append((o, k))
                elif c0[k] is not v:
                    out.append((o, k))
        else:
            out.append((o, None))
    return out


def symbolic_for(it, s, n, elem):
    fr = it.fr
    s0 = it.st
    # --- dry run: which cells change
    b0 = fresh()
    it.st = s0.copy()
    yields0 = list(fr.yields) if fr.yields is not None else None
    rng0 = it.rng_count
    brk, trip, stop_cond = [], n, None
    it.st.pc = ONE
    try:
        st1, _ = run_body(it, s, elem(ivar(b0)), b0, brk)
        if brk:
            trip, stop_cond = stop_after(brk[0][0], b0, n)
    except Unsup:
        it.st = s0
        if yields0 is not None:
            fr.yields = yields0
        raise
    ylen = 0
    if yields0 is not None:
        fr.yields = list(yields0)
    if st1 is None:
        it.st = s0
        raise Unsup("body never completes")
    changed = cells(s0, st1)
    pre = {}
    for o, k in changed:
        c0 = s0.heap.get(o, UNDEF)
        if isinstance(o, Ten):
            pre[(o, k)] = o if c0 is UNDEF else c0
        elif k is not None:
            pre[(o, k)] = c0.get(k, UNDEF)
        else:
            pre[(o, k)] = c0
    # --- second run with holes
    b = fresh()
    st = s0.copy()
    it.st = st
    holes = {}
    ids = set()
    for c, v in pre.items():
        o, k = c
        if v is UNDEF:
            continue
        hid = f"h{fresh()}"
        if isinstance(o, Ten) or isinstance(v, (int, Ten)) and not isinstance(v, bool):
            t = it._num(v) if not isinstance(v, Ten) else it._in(s0, v)
            h = ops.mk(t.dims, lambda *idx: atom_poly(Atom("hole", (hid, tuple(idx)))), t.isbool, t.tag)
            holes[c] = (hid, h)
            ids.add(hid)
            if isinstance(o, Ten):
                st.heap[o] = h
            else:
                # a rebound name holding an array: fresh object, so that in-place updates are seen too
                d = dict(st.heap[o])
                d[k] = h
                st.heap[o] = d
        elif isinstance(o, Obj) and k is None and o.kind == "list":
            holes[c] = (hid, None)
            st.heap[o] = SymSeq([("hole", hid)])
        elif isinstance(v, (bool, str)) or v is None or isinstance(v, (Phi, Opq, tuple)):
            q = Opq(f"hole({hid})")
            holes[c] = (hid, q)
            ids.add(hid)
            d = dict(st.heap[o])
            d[k] = q
            st.heap[o] = d
        else:
            holes[c] = (hid, None)
    it.rng_count = rng0
    if stop_cond is not None:
        it.learn(it.st, subst(stop_cond, {b0: ivar(b)}), False)
        n = trip
    st2, raises = run_body(it, s, elem(ivar(b)), b)
    if st2 is None:
        it.st = s0
        raise Unsup("body never completes")
    ypost = None
    if fr.yields is not None and yields0 is not None and len(fr.yields) != len(yields0) or \
            (fr.yields is not None and yields0 is not None and fr.yields != yields0):
        ypost = yields_delta(yields0, fr.yields)
        fr.yields = list(yields0)
    # --- summaries
    out = State(dict(st2.heap), s0.pc, dict(s0.facts), s0.nograd)
    # cells that only changed in the second run (aliases through holes)
    for c in cells(st, st2):
        if c not in pre and not isinstance(c[0], Ten):
            o, k = c
            v0 = s0.heap[o].get(k, UNDEF) if (k is not None and isinstance(s0.heap.get(o), dict)) else s0.heap.get(o)
            pre[c] = v0
    generic = []
    for c, v0 in pre.items():
        o, k = c
        if isinstance(o, Ten):
            post = st2.heap.get(o, o)
        elif k is not None:
            post = st2.heap[o].get(k, UNDEF)
        else:
            post = st2.heap[o]
        hid, h = holes.get(c, (None, None))
        # the rebound hole object may itself have been updated in place
        if isinstance(post, Ten):
            post = it._in(st2, post)
        r = summarise(it, c, v0, post, hid, h, ids, b, n, s0)
        if r is None:
            generic.append((c, v0, post, hid, h))
            continue
        put(out, c, r[0])
    if generic:
        joint = []
        for c, v0, post, hid, h in generic:
            joint.append(it.vkey(post))
        names = {hid: f"H{q}" for q, (_, _, _, hid, _) in enumerate(generic) if hid}
        sig = "|".join(joint)
        for x, y in names.items():
            sig = sig.replace(x, y)
        for q, (c, v0, post, hid, h) in enumerate(generic):
            it.opaque_reasons["loop"] = it.opaque_reasons.get("loop", 0) + 1
            if isinstance(post, Ten) and isinstance(v0, (Ten, int)):
                vv = it._num(v0) if not isinstance(v0, Ten) else it._in(s0, v0)
                t = ops.tfn("loop", (sig, str(q), n) + (vv,), post.dims, post.tag)
                put(out, c, t)
            else:
                put(out, c, Opq(f"loop({q},{sig},{key(n)})"))
    if stop_cond is not None:
        # names assigned before the break hold the values of the iteration that stopped
        for o, k in cells(s0, brk[0][1]):
            if k is not None and not isinstance(o, Ten):
                put(out, (o, k), it.opq("after-break", k))
            else:
                it.st = s0
                raise Unsup("stores before a break")
    it.st = out
    for pc, e, stx in raises:
        if pc.const() == 1:
            continue
        anyb = Ten((b,), (n,), pc)
        cnd = ops.b_quant("rany", anyb) if b in pc.free else pc
        it.cond_raise(cnd, e)
    if ypost is not None:
        for seg in ypost:
            if seg[0] == "lit":
                if len(seg[1]) == 1:
                    fr.yields.append(("map", n, b, seg[1][0]))
                else:
                    fr.yields.append(("map", n, b, tuple(seg[1])))
            else:
                fr.yields.append(("map", sym("dim:?nested"), b, Opq("nested-yield")))


def yields_delta(a, b):
    """Segments added to the yield list."""
    if a and a[-1][0] == "lit" and len(b) >= len(a) and b[len(a) - 1][0] == "lit":
        extra = b[len(a) - 1][1][len(a[-1][1]):]
        out = [("lit", extra)] if extra else []
        return out + b[len(a):]
    return b[len(a):]


def put(st, c, v):
    o, k = c
    if isinstance(o, Ten):
        st.heap[o] = v
    elif k is not None:
        d = dict(st.heap[o])
        d[k] = v
        st.heap[o] = d
    else:
        st.heap[o] = v


def summarise(it, c, v0, post, hid, h, ids, b, n, s0):
    """Closed form of the cell after the loop, as a 1-tuple, or None."""
    o, k = c
    if isinstance(post, SymSeq) or (isinstance(o, Obj) and o.kind == "list" and k is None):
        segs = post.segs if isinstance(post, SymSeq) else None
        if segs and segs[0] == ("hole", hid):
            rest = segs[1:]
            if not rest:
                return (v0,)
            if all(x[0] == "lit" for x in rest):
                vals = [it_in(it, x) for y in rest for x in y[1]]
                base = [("lit", v0)] if isinstance(v0, tuple) and v0 else (v0.segs if isinstance(v0, SymSeq) else [])
                if any(has_hole(x, ids) for x in vals):
                    return None
                if len(vals) == 1:
                    return (SymSeq(list(base) + [("map", n, b, vals[0])]),)
                return (SymSeq(list(base) + [("map", n, b, tuple(vals)), ]),) if not base else None
        return None
    if not has_hole(post, ids):
        # overwritten in every iteration: the last value survives
        if isinstance(post, Ten):
            return (subst(post, {b: psub(n, ONE)}) if b in post.free else post,)
        if isinstance(post, (int, str, bool, Obj)) or post is None:
            return (post,)
        return (it.subst_val(post, {b: psub(n, ONE)}),)
    if not isinstance(post, Ten) or h is None or not isinstance(h, Ten):
        return None
    V0 = it._num(v0) if not isinstance(v0, Ten) else it._in(s0, v0)
    fs = post.formals
    if post.rank != V0.rank:
        if V0.rank == 0:
            hb = atom_poly(Atom("hole", (hid, ())))
        else:
            return None
    else:
        hb = at(h, [ivar(f) for f in fs])
    d = psub(post.body, hb)
    # accumulation
    if not has_hole(d, ids):
        acc = psum(d, b, n)
        base = ops.at_b(V0, [ivar(f) for f in fs])
        return (Ten(fs, post.dims, padd(base, acc), post.isbool, post.tag),)
    # element-wise store: post = h + delta(f_k, b + c) * (X - h)
    r = _store_summary(post, hb, V0, hid, ids, b, n)
    if r is not None:
        return (r,)
    # running extremum
    if len(post.body.terms) == 1 and post.body.terms[0][1] == 1:
        m = post.body.terms[0][0]
        if not m.sums and len(m.factors) == 1 and m.factors[0][0].op in ("max", "min") and m.factors[0][1].const() == 1:
            a = m.factors[0][0]
            for x, y in ((0, 1), (1, 0)):
                if peq(a.args[x], hb) and not has_hole(a.args[y], ids):
                    ten = Ten((b,), (n,), a.args[y])
                    red = ops.red_pull("r" + a.op, ten) if b in a.args[y].free else a.args[y]
                    base = ops.at_b(V0, [ivar(f) for f in fs])
                    return (Ten(fs, post.dims, f_max(base, red, a.op), False, post.tag),)
        # product
        hf = [(a, e) for a, e in m.factors if a.op == "hole" and a.args[0] == hid]
        if len(hf) == 1 and hf[0][1].const() == 1 and not m.sums and peq(atom_poly(hf[0][0]), hb):
            rest = simp_mono((), [(a, e) for a, e in m.factors if a is not hf[0][0]])
            if not has_hole(rest, ids):
                base = ops.at_b(V0, [ivar(f) for f in fs])
                pr = ppow(rest, n) if b not in rest.free else atom_poly(Atom("rprod", (Ten((b,), (n,), rest),)))
                return (Ten(fs, post.dims, pmul(base, pr), False, post.tag),)
    # boolean any/all accumulations: h or c, h and c
    if post.isbool:
        d1 = assume_hole(post.body, hb, 1)
        d0 = assume_hole(post.body, hb, 0)
        if d1 is not None and d0 is not None and not has_hole(d1, ids) and not has_hole(d0, ids):
            base = ops.at_b(V0, [ivar(f) for f in fs])
            if d1.const() == 1:
                q = ops.b_quant("rany", Ten((b,), (n,), d0))
                return (Ten(fs, post.dims, b_or(base, q), True, post.tag),)
            if d0.const() == 0:
                q = ops.b_quant("rall", Ten((b,), (n,), d1))
                return (Ten(fs, post.dims, b_and(base, q), True, post.tag),)
    return None


def assume_hole(p, hb, val):
    a = hb.terms[0][0].factors[0][0]
    k = key(a)
    out = []
    for m, c in p.terms:
        fs = []
        dead = False
        for x, e in m.factors:
            if x.op == "hole" and key(x) == k:
                if not val:
                    dead = True
            else:
                fs.append((x, e))
        if not dead:
            out.append((Mono(m.sums, fs), c))
    return collect(out)


def it_in(it, v):
    return it.V(v) if isinstance(v, Ten) else v


def _store_summary(post, hb, V0, hid, ids, b, n):
    """post = hb*(1 - prod delta) + prod delta * X, the deltas tying formals to b."""
    d = psub(post.body, hb)
    if not d.terms:
        return None
    dl = None
    for m, c in d.terms:
        ds = [a for a, e in m.factors if a.op == "delta" and b in a.free and not m.sums or a.op == "delta" and b in a.free]
        if not ds:
            return None
        ks = {key(a): a for a in ds}
        dl = ks if dl is None else {k: a for k, a in dl.items() if k in ks}
    if not dl:
        return None
    for k, a in dl.items():
        diff = psub(a.args[0], a.args[1])
        for q, f in enumerate(post.formals):
            if f not in diff.free:
                continue
            # f == b + c   ->  b = f - c
            sol = None
            rest = []
            cb = cf = None
            for m, cc in diff.terms:
                if not m.sums and len(m.factors) == 1 and m.factors[0][0].op == "ivar" and m.factors[0][1].const() == 1:
                    if m.factors[0][0].args[0] == b:
                        cb = cc
                        continue
                    if m.factors[0][0].args[0] == f:
                        cf = cc
                        continue
                rest.append((m, cc))
            if cb is None or cf is None or cb != -cf:
                continue
            off = pscale(collect(rest), -1 / cf)      # f - b = off
            X = ZERO
            for m, cc in d.terms:
                fs = [(x, e) for x, e in m.factors if not (x.op == "delta" and key(x) == k)]
                X = padd(X, pscale(Poly(((Mono(m.sums, fs), ONE_F),)), cc))
            # X here is X_value - hb on the stored positions
            val = padd(X, hb)
            val = subst(val, {b: psub(ivar(f), off)})
            if has_hole(val, ids):
                return None
            size = post.dims[q]
            if off.const() == 0 and size is not None and peq(size, n):
                return Ten(post.formals, post.dims, val, post.isbool, post.tag)
            new = Ten(post.formals, post.dims, val, post.isbool, post.tag)
            items = [ops.SliceV(None, None, None)] * post.rank
            items[q] = ops.SliceV(off, padd(off, n), None)
            return ops.store(V0, items, ops.index(new, items))
    return None

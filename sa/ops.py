"""Array operations on tensor terms (shape algebra, indexing, contractions, reductions)."""
from fractions import Fraction

from .terms import *
from . import terms as T


class Unsup(Exception):
    """Construct outside the modelled subset; the result becomes opaque."""


def D(x):
    return x if isinstance(x, Poly) else num(x)


def is1(d):
    return d is not None and d.const() == 1


def dim_eq(a, b):
    return a is not None and b is not None and peq(a, b)


def like(t, formals, dims, body, isbool=None):
    return Ten(formals, dims, body, t.isbool if isbool is None else isbool, t.tag)


# tags: (lib, dtype)   lib in py/np/torch ; dtype in f/i/b
def lib(t):
    return (t.tag or ("py", "f"))[0]


def dtype(t):
    return (t.tag or ("py", "f"))[1]


MIX = None      # when a list: operations that combine NumPy and PyTorch arrays are recorded in it


GRAD = None     # when a set of input names: values cut off from the gradient with respect to them are marked


ROOTS = []      # arguments of square roots taken while GRAD is set


class gradient_of:
    """While active, stop-gradient operations mark the dependence they cut."""

    def __init__(self, *names):
        self.names = frozenset(names)

    def __enter__(self):
        global GRAD
        self.old, GRAD = GRAD, self.names
        ROOTS.clear()

    def __exit__(self, *a):
        global GRAD
        GRAD = self.old


def sever(t):
    if GRAD is None or not isinstance(t, Ten) or t.isbool or dtype(t) in ("i", "b"):
        return t
    if not alive(t.body, GRAD):
        return t
    return Ten(t.formals, t.dims, f_un("sg", t.body), False, t.tag)


def severed(o, seen=None):
    """Stop-gradient marks that reach a value otherwise than through a condition."""
    if seen is None:
        seen = set()
    if isinstance(o, (Poly, Atom, Ten)):
        if id(o) in seen:
            return
        seen.add(id(o))
    if isinstance(o, Poly):
        for m, _ in o.terms:
            for a, e in m.factors:
                yield from severed(a, seen)
                yield from severed(e, seen)
            for _, s in m.sums:
                yield from severed(s, seen)
    elif isinstance(o, Atom):
        if o.op == "ind":
            return
        if o.op == "sg":
            yield o
            return
        for a in o.args:
            yield from severed(a, seen)
    elif isinstance(o, Ten):
        yield from severed(o.body, seen)
    elif isinstance(o, tuple):
        for a in o:
            yield from severed(a, seen)


def unsever(t):
    """A fresh differentiation variable with the same value: outermost marks are dropped."""
    def strip(p):
        if not any(a.op == "sg" for m, _ in p.terms for a, _ in m.factors):
            return p
        r = ZERO
        for m, c in p.terms:
            q = num(c)
            for a, e in m.factors:
                if a.op == "sg" and e == ONE:
                    q = pmul(q, strip(a.args[0]))
                else:
                    q = pmul(q, collect([(Mono((), ((a, e),)), ONE_F)]))
            for b, n in reversed(m.sums):
                q = psum(q, b, n)
            r = padd(r, q)
        return r
    return Ten(t.formals, t.dims, strip(t.body), t.isbool, t.tag)


def alive(o, names):
    """Whether a gradient can flow from the named inputs to o."""
    if isinstance(o, Poly):
        return any(alive(a, names) or alive(e, names) for m, _ in o.terms for a, e in m.factors)
    if isinstance(o, Atom):
        if o.op == "in":
            return o.args[0] in names
        return o.op not in ("sg", "ind") and any(alive(a, names) for a in o.args)
    if isinstance(o, Ten):
        return alive(o.body, names)
    return isinstance(o, tuple) and any(alive(a, names) for a in o)


def autograd(y, x):
    """Derivative of a scalar, as a linear operator: what does not involve x is taken out.
    None when no gradient flows from x to y."""
    names = {a.args[0] for a in walk_atoms(x.body) if a.op == "in"}
    out = []
    for m, c in y.body.terms:
        dep = [(a, e) for a, e in m.factors if alive(a, names) or alive(e, names)]
        if not dep:
            continue
        rest = [(a, e) for a, e in m.factors if not (alive(a, names) or alive(e, names))]
        out.append((m, c, rest, Ten((), (), collect([(Mono((), tuple(dep)), ONE_F)]))))
    if not out and GRAD is not None and y.body.terms:
        return None

    def body(*idx):
        r = ZERO
        for m, c, rest, d in out:
            p = collect([(Mono((), tuple(rest)), c)]) if rest else num(c)
            p = pmul(p, atom_poly(Atom("autograd", (d, x, tuple(idx)))))
            for b, n in reversed(m.sums):
                p = psum(p, b, n)
            r = padd(r, p)
        return r
    return mk(x.dims, body, False, ("torch", "f"))


def join_tag(*ts):
    libs = [lib(t) for t in ts]
    if MIX is not None and "torch" in libs and any(l == "np" and t.rank for l, t in zip(libs, ts)):
        MIX.append(tuple(libs))
    L = "torch" if "torch" in libs else "np" if "np" in libs else "py"
    dts = [dtype(t) for t in ts]
    Dt = "f" if "f" in dts else "h" if "h" in dts else "i" if "i" in dts else "b"
    return (L, Dt)


def with_tag(t, L=None, dt=None):
    l0, d0 = t.tag or ("py", "f")
    tag = (L or l0, dt or d0)
    if tag == t.tag:
        return t
    r = Ten(t.formals, t.dims, t.body, tag[1] == "b", tag)
    return sever(r) if GRAD is not None and l0 == "torch" and tag[0] != "torch" else r


def copy(t):
    return Ten(t.formals, t.dims, t.body, t.isbool, t.tag)


def broadcast_dims(ts):
    r = max((t.rank for t in ts), default=0)
    dims = []
    for k in range(r):
        d = None
        found = False
        for t in ts:
            off = r - t.rank
            if k < off:
                continue
            dk = t.dims[k - off]
            if is1(dk):
                if not found:
                    d, found = dk, True
                continue
            if not found or is1(d):
                d, found = dk, True
            elif d is None:
                d = dk
        dims.append(d)
    return dims


def at_b(t, idx):
    """Element with broadcasting (idx for the broadcast shape)."""
    off = len(idx) - t.rank
    ii = []
    for k, d in enumerate(t.dims):
        ii.append(ZERO if is1(d) else idx[k + off])
    return at(t, ii)


def elementwise(fn, *ts, isbool=False, tag=None):
    dims = broadcast_dims(ts)
    tg = tag or join_tag(*ts)
    return mk(dims, lambda *idx: fn(*[at_b(t, idx) for t in ts]), isbool, tg)


def broadcast_to(t, dims):
    return mk(dims, lambda *idx: at_b(t, idx), t.isbool, t.tag)


def norm_axis(axis, rank):
    return axis + rank if axis < 0 else axis


def reduce_sum(t, axis=None, keepdims=False):
    return reduce_gen(t, axis, keepdims, lambda p, b, n: psum(p, b, n))


def axes_of(axis, rank):
    if axis is None:
        return list(range(rank))
    if isinstance(axis, tuple):
        return sorted(norm_axis(a, rank) for a in axis)
    return [norm_axis(axis, rank)]


def reduce_gen(t, axis, keepdims, red):
    axs = axes_of(axis, t.rank)
    if any(a >= t.rank for a in axs):
        raise Unsup("axis out of range")
    fs = [fresh() for _ in range(t.rank)]
    p = at(t, [ivar(f) for f in fs])
    for a in axs:
        d = t.dims[a]
        if d is None:
            raise Unsup("unknown size in reduction")
        if is1(d):
            p = subst(p, {fs[a]: ZERO})
        elif d.const() is not None and d.const() <= 8:
            p = psum_list([subst(p, {fs[a]: num(k)}) for k in range(int(d.const()))]) \
                if red is _SUMRED else red(p, fs[a], d)
        else:
            p = red(p, fs[a], d)
    formals, dims = [], []
    for a in range(t.rank):
        if a in axs:
            if keepdims:
                formals.append(fresh())
                dims.append(ONE)
        else:
            formals.append(fs[a])
            dims.append(t.dims[a])
    tag = t.tag if dtype(t) != "b" else (lib(t), "i")
    return Ten(formals, dims, p, False, tag)


def _SUMRED(p, b, n):
    return psum(p, b, n)


def sum_(t, axis=None, keepdims=False):
    return reduce_gen(t, axis, keepdims, _SUMRED)


def size_of(t, axis=None):
    p = ONE
    for a in axes_of(axis, t.rank):
        if t.dims[a] is None:
            raise Unsup("unknown size")
        p = pmul(p, t.dims[a])
    return p


def mean(t, axis=None, keepdims=False):
    s = sum_(t, axis, keepdims)
    n = size_of(t, axis)
    r = elementwise(lambda x: pmul(x, ppow(n, num(-1))), s)
    return with_tag(r, dt="f")


def var(t, axis=None, ddof=0, keepdims=False):
    m = mean(t, axis, True) if axis is not None or t.rank else t
    c = elementwise(lambda a, b: ppow(psub(a, b), num(2)), t, m)
    s = sum_(c, axis, keepdims)
    n = psub(size_of(t, axis), num(ddof))
    return with_tag(elementwise(lambda x: pmul(x, ppow(n, num(-1))), s), dt="f")


def order_of(t, p, fs, a, op):
    """Position of the extremum among constants, or among exponentials of constants."""
    ps = [renorm(subst(p, {fs[a]: num(k)})) for k in range(int(t.dims[a].const()))]
    vs = [q.const() for q in ps]
    if None in vs and all(positive(q) for q in ps):
        vs = [f_log(q).const() for q in ps]
    if not vs or None in vs:
        return None
    return num(vs.index(max(vs) if op == "argmax" else min(vs)))


def red_atom(op):
    """Non-linear reductions as atoms over the lambda-abstracted operand."""
    def r(t, axis=None, keepdims=False, isbool=False, dt=None):
        axs = axes_of(axis, t.rank)
        if any(a >= t.rank for a in axs):
            raise Unsup("axis out of range")
        fs = [fresh() for _ in range(t.rank)]
        p = at(t, [ivar(f) for f in fs])
        real = [a for a in axs if not is1(t.dims[a])]
        for a in axs:
            if is1(t.dims[a]):
                p = subst(p, {fs[a]: ZERO})
        if real:
            small = [a for a in real if t.dims[a] is not None and t.dims[a].const() is not None
                     and t.dims[a].const() <= 6]
            if len(small) == len(real) and op in ("rmax", "rmin", "rany", "rall", "rprod"):
                comb = {"rmax": f_max, "rmin": f_min, "rany": b_or, "rall": b_and, "rprod": pmul}[op]
                for a in real:
                    ps = [subst(p, {fs[a]: num(k)}) for k in range(int(t.dims[a].const()))]
                    if not ps:
                        if op not in ("rany", "rall", "rprod"):
                            raise Unsup("extremum of nothing")
                        p = ZERO if op == "rany" else ONE
                        continue
                    q = ps[0]
                    for x in ps[1:]:
                        q = comb(q, x)
                    p = q
            elif op in ("argmax", "argmin") and len(real) == len(small) == 1 and order_of(t, p, fs, real[0], op) is not None:
                p = order_of(t, p, fs, real[0], op)
            else:
                inner = Ten(tuple(fs[a] for a in real), tuple(t.dims[a] for a in real), p)
                if op in ("rany", "rall"):
                    p = b_quant(op, inner)
                elif op in ("rmax", "rmin") and not (inner.body.free & set(inner.formals)):
                    p = inner.body
                else:
                    p = red_pull(op, inner)
        elif op in ("argmax", "argmin"):
            p = ZERO
        formals, dims = [], []
        for a in range(t.rank):
            if a in axs:
                if keepdims:
                    formals.append(fresh())
                    dims.append(ONE)
            else:
                formals.append(fs[a])
                dims.append(t.dims[a])
        return Ten(formals, dims, p, isbool, (lib(t), "b" if isbool else dt or dtype(t)))
    return r


def red_pull(op, inner):
    """rmax(-x) = -rmin(x): canonical sign for extrema."""
    if op in ("rmax", "rmin", "argmax", "argmin") and inner.body.terms:
        lead = T._content(inner.body)
        if lead < 0:
            op2 = {"rmax": "rmin", "rmin": "rmax", "argmax": "argmin", "argmin": "argmax"}[op]
            q = atom_poly(Atom(op2, (Ten(inner.formals, inner.dims, pneg(inner.body)),)))
            return pneg(q) if op.startswith("r") else q
    return atom_poly(Atom(op, (inner,)))


FORCE_ANY = T.FORCE_ANY


class some_selected:
    """Scenario in which every mask that is tested for emptiness selects something."""

    def __enter__(self):
        FORCE_ANY[0] = True

    def __exit__(self, *a):
        FORCE_ANY[0] = False


def _upper(p, rng, depth=0):
    """Upper bounds (sizes only) of an index expression; rng maps index variables to (low, high)."""
    if depth > 8:
        return []
    for m, c in p.terms:
        if m.sums:
            continue
        for a, e in m.factors:
            if e.const() != 1:
                continue
            if a.op == "ivar" and a.args[0] in rng:
                alts = [rng[a.args[0]][1 if c > 0 else 0]]
            elif a.op == "rng" and a.args[0] == "perm":
                alts = [psub(a.args[4], ONE) if c > 0 else ZERO]
            elif a.op in ("min", "max") and (a.op == "min") == (c > 0):
                alts = list(a.args)
            elif a.op == "sort" and a.args[0].dims[0] is not None:
                f = fresh()
                rng[f] = (ZERO, psub(a.args[0].dims[0], ONE))
                alts = [at(a.args[0], (ivar(f),))]
            else:
                continue
            if None in alts:
                continue
            rest = Poly(((Mono((), [(x, y) for x, y in m.factors if x is not a]), c),))
            pos = size_lb(pscale(rest, 1 if c > 0 else -1))
            if pos is None or pos < 0:
                continue
            others = psub(p, Poly(((m, c),)))
            out = []
            for v in alts:
                out += _upper(padd(others, pmul(rest, v)), rng, depth + 1)
            return out
    return [p]


def settle_mask(t):
    """Decide the comparisons of a mask that follow from the ranges of its index variables."""
    ind = indicators(t.body)
    if not ind or not t.rank:
        return t
    rng = {f: (ZERO, None if d is None else psub(d, ONE)) for f, d in zip(t.formals, t.dims)}
    body = t.body
    for a in ind:
        if not isinstance(a.args[0], Atom) or a.args[0].op != "lt" or len(a.args[0].args[0].terms) > 12:
            continue
        p = a.args[0].args[0]
        for f in p.free:
            rng.setdefault(f, (ZERO, None))
        if any(size_lb(pneg(u)) is not None and size_lb(pneg(u)) > 0 for u in _upper(p, rng)):
            body = assume(body, key(a), 1)
        elif any(size_lb(pneg(u)) is not None and size_lb(pneg(u)) >= 0 for u in _upper(pneg(p), rng)):
            body = assume(body, key(a), 0)
    return t if body is t.body else Ten(t.formals, t.dims, body, t.isbool, t.tag)


def _mask_on(x):
    """Selected positions of a mask of small constant size whose entries are all decided."""
    n = x.dims[0].const() if x.rank == 1 and x.dims[0] is not None else None
    if n is None or n > 64:
        return None
    v = [at(x, (num(i),)).const() for i in range(int(n))]
    if None in v:
        return None
    return [i for i, c in enumerate(v) if c]


def _mask_run(x):
    """(start, length) when the mask selects one constant run."""
    on = _mask_on(x)
    if not on:
        return None if on is None else (0, 0)
    return (on[0], len(on)) if on[-1] - on[0] + 1 == len(on) else None


def b_quant(op, inner):
    """any/all canonicalised to any."""
    inner = settle_mask(inner)
    if not (inner.body.free & set(inner.formals)):
        return inner.body
    if FORCE_ANY[0] and op == "rany":
        return ONE
    if op == "rall":
        neg = Ten(inner.formals, inner.dims, b_not(inner.body))
        return b_not(atom_poly(Atom("ind", (Atom("any", (neg,)),))))
    return atom_poly(Atom("ind", (Atom("any", (inner,)),)))


# ---------------------------------------------------------------------------------- contractions
def matmul(a, b):
    if a.rank == 0 or b.rank == 0:
        raise Unsup("matmul of scalars")
    a2 = a if a.rank > 1 else expand(a, 0)
    b2 = b if b.rank > 1 else expand(b, 1)
    n = a2.dims[-1]
    if n is None or is1(n) and not is1(b2.dims[-2]):
        n = b2.dims[-2]
    if n is None:
        raise Unsup("unknown contraction size")
    ba = a2.dims[:-2]
    bb = b2.dims[:-2]
    lead = broadcast_dims([Ten(tuple(fresh() for _ in ba), ba, ZERO), Ten(tuple(fresh() for _ in bb), bb, ZERO)])

    def fn(*idx):
        li = idx[:len(lead)]
        i, j = idx[len(lead)], idx[len(lead) + 1]
        return contract(lambda k: pmul(_at_lead(a2, li, (i, k)), _at_lead(b2, li, (k, j))), n)

    dims = tuple(lead) + (a2.dims[-2], b2.dims[-1])
    r = mk(dims, fn, False, join_tag(a, b))
    if a.rank == 1:
        r = drop(r, len(lead))
    if b.rank == 1:
        r = drop(r, r.rank - 1)
    return r


def _at_lead(t, li, ij):
    k = t.rank - 2
    ii = []
    for q in range(k):
        d = t.dims[q]
        ii.append(ZERO if is1(d) else li[len(li) - k + q])
    for q, x in zip((k, k + 1), ij):
        ii.append(ZERO if is1(t.dims[q]) else x)
    return at(t, ii)


MATFUN = {"invchol", "chol", "inv"}


def contract(f, n):
    c = n.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 8:
        if c > 1:
            b = fresh()
            p = f(ivar(b))
            if any(a.op in MATFUN and b in a.free for m, _ in p.terms for a, _ in m.factors):
                return psum(p, b, n)
        return psum_list([f(num(k)) for k in range(int(c))])
    b = fresh()
    return psum(f(ivar(b)), b, n)


def expand(t, axis):
    axis = axis + t.rank + 1 if axis < 0 else axis
    f = fresh()
    return like(t, t.formals[:axis] + (f,) + t.formals[axis:], t.dims[:axis] + (ONE,) + t.dims[axis:], t.body)


def drop(t, axis):
    axis = norm_axis(axis, t.rank)
    body = subst(t.body, {t.formals[axis]: ZERO})
    return like(t, t.formals[:axis] + t.formals[axis + 1:], t.dims[:axis] + t.dims[axis + 1:], body)


def squeeze(t, axis=None):
    if axis is not None:
        axs = [norm_axis(a, t.rank) for a in (axis if isinstance(axis, tuple) else (axis,))]
        axs = [a for a in axs if is1(t.dims[a])]
    else:
        axs = [a for a in range(t.rank) if is1(t.dims[a])]
    for a in sorted(axs, reverse=True):
        t = drop(t, a)
    return t


def permute(t, perm):
    perm = [norm_axis(p, t.rank) for p in perm]
    if t.rank == 2 and perm == [1, 0]:
        for ax in (0, 1):
            sub = split_concat(t, ax)
            if sub:
                r = concat([permute(p, perm) for p in sub], 1 - ax)
                return with_tag(r, *t.tag) if t.tag else r
    return like(t, tuple(t.formals[p] for p in perm), tuple(t.dims[p] for p in perm), t.body)


def tT(t):
    return permute(t, tuple(reversed(range(t.rank))))


def swap(t, a, b):
    perm = list(range(t.rank))
    a, b = norm_axis(a, t.rank), norm_axis(b, t.rank)
    perm[a], perm[b] = perm[b], perm[a]
    return permute(t, perm)


def einsum(spec, ts):
    spec = spec.replace(" ", "")
    if "..." in spec:
        # ellipsis axes become right-aligned capital-letter labels
        ins = spec.split("->")[0].split(",")
        if len(ins) != len(ts):
            raise Unsup("einsum arity")
        free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in spec]
        ks = [t.rank - (len(s) - 3) if "..." in s else 0 for s, t in zip(ins, ts)]
        m = max(ks)
        if m < 0 or m > len(free) or min(ks) < 0:
            raise Unsup("einsum rank")
        lab = "".join(free[:m])
        new = [s.replace("...", lab[m - k:] if k else "") for s, k in zip(ins, ks)]
        if "->" in spec:
            out = spec.split("->")[1].replace("...", lab)
        else:
            letters = sorted(set("".join(s.replace("...", "") for s in ins)))
            allin = "".join(s.replace("...", "") for s in ins)
            out = lab + "".join(c for c in letters if allin.count(c) == 1)
        spec = ",".join(new) + "->" + out
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = sorted(set(ins.replace(",", "")))
        out = "".join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(",")
    if len(ins) != len(ts):
        raise Unsup("einsum arity")
    dims = {}
    for s, t in zip(ins, ts):
        if len(s) != t.rank:
            raise Unsup("einsum rank")
        for c, d in zip(s, t.dims):
            if c not in dims or dims[c] is None or is1(dims[c]):
                dims[c] = d

    def fn(*idx):
        env = dict(zip(out, idx))
        summed = [c for c in dims if c not in out]
        ids = {c: fresh() for c in summed}
        for c in summed:
            env[c] = ivar(ids[c])
        p = ONE
        for s, t in zip(ins, ts):
            p = pmul(p, at(t, [ZERO if is1(d) else env[c] for c, d in zip(s, t.dims)]))
        for c in summed:
            if dims[c] is None:
                raise Unsup("einsum size")
            cst = dims[c].const()
            if cst is not None and cst <= 8:
                p = psum_list([subst(p, {ids[c]: num(k)}) for k in range(int(cst))])
            else:
                p = psum(p, ids[c], dims[c])
        return p

    return mk([dims[c] for c in out], fn, False, join_tag(*ts))


def trace(t):
    n = t.dims[0]
    if n is None:
        n = t.dims[1]
    return Ten((), (), contract(lambda i: at(t, (i, i)), n), False, t.tag)


def diag(t):
    if t.rank == 2:
        d = t.dims[0] if not (t.dims[0] is None or is1(t.dims[0])) else t.dims[1]
        return mk((d,), lambda i: at(t, (i, i)), t.isbool, t.tag)
    if t.rank == 1:
        return mk((t.dims[0], t.dims[0]), lambda i, j: pmul(delta(i, j), at(t, (i,))), False, t.tag)
    raise Unsup("diag rank")


def eye(n, m=None, k=0, tag=("py", "f")):
    m = n if m is None else m
    return mk((n, m), lambda i, j: delta(padd(i, num(k)), j), False, tag)


def const(dims, v, tag=("np", "f"), isbool=False):
    return mk(dims, lambda *i: v, isbool, tag)


# ---------------------------------------------------------------------------------- reshape
def resolve_minus1(t, dims):
    total = size_of(t)
    k = [i for i, d in enumerate(dims) if d.const() == -1]
    if not k:
        return dims
    rest = ONE
    for i, d in enumerate(dims):
        if i != k[0]:
            rest = pmul(rest, d)
    q = pmul(total, ppow(rest, num(-1)))
    out = list(dims)
    out[k[0]] = q
    return out


def reshape(t, dims):
    dims = list(dims)
    if any(d is None for d in t.dims):
        # unknown sizes: only handle pure insert/drop of size-1 axes around one axis
        nz = [i for i, d in enumerate(t.dims) if not is1(d)]
        if len(nz) == 1 and sum(1 for d in dims if not is1(d)) == 1:
            dims = [t.dims[nz[0]] if not is1(d) else d for d in dims]
        else:
            raise Unsup("reshape of unknown size")
    else:
        dims = resolve_minus1(t, dims)
    src = [i for i, d in enumerate(t.dims) if not is1(d)]
    dst = [i for i, d in enumerate(dims) if not is1(d)]
    same = len(src) == len(dst) and all(
        dims[j] is t.dims[i] or (dims[j] is not None and t.dims[i] is not None and peq(dims[j], t.dims[i]))
        for i, j in zip(src, dst))
    if same:
        def fn(*idx):
            ii = [ZERO] * t.rank
            for i, j in zip(src, dst):
                ii[i] = idx[j]
            return at(t, ii)
        return mk(dims, fn, t.isbool, t.tag)
    tc = copy(t)
    return mk(dims, lambda *idx: f_reshape(tc, tuple(dims), tuple(idx)), t.isbool, t.tag)


def _groups(src, dst):
    """Runs of axes with equal products, or None."""
    out, i, j = [], 0, 0
    while i < len(src) or j < len(dst):
        a, b = [], []
        pa = pb = ONE
        while True:
            if a and b and peq(pa, pb):
                break
            ca, cb = pa.const(), pb.const()
            if (not a or (b and ca is not None and cb is not None and ca < cb) or j >= len(dst)) and i < len(src):
                a.append(i)
                pa = pmul(pa, src[i])
                i += 1
            elif j < len(dst):
                b.append(j)
                pb = pmul(pb, dst[j])
                j += 1
            else:
                return None
        out.append((a, b))
    return out


def f_reshape(t, dims, idx):
    """Entry of a reshaped array: runs of axes kept as they are, constant positions inside merged or split axes resolved."""
    g = _groups(t.dims, dims) if all(d is not None for d in t.dims) and all(d is not None for d in dims) else None
    if g is not None:
        ii = [None] * t.rank
        for a, b in g:
            if len(a) == 1 and len(b) == 1:
                ii[a[0]] = idx[b[0]]
                continue
            pos = ZERO
            for k in b:
                pos = padd(pmul(pos, dims[k]), idx[k])
            pos = pos.const()
            if pos is None or pos.denominator != 1:
                break
            for k in reversed(a[1:]):
                n = t.dims[k].const()
                if n is None:
                    break
                ii[k] = num(pos % n)
                pos //= n
            else:
                ii[a[0]] = num(pos)
                continue
            break
        else:
            return at(t, ii)
    return atom_poly(Atom("reshape", (t, dims, idx)))


T.REBUILD["reshape"] = f_reshape


def flatten(t):
    return reshape(t, [num(-1)])


# ---------------------------------------------------------------------------------- concat
def concat(parts, axis=0):
    parts = [p for p in parts]
    if not parts:
        raise Unsup("empty concat")
    r = parts[0].rank
    axis = norm_axis(axis, r)
    if any(p.rank != r for p in parts):
        raise Unsup("concat ranks differ")
    flat = []
    for p in parts:
        sub = split_concat(p, axis)
        flat.extend(sub if sub else [p])
    parts = [p for p in flat if not (p.dims[axis] is not None and p.dims[axis].const() == 0)]
    if not parts:
        return flat[0]
    parts = _merge_parts(parts, axis)
    if len(parts) == 1:
        return parts[0]
    dims = list(parts[0].dims)
    for p in parts[1:]:
        for k in range(r):
            if dims[k] is None or (is1(dims[k]) and k != axis):
                dims[k] = p.dims[k]
    tot = ZERO
    for p in parts:
        if p.dims[axis] is None:
            tot = None
            break
        tot = padd(tot, p.dims[axis])
    dims[axis] = tot
    tag = join_tag(*parts)
    # canonical nesting: axis 0 outermost
    if axis > 0:
        subs = [split_concat(p, 0) for p in parts]
        if all(subs) and len({len(s) for s in subs}) == 1 and all(
                dim_eq(s[k].dims[0], subs[0][k].dims[0]) for s in subs for k in range(len(s))):
            rows = [concat([s[k] for s in subs], axis) for k in range(len(subs[0]))]
            return concat(rows, 0)
    # all parts are the same expression of the global position: not a real concatenation
    ps = tuple(copy(p) for p in parts)
    return mk(dims, lambda *idx: f_concat(axis, ps, tuple(idx)), all(p.isbool for p in parts), tag)


def _merge_parts(parts, axis):
    """Join neighbours where the second continues the expression of the first."""
    out = [parts[0]]
    for p in parts[1:]:
        q = out[-1]
        n = q.dims[axis]
        if n is not None and p.dims[axis] is not None and len(p.body.terms) == len(q.body.terms) and q.tag == p.tag \
                and p.isbool == q.isbool and all(dim_eq(a, b) for k, (a, b) in enumerate(zip(p.dims, q.dims)) if k != axis):
            here = at(q, tuple(padd(ivar(f), n) if k == axis else ivar(f) for k, f in enumerate(p.formals)))
            if peq(here, p.body):
                dims = list(q.dims)
                dims[axis] = padd(n, p.dims[axis])
                out[-1] = Ten(q.formals, tuple(dims), q.body, q.isbool, q.tag)
                continue
        out.append(p)
    return out


def split_concat(t, axis):
    """If t is literally a concatenation along axis, its parts."""
    b = t.body
    if len(b.terms) == 1 and b.terms[0][1] == 1:
        m = b.terms[0][0]
        if not m.sums and len(m.factors) == 1 and m.factors[0][0].op == "concat" and m.factors[0][1].const() == 1:
            a = m.factors[0][0]
            if a.args[0] == axis and all(peq(i, ivar(f)) for i, f in zip(a.args[2], t.formals)) \
                    and len(a.args[2]) == t.rank and t.dims[axis] is not None:
                tot = ZERO
                for p in a.args[1]:
                    if p.dims[axis] is None:
                        return None
                    tot = padd(tot, p.dims[axis])
                if peq(tot, t.dims[axis]):
                    return list(a.args[1])
    return None


def stack(parts, axis=0):
    r = parts[0].rank
    axis = axis + r + 1 if axis < 0 else axis
    return concat([expand(p, axis) for p in parts], axis)


def hstack(parts):
    return concat(parts, 0 if parts[0].rank == 1 else 1)


def vstack(parts):
    return concat([expand(p, 0) if p.rank == 1 else p for p in parts], 0)


def resolve_concat(body, f, lo, size):
    """Replace concat(.. idx=f+lo ..) by the part covering [lo, lo+size)."""
    want = padd(ivar(f), lo)
    table = {}
    for a in list(walk_atoms(body)):
        if a.op != "concat" or f not in a.free:
            continue
        ax = a.args[0]
        idx = list(a.args[2])
        if peq(idx[ax], want):
            off = ZERO
            for p in a.args[1]:
                d = p.dims[ax]
                if d is None:
                    break
                rel = psub(lo, off)
                end = psub(padd(off, d), padd(lo, size))
                if nonneg_dim(rel) and nonneg_dim(end):
                    idx[ax] = padd(ivar(f), rel)
                    table[key(a)] = resolve_concat(at(p, idx), f, rel, size)
                    break
                off = padd(off, d)
            continue
        for ax2 in range(len(idx)):
            if ax2 != ax and peq(idx[ax2], want) and any(split_concat(p, ax2) for p in a.args[1]):
                items = [SliceV(None, None, None)] * len(idx)
                items[ax2] = SliceV(lo, padd(lo, size), None)
                parts = [index(p, items) for p in a.args[1]]
                idx[ax2] = ivar(f)
                table[key(a)] = f_concat(ax, tuple(parts), tuple(idx))
                break
    if not table:
        return body
    return replace_atoms(body, lambda a: table.get(key(a)) if a.op == "concat" else None)


def replace_atoms(o, fn):
    """Rewrite atoms bottom-up: fn(atom) -> Poly or None."""
    if isinstance(o, Poly):
        out = []
        changed = False
        for m, c in o.terms:
            p = ONE
            ch = False
            for a, e in m.factors:
                pa = replace_atoms(a, fn)
                pe = replace_atoms(e, fn)
                if pa is not a or pe is not e:
                    ch = True
                base = pa if isinstance(pa, Poly) else atom_poly(pa)
                p = pmul(p, ppow(base, pe)) if ch or True else p
            if ch:
                changed = True
                for b, s in m.sums:
                    p = psum(p, b, replace_atoms(s, fn))
                out.append(pscale(p, c))
            else:
                out.append(Poly(((m, c),)))
        return psum_list(out) if changed else o
    if isinstance(o, Atom):
        r = fn(o)
        if r is not None:
            return r
        if o.op == "ivar":
            return o
        args = tuple(replace_atoms(a, fn) for a in o.args)
        if all(x is y for x, y in zip(args, o.args)):
            return o
        if o.op == "ind":
            a0 = args[0]
            if isinstance(a0, Poly):
                return o
        return rebuild(o.op, args)
    if isinstance(o, Ten):
        b = replace_atoms(o.body, fn)
        if b is o.body:
            return o
        return Ten(o.formals, o.dims, b, o.isbool, o.tag)
    if isinstance(o, tuple):
        r = tuple(replace_atoms(x, fn) for x in o)
        return o if all(x is y for x, y in zip(r, o)) else r
    return o


# ---------------------------------------------------------------------------------- indexing
class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def _bound(v, d, default):
    """Slice bound as Poly; v is None, int or Poly."""
    if v is None:
        return default
    p = D(v)
    c = p.const()
    if c is not None and c < 0:
        if d is None:
            raise Unsup("negative bound, unknown size")
        return padd(d, p)
    return p


def _scaled_ivar(p):
    """A loop index times a size occurs: the bound of a block, which may pass the end."""
    return any(any(a.op == "ivar" for a, _ in m.factors) and any(a.op == "sym" for a, _ in m.factors) for m, _ in p.terms)


def slice_range(s, d):
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        c = D(step).const()
        if c is None or c.denominator != 1:
            raise Unsup("symbolic step")
        step = int(c)
    if step < 0:
        if s.lo is None and s.hi is None and step == -1 and d is not None:
            return psub(d, ONE), d, -1
        raise Unsup("negative step")
    lo = _bound(s.lo, d, ZERO)
    hi = _bound(s.hi, d, d)
    if hi is None:
        n = None
    else:
        dc = d.const() if d is not None else None
        if dc is not None and hi.const() is not None and hi.const() > dc:
            hi = d
        if dc is not None and lo.const() is not None and lo.const() > dc:
            lo = d
        if d is not None and dc is None and s.hi is not None and _scaled_ivar(hi):
            hi = f_max(hi, d, "min")
        n = psub(hi, lo)
        if n.const() is not None and n.const() < 0:
            n = ZERO
        if step > 1:
            n = f_un("ceil", pscale(n, Fraction(1, step)))
    return lo, n, step


def index(t, items):
    """Basic/advanced indexing.  items: ints/Poly (scalar index), SliceV, None (newaxis), Ellipsis,
    Ten (mask or integer array)."""
    items = list(items)
    used = sum((x.rank if isinstance(x, Ten) and x.isbool else 1) for x in items
               if x is not None and x is not Ellipsis)
    if Ellipsis in [x for x in items if not isinstance(x, (Poly, Ten, SliceV))]:
        k = [i for i, x in enumerate(items) if x is Ellipsis][0]
        items[k:k + 1] = [SliceV(None, None, None)] * (t.rank - used)
    else:
        items += [SliceV(None, None, None)] * (t.rank - used)
    if sum((x.rank if isinstance(x, Ten) and x.isbool else 1) for x in items if x is not None) != t.rank:
        raise Unsup("too many indices")
    adv = [x for x in items if isinstance(x, Ten)]
    if len(adv) == 1 and adv[0].isbool and adv[0].rank == 1:
        k = [isinstance(x, Ten) for x in items].index(True)
        m = settle_mask(adv[0])
        on = None if m.body.const() is not None or _mask_run(m) else _mask_on(m)
        if on:
            r = concat([index(t, items[:k] + [SliceV(i, i + 1, None)] + items[k + 1:]) for i in on],
                       sum(x is None or isinstance(x, SliceV) for x in items[:k]))
            r.sel = _selection(items, t)
            return r
    dims, src = [], []      # src: one index poly builder per source axis
    formals = []
    post = []
    k = 0
    if adv:
        # broadcast of integer arrays placed at the first advanced position
        ints = [x for x in adv if not x.isbool]
        bdims = broadcast_dims(ints) if ints else []
        bform = [fresh() for _ in bdims]
        placed = False
        for x in items:
            if x is None:
                formals.append(fresh())
                dims.append(ONE)
                continue
            if isinstance(x, Ten):
                if x.isbool:
                    if len(adv) > 1:
                        raise Unsup("mask with other arrays")
                    f = fresh()
                    formals.append(f)
                    x = settle_mask(x)
                    if x.rank == 1 and x.body.const() == 1:
                        dims.append(x.dims[0])
                        src.append(ivar(f))
                        k += 1
                        continue
                    run = _mask_run(x)
                    if run:
                        dims.append(num(run[1]))
                        src.append(padd(ivar(f), num(run[0])))
                        k += 1
                        continue
                    mk_ = Ten(x.formals, x.dims, x.body)
                    dims.append(atom_poly(Atom("nnz", (mk_,))))
                    for r_ in range(x.rank):
                        src.append(atom_poly(Atom("nz", (mk_, r_, ivar(f)))))
                    k += x.rank
                else:
                    if not placed:
                        formals.extend(bform)
                        dims.extend(bdims)
                        placed = True
                    src.append(_wrap_neg(at_b(x, [ivar(b) for b in bform]), t.dims[k]))
                    k += 1
            else:
                _basic(x, t, k, formals, dims, src, post)
                k += 1
    else:
        for x in items:
            if x is None:
                formals.append(fresh())
                dims.append(ONE)
                continue
            _basic(x, t, k, formals, dims, src, post)
            k += 1
    body = at(t, src)
    for f, lo, n in post:
        body = resolve_concat(body, f, lo, n)
    r = Ten(formals, dims, body, t.isbool, t.tag)
    r.sel = _selection(items, t)
    return r


def _selection(items, t):
    ms = [k for k, x in enumerate(items) if isinstance(x, Ten) and x.isbool]
    if len(ms) != 1 or not all(_full(x) for k, x in enumerate(items) if k != ms[0]):
        return None
    m = items[ms[0]]
    return (key(Ten(m.formals, m.dims, m.body)), ms[0], t)


def _full(x):
    return isinstance(x, SliceV) and x.lo is None and x.hi is None and x.step is None


def _wrap_neg(p, d):
    c = p.const()
    if c is not None and c < 0 and d is not None:
        return padd(d, p)
    return p


def _basic(x, t, k, formals, dims, src, post):
    d = t.dims[k]
    if isinstance(x, SliceV):
        lo, n, step = slice_range(x, d)
        f = fresh()
        formals.append(f)
        dims.append(n)
        if is1(n):
            src.append(lo)
            return
        src.append(padd(lo, pscale(ivar(f), step)))
        if step == 1 and n is not None and not (lo.const() == 0 and dim_eq(n, d)):
            post.append((f, lo, n))
    else:
        p = D(x)
        c = p.const()
        if c is not None and c < 0:
            if d is None:
                raise Unsup("negative index, unknown size")
            p = padd(d, p)
        src.append(p)


def store(t, items, v):
    """Functional update t[items] = v."""
    items = [x for x in items]
    used = sum((x.rank if isinstance(x, Ten) and x.isbool else 1) for x in items
               if x is not None and x is not Ellipsis)
    if any(x is Ellipsis for x in items):
        k = [i for i, x in enumerate(items) if x is Ellipsis][0]
        items[k:k + 1] = [SliceV(None, None, None)] * (t.rank - used)
    else:
        items += [SliceV(None, None, None)] * (t.rank - used)
    if any(x is None for x in items):
        raise Unsup("newaxis in store")
    masks = [x for x in items if isinstance(x, Ten) and x.isbool]
    if masks:
        if len(masks) > 1:
            raise Unsup("several masks")
        m = masks[0]
        pos = [i for i, x in enumerate(items) if x is m][0]
        others = items[:pos] + items[pos + 1:]
        if not all(isinstance(x, SliceV) and x.lo is None and x.hi is None and x.step is None for x in others):
            raise Unsup("mask with partial slices")
        mt = Ten(m.formals, m.dims, m.body)
        mkey = key(mt)

        def fn(*idx):
            mi = idx[pos:pos + m.rank]
            cond = at(m, mi)
            if v.rank == 0:
                val = v.body
            elif v.sel is not None and v.sel[0] == mkey and v.sel[1] == pos and v.sel[2].rank == t.rank:
                val = at(v.sel[2], idx)
            else:
                # v indexed by (lead..., k, trail...) where k enumerates the mask
                kk = fresh()
                vi = list(idx[:pos]) + [ivar(kk)] + list(idx[pos + m.rank:])
                val = at_b(v, vi)

                def rep(a):
                    if a.op == "nz" and key(a.args[0]) == mkey and peq(a.args[2], ivar(kk)):
                        return mi[a.args[1]]
                    return None
                val = replace_atoms(val, rep)
                if kk in val.free:
                    val = subst(val, {kk: atom_poly(Atom("rank", (mt, tuple(mi))))})
            return f_ite(cond, val, at(t, idx))
        return mk(t.dims, fn, t.isbool, t.tag)
    arrs = [x for x in items if isinstance(x, Ten)]
    if arrs:
        return _store_gather(t, items, v)
    # partial slices -> concatenation structure; integer indices -> delta
    part = None
    for k, x in enumerate(items):
        if isinstance(x, SliceV):
            lo, n, step = slice_range(x, t.dims[k])
            if step != 1:
                raise Unsup("strided store")
            full = lo.const() == 0 and (n is not None and t.dims[k] is not None and peq(n, t.dims[k]) or
                                        (x.lo is None and x.hi is None))
            if not full:
                part = (k, lo, n)
                break
    if part is not None:
        k, lo, n = part
        d = t.dims[k]
        if d is None or n is None:
            raise Unsup("unknown sizes in store")
        full = [SliceV(None, None, None)] * t.rank
        pre, mid, suf = list(full), list(full), list(full)
        pre[k] = SliceV(None, lo, None)
        mid[k] = SliceV(lo, padd(lo, n), None)
        suf[k] = SliceV(padd(lo, n), None, None)
        it2 = list(items)
        it2[k] = SliceV(None, None, None)
        m_ = store(index(t, mid), it2, v)
        return with_tag(concat([index(t, pre), m_, index(t, suf)], k), *t.tag) if t.tag else \
            concat([index(t, pre), m_, index(t, suf)], k)

    def fn2(*idx):
        cond = ONE
        vi = []
        for k, x in enumerate(items):
            if isinstance(x, SliceV):
                vi.append(idx[k])
            else:
                p = D(x)
                if p.const() is not None and p.const() < 0:
                    p = padd(t.dims[k], p)
                cond = pmul(cond, ONE if is1(t.dims[k]) else delta(idx[k], p))
        # numpy drops leading size-1 axes of the value
        vv = v
        while vv.rank > len(vi) and is1(vv.dims[0]):
            vv = drop(vv, 0)
        val = at_b(vv, vi) if vv.rank <= len(vi) else None
        if val is None:
            raise Unsup("store value rank")
        old = at(t, idx)
        return padd(old, pmul(cond, psub(val, old)))
    return _covered(mk(t.dims, fn2, t.isbool, t.tag), items)


def _covered(t, items):
    """Drop the uninitialised part of a small array once every position along the indexed axis has been stored."""
    ks = [k for k, x in enumerate(items) if not isinstance(x, SliceV)]
    if len(ks) != 1 or D(items[ks[0]]).const() is None:
        return t
    k = ks[0]
    n = t.dims[k].const() if t.dims[k] is not None else None
    if n is None or not 1 < n <= 16 or not any(a.op == "uninit" for a in walk_atoms(t.body)):
        return t
    rows = [index(t, [SliceV(None, None, None)] * k + [j]) for j in range(int(n))]
    if any(a.op == "uninit" for r in rows for a in walk_atoms(r.body)):
        return t

    def fn(*idx):
        rest = list(idx[:k]) + list(idx[k + 1:])
        return psum_list([pmul(delta(idx[k], num(j)), at(r, rest)) for j, r in enumerate(rows)])
    return mk(t.dims, fn, t.isbool, t.tag)


def _store_gather(t, items, v):
    tc = copy(t)
    its = tuple(x if isinstance(x, Ten) else
                (D(x) if not isinstance(x, SliceV) else
                 ("slice",) + tuple("N" if q is None else D(q) for q in (x.lo, x.hi, x.step))) for x in items)
    vc = copy(v)
    return mk(t.dims, lambda *idx: atom_poly(Atom("scatter", (tc, its, vc, tuple(idx)))), t.isbool, t.tag)


# ---------------------------------------------------------------------------------- linear algebra
def tfn(op, args, dims, tag=("np", "f"), isbool=False):
    """Opaque-free tensor function: elements are atoms op(args; idx)."""
    args = tuple(copy(a) if isinstance(a, Ten) else a for a in args)
    return mk(dims, lambda *idx: atom_poly(Atom(op, args + (tuple(idx),))), isbool, tag)


def const_rows(A):
    """Rows of numbers of a small constant square matrix of at least two rows, or None."""
    n = A.dims[0].const() if A.rank == 2 and A.dims[0] is not None and A.dims[1] is not None and A.dims[0].const() == A.dims[1].const() else None
    if n is None or not 2 <= n <= 4:
        return None
    rows = []
    for i in range(int(n)):
        rows.append([at(A, (num(i), num(j))).const() for j in range(int(n))])
        if None in rows[-1]:
            return None
    return rows


def from_rows(rows, tag):
    cells = [(num(i), num(j), num(x)) for i, r in enumerate(rows) for j, x in enumerate(r) if x]
    return mk((num(len(rows)), num(len(rows[0]))), lambda i, j: psum_list([pmul(pmul(delta(a, i), delta(b, j)), x) for a, b, x in cells]), False, tag)


def inverse_rows(rows):
    n = len(rows)
    M = [[Fraction(x) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(rows)]
    for c in range(n):
        k = next((i for i in range(c, n) if M[i][c]), None)
        if k is None:
            return None
        M[c], M[k] = M[k], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for i in range(n):
            if i != c and M[i][c]:
                M[i] = [x - M[i][c] * y for x, y in zip(M[i], M[c])]
    return [r[n:] for r in M]


def inv(A):
    A = copy(A)
    rows = const_rows(A)
    if rows is not None and (rows := inverse_rows(rows)) is not None:
        return from_rows(rows, A.tag)
    return mk((A.dims[1], A.dims[0]), lambda i, j: f_inv(A, (i, j)), False, A.tag)


def chol(A, lower=True):
    A = copy(A)
    L = mk(A.dims, lambda i, j: atom_poly(Atom("chol", (A, (i, j)))), False, A.tag)
    return L if lower else tT(L)


def match_chol(t):
    """If t is chol(A) or chol(A)^T: (A, transposed?)."""
    b = t.body
    if t.rank == 2 and len(b.terms) == 1 and b.terms[0][1] == 1:
        m = b.terms[0][0]
        if not m.sums and len(m.factors) == 1 and m.factors[0][0].op == "chol" and m.factors[0][1].const() == 1:
            a = m.factors[0][0]
            i, j = a.args[1]
            fi, fj = ivar(t.formals[0]), ivar(t.formals[1])
            if peq(i, fi) and peq(j, fj):
                return a.args[0], False
            if peq(i, fj) and peq(j, fi):
                return a.args[0], True
    return None


def match_op(t, op, npos):
    """If t is literally op(args; formals...) return (atom, permutation of formals)."""
    b = t.body
    if len(b.terms) == 1 and b.terms[0][1] == 1:
        m = b.terms[0][0]
        if not m.sums and len(m.factors) == 1 and m.factors[0][0].op == op and m.factors[0][1].const() == 1:
            a = m.factors[0][0]
            idx = a.args[npos]
            perm = []
            for i in idx:
                for k, f in enumerate(t.formals):
                    if peq(i, ivar(f)):
                        perm.append(k)
                        break
                else:
                    return None
            return a, perm
    return None


def solve_tri(A, B, lower, trans=False, unit=False):
    """Solve op(A) X = B where only the stated triangle of A is read."""
    Aop = tT(A) if trans else A
    low = (not lower) if trans else lower
    m = match_chol(Aop)
    if m is not None and not unit:
        M, transposed = m
        if low and not transposed:
            Ai = mk(Aop.dims, lambda i, j: atom_poly(Atom("invchol", (M, (i, j)))), False, A.tag)
            return matmul(Ai, B)
        if not low and transposed:
            Ai = mk(Aop.dims, lambda i, j: atom_poly(Atom("invchol", (M, (j, i)))), False, A.tag)
            return matmul(Ai, B)
    mq = match_op(Aop, "qr_r", 1)
    if mq is not None and not unit:
        a, perm = mq
        up = perm == [0, 1]
        if up == (not low):
            return matmul(inv(Aop), B)
    rows = None if unit else const_rows(Aop)
    if rows is not None:
        rows = inverse_rows([[x if (j <= i if low else j >= i) else 0 for j, x in enumerate(r)] for i, r in enumerate(rows)])
        if rows is not None:
            return matmul(from_rows(rows, A.tag), B)
    tri = tfn("tri" + ("l" if low else "u") + ("1" if unit else ""), (Aop,), Aop.dims, A.tag)
    return matmul(inv(tri), B)


def solve(A, B):
    return matmul(inv(A), B)


HOOKS["resolve_concat"] = resolve_concat
HOOKS["transpose"] = tT


def settle(t):
    """Element-wise form of a small constant-size array built by stores into an uninitialised one."""
    if not t.rank or not any(a.op == "uninit" for a in walk_atoms(t.body)):
        return t
    n = 1
    for d in t.dims:
        c = d.const() if d is not None else None
        if c is None:
            return t
        n *= int(c)
    if not 0 < n <= 64:
        return t
    parts = [settle(index(t, [k])) for k in range(int(t.dims[0].const()))]
    return with_tag(stack(parts), *(t.tag or ()))

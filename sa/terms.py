"""Normal forms for value-graph nodes.

A numeric value is a *tensor term* ``Ten``: a lambda over index variables whose body is a polynomial
(``Poly``) in atoms.  Monomials carry bound summation indices, so contractions (matmul, einsum, sum of
products, trace, ...) all end up in one index notation; equality of normal forms is equality of values in
exact real arithmetic.  Booleans are polynomials over idempotent indicator atoms (value 0 or 1), which makes
differently nested conditionals coincide.
"""
import hashlib
import itertools
import math
from fractions import Fraction

_ctr = itertools.count(1)


def fresh():
    return next(_ctr)


ZERO_F = Fraction(0)
ONE_F = Fraction(1)


class TermLimit(Exception):
    """The normal form grew beyond the working limit."""


MAX_TERMS = 4000

# ----------------------------------------------------------------------------------------- keys
_long = {}
SYM_ARGS = {"delta", "max", "min"}      # argument order is immaterial
SYM_IDX = {"invs": 1, "cov": 1}         # position of a tuple argument whose order is immaterial


def _shorten(s):
    if len(s) > 160:
        h = "#" + hashlib.md5(s.encode()).hexdigest()[:16]
        _long[h] = s
        return h
    return s


def free(o):
    if isinstance(o, (Poly, Ten, Atom)):
        return o.free
    if isinstance(o, tuple):
        r = frozenset()
        for x in o:
            r |= free(x)
        return r
    return frozenset()


def key(o, env=None, depth=0):
    """Canonical string of a term; ``env`` labels free index variables."""
    if isinstance(o, (Poly, Ten, Atom)):
        if not o.free:
            if o._k is None:
                o._k = _shorten(o._key({}, 0))
            return o._k
        if not env or not (o.free & env.keys()):
            if o._kf is None:
                o._kf = {}
            r = o._kf.get(None)
            if r is None:
                r = o._kf[None] = _shorten(o._key({}, 0))
            return r
        if o._kf is None:
            o._kf = {}
        ck = (tuple(sorted((i, env.get(i)) for i in o.free)), depth)
        r = o._kf.get(ck)
        if r is None:
            r = _shorten(o._key(env, depth))
            if len(o._kf) > 60:
                o._kf.clear()
            o._kf[ck] = r
        return r
    if isinstance(o, tuple):
        return "(" + ",".join(key(x, env, depth) for x in o) + ")"
    if isinstance(o, str):
        return "'" + o
    return repr(o)


def _canon_order(ids, factors, env, depth, sizes):
    """Order bound ids canonically: refine by occurrence pattern, permute within ties."""
    if len(ids) == 1:
        return list(ids)
    inv = {}
    for b in ids:
        e = dict(env)
        for c in ids:
            e[c] = "@" if c == b else "?"
        fk = sorted(key(a, e, depth + 1) + "^" + key(x, e, depth + 1)
                    for a, x in factors if b in a.free or b in x.free)
        inv[b] = "|".join(fk) + "|" + key(sizes[b], e, depth + 1)
    groups = {}
    for b in ids:
        groups.setdefault(inv[b], []).append(b)
    order = []
    gl = [groups[k] for k in sorted(groups)]
    total = 1
    for g in gl:
        for i in range(2, len(g) + 1):
            total *= i
    if total == 1 or total > 800:
        for g in gl:
            order += g
        return order
    best = None
    for perm in itertools.product(*[list(itertools.permutations(g)) for g in gl]):
        cand = [x for g in perm for x in g]
        e = dict(env)
        for k_, b in enumerate(cand):
            e[b] = f"s{depth}.{k_}"
        s = "*".join(sorted(key(a, e, depth + 1) + "^" + key(x, e, depth + 1) for a, x in factors))
        if best is None or s < best[0]:
            best = (s, cand)
    return best[1]


class Atom:
    __slots__ = ("op", "args", "free", "_k", "_kf")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._k = None
        self._kf = None
        if op == "ivar":
            self.free = frozenset([args[0]])
        else:
            self.free = free(args)

    def _key(self, env, depth):
        if self.op == "ivar":
            return env.get(self.args[0], f"?{self.args[0]}")
        if self.op in ("eq", "abs") and isinstance(self.args[0], Poly):
            return self.op + "(" + min(key(self.args[0], env, depth), key(pneg(self.args[0]), env, depth)) + ")"
        if self.op in SYM_ARGS:
            return self.op + "(" + ",".join(sorted(key(a, env, depth) for a in self.args)) + ")"
        if self.op in SYM_IDX:
            n_ = SYM_IDX[self.op]
            return self.op + "(" + ",".join(key(a, env, depth) for a in self.args[:n_]) + ";" + \
                ",".join(sorted(key(a, env, depth) for a in self.args[n_])) + \
                ";" + ",".join(key(a, env, depth) for a in self.args[n_ + 1:]) + ")"
        return self.op + "(" + ",".join(key(a, env, depth) for a in self.args) + ")"

    def __repr__(self):
        return show(self)


def _ivar_of(p):
    if len(p.terms) == 1 and p.terms[0][1] == 1:
        m = p.terms[0][0]
        if not m.sums and len(m.factors) == 1 and m.factors[0][0].op == "ivar" and m.factors[0][1].const() == 1:
            return m.factors[0][0].args[0]
    return None


def _delta_env(factors, env):
    """Labels for the other factors of a monomial: indices equated by a delta share one label."""
    out = None
    for a, _ in factors:
        if a.op == "delta":
            i, j = _ivar_of(a.args[0]), _ivar_of(a.args[1])
            if i is None or j is None:
                continue
            if out is None:
                out = dict(env)
            ni, nj = out.get(i, f"?{i}"), out.get(j, f"?{j}")
            lab = min(ni, nj)
            for k_ in list(out):
                if out[k_] in (ni, nj):
                    out[k_] = lab
            out[i] = out[j] = lab
    return env if out is None else out


class Mono:
    """coeff-free monomial: bound sums [(id, size)] and factors [(Atom, exponent Poly)]."""
    __slots__ = ("sums", "factors", "free", "_k")

    def __init__(self, sums, factors):
        self.sums = tuple(sums)
        self.factors = tuple((a, ONE if e is not ONE and e.const() == 1 else e) for a, e in factors)
        f = frozenset()
        for a, e in self.factors:
            f |= a.free | e.free
        for b, s in self.sums:
            f |= s.free
        self.free = f - frozenset(b for b, _ in self.sums)
        self._k = None

    def key(self, env, depth):
        if not self.sums:
            if not self.factors:
                return "1"
            if (not env or not self.free) and self._k is not None:
                return self._k
            de = _delta_env(self.factors, env)
            s = "*".join(sorted(key(a, env if a.op == "delta" else de, depth) +
                                ("" if e is ONE else "^" + key(e, de, depth))
                                for a, e in self.factors))
            if not env or not self.free:
                self._k = s
            return s
        ids = [b for b, _ in self.sums]
        sizes = dict(self.sums)
        order = _canon_order(ids, self.factors, env, depth, sizes)
        e2 = dict(env)
        for k_, b in enumerate(order):
            e2[b] = f"s{depth}.{k_}"
        head = ",".join(key(sizes[b], e2, depth + 1) for b in order)
        de = _delta_env(self.factors, e2)
        return "S[" + head + "]" + "*".join(sorted(
            key(a, e2 if a.op == "delta" else de, depth + 1) +
            ("" if e is ONE else "^" + key(e, de, depth + 1)) for a, e in self.factors))


class Poly:
    __slots__ = ("terms", "free", "_k", "_kf")

    def __init__(self, terms):
        self.terms = terms  # tuple of (Mono, Fraction)
        f = frozenset()
        for m, _ in terms:
            f |= m.free
        self.free = f
        self._k = None
        self._kf = None

    def _key(self, env, depth):
        if not self.terms:
            return "0"
        return "{" + "+".join(sorted(
            (m.key(env, depth) + "~" + str(c)) for m, c in self.terms)) + "}"

    # -- convenience
    def const(self):
        """Fraction value if constant, else None."""
        if not self.terms:
            return ZERO_F
        if len(self.terms) == 1:
            m, c = self.terms[0]
            if not m.sums and not m.factors:
                return c
        return None

    def __repr__(self):
        return show(self)


class Ten:
    """Tensor term: lambda formals. body, with sizes ``dims`` (entries may be None = unknown)."""
    __slots__ = ("formals", "dims", "body", "free", "_k", "_kf", "isbool", "tag", "sel")

    def __init__(self, formals, dims, body, isbool=False, tag=None):
        self.formals = tuple(formals)
        self.dims = tuple(dims)
        self.body = body
        self.free = body.free - frozenset(self.formals)
        self._k = None
        self._kf = None
        self.isbool = isbool
        self.tag = tag
        self.sel = None     # (mask key, axis, source) when gathered with a boolean mask

    @property
    def rank(self):
        return len(self.formals)

    def _key(self, env, depth):
        e2 = dict(env)
        for k_, b in enumerate(self.formals):
            e2[b] = f"t{depth}.{k_}"
        return f"\\{len(self.formals)}." + key(self.body, e2, depth + 1)

    def __repr__(self):
        return show(self)


_EMPTY = Mono((), ())
ZERO = Poly(())
ONE = None
ONE = Poly(((_EMPTY, ONE_F),))


def num(x):
    if isinstance(x, Poly):
        return x
    f = to_fraction(x)
    if f == 0:
        return ZERO
    if f == 1:
        return ONE
    return Poly(((_EMPTY, f),))


def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    raise TypeError(x)


def atom_poly(a):
    return Poly(((Mono((), ((a, ONE),)), ONE_F),))


def ivar(i):
    return atom_poly(Atom("ivar", (i,)))


def nonneg_dim(p):
    """p is a nonnegative combination of sizes (hence >= 0)."""
    return all(c >= 0 and all(a.op == "sym" and str(a.args[0]).startswith("dim:") or a.op == "nnz"
                              for a, _ in m.factors) for m, c in p.terms)


FORCE_ANY = [False]     # scenario: masks with an undecided entry select at least one element


def size_lb(p):
    """Integer lower bound of an affine/monomial combination of sizes with nonnegative coefficients, or None.

    Array sizes are at least 1, other integer symbols (dim:?, dim:0:) at least 0."""
    lb = 0
    for m, c in p.terms:
        if not m.factors and not m.sums:
            lb += c
            continue
        if c < 0 or m.sums:
            return None
        one = True
        for a, e in m.factors:
            ce = e.const()
            if ce is None or ce <= 0:
                return None
            if a.op == "nnz":
                one = one and FORCE_ANY[0]
            elif a.op == "sym" and str(a.args[0]).startswith("dim:"):
                one = one and a.args[0][4:5] != "?" and not a.args[0].startswith("dim:0:")
            else:
                return None
        if one:
            lb += c
    return lb


def _nonneg_size(a):
    if a.op == "sym":
        return str(a.args[0]).startswith("dim:")
    if a.op == "floor":
        return all(c >= 0 and not m.sums and all(_nonneg_size(x) for x, _ in m.factors) for m, c in a.args[0].terms)
    return a.op == "ind"


def int_lb(p):
    """Lower bound using also indicators (0 or 1) and remainders a - b*floor(a/b) (0 to b-1)."""
    lb = size_lb(p)
    if lb is not None:
        return lb
    if any(a.op == "floor" for m, _ in p.terms for a, _ in m.factors):
        lb = 0
        for m, c in p.terms:
            if not m.factors and not m.sums:
                lb += c
            elif c < 0 or m.sums or not all(_nonneg_size(a) for a, _ in m.factors):
                lb = None
                break
        if lb is not None:
            return lb
    fl = [(m, c, a) for m, c in p.terms for a, e in m.factors if a.op == "floor" and e.const() == 1]
    if len(fl) == 1:
        m, c, f = fl[0]
        rest = Poly(((Mono(m.sums, [(a, e) for a, e in m.factors if a is not f]), ONE_F),))
        # |c| * rest = b,  f = floor(q):  remainder = b q - b floor(q)
        b = pscale(rest, abs(c))
        rem = psub(pmul(b, f.args[0]), pmul(b, atom_poly(f)))
        if int_sizes(pmul(b, f.args[0])):
            if c < 0:
                o = psub(p, rem)
                return size_lb(o)
            o = padd(p, rem)            # p = o - rem >= o - (b - 1)
            return size_lb(padd(psub(o, b), ONE))
    lb = 0
    rest = []
    for m, c in p.terms:
        if m.factors and not m.sums and all(a.op == "ind" for a, _ in m.factors):
            lb += min(c, 0)
        else:
            rest.append((m, c))
    if len(rest) == len(p.terms):
        return None
    r = size_lb(collect(rest))
    return None if r is None else r + lb


def int_sizes(p):
    """Integer combination of size symbols only."""
    return all(c.denominator == 1 and not m.sums and all(
        a.op == "sym" and str(a.args[0]).startswith(("dim:", "int:")) and e.const() is not None and e.const() > 0 and e.const().denominator == 1
        for a, e in m.factors) for m, c in p.terms)


def sym(name):
    return atom_poly(Atom("sym", (name,)))


def collect(pairs):
    """[(Mono, coeff)] -> Poly with like terms merged."""
    d = {}
    for m, c in pairs:
        if c == 0:
            continue
        k = m.key({}, 0)
        if k in d:
            d[k] = (d[k][0], d[k][1] + c)
        else:
            d[k] = (m, c)
    out = tuple((m, c) for m, c in (d[k] for k in sorted(d)) if c != 0)
    if len(out) > MAX_TERMS:
        raise TermLimit()
    if not out:
        return ZERO
    if len(out) == 1 and out[0][1] == 1 and not out[0][0].factors and not out[0][0].sums:
        return ONE
    return Poly(out)


def padd(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    return collect(a.terms + b.terms)


def psum_list(ps):
    r = []
    for p in ps:
        r.extend(p.terms)
    return collect(r)


def pscale(a, c):
    c = to_fraction(c)
    if c == 0:
        return ZERO
    if c == 1:
        return a
    return Poly(tuple((m, k * c) for m, k in a.terms))


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    return padd(a, pneg(b))


def peq(a, b):
    if a is b:
        return True
    return key(a) == key(b)


# ----------------------------------------------------------------------------------------- subst
def subst(o, m):
    """Substitute index variables: m maps id -> Poly."""
    if isinstance(o, Poly):
        if not (o.free & m.keys()):
            return o
        out = []
        for mono, c in o.terms:
            out.append(pscale(_subst_mono(mono, m), c))
        return psum_list(out)
    if isinstance(o, Atom):
        if not (o.free & m.keys()):
            return o
        if o.op == "ivar":
            raise AssertionError("ivar atom substituted outside Poly")
        return Atom(o.op, tuple(subst(a, m) for a in o.args))
    if isinstance(o, Ten):
        if not (o.free & m.keys()):
            return o
        m2 = {k: v for k, v in m.items() if k not in o.formals and k in o.free}
        formals, body = o.formals, o.body
        clash = set()
        for v in m2.values():
            clash |= v.free & set(formals)
        if clash:
            ren = {f: fresh() for f in clash}
            body = rename(body, ren)
            formals = tuple(ren.get(f, f) for f in formals)
        return Ten(formals, tuple(None if d is None else subst(d, m2) for d in o.dims), subst(body, m2),
                   o.isbool, o.tag)
    if isinstance(o, tuple):
        return tuple(subst(x, m) for x in o)
    return o


def rename(o, ren):
    """Structural renaming of index variables (id -> id); no re-simplification."""
    if isinstance(o, Poly):
        if not (o.free & ren.keys()):
            return o
        return Poly(tuple((_rename_mono(m, ren), c) for m, c in o.terms))
    if isinstance(o, Atom):
        if not (o.free & ren.keys()):
            return o
        if o.op == "ivar":
            return Atom("ivar", (ren[o.args[0]],))
        return Atom(o.op, tuple(rename(a, ren) for a in o.args))
    if isinstance(o, Ten):
        if not (o.free & ren.keys()):
            return o
        r2 = {k: v for k, v in ren.items() if k not in o.formals}
        return Ten(o.formals, tuple(None if d is None else rename(d, r2) for d in o.dims), rename(o.body, r2),
                   o.isbool, o.tag)
    if isinstance(o, tuple):
        return tuple(rename(x, ren) for x in o)
    return o


def _rename_mono(m, ren):
    if not (m.free & ren.keys()):
        return m
    r2 = {k: v for k, v in ren.items() if k not in {b for b, _ in m.sums}}
    return Mono(tuple((b, rename(s, r2)) for b, s in m.sums),
                tuple((rename(a, r2), rename(e, r2)) for a, e in m.factors))


def _subst_mono(mono, m):
    if not (mono.free & m.keys()):
        return Poly(((mono, ONE_F),))
    # refresh bound ids, so substituted terms can never be captured
    ren = {}
    sums = []
    for b, s in mono.sums:
        nb = fresh()
        ren[b] = ivar(nb)
        sums.append((nb, s))
    mm = dict(m)
    mm.update(ren)
    sums = [(b, subst(s, mm)) for b, s in sums]
    p = ONE
    for a, e in mono.factors:
        p = pmul(p, ppow(atom_subst(a, mm), subst(e, mm)))
    for b, s in sums:
        p = psum(p, b, s)
    return p


def atom_subst(a, m):
    """Atom -> Poly after substitution and re-simplification."""
    if not (a.free & m.keys()):
        return atom_poly(a)
    if a.op == "ivar":
        return m[a.args[0]]
    args = tuple(subst(x, m) for x in a.args)
    return rebuild(a.op, args)


def renorm(o, memo=None):
    """Rebuild a term bottom-up, so that every simplification is applied to the final form of its operands."""
    if memo is None:
        memo = {}
    if isinstance(o, (Poly, Ten, Atom)):
        r = memo.get(id(o))
        if r is not None:
            return r[1]
    if isinstance(o, Poly):
        out = []
        for mono, c in o.terms:
            p = ONE
            for a, e in mono.factors:
                if a.op == "ivar":
                    b = atom_poly(a)
                elif a.op == "ind":
                    b = rebuild("ind", (Atom(a.args[0].op, tuple(renorm(x, memo) for x in a.args[0].args)),) + a.args[1:]) \
                        if isinstance(a.args[0], Atom) else atom_poly(a)
                else:
                    b = _one_by_one(a, memo) if UNROLL[0] else None
                    if b is None:
                        b = rebuild(a.op, tuple(renorm(x, memo) for x in a.args))
                p = pmul(p, ppow(b, renorm(e, memo)))
            for b, n in mono.sums:
                p = psum(p, b, renorm(n, memo))
            out.append(pscale(p, c))
        r = psum_list(out)
    elif isinstance(o, Atom):
        r = o if o.op == "ivar" else Atom(o.op, tuple(renorm(x, memo) for x in o.args))
    elif isinstance(o, Ten):
        r = Ten(o.formals, tuple(None if d is None else renorm(d, memo) for d in o.dims), renorm(o.body, memo), o.isbool, o.tag)
    elif isinstance(o, tuple):
        return tuple(renorm(x, memo) for x in o)
    else:
        return o
    memo[id(o)] = (o, r)
    return r


def _one_by_one(a, memo):
    """Functions of a 1 x 1 matrix are functions of its entry."""
    if a.op in ("inv", "invs", "chol", "invchol", "logdet") and isinstance(a.args[0], Ten) and a.args[0].rank == 2 \
            and all(d is not None and d.const() == 1 for d in a.args[0].dims):
        q = renorm(at(a.args[0], (ZERO, ZERO)), memo)
        if a.op == "logdet":
            return f_log(q)
        return ppow(q, num({"inv": -1, "invs": -1, "chol": Fraction(1, 2), "invchol": Fraction(-1, 2)}[a.op]))
    if a.op == "logdet" and isinstance(a.args[0], Ten) and a.args[0].rank == 2 and a.args[0].dims[0] is not None:
        n = a.args[0].dims[0].const()
        if n is not None and n <= 8:
            A = renorm(a.args[0], memo)
            return psum_list([pscale(f_log(rebuild("chol", (A, (num(k), num(k))))), 2) for k in range(int(n))])
    return None


def clear_denominators(p, limit=6):
    """Multiply p by the compound factors it divides by (assumed nonzero): zero iff p is zero."""
    for _ in range(limit):
        found, k = None, None
        for m, _c in p.terms:
            bound = {b for b, _ in m.sums}
            for a, e in m.factors:
                ce = e.const()
                if a.op == "paren" and ce is not None and ce < 0 and not (a.free & bound):
                    if found is None or key(a) == found[0]:
                        found = (key(a), a)
                        k = ce if k is None else min(k, ce)
        if found is None:
            return p
        k = -k
        n = k.numerator // k.denominator + (1 if k.denominator != 1 else 0)
        q = found[1].args[0]
        out = []
        for m, c in p.terms:
            e0 = Fraction(0)
            fs = []
            bound = {b for b, _ in m.sums}
            for a, e in m.factors:
                if a.op == "paren" and key(a) == found[0] and not (a.free & bound):
                    e0 = e.const()
                else:
                    fs.append((a, e))
            if e0 is None:
                return p
            e1 = e0 + n
            whole = e1.numerator // e1.denominator
            t = Poly(((Mono(m.sums, fs), c),))
            for _k in range(int(whole)):
                t = pmul(t, q)
            if e1 != whole:
                t = pmul(t, Poly(((Mono((), [(found[1], num(e1 - whole))]), ONE_F),)))
            out.append(t)
        p = psum_list(out)
    return p


# ----------------------------------------------------------------------------------------- mul
def _merge_factors(fs):
    d = {}
    for a, e in fs:
        k = key(a)
        if a.op in ("ind", "delta"):
            d[k] = (a, ONE)
        elif k in d:
            d[k] = (a, padd(d[k][1], e))
        else:
            d[k] = (a, e)
    return [(a, e) for a, e in d.values() if e.terms]


def _mono_mul(m1, m2):
    ids1 = {b for b, _ in m1.sums}
    sums2, factors2 = m2.sums, m2.factors
    if ids1 & {b for b, _ in sums2}:
        ren = {b: fresh() for b, _ in sums2}
        sums2 = tuple((ren[b], rename(s, ren)) for b, s in sums2)
        factors2 = tuple((rename(a, ren), rename(e, ren)) for a, e in factors2)
    return m1.sums + tuple(sums2), _merge_factors(m1.factors + tuple(factors2))


def pmul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if not a.terms or not b.terms:
        return ZERO
    ca = a.const()
    if ca is not None:
        return pscale(b, ca)
    cb = b.const()
    if cb is not None:
        return pscale(a, cb)
    if len(a.terms) * len(b.terms) > MAX_TERMS:
        raise TermLimit()
    out = []
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            if not m1.factors and not m1.sums:
                out.append((m2, c1 * c2))
                continue
            if not m2.factors and not m2.sums:
                out.append((m1, c1 * c2))
                continue
            sums, fs = _mono_mul(m1, m2)
            p = simp_mono(sums, fs)
            out.extend((m, c * c1 * c2) for m, c in p.terms)
    return collect(out)


def is_single(p):
    return len(p.terms) == 1


def _at_least(p, c):
    k = p.const()
    if k is None:
        k = size_lb(p) if not p.free else None
    return k is not None and k >= c


_IMPLIED = {}


def _scaled(p):
    """Positive multiple whose first coefficient is 1 or -1."""
    for m, c in p.terms:
        if m.factors or m.sums:
            return p if abs(c) == 1 else pscale(p, 1 / abs(Fraction(c)))
    return p


def _implied(x, y):
    """Truth of the comparison x (lt) given that y (lt or eq) holds, or None."""
    k = (x, y)
    if k not in _IMPLIED:
        _IMPLIED[k] = _implied_(x, y)
    return _IMPLIED[k]


def _implied_(x, y):
    p, q = x.args[0], y.args[0]
    if len(p.terms) > 12 or len(q.terms) > 12:
        return None
    p, q = _scaled(p), _scaled(q)
    d = psub(q, p)          # p = q - d
    t = padd(p, q)
    if y.op == "lt":
        if _at_least(d, 0):
            return True
        if _at_least(t, 0):
            return False
        return None
    for e in (pneg(d), t):  # q = 0: p = -d, p = t
        if _at_least(e, 0):
            return False
        if _at_least(pneg(e), 1):
            return True
    return None


def simp_mono(sums, factors):
    """Apply monomial-level rewrite rules; returns Poly."""
    sums = list(sums)
    factors = list(factors)
    # exp(a)*exp(b) -> exp(a+b); exp(a)^e -> exp(e a)
    ex = [(a, e) for a, e in factors if a.op == "exp"]
    if len(ex) > 1 or (ex and ex[0][1] is not ONE and ex[0][1].const() != 1):
        tot, inf = ZERO, set()
        for a, e in ex:
            q = pmul(a.args[0], e)
            tot = padd(tot, q)
            inf |= {c > 0 for m, c in q.terms if any(f.op == "inf" for f, _ in m.factors)}
        if len(inf) < 2:                # exp(-inf) exp(inf) is not 1
            rest = [(a, e) for a, e in factors if a.op != "exp"]
            p = f_exp(tot)
            return _finish(sums, _polymul_factors(p, rest))
    # numeric powers
    for i, (a, e) in enumerate(factors):
        if a.op == "prime" and e.const() is not None and not 0 < e.const() < 1 and abs(e.const()) < 200:
            rest = factors[:i] + factors[i + 1:]
            return pmul(_rat_pow(Fraction(a.args[0]), e.const()), simp_mono(sums, rest))
        if a.op == "paren" and e.const() is not None and e.const().denominator == 1 and 0 < e.const() <= 4:
            rest = factors[:i] + factors[i + 1:]
            p = ONE
            for _ in range(int(e.const())):
                p = pmul(p, a.args[0])
            return _finish(sums, _polymul_factors(p, rest))
    # delta elimination
    for i, (a, e) in enumerate(factors):
        if a.op == "delta":
            d = psub(a.args[0], a.args[1])
            c = d.const()
            rest = factors[:i] + factors[i + 1:]
            if c is not None:
                if c == 0:
                    return simp_mono(sums, rest)
                return ZERO
            for b, s in sums:
                sol = _solve_linear(d, b)
                if sol is not None:
                    ns = [(x, y) for x, y in sums if x != b]
                    p = ONE
                    for fa, fe in rest:
                        p = pmul(p, ppow(atom_subst(fa, {b: sol}), subst(fe, {b: sol})))
                    return _finish([(x, subst(y, {b: sol})) for x, y in ns], p)
            i0, j0 = _ivar_of(a.args[0]), _ivar_of(a.args[1])
            if (i0 is None) != (j0 is None):
                v, w = (i0, a.args[1]) if j0 is None else (j0, a.args[0])
                if not w.free and any(v in fa.free or v in fe.free for fa, fe in rest):
                    p = atom_poly(a)
                    for fa, fe in rest:
                        p = pmul(p, ppow(atom_subst(fa, {v: w}), subst(fe, {v: w})))
                    return _finish(sums, p)
            if i0 is not None and j0 is not None:
                lo, hi = min(i0, j0), max(i0, j0)
                if any(hi in fa.free or hi in fe.free for fa, fe in rest):
                    m_ = {hi: ivar(lo)}
                    p = atom_poly(a)
                    for fa, fe in rest:
                        p = pmul(p, ppow(atom_subst(fa, m_), subst(fe, m_)))
                    return _finish(sums, p)
    # [x == 0] * x^e -> 0
    for a, e in factors:
        if a.op == "ind" and a.args[0].op == "eq":
            q = a.args[0].args[0]
            for b_, e_ in factors:
                c_ = e_.const()
                if c_ is None or c_ <= 0 or b_ is a:
                    continue
                if (b_.op == "paren" and (peq(b_.args[0], q) or peq(b_.args[0], pneg(q)))) or (b_.op not in ("ind", "paren") and peq(atom_poly(b_), q)):
                    return ZERO
    # implications between comparisons
    cmps = [(i, a.args[0]) for i, (a, e) in enumerate(factors) if a.op == "ind" and isinstance(a.args[0], Atom) and a.args[0].op in ("lt", "eq")]
    if len(cmps) > 1:
        for i, x in cmps:
            if x.op != "lt":
                continue
            for j, y in cmps:
                if i == j:
                    continue
                r = _implied(x, y)
                if r is not None:
                    return simp_mono(sums, factors[:i] + factors[i + 1:]) if r else ZERO
    # sums whose variable does not occur
    for i, (b, s) in enumerate(sums):
        if not any(b in a.free or b in e.free for a, e in factors) and \
           not any(b in s2.free for b2, s2 in sums if b2 != b):
            p = simp_mono(sums[:i] + sums[i + 1:], factors)
            return pmul(p, s)
    # contraction rules
    for b, s in sums:
        occ = [(i, a, e) for i, (a, e) in enumerate(factors) if b in a.free or b in e.free]
        # concatenations are split
        for i, a, e in occ:
            if a.op == "concat" and peq(a.args[2][a.args[0]], ivar(b)):
                parts = a.args[1]
                others = factors[:i] + factors[i + 1:]
                ns = [(x, y) for x, y in sums if x != b]
                tot = ZERO
                off = ZERO
                ok = all(t.dims[a.args[0]] is not None for t in parts)
                if ok:
                    for t in parts:
                        nb = fresh()
                        sz = t.dims[a.args[0]]
                        idx = list(a.args[2])
                        idx[a.args[0]] = ivar(nb)
                        q = ppow(at(t, idx), e)
                        m = {b: padd(ivar(nb), off)}
                        for fa, fe in others:
                            q = pmul(q, ppow(HOOKS["resolve_concat"](atom_subst(fa, m), nb, off, sz),
                                             subst(fe, m)))
                        q = psum(q, nb, sz)
                        tot = padd(tot, q)
                        off = padd(off, sz)
                    return _finish(ns, tot)
        # cholesky pairs
        tot_e = [e.const() for _, _, e in occ]
        if len(occ) in (1, 2) and all(a.op in ("invchol", "chol") for _, a, _ in occ) and \
           all(c is not None for c in tot_e) and sum(tot_e) == 2:
            a1 = occ[0][1]
            a2 = occ[-1][1]
            if a1.op == a2.op and key(a1.args[0]) == key(a2.args[0]):
                pos = 0 if a1.op == "invchol" else 1
                i1, i2 = a1.args[1], a2.args[1]
                bi = ivar(b)
                if peq(i1[pos], bi) and peq(i2[pos], bi) and b not in i1[1 - pos].free and b not in i2[1 - pos].free:
                    drop = {i for i, _, _ in occ}
                    rest = [f for i, f in enumerate(factors) if i not in drop]
                    ns = [(x, y) for x, y in sums if x != b]
                    if a1.op == "invchol":
                        rep = f_inv(a1.args[0], (i1[1], i2[1]))
                    else:
                        rep = at(a1.args[0], (i1[0], i2[0]))
                    return _finish(ns, _polymul_factors(rep, rest))
        # sum_i log chol(A)_ii -> logdet(A)/2
        if len(occ) == 1 and occ[0][1].op == "log" and occ[0][2].const() == 1:
            arg = occ[0][1].args[0]
            if is_single(arg):
                m, c = arg.terms[0]
                if c == 1 and not m.sums and len(m.factors) == 1 and m.factors[0][0].op == "chol" \
                   and m.factors[0][1].const() is not None:
                    ch = m.factors[0][0]
                    if peq(ch.args[1][0], ivar(b)) and peq(ch.args[1][1], ivar(b)):
                        rest = [f for i, f in enumerate(factors) if i != occ[0][0]]
                        ns = [(x, y) for x, y in sums if x != b]
                        rep = pscale(atom_poly(Atom("logdet", (ch.args[0],))), m.factors[0][1].const() / 2)
                        return _finish(ns, _polymul_factors(rep, rest))
    return Poly(((Mono(sums, factors), ONE_F),))


def _polymul_factors(p, rest):
    for a, e in rest:
        p = pmul(p, Poly(((Mono((), ((a, e),)), ONE_F),)))
    return p


def _finish(sums, p):
    for b, s in sums:
        p = psum(p, b, s)
    return p


def _solve_linear(d, b):
    """d == 0 solved for ivar b: d = +-1*b + rest, b not in rest."""
    co = None
    rest = []
    for m, c in d.terms:
        if b in m.free:
            if m.sums or len(m.factors) != 1 or m.factors[0][0].op != "ivar" or m.factors[0][1].const() != 1:
                return None
            co = c
        else:
            rest.append((m, c))
    if co not in (1, -1):
        return None
    return pscale(collect(rest), -co)


UNROLL = [False]    # expand sums of at most eight terms (comparison of last resort)


def psum(p, b, size):
    """Sum p over index b in [0,size)."""
    if b in p.free:
        nb = fresh()
        p = rename(p, {b: nb})
        b = nb
    out = []
    cs = size.const()
    for m, c in p.terms:
        if b not in m.free:
            q = pmul(Poly(((m, ONE_F),)), size)
        elif cs is not None and cs <= 8 and (UNROLL[0] or any(a.op == "concat" and b in a.free for a, _ in m.factors)):
            one = Poly(((m, ONE_F),))
            q = psum_list([subst(one, {b: num(k)}) for k in range(int(cs))])
        else:
            q = simp_mono(list(m.sums) + [(b, size)], list(m.factors))
        out.append(pscale(q, c))
    return psum_list(out)


# ----------------------------------------------------------------------------------------- pow etc.
NONNEG = {"exp", "abs", "ind", "dim", "eps", "pi", "cdf"}


def nonneg_atom(a):
    if a.op == "max" and any(x.const() is not None and x.const() >= 0 for x in a.args):
        return True
    return a.op in NONNEG or (a.op == "sym" and isinstance(a.args[0], str) and a.args[0].startswith("dim:"))


def ppow(b, e):
    """b ** e for polynomials."""
    if not isinstance(e, Poly):
        e = num(e)
    ce = e.const()
    if ce is not None:
        if ce == 0:
            return ONE
        if ce == 1:
            return b
    cb = b.const()
    if cb is not None:
        if cb == 1:
            return ONE
        if cb == 0 and ce is not None and ce > 0:
            return ZERO
        if ce is not None and ce.denominator == 1 and cb != 0:
            if abs(ce) > 200:
                return atom_poly(Atom("pow", (b, e)))
            return num(cb ** int(ce))
        if ce is not None and cb > 0:
            return _rat_pow(cb, ce)
        if cb > 0:
            return simp_mono((), _merge_factors([(Atom("prime", (q,)), pscale(e, k)) for q, k in _prime_factors(cb)]))
        return atom_poly(Atom("pow", (b, e)))
    if is_single(b):
        m, c = b.terms[0]
        if not m.sums:
            if ce is not None and ce.denominator == 1:
                fs = [(a, ONE if a.op in ("ind", "delta") and ce > 0 else pmul(x, e)) for a, x in m.factors]
                return pscale(simp_mono((), _merge_factors(fs)), c ** int(ce)) if abs(ce) < 200 else \
                    atom_poly(Atom("pow", (b, e)))
            if c > 0:
                out = ONE
                okall = True
                fs = []
                for a, x in m.factors:
                    cx = x.const()
                    if a.op == "ind":
                        fs.append((a, ONE))
                    elif cx is not None and ce is not None and cx.denominator == 1 and cx % 2 == 0 \
                            and not nonneg_atom(a):
                        # sqrt(x^2) = |x|
                        out = pmul(out, ppow(f_abs(atom_poly(a)), num(cx * ce)))
                    elif len(m.factors) == 1 or nonneg_atom(a) or a.op in ("sym", "pow", "uf", "paren", "inv", "invs", "max", "min"):
                        fs.append((a, pmul(x, e)))
                    else:
                        fs.append((a, pmul(x, e)))
                if okall:
                    out = pmul(out, simp_mono((), _merge_factors(fs))) if fs else out
                    return pmul(_rat_pow(c, ce) if ce is not None else ppow(num(c), e) if c != 1 else ONE, out)
            return atom_poly(Atom("pow", (b, e)))
        if ce == 2:
            return pmul(b, b)
        # sum monomial: keep as parenthesised base
    inds = indicators(b)
    if inds and ce is not None and len(inds) <= 4:
        return shannon(b, inds[0], lambda q: ppow(q, e))
    if ce is not None and ce.denominator == 1 and 0 < ce <= 4:
        r = b
        for _ in range(int(ce) - 1):
            r = pmul(r, b)
        return r
    # base with several terms: pull out the leading rational content
    lead = _content(b)
    if lead != 1 and ce is not None and (ce.denominator == 1 or lead > 0):
        base = pscale(b, 1 / lead)
        base_a = Atom("paren", (base,))
        pre = num(lead ** int(ce)) if ce.denominator == 1 else _rat_pow(lead, ce)
        return pmul(pre, Poly(((Mono((), ((base_a, e),)), ONE_F),)))
    return Poly(((Mono((), ((Atom("paren", (b,)), e),)), ONE_F),))


def _content(b):
    """Signed rational content so that b/content is canonical up to sign."""
    from math import gcd
    nums = [abs(c.numerator) for _, c in b.terms]
    dens = [c.denominator for _, c in b.terms]
    g = 0
    for n_ in nums:
        g = gcd(g, n_)
    l = 1
    for d in dens:
        l = l * d // gcd(l, d)
    # content of fractions: gcd(num * l/den)
    g2 = 0
    for _, c in b.terms:
        g2 = gcd(g2, abs(c.numerator * (l // c.denominator)))
    cont = Fraction(g2, l)
    # sign: make coefficient of the key-smallest monomial positive
    if len(b.terms) == 1:
        first = b.terms[0]
    else:
        # independent of how index variables happen to be numbered, as far as possible
        env = {i: "?" for i in b.free}
        ks = [t[0].key(env, 0) for t in b.terms]
        k0 = min(ks)
        cand = [t for t, k_ in zip(b.terms, ks) if k_ == k0]
        first = cand[0] if len(cand) == 1 or len({t[1] > 0 for t in cand}) == 1 else min(cand, key=lambda t: t[0].key({}, 0))
    return cont if first[1] > 0 else -cont


def _rat_pow(c, e):
    """Positive rational c to rational e, normalised to prime powers."""
    if e.denominator == 1:
        return num(c ** int(e))
    out_c = ONE_F
    fs = []
    for base, mult in _prime_factors(c):
        ee = mult * e
        n_ = ee.numerator // ee.denominator
        out_c *= Fraction(base) ** n_
        r = ee - n_
        if r != 0:
            fs.append((Atom("prime", (base,)), num(r)))
    p = Poly(((Mono((), _merge_factors(fs)), ONE_F),)) if fs else ONE
    return pscale(p, out_c)


def _prime_factors(c):
    out = {}
    for v, s in ((c.numerator, 1), (c.denominator, -1)):
        d = 2
        while v > 1 and d < 1000:
            while v % d == 0:
                out[d] = out.get(d, 0) + s
                v //= d
            d += 1
        if v > 1:
            out[v] = out.get(v, 0) + s
    return sorted(out.items())


def indicators(p):
    """Indicator atoms occurring as top-level factors of p (closed over its own free variables)."""
    seen = {}
    for m, _ in p.terms:
        bound = {b for b, _ in m.sums}
        for a, _ in m.factors:
            if a.op == "ind" and not (a.free & bound):
                seen[key(a)] = a
    return [seen[k] for k in sorted(seen)]


def assume(p, ind_key, val):
    """p with a top-level indicator set to 0/1."""
    out = []
    for m, c in p.terms:
        fs = []
        dead = False
        for a, e in m.factors:
            if a.op == "ind" and key(a) == ind_key:
                if not val:
                    dead = True
                    break
            else:
                fs.append((a, e))
        if not dead:
            if len(fs) != len(m.factors):
                out.append((Mono(m.sums, fs), c))
            else:
                out.append((m, c))
    return collect(out)


def shannon(p, a, f):
    k = key(a)
    p1, p0 = assume(p, k, 1), assume(p, k, 0)
    f1, f0 = f(p1), f(p0)
    if peq(f1, f0):
        return f1
    return padd(f0, pmul(atom_poly(a), psub(f1, f0)))


def lift1(op, p, f):
    inds = indicators(p)
    if inds and len(inds) <= 4:
        return shannon(p, inds[0], f)
    return None


# ----------------------------------------------------------------------------------------- functions
def f_exp(p):
    r = lift1("exp", p, f_exp)
    if r is not None:
        return r
    if not p.terms:
        return ONE
    if _inf_sign(p) == -1 or p.const() is not None and p.const() < -746:    # underflows in double precision
        return ZERO
    # exp(c*log x + rest) -> x^c exp(rest); the factors are independent (exp(a+b) is kept whole otherwise)
    rest = []
    out = ONE
    for m, c in p.terms:
        if not m.sums and len(m.factors) == 1 and m.factors[0][0].op == "log" and m.factors[0][1].const() == 1:
            out = pmul(out, ppow(m.factors[0][0].args[0], num(c)))
        elif not m.sums and len(m.factors) == 1 and m.factors[0][0].op == "logprime" and m.factors[0][1].const() == 1:
            for b in (2, 5) if m.factors[0][0].args[0] == 10 else m.factors[0][0].args:
                out = pmul(out, ppow(num(b), num(c)))
        else:
            rest.append((m, c))
    rp = collect(rest)
    if rp.terms:
        out = pmul(out, atom_poly(Atom("exp", (rp,))))
    return out


LOG5 = psub(atom_poly(Atom("logprime", (10,))), atom_poly(Atom("logprime", (2,))))


def f_log(p):
    r = lift1("log", p, f_log)
    if r is not None:
        return r
    c = p.const()
    if c is not None:
        if c > 0:
            out = ZERO
            for b, mlt in _prime_factors(c):
                # log 5 is log 10 - log 2, so that base-10 logarithms divide by a single atom
                out = padd(out, pscale(LOG5 if b == 5 else atom_poly(Atom("logprime", (b,))), mlt))
            return out
        return atom_poly(Atom("log", (p,)))
    if is_single(p):
        m, c = p.terms[0]
        if not m.sums:
            out = ZERO
            if c > 0 and c != 1:
                out = padd(out, f_log(num(c)))
            rest = []
            for a, e in m.factors:
                if a.op == "exp":
                    out = padd(out, pmul(a.args[0], e))
                elif a.op in ("prime",):
                    out = padd(out, pmul(e, f_log(num(a.args[0]))))
                elif a.op in ("pi", "eps"):
                    out = padd(out, pmul(e, atom_poly(Atom("log", (atom_poly(a),)))))
                else:
                    rest.append((a, e))
            base_c = ONE_F if c > 0 else c
            if rest:
                ec = rest[0][1].const()
                if len(rest) == 1 and base_c == 1 and ec is not None and not (ec.denominator == 1 and ec % 2 == 0):
                    # log(x^e) = e log x whenever x^e has the sign of x or is only defined for x >= 0
                    inner = atom_poly(rest[0][0]) if rest[0][0].op != "paren" else rest[0][0].args[0]
                    return padd(out, pscale(atom_poly(Atom("log", (inner,))), ec))
                rp = Poly(((Mono((), rest), base_c),))
                out = padd(out, atom_poly(Atom("log", (rp,))))
            elif base_c != 1:
                out = padd(out, atom_poly(Atom("log", (num(base_c),))))
            return out
    lead = _content(p)
    if lead > 0 and lead != 1:
        return padd(f_log(num(lead)), atom_poly(Atom("log", (pscale(p, 1 / lead),))))
    return atom_poly(Atom("log", (p,)))


def f_abs(p):
    r = lift1("abs", p, f_abs)
    if r is not None:
        return r
    c = p.const()
    if c is not None:
        return num(abs(c))
    if is_single(p):
        m, c = p.terms[0]
        if not m.sums:
            out = num(abs(c))
            for a, e in m.factors:
                ce = e.const()
                base = Poly(((Mono((), ((a, e),)), ONE_F),))
                if nonneg_atom(a) or (ce is not None and ((ce.denominator == 1 and ce % 2 == 0) or ce.denominator != 1)):
                    out = pmul(out, base)
                else:
                    ap = atom_poly(a)
                    out = pmul(out, ppow(atom_poly(Atom("abs", (ap,))), e))
            return out
    q = pneg(p)
    lead = _content(p)
    base = pscale(p, 1 / lead)
    return pscale(atom_poly(Atom("abs", (base,))), abs(lead))


def f_un(op, p):
    """Generic elementwise function."""
    if op == "exp":
        return f_exp(p)
    if op == "log":
        return f_log(p)
    if op == "sqrt":
        return ppow(p, num(Fraction(1, 2)))
    if op == "abs":
        return f_abs(p)
    r = lift1(op, p, lambda q: f_un(op, q))
    if r is not None:
        return r
    if op == "log1p":
        return f_log(padd(p, ONE))
    if op == "lgamma":
        c = p.const()
        if c is not None and c.denominator == 1 and 0 < c <= 64:
            return f_log(num(math.factorial(int(c) - 1)))
    if op in ("sin", "tan", "tanh", "erf") and p.terms and _content(p) < 0:
        return pneg(atom_poly(Atom(op, (pneg(p),))))
    if op == "cos" and p.terms and _content(p) < 0:
        return atom_poly(Atom(op, (pneg(p),)))
    c = p.const()
    if c == 0 and op in ("sin", "tan", "tanh", "erf", "floor", "ceil"):
        return ZERO
    if c == 0 and op == "cos":
        return ONE
    if op == "floor" and c is not None:
        return num(math.floor(c))
    if op == "ceil" and c is not None:
        return num(math.ceil(c))
    if op in ("floor", "ceil"):
        r = _int_floor(op, p)
        if r is not None:
            return r
    return atom_poly(Atom(op, (p,)))


def _int_floor(op, p):
    """Integer parts of ratios of sizes: ceil(a/b) = floor(a/b) + 1 - [b divides a], floor(x + k) = floor(x) + k."""
    whole, rest = [], []
    for m, c in p.terms:
        one = Poly(((m, ONE_F),))
        (whole if c.denominator == 1 and int_sizes(one) else rest).append((m, c))
    w, q = collect(whole), collect(rest)
    if not q.terms:
        return w
    if whole:
        return padd(w, f_un(op, q))
    # q = a / b with b a monomial of sizes or an integer, a an integer combination of sizes
    b = ONE
    for m, c in q.terms:
        for a, e in m.factors:
            ce = e.const()
            if ce is not None and ce < 0 and a.op == "sym" and str(a.args[0]).startswith("dim:"):
                b = ppow(atom_poly(a), num(-ce))
    a = pmul(q, b)
    den = 1
    for _, c in a.terms:
        den = den * c.denominator // math.gcd(den, c.denominator)
    if den != 1:
        a, b = pscale(a, den), pscale(b, den)
    if not int_sizes(a) or b.const() == 1:
        return None
    if op == "floor":
        if all(c < 0 for _, c in a.terms):
            return pneg(f_un("ceil", pneg(q)))
        one = [c for m, c in a.terms if not m.factors and not m.sums]
        if one and one[0] == -1 and len(a.terms) > 1:
            a1 = padd(a, ONE)
            f = f_un("floor", pmul(a1, ppow(b, num(-1))))
            return psub(f, c_eq(psub(a1, pmul(b, f)), ZERO))
        return None
    f = f_un("floor", q)
    return psub(padd(f, ONE), c_eq(psub(a, pmul(b, f)), ZERO))


def is_square(q):
    """q is recognisably a square (or a sum of even powers of its own monomials)."""
    if not q.terms:
        return True

    def even(m):
        return not m.sums and all(nonneg_atom(a) or (e.const() is not None and e.const().denominator == 1
                                                      and e.const() % 2 == 0) or a.op == "ind"
                                  for a, e in m.factors)
    neg = [(m, c) for m, c in q.terms if not (c > 0 and even(m))]
    if not neg:
        return True
    ev = [(m, c) for m, c in q.terms if c > 0 and even(m)]
    if len(q.terms) == 3 and len(ev) >= 2:
        for x in range(len(ev)):
            for y in range(x + 1, len(ev)):
                r = ppow(Poly(((ev[x][0], ev[x][1]),)), num(Fraction(1, 2)))
                # signed square roots: halve the exponents instead of taking absolute values
                ra = _half(ev[x])
                rb = _half(ev[y])
                if ra is None or rb is None:
                    continue
                for s in (1, -1):
                    t = padd(ra, pscale(rb, s))
                    if peq(pmul(t, t), q):
                        return True
    return False


def _half(mc):
    m, c = mc
    from math import isqrt
    n_, d_ = c.numerator, c.denominator
    if isqrt(n_) ** 2 != n_ or isqrt(d_) ** 2 != d_:
        return None
    return pscale(simp_mono((), [(a, pscale(e, Fraction(1, 2)) if a.op != "ind" else e) for a, e in m.factors]),
                  Fraction(isqrt(n_), isqrt(d_)))


def nonneg(p):
    """p is recognisably >= 0 (constants, nonnegative factors, sums over one index of squares)."""
    if not p.terms:
        return True
    loose, groups = [], {}
    for m, c in p.terms:
        if len(m.sums) == 1:
            groups.setdefault(key(m.sums[0][1]), []).append((m, c))
        else:
            loose.append((m, c))
    if loose and not is_square(Poly(tuple(loose))):
        return False
    for g in groups.values():
        b = fresh()
        q = psum_list([pscale(rename(Poly(((Mono((), m.factors), ONE_F),)), {m.sums[0][0]: b}), c) for m, c in g])
        if not is_square(q):
            return False
    return True


TINY = to_fraction(1e-12)       # uniform draws are taken to exceed it


def _unit_draw(p):
    if not is_single(p) or p.terms[0][1] != 1:
        return False
    m = p.terms[0][0]
    return not m.sums and len(m.factors) == 1 and m.factors[0][1] is ONE and m.factors[0][0].op == "rng" and m.factors[0][0].args[0] == "U"


def f_max(a, b, op="max"):
    """n-ary maximum/minimum: nested applications are flattened, dominated arguments dropped."""
    xs = []
    for p in (a, b):
        if is_single(p) and p.terms[0][1] == 1:
            m = p.terms[0][0]
            if not m.sums and len(m.factors) == 1 and m.factors[0][0].op == op and m.factors[0][1] is ONE:
                xs += m.factors[0][0].args
                continue
        xs.append(p)
    if op == "max" and any(_unit_draw(x) for x in xs):
        xs = [x for x in xs if not (x.const() is not None and x.const() <= TINY)]
    out = []
    for x in xs:
        keep = True
        for k_, y in enumerate(out):
            d = psub(x, y)
            c = d.const()
            if c is None and d.terms and not d.free:
                lo, hi = int_lb(d), int_lb(pneg(d))
                if lo is not None and lo >= 0:
                    c = lo or 1
                elif hi is not None and hi >= 0:
                    c = -hi or -1
            if c is None:
                continue
            keep = False
            if (c > 0) == (op == "max") and c != 0:
                out[k_] = x
            break
        if keep:
            out.append(x)
    if len(out) > 1:
        far = [x for x in out if is_single(x) and _inf_sign(x) == (1 if op == "max" else -1)]
        if far and all(x is far[0] or x.const() is not None for x in out):
            return far[0]
    if op == "min" and len(out) > 1:
        out = [x for x in out if not (is_single(x) and x.terms[0][1] > 0 and _inf_sign(x) == 1)] or out[:1]
    if op == "max" and len(out) > 1:
        out = [x for x in out if not (is_single(x) and x.terms[0][1] < 0 and _inf_sign(x) == -1)] or out[:1]
    if op == "max" and len(out) > 1:
        if any(nonneg(x) and x.const() is None for x in out):
            out = [x for x in out if not (x.const() is not None and x.const() <= 0)]
    if len(out) > 1:
        # constants that another argument never crosses
        k = 0 if op == "max" else 1
        for x in [x for x in out if x.const() is not None]:
            for y in out:
                b = bounds(y)[k] if y is not x else None
                if b is not None and (b >= x.const() if op == "max" else b <= x.const()):
                    out = [z for z in out if z is not x]
                    break
    if len(out) == 1:
        return out[0]
    if op == "min" and len(out) == 2:
        # min(k, max(l, x)) with l <= k is max(l, min(k, x))
        for k, e in (out, out[::-1]):
            cs = _args_of(e, "max")
            if k.const() is not None and cs is not None:
                lo = [c for c in cs if c.const() is not None]
                if len(lo) == 1 and lo[0].const() <= k.const() and len(cs) == 2:
                    x = next(c for c in cs if c is not lo[0])
                    return f_max(lo[0], f_max(k, x, "min"))
    logs = [ZERO if peq(x, ONE) else _exp_of(x) for x in out]
    if all(x is not None for x in logs):
        r = logs[0]
        for x in logs[1:]:
            r = f_max(r, x, op)
        return f_exp(r)
    return atom_poly(Atom(op, tuple(sorted(out, key=key))))


def _args_of(p, op):
    if is_single(p) and p.terms[0][1] == 1:
        m = p.terms[0][0]
        if not m.sums and len(m.factors) == 1 and m.factors[0][0].op == op and m.factors[0][1] is ONE:
            return m.factors[0][0].args
    return None


def _exp_of(p):
    """q when p is exp(q)."""
    if is_single(p) and p.terms[0][1] == 1:
        m = p.terms[0][0]
        if not m.sums and len(m.factors) == 1 and m.factors[0][0].op == "exp" and m.factors[0][1] is ONE:
            return m.factors[0][0].args[0]
    return None


def f_min(a, b):
    return f_max(a, b, "min")


# booleans -----------------------------------------------------------------------------------
def b_not(p):
    return psub(ONE, p)


def b_and(a, b):
    return pmul(a, b)


def b_or(a, b):
    return psub(padd(a, b), pmul(a, b))


def ind(op, *args):
    return atom_poly(Atom("ind", (Atom(op, args),)))


def _log_draw(p):
    """log(u) + c < 0 for a uniform draw u in (TINY, 1)."""
    if not 1 <= len(p.terms) <= 2:
        return None
    c, u = ZERO_F, None
    for m, k in p.terms:
        if not m.factors and not m.sums:
            c = k
        elif (k == 1 and not m.sums and len(m.factors) == 1 and m.factors[0][1] is ONE and m.factors[0][0].op == "log"
              and _unit_draw(m.factors[0][0].args[0])):
            u = m
    if u is None:
        return None
    return ONE if c <= 0 else ZERO if c >= 28 else None


def positive(p):
    """p is recognisably > 0: a sum of positive multiples of products of exponentials and primes."""
    return bool(p.terms) and all(
        c > 0 and not m.sums and all(_positive_atom(a) for a, _ in m.factors)
        for m, c in p.terms)


def _positive_atom(a):
    if a.op in ("max", "min"):
        lo = bounds(atom_poly(a))[0]
        return lo is not None and lo > 0
    return a.op in ("exp", "prime") or (a.op == "paren" and positive(a.args[0]))


def _lift_cmp(p, f):
    inds = indicators(p)
    if inds and len(inds) <= 4:
        return shannon(p, inds[0], f)
    return None


_BOUNDS = {}


def _exp_end(x, side):
    """Rational bound of exp(x) from below (side -1) or above (side 1)."""
    if x is None or not -700 <= x <= 700:
        return None
    return Fraction(math.exp(float(x))) * (1 + Fraction(side, 10 ** 9))


def bounds(p):
    """(lower, upper) constants, None where unknown, of an affine combination of clipped terms."""
    if p in _BOUNDS:
        return _BOUNDS[p]
    lo = hi = Fraction(0)
    for m, c in p.terms:
        if not m.factors and not m.sums:
            l = h = Fraction(1)
        elif not m.sums and len(m.factors) == 1 and m.factors[0][1] is ONE and m.factors[0][0].op in ("max", "min", "exp"):
            a = m.factors[0][0]
            if a.op == "exp":
                l, h = (_exp_end(x, s) for x, s in zip(bounds(a.args[0]), (-1, 1)))
                l = Fraction(0) if l is None else l
            else:
                bs = [bounds(x) for x in a.args]
                f, k = (max, 0) if a.op == "max" else (min, 1)
                some = [b[k] for b in bs if b[k] is not None]
                every = [b[1 - k] for b in bs]
                l_ = f(some) if some else None
                h_ = f(every) if None not in every else None
                l, h = (l_, h_) if a.op == "max" else (h_, l_)
        else:
            lo = hi = None
            break
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
        if lo is None and hi is None:
            break
    _BOUNDS[p] = (lo, hi)
    return lo, hi


def c_lt0(p):
    c = p.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    r = _lift_cmp(p, c_lt0)
    if r is not None:
        return r
    inf_ = _inf_sign(p)
    if inf_ is not None:
        return ONE if inf_ < 0 else ZERO
    if positive(p):
        return ZERO
    if positive(pneg(p)):
        return ONE
    ld = _log_draw(p)
    if ld is not None:
        return ld
    lo, hi = bounds(p)
    if lo is not None and lo >= 0:
        return ZERO
    if hi is not None and hi < 0:
        return ONE
    if not p.free:
        lb = size_lb(p)
        if lb is not None and lb >= 0:
            return ZERO
        lb = size_lb(pneg(p))
        if lb is not None and lb > 0:
            return ONE
        if int_sizes(p) and _content(p) < 0:
            return b_not(ind("lt", psub(pneg(p), ONE)))  # integers: p < 0 iff not -p - 1 < 0
        if int_sizes(p):
            return ind("lt", p)
    lead = abs(_content(p))
    p = pscale(p, 1 / lead)
    # 0 <= nonneg atoms
    if is_single(p):
        m, c = p.terms[0]
        if not m.sums and all(nonneg_atom(a) or a.op == "dimsize" for a, _ in m.factors) and c > 0:
            return ZERO
    return ind("lt", p)


def _inf_sign(p):
    """Sign of p if it is +-inf plus finite things we treat as finite symbols (only if exactly inf + const)."""
    if len(p.terms) <= 2:
        s = None
        for m, c in p.terms:
            if not m.factors and not m.sums:
                continue
            if not m.sums and len(m.factors) == 1 and m.factors[0][0].op == "inf" and m.factors[0][1].const() == 1:
                s = 1 if c > 0 else -1
            else:
                return None
        return s
    return None


def c_lt(a, b):
    return c_lt0(psub(a, b))


def c_le(a, b):
    return b_not(c_lt0(psub(b, a)))


def c_eq(a, b):
    p = psub(a, b)
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    r = _lift_cmp(p, lambda q: c_eq(q, ZERO))
    if r is not None:
        return r
    if _inf_sign(p) is not None or positive(p) or positive(pneg(p)):
        return ZERO
    if not p.free:
        for q in (p, pneg(p)):
            lb = size_lb(q)
            if lb is not None and lb > 0:
                return ZERO
    lead = _content(p)
    return ind("eq", pscale(p, 1 / lead))


def f_ite(c, a, b):
    cc = c.const()
    if cc is not None:
        return a if cc != 0 else b
    if peq(a, b):
        return a
    # max/min recognition
    if len(c.terms) <= 2:
        inds = indicators(c)
        if len(inds) == 1 and inds[0].args[0].op == "lt":
            p = inds[0].args[0].args[0]
            pos = peq(c, atom_poly(inds[0]))
            negc = peq(c, b_not(atom_poly(inds[0])))
            if pos or negc:
                t, e = (a, b) if pos else (b, a)
                d = psub(e, t)
                if d.terms and len(d.terms) == len(p.terms):
                    l1 = _content(d)
                    l2 = _content(p)
                    if peq(pscale(d, 1 / l1), pscale(p, 1 / l2)):
                        same = (l1 > 0) == (l2 > 0)
                        return f_max(t, e) if same else f_min(t, e)
                # t where x < t, min(x, k) elsewhere with k >= t
                cs = _args_of(e, "min")
                if t.const() is not None and cs is not None and all(c.const() is None or c.const() >= t.const() for c in cs):
                    xs = [c for c in cs if c.const() is None]
                    if len(xs) == 1 and peq(c_lt(xs[0], t), atom_poly(inds[0])):
                        return f_max(t, e)
    return padd(b, pmul(c, psub(a, b)))


# tensors -----------------------------------------------------------------------------------
def at(t, idx):
    """Element of a tensor at index polynomials."""
    if len(idx) != len(t.formals):
        raise ValueError("rank mismatch")
    m = {}
    for f, i in zip(t.formals, idx):
        m[f] = i
    return subst(t.body, m)


def scalar(p, isbool=False):
    return Ten((), (), p if isinstance(p, Poly) else num(p), isbool)


def mk(dims, fn, isbool=False, tag=None):
    fs = tuple(fresh() for _ in dims)
    return Ten(fs, dims, fn(*[ivar(f) for f in fs]), isbool, tag)


def transpose(t, perm=None):
    perm = perm or tuple(reversed(range(t.rank)))
    return Ten(tuple(t.formals[p] for p in perm), tuple(t.dims[p] for p in perm), t.body, t.isbool)


HOOKS = {"resolve_concat": lambda p, f, lo, size: p, "transpose": transpose}


def is_symmetric(t):
    return t.rank == 2 and key(t) == key(HOOKS["transpose"](t))


def f_inv(A, idx):
    """Element of the matrix inverse of tensor A."""
    i, j = idx
    if is_symmetric(A):
        return atom_poly(Atom("invs", (A, (i, j))))
    AT = HOOKS["transpose"](A)
    if key(AT) < key(A):
        return atom_poly(Atom("inv", (AT, (j, i))))
    return atom_poly(Atom("inv", (A, (i, j))))


REBUILD = {}


def rebuild(op, args):
    """Re-simplify an atom after substitution of its arguments."""
    if op in ("exp", "log", "abs", "sin", "cos", "tan", "tanh", "erf", "floor", "ceil", "lgamma"):
        return f_un(op, args[0])
    if op in ("max", "min"):
        r = args[0]
        for x in args[1:]:
            r = f_max(r, x, op)
        return r
    if op == "paren":
        return args[0]
    if op == "pow":
        return ppow(args[0], args[1])
    if op in ("inv", "invs"):
        return f_inv(args[0], args[1])
    if op == "delta":
        return delta(args[0], args[1])
    if op == "ind":
        c = args[0]
        if c.op == "lt":
            return c_lt0(c.args[0])
        if c.op == "eq":
            return c_eq(c.args[0], ZERO)
        if c.op in REBUILD and len(c.args) == 1:
            return REBUILD[c.op](c.args[0])
        return atom_poly(Atom("ind", args))
    if op == "concat":
        return f_concat(args[0], args[1], args[2])
    if op in REBUILD:
        return REBUILD[op](*args)
    return atom_poly(Atom(op, args))


def delta(i, j):
    d = psub(i, j)
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if _apart(d, 1) or _apart(d, -1):
        return ZERO
    a, b = sorted([i, j], key=key)
    return atom_poly(Atom("delta", (a, b)))


def _apart(d, sign):
    """sign * d is positive: index variables are at least 0, sizes at least 1."""
    lb = 0
    for m, c in d.terms:
        c = c * sign
        if c < 0 or m.sums or len(m.factors) > 1:
            return False
        if not m.factors:
            lb += c
        else:
            a, e = m.factors[0]
            if e is not ONE or not (a.op == "ivar" or a.op == "sym" and str(a.args[0]).startswith("dim:")):
                return False
            if a.op == "sym" and a.args[0][4:5] != "?" and not a.args[0].startswith("dim:0:"):
                lb += c
    return lb > 0


def f_concat(axis, parts, idx):
    """Element of a concatenation; a constant or symbolic index inside a known part is resolved."""
    i = idx[axis]
    off = ZERO
    for t in parts:
        d = t.dims[axis]
        if d is None:
            break
        rel = psub(i, off)
        # constant position within a part of constant size, or 0 <= const < size for the first part
        c = rel.const()
        cd = d.const()
        if c is not None and cd is not None:
            if 0 <= c < cd:
                ii = list(idx)
                ii[axis] = rel
                return at(t, ii)
        elif c is not None and c == 0 and cd is None:
            ii = list(idx)
            ii[axis] = rel
            return at(t, ii)
        off = padd(off, d)
    return atom_poly(Atom("concat", (axis, tuple(parts), tuple(idx))))


# ----------------------------------------------------------------------------------------- traversal
def walk_atoms(o, seen=None):
    """All atoms in a term (including inside arguments)."""
    if seen is None:
        seen = set()
    if isinstance(o, Poly):
        if id(o) in seen:
            return
        seen.add(id(o))
        for m, _ in o.terms:
            for a, e in m.factors:
                yield from walk_atoms(a, seen)
                yield from walk_atoms(e, seen)
            for _, s in m.sums:
                yield from walk_atoms(s, seen)
    elif isinstance(o, Atom):
        if id(o) in seen:
            return
        seen.add(id(o))
        yield o
        for a in o.args:
            yield from walk_atoms(a, seen)
    elif isinstance(o, Ten):
        if id(o) in seen:
            return
        seen.add(id(o))
        yield from walk_atoms(o.body, seen)
    elif isinstance(o, tuple):
        for x in o:
            yield from walk_atoms(x, seen)


# ----------------------------------------------------------------------------------------- printing
def show(o, names=None, prec=0):
    names = names if names is not None else {}

    def nm(i):
        if i not in names:
            names[i] = "ijklmnopqrstuvw"[len(names) % 15] + ("" if len(names) < 15 else str(len(names) // 15))
        return names[i]

    if isinstance(o, Poly):
        if not o.terms:
            return "0"
        parts = []
        for m, c in o.terms:
            fs = []
            for a, e in m.factors:
                s = show(a, names)
                if e.const() == 1:
                    fs.append(s)
                else:
                    fs.append(f"{s}^({show(e, names)})" if e.const() is None or e.const() < 0 or e.const().denominator != 1
                              else f"{s}^{e.const()}")
            body = "*".join(fs) if fs else ""
            for b, s in m.sums:
                body = f"sum_{nm(b)} " + body
            if c == 1 and body:
                parts.append(body)
            elif c == -1 and body:
                parts.append("-" + body)
            else:
                parts.append((str(c) if c.denominator < 10 ** 6 else "%.6g" % float(c)) + ("*" + body if body else ""))
        r = " + ".join(parts).replace("+ -", "- ")
        return r if len(parts) == 1 else "(" + r + ")"
    if isinstance(o, Atom):
        if o.op == "ivar":
            return nm(o.args[0])
        if o.op == "sym":
            return str(o.args[0]) + ("" if len(o.args) == 1 else show(o.args[1:], names))
        if o.op == "el":
            return f"{o.args[0]}[{','.join(show(x, names) for x in o.args[1])}]"
        if o.op == "uf":
            return f"{o.args[0]}({', '.join(show(x, names) for x in o.args[1])})[{','.join(show(x, names) for x in o.args[2])}]"
        if o.op == "ind":
            c = o.args[0]
            if c.op == "lt":
                return f"[{show(c.args[0], names)}<0]"
            if c.op == "eq":
                return f"[{show(c.args[0], names)}==0]"
            return f"[{show(c, names)}]"
        return o.op + "(" + ", ".join(show(a, names) for a in o.args) + ")"
    if isinstance(o, Ten):
        if o.rank == 0:
            return show(o.body, names)
        return "<" + ",".join(nm(f) for f in o.formals) + ": " + show(o.body, names) + ">"
    if isinstance(o, tuple):
        return "(" + ",".join(show(x, names) for x in o) + ")"
    return str(o)

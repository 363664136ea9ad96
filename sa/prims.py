"""Models of the library functions that gpmp calls (numpy, torch, scipy, math, builtins).

Each model maps argument terms to a result term; none of them computes with data.  Functions without a model
raise ``Unsup`` and the call becomes an opaque node.
"""
import ast
import math
from fractions import Fraction

from .terms import *
from . import terms as T
from . import ops
from .ops import Unsup, SliceV, is1, elementwise, with_tag, lib, dtype
from .vgraph import (Obj, Opq, Phi, Func, Bound, Cls, Static, Prop, Mod, Ext, ExtM, UF, Partial, ExcV, SymSeq,
                     UNDEF, SymRange, SymZip, SymEnum, StarV, exc_mro, CANON, hash_, Stop)

INF = atom_poly(Atom("inf", ()))
NAN = atom_poly(Atom("nan", ()))
PI = atom_poly(Atom("pi", ()))
EPS = atom_poly(Atom("eps", ()))
FMAX = atom_poly(Atom("fmax", ()))


class ExtInst:
    """Instance of a modelled library class."""

    def __init__(self, kind, **attrs):
        self.kind, self.attrs = kind, attrs
        self.name = kind

    def __repr__(self):
        return f"<{self.kind}>"


def S(p, dt="f", L="py"):
    return Ten((), (), p, dt == "b", (L, dt))


def pyfloat(v):
    if v != v:
        return S(NAN)
    if v in (float("inf"), float("-inf")):
        return S(INF if v > 0 else pneg(INF))
    return S(num(v))


def dimval(d, t=None, k=0):
    if d is None:
        return S(sym(f"dim:?{hash_(key(t))}.{k}"), "i")
    c = d.const()
    if c is not None and c.denominator == 1:
        return int(c)
    return S(d, "i")


def norm_scalar(it, t):
    """Python-level value for rank-0 python scalars."""
    if isinstance(t, Ten) and t.rank == 0 and lib(t) == "py":
        c = t.body.const()
        if c is not None:
            if t.isbool or dtype(t) == "b":
                return bool(c)
            if dtype(t) == "i" and c.denominator == 1:
                return int(c)
    return t


def as_ten(it, v):
    v = it.resolve(v)
    if isinstance(v, Ten):
        return it.V(v)
    if isinstance(v, bool):
        return S(num(v), "b")
    if isinstance(v, int):
        return S(num(v), "i")
    if isinstance(v, float):
        return pyfloat(v)
    if isinstance(v, (tuple, SymSeq)) or (isinstance(v, Obj) and v.kind == "list"):
        return array_of(it, v)
    if isinstance(v, Phi) and v.a is not UNDEF and v.b is not UNDEF:
        a, b = as_ten(it, v.a), as_ten(it, v.b)
        r = it.phi(v.c, a, b)
        if isinstance(r, Ten):
            return r
    if isinstance(v, SymRange):
        return ops.mk((v.n,), v.at, False, ("np", "i"))
    raise Unsup(f"not numeric: {type(v).__name__}")


def array_of(it, seq):
    if isinstance(seq, Obj):
        seq = it.st.heap[seq]
    if isinstance(seq, SymSeq):
        parts = []
        for s in seq.segs:
            if s[0] == "lit":
                parts.append(array_of(it, tuple(s[1])))
            else:
                _, n, b, val = s
                e = as_ten(it, val)
                f = fresh()
                body = rename(e.body, {b: f})
                parts.append(Ten((f,) + e.formals, (n,) + e.dims, body, e.isbool, ("np", dtype(e))))
        return parts[0] if len(parts) == 1 else ops.concat(parts, 0)
    if isinstance(seq, tuple):
        if seq and isinstance(seq[0], str):
            raise Unsup("conditional list" if seq[0] == "__phi__" else "strings")
        if not seq:
            return ops.const((ZERO,), ZERO, ("np", "f"))
        es = [as_ten(it, x) for x in seq]
        r = max(e.rank for e in es)
        if any(e.rank != r for e in es):
            raise Unsup("ragged")
        tag = ops.join_tag(*es)
        out = ops.stack(es, 0)
        return with_tag(out, "np" if tag[0] == "py" else tag[0], tag[1])
    raise Unsup("not a sequence")


def dcode(it, d):
    d = it.resolve(d)
    if d is None:
        return None
    n = d.name if isinstance(d, (Ext,)) else d if isinstance(d, str) else None
    if n is None:
        if isinstance(d, ExtInst) and d.kind == "dtype":
            return d.attrs["code"]
        return None
    n = n.split(".")[-1]
    if n in ("float32", "float16", "half", "single", "bfloat16", "f4"):
        return "h"
    if n == "float" and isinstance(d, Ext) and d.name == "torch.float":
        return "h"
    if n.startswith("float") or n in ("double", "floating", "longdouble", "f8"):
        return "f"
    if n.startswith(("int", "uint")) or n in ("long", "integer", "short"):
        return "i"
    if n.startswith("bool"):
        return "b"
    return None


def cast(t, dt):
    if dt is None or dtype(t) == dt:
        return t
    if dt == "i" and dtype(t) in "fh":
        t = elementwise(f_trunc, t)
    if dt == "h" and dtype(t) == "f":
        t = elementwise(f_single, t)
    if dt == "b" and not t.isbool:
        t = elementwise(lambda p: b_not(c_eq(p, ZERO)), t, isbool=True)
    return with_tag(t, dt=dt)


def f_single(p):
    """Rounding to single precision."""
    c = p.const()
    if c is not None and c.denominator & (c.denominator - 1) == 0 and abs(c) < 2 ** 24 and c.denominator < 2 ** 24 \
            and abs(c.numerator) < 2 ** 24:
        return p
    return f_un("f32", p)


def f_trunc(p):
    c = p.const()
    if c is not None:
        return num(math.trunc(c))
    if is_intpoly(p):
        return p
    # ratio floor forms are already integers
    return f_un("trunc", p)


def is_intpoly(p):
    for m, c in p.terms:
        if c.denominator != 1:
            return False
        for a, e in m.factors:
            ce = e.const()
            if ce is None or ce < 0 or ce.denominator != 1:
                return False
            if a.op in ("floor", "ceil", "trunc", "ivar", "nnz", "ind", "delta"):
                continue
            if a.op == "sym" and str(a.args[0]).startswith(("dim:", "int:")):
                continue
            return False
    return True


def dims_of(it, v):
    v = it.resolve(v)
    if isinstance(v, (int, Ten)) and not isinstance(v, bool):
        t = as_ten(it, v)
        if t.rank == 0:
            return [t.body]
        xs = it.to_list(t)
        if xs is None:
            raise Unsup("shape")
        return [as_ten(it, x).body for x in xs]
    xs = it.to_list(v)
    if xs is None:
        raise Unsup("shape")
    out = []
    for x in xs:
        t = as_ten(it, x)
        if t.rank:
            t = ops.squeeze(t)
        if t.rank:
            raise Unsup("shape entry")
        out.append(t.body)
    return out


def axis_of(it, v):
    v = it.resolve(v)
    if v is None:
        return None
    if isinstance(v, int):
        return v
    i = it.concrete_int(v)
    if i is not None:
        return i
    xs = it.to_list(v)
    if xs is not None:
        return tuple(it.concrete_int(x) for x in xs)
    raise Unsup("axis")


def cint(it, v):
    i = it.concrete_int(v)
    if i is None:
        raise Unsup("integer expected")
    return i


# ------------------------------------------------------------------------------------------- operators
_ARITH = {ast.Add: padd, ast.Sub: psub, ast.Mult: pmul}


def f_div(a, b):
    return pmul(a, ppow(b, num(-1)))


def f_floordiv(a, b):
    if peq(a, b):
        return ONE
    q = f_div(a, b)
    c = q.const()
    if c is not None:
        return num(math.floor(c))
    if is_intpoly(q):
        return q
    return f_un("floor", q)


def f_mod(a, b):
    return psub(a, pmul(b, f_floordiv(a, b)))


def isseq(v):
    return isinstance(v, (tuple,)) or (isinstance(v, Obj) and v.kind == "list")


def binop(it, op, a, b):
    t = type(op)
    if isinstance(a, bool) and not isinstance(b, str):
        a2 = int(a)
    else:
        a2 = a
    b2 = int(b) if isinstance(b, bool) else b
    if isinstance(a2, int) and isinstance(b2, int):
        try:
            if t is ast.Add:
                return a2 + b2
            if t is ast.Sub:
                return a2 - b2
            if t is ast.Mult:
                return a2 * b2
            if t is ast.FloorDiv:
                return a2 // b2
            if t is ast.Mod:
                return a2 % b2
            if t is ast.Pow:
                if abs(b2) < 400:
                    r = Fraction(a2) ** b2
                    return int(r) if b2 >= 0 else S(num(r))
            if t is ast.Div:
                return S(num(Fraction(a2, b2)))
            if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
                r = a2 & b2 if t is ast.BitAnd else a2 | b2 if t is ast.BitOr else a2 ^ b2
                return bool(r) if isinstance(a, bool) and isinstance(b, bool) else r
            if t is ast.LShift:
                return a2 << b2
        except ZeroDivisionError:
            it.raise_("builtins.ZeroDivisionError", "division by zero")
    if isinstance(a, str) and t is ast.Add and isinstance(b, str):
        return a + b
    if isinstance(a, str) and t is ast.Mult and isinstance(b, int):
        return a * b
    if isinstance(a, str) or isinstance(b, str):
        return it.opq("str" + t.__name__, a, b)
    if t is ast.Add and isseq(a) and isseq(b):
        xa, xb = it.to_list(a), it.to_list(b)
        if xa is not None and xb is not None:
            return tuple(xa + xb) if isinstance(a, tuple) else it.mklist(xa + xb)
        segs = []
        for o, xs in ((a, xa), (b, xb)):
            if xs is not None:
                if xs:
                    segs.append(("lit", tuple(xs)))
            else:
                c = it.st.heap.get(o)
                if isinstance(c, SymSeq):
                    segs += c.segs
                else:
                    return it.opq("listadd", a, b)
        return it.new("list", SymSeq(segs))
    if t is ast.Mult and (isseq(a) or isseq(b)):
        s, k = (a, b) if isseq(a) else (b, a)
        ki = it.concrete_int(k)
        xs = it.to_list(s)
        if not (isinstance(k, Ten) and k.rank):
            if xs is not None and ki is not None:
                return tuple(xs * ki) if isinstance(s, tuple) else it.mklist(xs * ki)
            if xs is not None and len(xs) == 1 and isinstance(k, Ten):
                return it.new("list", SymSeq([("map", it.V(k).body, fresh(), xs[0])]))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == "set":
        xa, xb = it.to_list(a), it.to_list(b)
        if xa is not None and xb is not None:
            if t is ast.Sub:
                return it.new("set", tuple(x for x in xa if x not in xb))
            if t is ast.BitOr:
                return it.new("set", tuple(xa + [x for x in xb if x not in xa]))
            if t is ast.BitAnd:
                return it.new("set", tuple(x for x in xa if x in xb))
    if isinstance(a, Opq) or isinstance(b, Opq):
        return it.opq("op" + t.__name__, a, b)
    if isinstance(a, Obj) and a.kind == "inst" and a.cls is not None:
        nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__",
              ast.MatMult: "__matmul__", ast.Pow: "__pow__"}.get(t)
        m = a.cls.lookup(nm) if nm else None
        if m is not None:
            return it.call(Bound(a, m), [b], {})
    try:
        x, y = as_ten(it, a), as_ten(it, b)
        tag = ops.join_tag(x, y)
        if tag[1] == "b" and t not in (ast.BitAnd, ast.BitOr, ast.BitXor):
            tag = (tag[0], "i")
        if t in _ARITH:
            r = elementwise(_ARITH[t], x, y, tag=tag)
        elif t is ast.Div:
            r = elementwise(f_div, x, y, tag=(tag[0], "f"))
        elif t is ast.Pow:
            if ops.GRAD is not None and y.rank == 0 and y.body.const() == Fraction(1, 2):
                ops.ROOTS.append(x)
            r = elementwise(ppow, x, y, tag=tag)
        elif t is ast.MatMult:
            r = ops.matmul(x, y)
        elif t is ast.FloorDiv:
            r = elementwise(f_floordiv, x, y, tag=tag)
        elif t is ast.Mod:
            r = elementwise(f_mod, x, y, tag=tag)
        elif t is ast.BitAnd and (x.isbool and y.isbool):
            r = elementwise(b_and, x, y, isbool=True, tag=(tag[0], "b"))
        elif t is ast.BitOr and (x.isbool and y.isbool):
            r = elementwise(b_or, x, y, isbool=True, tag=(tag[0], "b"))
        elif t is ast.BitXor and (x.isbool and y.isbool):
            r = elementwise(lambda p, q: psub(padd(p, q), pscale(pmul(p, q), 2)), x, y, isbool=True, tag=(tag[0], "b"))
        else:
            raise Unsup("operator")
        return norm_scalar(it, r)
    except (Unsup, TermLimit) as ex:
        return it.opq("op" + t.__name__, a, b)


_EXT_ALIAS = {"torch.long": "torch.int64", "torch.double": "torch.float64", "numpy.double": "numpy.float64",
              "numpy.bool": "numpy.bool_"}


def compare(it, op, a, b):
    t = type(op)
    if t in (ast.In, ast.NotIn):
        r = contains(it, a, b)
        if isinstance(r, bool):
            return r if t is ast.In else not r
        return it.mkbool(r if t is ast.In else b_not(r))
    if t in (ast.Eq, ast.NotEq):
        r = equal(it, a, b)
        if isinstance(r, bool):
            return r if t is ast.Eq else not r
        if isinstance(r, Poly):
            return it.mkbool(r if t is ast.Eq else b_not(r))
        if isinstance(r, Ten):
            return r if t is ast.Eq else elementwise(b_not, r, isbool=True)
        return r
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
    if isinstance(a, str) and isinstance(b, str):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
    try:
        x, y = as_ten(it, a), as_ten(it, b)
        f = {ast.Lt: c_lt, ast.LtE: c_le, ast.Gt: lambda p, q: c_lt(q, p), ast.GtE: lambda p, q: c_le(q, p)}[t]
        g = lambda p, q: ZERO if sure_nan(p) or sure_nan(q) else f(p, q)
        r = elementwise(g, x, y, isbool=True, tag=(ops.join_tag(x, y)[0], "b"))
        if r.rank == 0:
            return it.mkbool(r.body)
        return r
    except (Unsup, TermLimit):
        pass
    return it.opq("cmp" + t.__name__, a, b)


def sure_nan(p):
    """The value is not-a-number whatever the inputs (a term has the constant as a factor)."""
    return any(a.op == "nan" for m, _ in p.terms for a, _ in m.factors)


def equal(it, a, b):
    simple = (str, int, bool)
    if a is b and not isinstance(a, Ten):
        return True
    if a is None or b is None:
        o = b if a is None else a
        if isinstance(o, Opq):
            return ind("opq", "isnone:" + o.k)
        return False
    if isinstance(a, simple) and isinstance(b, simple):
        return a == b
    if isinstance(a, (Ext, ExtInst)) or isinstance(b, (Ext, ExtInst)):
        if isinstance(a, Ext) and isinstance(b, Ext):
            return _EXT_ALIAS.get(a.name, a.name) == _EXT_ALIAS.get(b.name, b.name)
        if isinstance(a, ExtInst) and isinstance(b, ExtInst):
            return a.kind == b.kind and it.vkey(a.name) == it.vkey(b.name)
        return False
    if isinstance(a, str) or isinstance(b, str):
        o = b if isinstance(a, str) else a
        if isinstance(o, Opq):
            return ind("opq", "eq:" + it.vkey(a) + it.vkey(b))
        return False
    if isinstance(a, Opq) or isinstance(b, Opq):
        ka, kb = sorted([it.vkey(a), it.vkey(b)])
        if ka == kb:
            return True
        return ind("opq", f"eq:{ka}|{kb}")
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        acc = ONE
        for x, y in zip(a, b):
            r = equal(it, it.resolve(x), it.resolve(y))
            acc = b_and(acc, num(r) if isinstance(r, bool) else it.truth(r) if not isinstance(r, Poly) else r)
        return acc
    if isinstance(a, (Func, Cls, Mod)) or isinstance(b, (Func, Cls, Mod)):
        return a is b
    if isinstance(a, Obj) and a.kind == "inst" and a.cls is not None and a.cls.lookup("__eq__") is None \
            and not getattr(a.cls, "dataclass", False) and (isinstance(b, (Obj, str, int)) or b is None):
        return a is b
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and a.kind != "inst":
        xa, xb = it.to_list(a), it.to_list(b)
        if xa is not None and xb is not None and a.kind == "list":
            return equal(it, tuple(xa), tuple(xb))
        if a.kind == "set" and xa is not None and xb is not None:
            return set(map(str, xa)) == set(map(str, xb))
    try:
        x, y = as_ten(it, a), as_ten(it, b)
        r = elementwise(c_eq, x, y, isbool=True, tag=(ops.join_tag(x, y)[0], "b"))
        if r.rank == 0:
            c = r.body.const()
            return bool(c) if c is not None else r.body
        return r
    except (Unsup, TermLimit):
        return ind("opq", "eq:" + it.vkey(a) + it.vkey(b))


def contains(it, a, b):
    b = it.resolve(b)
    if isinstance(b, str):
        if isinstance(a, str):
            return a in b
        return ind("opq", "in:" + it.vkey(a) + b)
    if isinstance(b, Obj):
        c = it.st.heap.get(b)
        if isinstance(c, dict):
            k = it.dict_key(a)
            if k is UNDEF:
                return ind("opq", "in:" + it.vkey(a) + it.vkey(b))
            if k not in c:
                return False
            v = c[k]
            if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                return b_not(v.c) if v.a is UNDEF else v.c
            return True
        if b.kind == "inst" and b.cls is not None:
            m = b.cls.lookup("__contains__")
            if m:
                return it.truth(it.call(Bound(b, m), [a], {}))
    xs = it.to_list(b)
    if xs is None:
        return ind("opq", "in:" + it.vkey(a) + it.vkey(b))
    acc = ZERO
    for x in xs:
        r = equal(it, a, it.resolve(x))
        p = num(r) if isinstance(r, bool) else r if isinstance(r, Poly) else it.truth(r)
        acc = b_or(acc, p)
        if acc.const() == 1:
            return True
    c = acc.const()
    return bool(c) if c is not None else acc


# ------------------------------------------------------------------------------------------- ext values
CONSTS = {
    "numpy.pi": lambda: S(PI), "math.pi": lambda: S(PI), "torch.pi": lambda: S(PI), "numpy.e": lambda: S(f_exp(ONE)),
    "numpy.inf": lambda: S(INF), "math.inf": lambda: S(INF), "torch.inf": lambda: S(INF),
    "numpy.nan": lambda: S(NAN), "math.nan": lambda: S(NAN), "torch.nan": lambda: S(NAN),
    "numpy.newaxis": lambda: None, "builtins.True": lambda: True, "builtins.False": lambda: False,
    "builtins.None": lambda: None, "builtins.Ellipsis": lambda: Ellipsis,
    "typing.TYPE_CHECKING": lambda: False, "builtins.__debug__": lambda: True,
}


def ext_value(it, name):
    f = CONSTS.get(name)
    if f:
        return f()
    if name == "os.environ":
        return it.environ
    return Ext(name)


def get_attr(it, o, name, default=UNDEF):
    if isinstance(o, SliceV) and name in ("start", "stop", "step", "indices"):
        return ExtM(o, name) if name == "indices" else getattr(o, {"start": "lo", "stop": "hi"}.get(name, name))
    if isinstance(o, Ten):
        t = it.V(o)
        if name == "shape":
            return tuple(dimval(d, t, k) for k, d in enumerate(t.dims))
        if name == "ndim":
            return t.rank
        if name in ("T", "mT", "H", "mH"):
            return it.shares(ops.tT(t) if name == "T" else ops.swap(t, -1, -2), o)
        if name == "dtype":
            if lib(t) == "torch":
                return Ext({"f": "torch.float64", "h": "torch.float32", "i": "torch.int64", "b": "torch.bool"}[dtype(t)])
            return Ext({"f": "numpy.float64", "h": "numpy.float32", "i": "numpy.int64", "b": "numpy.bool_"}[dtype(t)])
        if name == "size" and lib(t) != "torch":
            if lib(t) == "py":
                return default if default is not UNDEF else it.opq("attr", o, name)
            try:
                return dimval(ops.size_of(t), t)
            except Unsup:
                return it.opq("size", t)
        if name == "device":
            return ExtInst("device")
        if name == "requires_grad":
            return it.opq("requires_grad", t) if lib(t) == "torch" else False
        if name == "grad":
            return it.opq("gradattr", t)
        if name in ("real",):
            return t
        if name == "data" and lib(t) == "torch":
            return ops.sever(ops.copy(t))
        if name in ("values", "indices") and lib(t) == "torch":
            return ExtM(o, name)
        if name == "flat":
            return ops.flatten(t)
        if lib(t) == "py" and name not in ("item",):
            if name in ("is_integer", "real", "imag", "conjugate"):
                return ExtM(o, name)
            if default is not UNDEF:
                return default
        if name not in METHODS and name not in FN and default is not UNDEF:
            return default
        return ExtM(o, name)
    if isinstance(o, ExtInst):
        if name in o.attrs:
            return o.attrs[name]
        return ExtM(o, name)
    if isinstance(o, (int, bool)):
        if default is not UNDEF and name in ("shape", "ndim", "detach", "numpy", "item", "dtype", "size", "__call__"):
            return default
        return ExtM(o, name)
    if isinstance(o, (str, tuple, SymSeq, Obj)):
        return ExtM(o, name)
    if o is None:
        if default is not UNDEF:
            return default
        it.raise_("builtins.AttributeError", f"None.{name}")
    if isinstance(o, Opq):
        return Opq(o.k + "." + name)
    if isinstance(o, (UF, Bound, Partial)):
        if default is not UNDEF:
            return default
        if name == "__name__":
            return getattr(o, "name", "fn")
        return it.opq("attr", o, name)
    if default is not UNDEF:
        return default
    return it.opq("attr", o, name)


# ------------------------------------------------------------------------------------------- generic array functions
FN = {}


def fn(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


class A:
    """Argument accessor."""

    def __init__(self, it, L, args, kw):
        self.it, self.L = it, L
        if any(isinstance(a, StarV) for a in args):
            raise Unsup("star argument")
        self.args, self.kw = list(args), dict(kw)
        if L == "torch":
            if "dim" in self.kw:
                self.kw["axis"] = self.kw.pop("dim")
            if "keepdim" in self.kw:
                self.kw["keepdims"] = self.kw.pop("keepdim")

    def get(self, i, name, default=None):
        if i is not None and i < len(self.args):
            return self.it.resolve(self.args[i])
        if name in self.kw:
            return self.it.resolve(self.kw[name])
        return default

    def ten(self, i, name=None):
        v = self.get(i, name, UNDEF)
        if v is UNDEF:
            raise Unsup("missing argument")
        t = as_ten(self.it, v)
        return t

    def has(self, i, name):
        return i < len(self.args) or name in self.kw

    def out(self, t, dt=None):
        return with_tag(t, self.L, dt)


def call_np(it, L, name, args, kw):
    f = FN.get(name)
    if f is None:
        raise Unsup(name)
    a = A(it, L, args, kw)
    return with_out(a, f)


def with_out(a, f):
    """Result stored in the array given as out=, if any."""
    out = a.it.resolve(a.kw.pop("out", None))
    if out is None:
        return f(a)
    if not isinstance(out, Ten):
        raise Unsup("out=")
    r = f(a)
    if not isinstance(r, Ten) or r.rank != a.it.V(out).rank:
        raise Unsup("out=")
    a.it.mutate(out, r)
    return out


UNARY = {"exp": "exp", "log": "log", "log1p": "log1p", "sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan",
         "tanh": "tanh", "abs": "abs", "absolute": "abs", "fabs": "abs", "floor": "floor", "ceil": "ceil",
         "arcsin": "arcsin", "arctan": "arctan", "sinh": "sinh", "cosh": "cosh", "erf": "erf", "sign": "sign",
         "gammaln": "lgamma", "lgamma": "lgamma", "log2": None, "asin": "arcsin", "atan": "arctan",
         "trunc": "trunc", "rint": "rint", "round": "rint"}


def un(name, p):
    if name == "abs":
        return f_abs(p)
    if name == "expm1":
        return psub(f_exp(p), ONE)
    if name == "log10":
        return pmul(f_log(p), ppow(f_log(num(10)), num(-1)))
    if name == "log2":
        return pmul(f_log(p), ppow(f_log(num(2)), num(-1)))
    if name == "square":
        return ppow(p, num(2))
    if name == "negative":
        return pneg(p)
    if name == "reciprocal":
        return ppow(p, num(-1))
    if name == "sigmoid":
        return ppow(padd(ONE, f_exp(pneg(p))), num(-1))
    if name == "trunc":
        return f_trunc(p)
    if name in ("floor", "ceil", "rint") and is_intpoly(p):
        return p
    return f_un(UNARY[name], p)


def _mk_unary(nm):
    def f(a):
        if a.kw.keys() - {"axis", "input", "x", "dtype"}:
            raise Unsup("kw")
        t = a.ten(0, "x")
        if nm == "sqrt" and ops.GRAD is not None:
            ops.ROOTS.append(t)
        r = elementwise(lambda p: un(nm, p), t)
        dt = "f" if nm not in ("abs", "absolute", "square", "negative") else dtype(t)
        return a.out(r, dt)
    FN[nm] = f


for _n in list(UNARY) + ["expm1", "log10", "log2", "square", "negative", "reciprocal", "sigmoid"]:
    _mk_unary(_n)


@fn("factorial", "gamma")
def _factorial(a):
    up = ONE if a.fname == "factorial" else ZERO
    return a.out(elementwise(lambda p: f_exp(un("lgamma", padd(p, up))), a.ten(0, "x")))


FINITE = [False]      # scenario option: every symbolic input is a finite real number


class finite_inputs:
    def __enter__(self):
        FINITE[0] = True

    def __exit__(self, *e):
        FINITE[0] = False


def _finite(p):
    return FINITE[0] and not any(a.op in ("inf", "nan", "opq", "loop", "hole", "uninit") for a in T.walk_atoms(p))


def _scaled_inf(p):
    """An infinite value times nonzero finite symbols."""
    if not FINITE[0] or len(p.terms) != 1 or p.terms[0][0].sums:
        return False
    fs = p.terms[0][0].factors
    return any(a.op == "inf" and e is T.ONE for a, e in fs) and all(
        a.op == "inf" or (a.op in ("in", "sym", "exp", "prime") and _finite(atom_poly(a))) for a, e in fs)


def is_nan(p):
    c = p.const()
    if c is not None:
        return ZERO
    if peq(p, NAN):
        return ONE
    if T._inf_sign(p) is not None or _scaled_inf(p):
        return ZERO
    if _finite(p):
        return ZERO
    r = T._lift_cmp(p, is_nan)
    return r if r is not None else ind("isnan", p)


def is_inf(p):
    c = p.const()
    if c is not None:
        return ZERO
    if T._inf_sign(p) is not None or _scaled_inf(p):
        return ONE
    if peq(p, NAN) or _finite(p):
        return ZERO
    r = T._lift_cmp(p, is_inf)
    if r is not None:
        return r
    if len(p.terms) == 1:
        p = pscale(p, 1 / abs(p.terms[0][1]))
        if p.terms[0][1] < 0:
            p = pneg(p)
    return ind("isinf", p)


T.REBUILD["isnan"] = is_nan
T.REBUILD["isinf"] = is_inf


def is_fin(p):
    return b_and(b_not(is_nan(p)), b_not(is_inf(p)))


def _mk_pred(nm, f0):
    def f(a):
        t = a.ten(0, "x")
        r = elementwise(f0, t, isbool=True)
        return a.out(r, "b")
    FN[nm] = f


_mk_pred("isnan", is_nan)
_mk_pred("isinf", is_inf)
_mk_pred("isfinite", is_fin)
_mk_pred("logical_not", lambda p: b_not(p))
_mk_pred("signbit", lambda p: c_lt(p, ZERO))


def boolten(t):
    return t if t.isbool else elementwise(lambda p: b_not(c_eq(p, ZERO)), t, isbool=True)


def _mk_bin(nm, f0, isb=False):
    def f(a):
        x, y = a.ten(0), a.ten(1)
        if isb and nm.startswith("logical"):
            x, y = boolten(x), boolten(y)
        if f0 is ppow and ops.GRAD is not None and y.rank == 0 and y.body.const() == Fraction(1, 2):
            ops.ROOTS.append(x)
        r = elementwise(f0, x, y, isbool=isb)
        return a.out(r, "b" if isb else "f" if nm in ("divide", "true_divide", "div") else None)
    FN[nm] = f


for _n, _f in (("add", padd), ("subtract", psub), ("sub", psub), ("multiply", pmul), ("mul", pmul), ("divide", f_div),
               ("true_divide", f_div), ("div", f_div), ("power", ppow), ("pow", ppow), ("maximum", f_max), ("minimum", f_min),
               ("fmax", f_max), ("fmin", f_min), ("mod", f_mod), ("remainder", f_mod), ("floor_divide", f_floordiv)):
    _mk_bin(_n, _f)
for _n, _f in (("logical_and", b_and), ("logical_or", b_or), ("greater", lambda p, q: c_lt(q, p)), ("less", c_lt),
               ("greater_equal", lambda p, q: c_le(q, p)), ("less_equal", c_le), ("equal_elem", c_eq),
               ("logical_xor", lambda p, q: psub(padd(p, q), pscale(pmul(p, q), 2)))):
    _mk_bin(_n, _f, True)


def _red(nm):
    def f(a):
        t = a.ten(0, "a")
        ax = axis_of(a.it, a.get(1, "axis"))
        kd = bool(a.get(None, "keepdims", False)) if nm not in () else False
        if a.get(None, "where") is not None or a.get(None, "initial") is not None:
            raise Unsup("where=")
        if nm == "sum":
            r = ops.sum_(t, ax, kd)
        elif nm == "mean":
            r = ops.mean(t, ax, kd)
        elif nm in ("var", "std"):
            dd = a.get(None, "ddof", UNDEF)
            if dd is UNDEF:
                dd = a.get(None, "correction", UNDEF)
            if dd is UNDEF:
                ub = a.get(None, "unbiased", UNDEF)
                dd = (1 if ub in (UNDEF, True) else 0) if a.L == "torch" else 0
            if a.L == "torch" and isinstance(a.get(1, "axis"), bool):
                ax = None
                dd = 1 if a.get(1, "axis") else 0
            dp = as_ten(a.it, dd).body
            m = ops.mean(t, ax, True) if t.rank else t
            c = elementwise(lambda x, y: ppow(psub(x, y), num(2)), t, m)
            s = ops.sum_(c, ax, kd)
            n = psub(ops.size_of(t, ax), dp)
            r = elementwise(lambda x: f_div(x, n), s)
            if nm == "std":
                r = elementwise(lambda x: ppow(x, num(Fraction(1, 2))), r)
            r = with_tag(r, dt="f")
        else:
            opn = {"prod": "rprod", "max": "rmax", "min": "rmin", "amax": "rmax", "amin": "rmin", "any": "rany",
                   "all": "rall", "argmax": "argmax", "argmin": "argmin", "nanmax": "nanmax", "nanmin": "nanmin",
                   "nanmean": "nanmean", "median": "median", "nansum": "nansum"}[nm]
            isb = nm in ("any", "all")
            if isb:
                t = boolten(t)
            r = ops.red_atom(opn)(t, ax, kd, isbool=isb, dt="i" if nm.startswith("arg") else "b" if isb else None)
            if a.L == "torch" and nm in ("max", "min") and a.get(1, "axis") is not None:
                ri = ops.red_atom("arg" + nm)(t, ax, kd, dt="i")
                return ExtInst("minmax", values=a.out(r), indices=a.out(ri))
        if r.rank == 0 and a.L == "np":
            return with_tag(r, "np")
        return a.out(r)
    FN[nm] = f


for _n in ("sum", "mean", "var", "std", "prod", "max", "min", "amax", "amin", "any", "all", "argmax", "argmin",
           "median", "nanmax", "nanmin", "nanmean", "nansum"):
    _red(_n)


def _nanarg(nm):
    def f(a):
        if not FINITE[0]:
            raise Unsup("nan" + nm)
        return FN[nm](a)
    FN["nan" + nm] = f


for _n in ("argmax", "argmin"):
    _nanarg(_n)

_tmax, _tmin = FN["max"], FN["min"]


def _torch2(f, g):
    def h(a):
        if a.L == "torch" and len(a.args) == 2 and isinstance(a.args[1], Ten) and a.args[1].rank > 0:
            return FN[g](a)
        return f(a)
    return h


FN["max"], FN["min"] = _torch2(_tmax, "maximum"), _torch2(_tmin, "minimum")


@fn("cumsum", "cumprod", "sort", "argsort", "nan_to_num", "flip_unused")
def _(a):
    raise Unsup("use named")


def _axis_atom(nm, same=True, dt=None):
    def f(a):
        t = a.ten(0)
        ax = axis_of(a.it, a.get(1, "axis", -1 if nm in ("sort", "argsort") else None))
        if ax is None:
            if t.rank > 1:
                t = ops.flatten(t)
            ax = 0
        ax = ops.norm_axis(ax, t.rank)
        tc = ops.copy(t)
        r = ops.mk(t.dims, lambda *idx: T.rebuild(nm, (tc_slice(tc, ax, idx), idx[ax])), False, t.tag)
        if nm in ("sort", "argsort") and a.L == "torch":
            ri = ops.mk(t.dims, lambda *idx: atom_poly(Atom("argsort", (tc_slice(tc, ax, idx), idx[ax]))), False, (a.L, "i"))
            if nm == "sort":
                return ExtInst("minmax", values=a.out(r), indices=a.out(ri))
        return a.out(r, dt)
    FN[nm] = f


def tc_slice(t, ax, idx):
    """Rank-1 slice of t along ax at the given other indices."""
    f = fresh()
    ii = list(idx)
    ii[ax] = ivar(f)
    return Ten((f,), (t.dims[ax],), at(t, ii))


def _running(nm, join, unit):
    def f(t, i):
        c = i.const()
        if c is not None and c.denominator == 1 and 0 <= c < 64:
            r = unit
            for k in range(int(c) + 1):
                r = join(r, at(t, (num(k),)))
            return r
        return atom_poly(Atom(nm, (t, i)))
    T.REBUILD[nm] = f


_running("cumsum", padd, ZERO)
_running("cumprod", pmul, ONE)


def _sorted(t, i):
    """Element i of the sorted vector t: known when the order of its elements is."""
    c, n = i.const(), t.dims[0].const() if t.dims[0] is not None else None
    if c is not None and n is not None and c.denominator == 1 and 0 <= c < n <= 8:
        v = [at(t, (num(k),)) for k in range(int(n))]
        before = [[_below(a, b) for b in v] for a in v]
        if all(before[a][b] is not None for a in range(len(v)) for b in range(len(v)) if a != b):
            rank = [sum(bool(before[b][a]) if a != b else 0 for b in range(len(v))) for a in range(len(v))]
            for a in sorted(range(len(v)), key=lambda a: rank[a], reverse=True):
                if rank[a] <= c:
                    return v[a]
    return atom_poly(Atom("sort", (t, i)))


def _below(a, b):
    d = psub(b, a)
    if d.const() is not None:
        return d.const() > 0
    return True if T.positive(d) else False if T.positive(pneg(d)) else None


T.REBUILD["sort"] = _sorted
for _n in ("cumsum", "cumprod", "sort"):
    _axis_atom(_n)
_axis_atom("argsort", dt="i")


@fn("nan_to_num")
def _(a):
    t = a.ten(0)
    opt = []
    for i, (nm, d) in enumerate((("nan", 0), ("posinf", None), ("neginf", None))):
        v = a.get((i + 1) if a.L == "torch" else (i + 2), nm, d)
        opt.append(None if v is None else as_ten(a.it, v).body)
    if FINITE[0]:
        r = ops.copy(t)
    elif opt[1] is None and opt[2] is None and not opt[0].terms:
        r = elementwise(lambda p: f_un("nan_to_num", p), t)
    else:
        r = elementwise(lambda p: atom_poly(Atom("nan_to_num", (p,) + tuple("none" if o is None else o for o in opt))), t)
    r = a.out(r)
    x = a.get(0, "x")
    if a.L == "np" and a.get(1, "copy", True) is False and isinstance(x, Ten):
        a.it.mutate(x, r)
        return x
    return r


@fn("flip")
def _(a):
    t = a.ten(0)
    ax = axis_of(a.it, a.get(1, "axis"))
    axs = ops.axes_of(ax, t.rank)
    return a.out(ops.mk(t.dims, lambda *idx: at(t, [psub(psub(t.dims[k], ONE), i) if k in axs else i
                                                    for k, i in enumerate(idx)]), t.isbool, t.tag))


@fn("diff")
def _(a):
    t = a.ten(0)
    ax = ops.norm_axis(axis_of(a.it, a.get(None, "axis", -1)), t.rank)
    if a.get(1, "n", 1) != 1:
        raise Unsup("diff n")
    dims = list(t.dims)
    if dims[ax] is None:
        raise Unsup("size")
    dims[ax] = psub(dims[ax], ONE)
    def g(*idx):
        j = list(idx)
        j[ax] = padd(idx[ax], ONE)
        return psub(at(t, j), at(t, idx))
    return a.out(ops.mk(dims, g, False, t.tag))


@fn("percentile", "quantile")
def _(a):
    t = a.ten(0)
    q = a.ten(1, "q")
    if a.get(None, "method", "linear") != "linear":
        raise Unsup("method")
    ax = axis_of(a.it, a.get(2, "axis"))
    if "percentile" in a.fname:
        q = elementwise(lambda p: pscale(p, Fraction(1, 100)), q)
    keep = a.get(None, "keepdims", a.get(None, "keepdim", False))
    if keep not in (True, False) or keep and q.rank:
        raise Unsup("quantile keepdims")
    rank = t.rank
    if ax is None:
        if t.rank != 1:
            t = ops.flatten(t)
        ax = 0
    else:
        rank = 1
    ax = ops.norm_axis(ax, t.rank)
    rest = [d for k, d in enumerate(t.dims) if k != ax]
    def g(*idx):
        qi = idx[:q.rank]
        ri = list(idx[q.rank:])
        full = ri[:ax] + [ZERO] + ri[ax:]
        return atom_poly(Atom("quantile", (tc_slice(t, ax, full), at(q, qi))))
    r = ops.mk(list(q.dims) + rest, g, False, t.tag)
    for _ in range(rank if keep else 0):
        r = ops.expand(r, ax)
    return a.out(r, "f")


# --- constructors
@fn("zeros", "ones", "empty", "full")
def _(a):
    nm = a.fname
    L = a.L
    v = a.get(0, "shape", UNDEF)
    if v is UNDEF:
        v = a.get(0, "size", UNDEF)
    rest = 1
    if L == "torch" and len(a.args) > 1 and nm != "full":
        v = tuple(a.args)
        rest = 99
    dims = dims_of(a.it, v)
    dt = dcode(a.it, a.get(None, "dtype"))
    if dt is None and nm != "full":
        dt = dcode(a.it, a.get(rest, "dtype")) if rest == 1 and L != "torch" else None
    fl = deff(a)
    if nm == "full":
        x = a.ten(1, "fill_value")
        dt = dt or (fl if dtype(x) == "f" and lib(x) == "py" else dtype(x))
        return ops.const(dims, x.body, (L, dt), dt == "b") if x.rank == 0 else with_tag(ops.broadcast_to(x, dims), L, dt)
    if nm == "empty":
        return uninit(dims, (L, dt or fl))
    return ops.const(dims, ZERO if nm == "zeros" else ONE, (L, dt or fl), dt == "b")


def deff(a):
    """Floating-point type of a new array when none is asked for."""
    return a.it.torch_default if a.L == "torch" else "f"


_uid = [0]


def uninit(dims, tag):
    _uid[0] += 1
    return ops.tfn("uninit", (str(_uid[0]),), dims, tag)


@fn("zeros_like", "ones_like", "empty_like", "full_like")
def _(a):
    t = a.ten(0)
    dt = dcode(a.it, a.get(None, "dtype")) or dtype(t)
    nm = a.fname
    if nm == "empty_like":
        return uninit(t.dims, (a.L, dt))
    v = ZERO if nm == "zeros_like" else ONE if nm == "ones_like" else a.ten(1, "fill_value").body
    return ops.const(t.dims, v, (a.L, dt), dt == "b")


@fn("eye", "identity")
def _(a):
    n = dims_of(a.it, a.get(0, "N", a.get(0, "n")))[0]
    m = a.get(1, "M", None)
    m = n if m is None or a.fname == "identity" else dims_of(a.it, m)[0]
    k = a.get(2, "k", 0)
    dt = dcode(a.it, a.get(None, "dtype")) or deff(a)
    return with_tag(ops.eye(n, m, cint(a.it, k), (a.L, "f")), a.L, dt)


@fn("arange")
def _(a):
    xs = [as_ten(a.it, x) for x in a.args] or [a.ten(None, "stop")]
    start, step = ZERO, ONE
    if len(xs) == 1:
        stop = xs[0].body
    else:
        start, stop = xs[0].body, xs[1].body
        if len(xs) > 2:
            step = xs[2].body
    n = psub(stop, start)
    if step is not ONE and step.const() != 1:
        n = f_un("ceil", f_div(n, step)) if f_div(n, step).const() is None else num(math.ceil(f_div(n, step).const()))
    if n.const() is not None and n.const() < 0:
        n = ZERO
    dt = dcode(a.it, a.get(None, "dtype")) or (deff(a) if any(dtype(x) in "fh" for x in xs) else "i")
    return ops.mk((n,), lambda i: padd(start, pmul(step, i)), False, (a.L, dt))


@fn("linspace", "logspace")
def _(a):
    lo, hi = a.ten(0, "start"), a.ten(1, "stop" if not a.has(1, "end") else "end")
    nv = a.get(2, "num", UNDEF)
    if nv is UNDEF:
        nv = a.get(2, "steps", 50)
    n = as_ten(a.it, nv).body
    ep = a.get(3, "endpoint", True)
    if a.get(4, "retstep", False):
        raise Unsup("retstep")
    if lo.rank or hi.rank:
        raise Unsup("array linspace")
    den = psub(n, ONE) if ep else n
    def g(i):
        v = padd(lo.body, f_div(pmul(psub(hi.body, lo.body), i), den)) if n.const() != 1 else lo.body
        if a.fname == "logspace":
            b = a.get(None, "base", None)
            return ppow(as_ten(a.it, b).body if b is not None else num(10), v)
        return v
    return cast(ops.mk((n,), g, False, (a.L, "f")), dcode(a.it, a.get(None, "dtype")) or deff(a))


def _scalars(it, v):
    """torch reads tensors inside a list as scalars (they must hold one element)."""
    xs = it.to_list(v)
    if xs is None:
        return v
    out = []
    for x in xs:
        x = it.resolve(x)
        if isinstance(x, Ten) and lib(x) == "torch" and x.rank:
            x = it.V(x)
            if any(d is None or d.const() is not None and d.const() != 1 for d in x.dims):
                raise Unsup("tensor inside a list")
            if len(xs) == 1 and x.rank == 1:
                return (x,)
            x = ops.index(x, [0] * x.rank)
        elif isinstance(x, tuple) or isinstance(x, Obj) and x.kind == "list":
            x = _scalars(it, x)
        out.append(x)
    return tuple(out)


@fn("array", "asarray", "as_tensor", "tensor", "from_numpy", "ascontiguousarray", "asanyarray")
def _(a):
    v = a.get(0, "data", UNDEF)
    if v is UNDEF:
        v = a.get(0, "a", UNDEF)
    if v is UNDEF:
        raise Unsup("array arg")
    dt = dcode(a.it, a.get(None, "dtype"))
    if dt is None and a.L == "np":
        dt = dcode(a.it, a.get(1, "dtype"))
    if isinstance(v, Opq):
        return a.it.opq("arr", v) if not v.k.startswith("arr(") else v
    if a.L == "torch" and (isinstance(v, tuple) or isinstance(v, Obj) and v.kind == "list"):
        v = _scalars(a.it, v)
        if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], Ten) and v[0].rank == 1:
            v = ops.copy(v[0])
    t = as_ten(a.it, v)
    same = isinstance(v, Ten) and lib(v) == a.L and (dt is None or dt == dtype(t)) and a.fname not in ("array", "tensor")
    if same and (v.rank or a.L == "torch"):
        return v
    r = cast(with_tag(ops.copy(t), a.L), dt)
    if a.L == "torch" and (a.fname == "tensor" or not isinstance(v, Ten)):
        r = ops.sever(r)
    if lib(t) == "py" and dt is None and dtype(t) == "f":
        r = cast(r, deff(a))
    if isinstance(v, Ten) and lib(v) != a.L and a.fname in ("from_numpy", "as_tensor", "asarray") and r is not v:
        r = ops.copy(r)
    return r


@fn("copy", "clone")
def _(a):
    return ops.copy(with_tag(ops.copy(a.ten(0)), a.L))


@fn("diag", "diagonal")
def _(a):
    t = a.ten(0)
    if a.get(1, "k", 0) not in (0, None):
        raise Unsup("diag k")
    return a.out(ops.diag(t))


@fn("tril", "triu")
def _(a):
    t = a.ten(0)
    k = cint(a.it, a.get(1, "k", a.get(1, "diagonal", 0)))
    m = ops.match_chol(t)
    if m is not None and k == 0 and ((a.fname == "tril") != m[1]):
        return a.out(t)
    if a.fname == "tril":
        return a.out(ops.mk(t.dims, lambda i, j: pmul(c_le(j, padd(i, num(k))), at(t, (i, j))), False, t.tag))
    return a.out(ops.mk(t.dims, lambda i, j: pmul(c_le(padd(i, num(k)), j), at(t, (i, j))), False, t.tag))


@fn("tile")
def _(a):
    t = a.ten(0)
    reps = a.get(1, "reps", UNDEF)
    if reps is UNDEF:
        reps = a.get(1, "dims")
    reps = dims_of(a.it, reps)
    while len(reps) < t.rank:
        reps = [ONE] + reps
    while t.rank < len(reps):
        t = ops.expand(t, 0)
    dims, pos = [], []
    for d, r in zip(t.dims, reps):
        if is1(d):
            dims.append(r)
            pos.append("b")
        elif is1(r):
            dims.append(d)
            pos.append("s")
        else:
            dims.append(None if d is None else pmul(d, r))
            pos.append(d)
    return a.out(ops.mk(dims, lambda *idx: at(t, [ZERO if p == "b" else i if p == "s" else f_mod(i, p)
                                                  for p, i in zip(pos, idx)]), t.isbool, t.tag))


@fn("repeat", "repeat_interleave")
def _(a):
    t = a.ten(0)
    n = a.ten(1, "repeats")
    if n.rank:
        raise Unsup("array repeats")
    ax = axis_of(a.it, a.get(2, "axis"))
    if ax is None:
        if t.rank > 1:
            t = ops.flatten(t)
        ax = 0
        if t.rank == 0:
            return a.out(ops.const((n.body,), t.body, t.tag))
    ax = ops.norm_axis(ax, t.rank)
    dims = list(t.dims)
    one = is1(dims[ax])
    dims[ax] = n.body if one else pmul(dims[ax], n.body)
    return a.out(ops.mk(dims, lambda *idx: at(t, [ZERO if (k == ax and one) else f_floordiv(i, n.body) if k == ax else i
                                                  for k, i in enumerate(idx)]), t.isbool, t.tag))


@fn("meshgrid")
def _(a):
    ts = [as_ten(a.it, x) for x in a.args]
    ij = a.get(None, "indexing", "xy" if a.L == "np" else "ij")
    n = len(ts)
    dims = [t.dims[0] for t in ts]
    order = list(range(n))
    if ij == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    outd = [dims[o] for o in order]
    res = []
    for k, t in enumerate(ts):
        p = order.index(k)
        res.append(a.out(ops.mk(outd, lambda *idx, p=p, t=t: at(t, (idx[p],)), False, t.tag)))
    return a.it.mklist(res) if a.L == "np" else tuple(res)


# --- shape
@fn("reshape", "view")
def _(a):
    v = a.args[0]
    t = a.ten(0)
    sh = tuple(a.args[1:])
    if not sh:
        sh = (a.get(None, "newshape", a.get(None, "shape")),)
    if len(sh) == 1 and not isinstance(sh[0], int) and not (isinstance(sh[0], Ten) and sh[0].rank == 0):
        dims = dims_of(a.it, sh[0])
    else:
        dims = [d for x in sh for d in dims_of(a.it, x)]
    new, old = ([None if d is None else d.const() for d in ds] for ds in (dims, t.dims))
    if None not in new + old:
        n, m = math.prod(d for d in new if d != -1), math.prod(old)
        if n != m and (-1 not in new or n == 0 or m % n):
            a.it.raise_("builtins.ValueError" if a.L == "np" else "builtins.RuntimeError", "reshape")
    return a.out(ops.reshape(t, dims))


@fn("ravel", "flatten")
def _(a):
    t = a.ten(0)
    return a.out(ops.flatten(t) if t.rank != 1 else ops.copy(t))


def seq_tens(it, v):
    xs = it.to_list(v)
    if xs is None:
        raise Unsup("sequence of arrays")
    return [as_ten(it, x) for x in xs]


def sym_rows(it, v):
    """List of symbolic length whose elements are arrays."""
    c = it.st.heap.get(v) if isinstance(v, Obj) else v
    return c if isinstance(c, SymSeq) else None


@fn("concatenate", "cat", "concat")
def _(a):
    v = a.get(0, "arrays", a.get(0, "tensors"))
    ax = axis_of(a.it, a.get(1, "axis", 0))
    sq = sym_rows(a.it, v)
    if sq is not None and not all(s[0] == "lit" for s in sq.segs):
        t = array_of(a.it, sq)
        # list of equal blocks of length 1 along axis
        if t.rank >= 2 and is1(t.dims[1 + ax]):
            return a.out(ops.drop(ops.permute(t, _move(t.rank, 0, ax)) if ax else t, 1 + ax if not ax else ax + 1))
        raise Unsup("concat of symbolic list")
    ts = seq_tens(a.it, v)
    return a.out(ops.concat(ts, ax))


def _move(r, src, dst):
    p = list(range(r))
    p.remove(src)
    p.insert(dst, src)
    return p


@fn("hstack", "vstack", "column_stack", "row_stack", "stack", "dstack")
def _(a):
    v = a.get(0, "tup", a.get(0, "arrays", a.get(0, "tensors")))
    sq = sym_rows(a.it, v)
    ax = axis_of(a.it, a.get(1, "axis", 0))
    nm = a.fname
    if sq is not None and not all(s[0] == "lit" for s in sq.segs):
        t = array_of(a.it, sq)      # leading axis enumerates the list
        if nm == "stack":
            return a.out(ops.permute(t, _move(t.rank, 0, ops.norm_axis(ax, t.rank))))
        if nm in ("vstack", "row_stack"):
            if t.rank == 2:
                return a.out(t)
            if t.rank == 3 and is1(t.dims[1]):
                return a.out(ops.drop(t, 1))
        if nm in ("hstack", "column_stack"):
            if t.rank == 2 and nm == "column_stack":
                return a.out(ops.tT(t))
            if t.rank == 3 and is1(t.dims[2]):
                return a.out(ops.tT(ops.drop(t, 2)))
            if t.rank == 2 and is1(t.dims[1]):
                return a.out(ops.drop(t, 1))
        raise Unsup("stack of symbolic list")
    ts = seq_tens(a.it, v)
    if nm == "stack":
        return a.out(ops.stack(ts, ax))
    if nm == "hstack":
        ts = [ops.expand(t, 0) if t.rank == 0 else t for t in ts]
        return a.out(ops.hstack(ts))
    if nm in ("vstack", "row_stack"):
        ts = [ops.expand(t, 0) if t.rank == 0 else t for t in ts]
        return a.out(ops.vstack(ts))
    if nm == "column_stack":
        return a.out(ops.concat([ops.expand(t, 1) if t.rank == 1 else t for t in ts], 1))
    raise Unsup(nm)


@fn("expand_dims", "unsqueeze")
def _(a):
    t = a.ten(0)
    return a.out(ops.expand(t, axis_of(a.it, a.get(1, "axis"))))


@fn("squeeze")
def _(a):
    t = a.ten(0)
    return a.out(ops.squeeze(t, axis_of(a.it, a.get(1, "axis"))))


@fn("transpose", "permute")
def _(a):
    t = a.ten(0)
    if a.L == "torch" and a.fname == "transpose":
        return a.out(ops.swap(t, cint(a.it, a.args[1]), cint(a.it, a.args[2])))
    axes = a.args[1:] if len(a.args) > 2 else a.get(1, "axes")
    if axes is None:
        return a.out(ops.tT(t))
    return a.out(ops.permute(t, [cint(a.it, x) for x in (a.it.to_list(axes) if not isinstance(axes, list) else axes)]))


@fn("swapaxes", "swapdims", "moveaxis")
def _(a):
    t = a.ten(0)
    i, j = cint(a.it, a.get(1, "axis1", a.get(1, "source"))), cint(a.it, a.get(2, "axis2", a.get(2, "destination")))
    if a.fname == "moveaxis":
        return a.out(ops.permute(t, _move(t.rank, ops.norm_axis(i, t.rank), ops.norm_axis(j, t.rank))))
    return a.out(ops.swap(t, i, j))


@fn("t")
def _(a):
    return a.out(ops.tT(a.ten(0)))


@fn("atleast_1d")
def _(a):
    t = a.ten(0)
    return a.args[0] if t.rank and isinstance(a.args[0], Ten) else a.out(ops.expand(t, 0) if not t.rank else t)


@fn("atleast_2d")
def _(a):
    t = a.ten(0)
    if t.rank >= 2 and isinstance(a.args[0], Ten):
        return a.args[0]
    while t.rank < 2:
        t = ops.expand(t, 0)
    return a.out(t)


@fn("broadcast_to", "expand")
def _(a):
    t = a.ten(0)
    sh = a.args[1] if len(a.args) == 2 else tuple(a.args[1:])
    dims = dims_of(a.it, sh)
    off = len(dims) - t.rank
    dims = [t.dims[k - off] if d.const() == -1 else d for k, d in enumerate(dims)]
    return a.out(ops.broadcast_to(t, dims))


@fn("split")
def _(a):
    t = a.ten(0)
    ax = axis_of(a.it, a.get(2, "axis", 0))
    sec = a.get(1, "indices_or_sections", a.get(1, "split_size_or_sections"))
    si = a.it.concrete_int(sec) if not isseq(sec) else None
    d = t.dims[ax]
    full = [SliceV(None, None, None)] * t.rank
    if si is None:
        xs = a.it.to_list(sec)
        if xs is None:
            raise Unsup("split sections")
        bs = [as_ten(a.it, x).body for x in xs]
        if a.L == "torch":
            acc, pts = ZERO, []
            for b in bs[:-1]:
                acc = padd(acc, b)
                pts.append(acc)
            bs = pts
    else:
        if a.L == "torch":
            if d is None or d.const() is None:
                raise Unsup("torch split of symbolic size")
            bs = [num(k) for k in range(si, int(d.const()), si)]
        else:
            if d is None:
                raise Unsup("size")
            bs = [pscale(d, Fraction(k, si)) for k in range(1, si)]
    out = []
    lo = None
    for b in bs + [None]:
        items = list(full)
        items[ax] = SliceV(lo, b, None)
        out.append(a.out(ops.index(t, items)))
        lo = b
    return a.it.mklist(out) if a.L == "np" else tuple(out)


@fn("take", "index_select")
def _(a):
    t = a.ten(0)
    if a.fname == "index_select":
        ax, idx = axis_of(a.it, a.get(1, "axis")), a.ten(2, "index")
    else:
        idx, ax = a.ten(1, "indices"), axis_of(a.it, a.get(2, "axis"))
    if ax is None:
        t, ax = (ops.flatten(t) if t.rank > 1 else t), 0
    items = [SliceV(None, None, None)] * t.rank
    items[ops.norm_axis(ax, t.rank)] = idx if idx.rank else idx.body
    return a.out(ops.index(t, items))


# --- selection
@fn("where")
def _(a):
    if len(a.args) < 3:
        c = a.ten(0, "condition")
        c = boolten(c)
        mt = Ten(c.formals, c.dims, c.body)
        n = atom_poly(Atom("nnz", (mt,)))
        return tuple(ops.mk((n,), lambda i, r=r: atom_poly(Atom("nz", (mt, r, i))), False, (a.L, "i")) for r in range(c.rank))
    c, x, y = a.ten(0), a.ten(1), a.ten(2)
    c = boolten(c)
    return a.out(elementwise(f_ite, c, x, y, isbool=x.isbool and y.isbool, tag=ops.join_tag(x, y)))


@fn("nonzero", "flatnonzero", "argwhere")
def _(a):
    c = boolten(a.ten(0))
    mt = Ten(c.formals, c.dims, c.body)
    n = atom_poly(Atom("nnz", (mt,)))
    outs = tuple(ops.mk((n,), lambda i, r=r: atom_poly(Atom("nz", (mt, r, i))), False, (a.L, "i")) for r in range(c.rank))
    if a.fname == "flatnonzero" and c.rank == 1:
        return outs[0]
    if a.fname == "nonzero" and a.L == "np":
        return outs
    raise Unsup(a.fname)


@fn("count_nonzero")
def _(a):
    return a.out(ops.sum_(boolten(a.ten(0)), axis_of(a.it, a.get(1, "axis"))), "i")


@fn("clip", "clamp")
def _(a):
    t = a.ten(0)
    lo = a.get(1, "min", a.get(1, "a_min"))
    hi = a.get(2, "max", a.get(2, "a_max"))
    if lo is not None:
        t = elementwise(f_max, t, as_ten(a.it, lo), tag=t.tag)
    if hi is not None:
        t = elementwise(f_min, t, as_ten(a.it, hi), tag=t.tag)
    return a.out(t)


@fn("masked_fill")
def _(a):
    t, m, v = a.ten(0), a.ten(1, "mask"), a.ten(2, "value")
    return a.out(elementwise(f_ite, boolten(m), v, t, tag=t.tag))


@fn("isclose", "allclose")
def _(a):
    x, y = a.ten(0), a.ten(1)
    rt = as_ten(a.it, a.get(2, "rtol", pyfloat(1e-5))).body
    at_ = as_ten(a.it, a.get(3, "atol", pyfloat(1e-8))).body
    r = elementwise(lambda p, q: c_le(f_abs(psub(p, q)), padd(at_, pmul(rt, f_abs(q)))), x, y, isbool=True)
    if a.fname == "allclose":
        r = ops.red_atom("rall")(r, None, False, isbool=True)
        return a.it.mkbool(r.body)
    return a.out(r, "b")


@fn("array_equal", "equal")
def _(a):
    x, y = a.ten(0), a.ten(1)
    if x.rank != y.rank:
        return False
    for p, q in zip(x.dims, y.dims):
        if p is None or q is None or not peq(p, q):
            if p is not None and q is not None and p.const() is not None and q.const() is not None:
                return False
            raise Unsup("array_equal sizes")
    r = elementwise(c_eq, x, y, isbool=True)
    if x.rank:
        r = ops.red_atom("rall")(r, None, False, isbool=True)
    return a.it.mkbool(r.body)


@fn("unique")
def _(a):
    t = a.ten(0)
    if a.kw.keys() - {"axis", "sorted"} or a.get(None, "axis") is not None:
        raise Unsup("unique options")
    if t.rank != 1:
        t = ops.flatten(t)
    tc = Ten(t.formals, t.dims, t.body)
    return ops.mk((atom_poly(Atom("nuniq", (tc,))),), lambda i: atom_poly(Atom("uniq", (tc, i))), False, t.tag)


@fn("interp")
def _(a):
    x, xp, fp = a.ten(0), a.ten(1), a.ten(2)
    return a.out(elementwise(lambda p: atom_poly(Atom("interp", (ops.copy(xp), ops.copy(fp), p))), x))


@fn("bincount")
def _(a):
    t = a.ten(0)
    ml = as_ten(a.it, a.get(None, "minlength", 0)).body
    return ops.mk((ml,), lambda k: T.psum(c_eq(at(t, (ivar(-7),)), k), -7, t.dims[0]), False, (a.L, "i"))


@fn("trapz", "trapezoid")
def _(a):
    y = a.ten(0)
    x = a.get(1, "x")
    if x is None or y.rank != 1:
        raise Unsup("trapz")
    x = as_ten(a.it, x)
    n = psub(y.dims[0], ONE)
    b = fresh()
    i = ivar(b)
    j = padd(i, ONE)
    body = pscale(pmul(psub(at(x, (j,)), at(x, (i,))), padd(at(y, (j,)), at(y, (i,)))), Fraction(1, 2))
    if n.const() is not None and 0 < n.const() <= 12:
        return S(T.psum_list([subst(body, {b: num(k)}) for k in range(int(n.const()))]), "f", a.L)
    return S(psum(body, b, n), "f", a.L)


@fn("cumulative_trapezoid")
def _(a):
    y, x, first = a.ten(0), a.get(1, "x"), a.get(None, "initial")
    if x is None or y.rank != 1:
        raise Unsup("cumulative_trapezoid")
    x = as_ten(a.it, x)
    b = fresh()
    i, j = ivar(b), padd(ivar(b), ONE)
    body = pscale(pmul(psub(at(x, (j,)), at(x, (i,))), padd(at(y, (j,)), at(y, (i,)))), Fraction(1, 2))
    n = y.dims[0].const()
    if n is not None and 0 < n <= 12:
        acc, vals = ZERO, [] if first is None else [ZERO]
        if first is not None and as_ten(a.it, first).body.const() != 0:
            raise Unsup("cumulative_trapezoid initial")
        for k in range(int(n) - 1):
            acc = padd(acc, subst(body, {b: num(k)}))
            vals.append(acc)
        return ops.stack([S(v, "f", "np") for v in vals], 0)
    if first is None:
        return ops.mk((psub(y.dims[0], ONE),), lambda k: psum(body, b, padd(k, ONE)), False, ("np", "f"))
    if as_ten(a.it, first).body.const() != 0:
        raise Unsup("cumulative_trapezoid initial")
    return ops.mk((y.dims[0],), lambda k: psum(body, b, k), False, ("np", "f"))


# --- contractions / linear algebra
@fn("matmul", "mm", "dot", "mv", "bmm")
def _(a):
    x, y = a.ten(0), a.ten(1)
    if x.rank == 0 or y.rank == 0:
        return a.out(elementwise(pmul, x, y))
    return a.out(ops.matmul(x, y))


@fn("inner", "vdot")
def _(a):
    x, y = a.ten(0), a.ten(1)
    if x.rank == 1 and y.rank == 1:
        return a.out(ops.matmul(x, y))
    if x.rank == 2 and y.rank == 2:
        return a.out(ops.matmul(x, ops.tT(y)))
    if x.rank == 2 and y.rank == 1:
        return a.out(ops.matmul(x, y))
    raise Unsup("inner")


@fn("outer")
def _(a):
    x, y = a.ten(0), a.ten(1)
    return a.out(elementwise(pmul, ops.expand(x, 1), ops.expand(y, 0)))


@fn("einsum")
def _(a):
    sp = a.args[0]
    if not isinstance(sp, str):
        raise Unsup("einsum")
    return a.out(ops.einsum(sp, [as_ten(a.it, x) for x in a.args[1:]]))


@fn("trace")
def _(a):
    return a.out(ops.trace(a.ten(0)))


@fn("norm")
def _(a):
    t = a.ten(0)
    o = a.get(1, "ord", a.get(None, "p"))
    ax = axis_of(a.it, a.get(2, "axis"))
    kd = bool(a.get(None, "keepdims", False))
    if o is None or it_is2(a.it, o):
        if o is not None and t.rank == 2 and ax is None and a.mod == "numpy.linalg":
            raise Unsup("spectral norm")
        s = ops.sum_(elementwise(lambda p: pmul(p, p), t), ax, kd)
        return a.out(elementwise(lambda p: ppow(p, num(Fraction(1, 2))), s))
    if a.it.concrete_int(o) == 1 and (t.rank == 1 or isinstance(ax, int)):
        return a.out(ops.sum_(elementwise(f_abs, t), ax, kd))
    raise Unsup("norm ord")


def it_is2(it, o):
    try:
        return as_ten(it, o).body.const() == 2
    except Unsup:
        return False


def sq(t):
    return t


@fn("cholesky")
def _(a):
    A_ = a.ten(0)
    up = a.get(None, "upper", False)
    low = a.get(1, "lower", None)
    if low is not None and a.mod == "scipy.linalg":
        up = not low
    elif a.mod == "scipy.linalg":
        up = True
    return a.out(ops.chol(A_, not up))


@fn("qr")
def _(a):
    A_ = ops.copy(a.ten(0))
    mode = a.get(1, "mode", "reduced")
    n, q = A_.dims
    if mode == "complete":
        Q = ops.mk((n, n), lambda i, j: atom_poly(Atom("qr_q", (A_, (i, j)))), False, (a.L, "f"))
        R = ops.mk((n, q), lambda i, j: atom_poly(Atom("qr_r", (A_, (i, j)))), False, (a.L, "f"))
    elif mode == "reduced":
        Q = ops.mk((n, q), lambda i, j: atom_poly(Atom("qr_q", (A_, (i, j)))), False, (a.L, "f"))
        R = ops.mk((q, q), lambda i, j: atom_poly(Atom("qr_r", (A_, (i, j)))), False, (a.L, "f"))
    else:
        raise Unsup("qr mode")
    return (Q, R)


@fn("svd")
def _(a):
    A_ = ops.copy(a.ten(0))
    n, m = A_.dims
    k = n if peq(n, m) else None
    U = ops.mk((n, n), lambda i, j: atom_poly(Atom("svd_u", (A_, (i, j)))), False, (a.L, "f"))
    s = ops.mk((k if k is not None else sym("dim:?svd"),), lambda i: atom_poly(Atom("svd_s", (A_, (i,)))), False, (a.L, "f"))
    if k is not None and (a.get(None, "hermitian", False) is True or is_symmetric(A_)):
        # covariance matrices: the two orthogonal factors are transposes of each other
        Vh = ops.mk((m, m), lambda i, j: atom_poly(Atom("svd_u", (A_, (j, i)))), False, (a.L, "f"))
    else:
        Vh = ops.mk((m, m), lambda i, j: atom_poly(Atom("svd_v", (A_, (i, j)))), False, (a.L, "f"))
    return (U, s, Vh)


@fn("eigh", "eigvalsh")
def _(a):
    A_ = ops.copy(a.ten(0))
    n = A_.dims[0]
    w = ops.mk((n,), lambda i: atom_poly(Atom("eigh_w", (A_, (i,)))), False, (a.L, "f"))
    if a.fname == "eigvalsh":
        return w
    V_ = ops.mk((n, n), lambda i, j: atom_poly(Atom("eigh_v", (A_, (i, j)))), False, (a.L, "f"))
    return (w, V_)


@fn("inv", "pinv")
def _(a):
    if a.fname == "pinv":
        raise Unsup("pinv")
    return a.out(ops.inv(ops.settle(a.ten(0))))


def sym_upper(A_):
    """Matrix read through its upper triangle only."""
    if is_symmetric(A_):
        return A_
    return ops.tfn("symu", (A_,), A_.dims, A_.tag)


@fn("solve")
def _(a):
    A_, B = a.ten(0), a.ten(1)
    asm = a.get(None, "assume_a", "gen")
    if a.get(None, "sym_pos", False):
        asm = "pos"
    if asm in ("sym", "pos", "her") and not a.get(None, "lower", False):
        A_ = sym_upper(A_)
    return a.out(ops.solve(A_, B))


@fn("solve_triangular")
def _(a):
    A_, B = a.ten(0), a.ten(1)
    if a.L == "torch":
        if a.get(None, "left", True) is not True:
            raise Unsup("right solve")
        up = a.get(None, "upper")
        unit = a.get(None, "unitriangular", False)
        return a.out(ops.solve_tri(A_, B, not up, False, bool(unit)))
    tr = a.get(2, "trans", 0)
    low = a.get(3, "lower", False)
    unit = a.get(4, "unit_diagonal", False)
    trans = tr in (1, "T", 2, "C")
    low = bool(a.it.truth(low).const()) if not isinstance(low, bool) else low
    return a.out(ops.solve_tri(A_, B, low, trans, bool(unit)))


@fn("slogdet")
def _(a):
    A_ = ops.copy(ops.settle(a.ten(0)))
    sg, ld = S(atom_poly(Atom("detsign", (A_,))), "f", a.L), S(atom_poly(Atom("logdet", (A_,))), "f", a.L)
    return (sg, ld)


@fn("logdet")
def _(a):
    return S(atom_poly(Atom("logdet", (ops.copy(ops.settle(a.ten(0))),))), "f", a.L)


@fn("det")
def _(a):
    return S(f_exp(atom_poly(Atom("logdet", (ops.copy(ops.settle(a.ten(0))),)))), "f", a.L)


@fn("cond")
def _(a):
    return S(atom_poly(Atom("condnum", (ops.copy(a.ten(0)),))), "f", a.L)


@fn("cho_factor")
def _(a):
    low = a.get(1, "lower", False)
    return (a.out(ops.chol(a.ten(0), bool(low))), low)


@fn("cho_solve")
def _(a):
    cf = a.it.to_list(a.args[0])
    if cf is None:
        raise Unsup("cho_solve")
    C, low = as_ten(a.it, cf[0]), cf[1]
    B = a.ten(1)
    return a.out(_cho_solve(C, B, bool(low)))


def _cho_solve(C, B, low):
    y = ops.solve_tri(C, B, low, not low)
    return ops.solve_tri(C, y, low, low)


@fn("cholesky_solve")
def _(a):
    B, C = a.ten(0), a.ten(1)
    return a.out(_cho_solve(C, B, not a.get(2, "upper", False)))


@fn("cholesky_inverse")
def _(a):
    C = a.ten(0)
    up = a.get(1, "upper", False)
    m = ops.match_chol(C)
    if m is not None and m[1] == bool(up):
        return a.out(ops.inv(m[0]))
    M = ops.matmul(C, ops.tT(C)) if not up else ops.matmul(ops.tT(C), C)
    return a.out(ops.inv(M))


@fn("cdist")
def _(a):
    x, y = a.ten(0), a.ten(1)
    if a.get(2, "metric", "euclidean") != "euclidean" or a.it.concrete_int(a.get(None, "p", 2)) != 2:
        if not it_is2(a.it, a.get(None, "p", 2)):
            raise Unsup("metric")
    df = elementwise(lambda p, q: ppow(psub(p, q), num(2)), ops.expand(x, 1), ops.expand(y, 0))
    s = ops.sum_(df, 2)
    return a.out(elementwise(lambda p: ppow(p, num(Fraction(1, 2))), s))


@fn("pdist")
def _(a):
    x = a.ten(0)
    n = x.dims[0].const()
    if a.get(1, "metric", "euclidean") != "euclidean" or n is None or n > 12:
        raise Unsup("pdist")
    b = fresh()
    ds = [ppow(psum(ppow(psub(at(x, (num(i), ivar(b))), at(x, (num(j), ivar(b)))), num(2)), b, x.dims[1]), num(Fraction(1, 2)))
          for i in range(int(n)) for j in range(i + 1, int(n))]
    return ops.stack([S(d, "f", "np") for d in ds], 0) if ds else ops.mk((ZERO,), lambda i: ZERO, False, ("np", "f"))


@fn("cov")
def _(a):
    t = a.ten(0)
    rowvar = a.get(None, "rowvar", True)
    if a.get(None, "fweights") is not None:
        raise Unsup("cov options")
    w = a.get(None, "aweights")
    if t.rank == 1:
        t = ops.expand(t, 0)
    elif not rowvar:
        t = ops.tT(t)
    y = a.get(1, "y") if a.L == "np" else None
    if y is not None:
        y = as_ten(a.it, y)
        y = ops.expand(y, 0) if y.rank == 1 else y if rowvar else ops.tT(y)
        t = ops.concat([t, y], 0)
    dd = a.get(None, "ddof", a.get(None, "correction"))
    if dd is None:
        dd = 0 if a.get(None, "bias", False) else 1
    dd = as_ten(a.it, dd).body
    n = t.dims[1]
    if w is not None:
        wt = as_ten(a.it, w)
        sw = ops.sum_(wt, 0).body
        m = ops.mk((t.dims[0],), lambda i: f_div(ops.contract(lambda k: pmul(at(wt, (k,)), at(t, (i, k))), n), sw))
        sw2 = ops.sum_(elementwise(lambda p: pmul(p, p), wt), 0).body
        den = psub(sw, f_div(pmul(dd, sw2), sw))
        wf = lambda k: at(wt, (k,))
    else:
        m = ops.mean(t, 1)
        den = psub(n, dd)
        wf = lambda k: ONE
    r = ops.mk((t.dims[0], t.dims[0]), lambda i, j: f_div(ops.contract(
        lambda k: pmul(wf(k), pmul(psub(at(t, (i, k)), at(m, (i,))), psub(at(t, (j, k)), at(m, (j,))))), n), den),
        False, (a.L, "f"))
    if t.dims[0] is not None and is1(t.dims[0]):
        r = ops.index(r, [ZERO, ZERO])
    return a.out(r)


@fn("issubdtype")
def _(a):
    c = dcode(a.it, a.args[0])
    g = a.args[1]
    n = g.name.split(".")[-1] if isinstance(g, Ext) else ""
    return {"floating": c in ("f", "h"), "integer": c == "i", "number": c in ("f", "h", "i"), "bool_": c == "b",
            "inexact": c in ("f", "h"), "float64": c == "f", "float32": c == "h"}.get(n, False)


@fn("isscalar")
def _(a):
    v = a.args[0]
    if isinstance(v, (int, float, bool, str)):
        return True
    if isinstance(v, Ten):
        return v.rank == 0 and lib(v) != "torch"
    if isinstance(v, Opq):
        return a.it.opq("isscalar", v)
    return False


@fn("is_tensor")
def _(a):
    v = a.args[0]
    if isinstance(v, Opq):
        return a.it.backend == "torch" if v.k.startswith("arr(") else a.it.opq("is_tensor", v)
    return isinstance(v, Ten) and lib(v) == "torch"


@fn("finfo", "iinfo")
def _(a):
    return ExtInst("finfo", eps=S(EPS), max=S(FMAX), min=S(pneg(FMAX)), tiny=S(sym("tiny")), dtype=Ext("numpy.float64"))


# --- random numbers
def draw(it, kind, gen, dims, L, dt="f", extra=()):
    it.rng_count += 1
    g = gen.attrs.get("gid", "?") if isinstance(gen, ExtInst) else str(gen)
    li = tuple(ivar(b) for b in getattr(it, "loop_ivars", ()))
    k = it.rng_count
    if isinstance(gen, ExtInst):
        gen.attrs["n"] = gen.attrs.get("n", 0) + 1
        k = gen.attrs["n"]
    it.draws = getattr(it, "draws", [])
    r = ops.tfn("rng", (kind, g, str(k), li) + tuple(extra), dims, (L, dt))
    it.draws.append((kind, g, r, it.where()))
    return r


def affine(t, loc, scale):
    return elementwise(lambda z, m, s: padd(m, pmul(s, z)), t, loc, scale)


def gen_of(it, a):
    g = a.get(None, "generator")
    if g is None:
        return "global:" + a.L
    return g


def _tshape(a):
    v = a.args
    if len(v) == 1 and not isinstance(v[0], int) and not (isinstance(v[0], Ten) and v[0].rank == 0):
        return dims_of(a.it, v[0])
    if not v and a.get(None, "size") is not None:
        return dims_of(a.it, a.get(None, "size"))
    return [d for x in v for d in dims_of(a.it, x)]


@fn("rand", "randn")
def _(a):
    return draw(a.it, "U" if a.fname == "rand" else "N", gen_of(a.it, a), _tshape(a), a.L,
                dcode(a.it, a.get(None, "dtype")) or deff(a))


@fn("randint")
def _(a):
    lo, hi = (a.args[0], a.args[1]) if len(a.args) > 2 else (0, a.args[0])
    return draw(a.it, "I", gen_of(a.it, a), dims_of(a.it, a.args[-1]), a.L, "i", (as_ten(a.it, lo), as_ten(a.it, hi)))


@fn("randperm")
def _(a):
    n = as_ten(a.it, a.args[0])
    return draw(a.it, "perm", gen_of(a.it, a), [n.body], a.L, "i", (n.body,))


@fn("multinomial")
def _(a):
    p = a.ten(0)
    n = as_ten(a.it, a.get(1, "num_samples"))
    return draw(a.it, "choice", gen_of(a.it, a), [n.body], a.L, "i", (p, str(a.get(2, "replacement", False))))


def rng_method(it, g, name, args, kw):
    a = A(it, "np", args, kw)

    def size(i):
        s = a.get(i, "size")
        return [] if s is None else dims_of(it, s)
    if name in ("random", "random_sample", "rand"):
        if name == "rand":
            return draw(it, "U", g, _tshape(a), "np")
        return draw(it, "U", g, size(0), "np")
    if name in ("standard_normal", "randn"):
        return draw(it, "N", g, size(0) if name != "randn" else _tshape(a), "np")
    if name == "normal":
        return affine(draw(it, "N", g, size(2), "np"), as_ten(it, a.get(0, "loc", 0)), as_ten(it, a.get(1, "scale", 1)))
    if name == "uniform":
        lo, hi = as_ten(it, a.get(0, "low", 0)), as_ten(it, a.get(1, "high", 1))
        return affine(draw(it, "U", g, size(2), "np"), lo, elementwise(psub, hi, lo))
    if name in ("integers", "randint"):
        lo, hi = a.get(0, "low"), a.get(1, "high")
        if hi is None:
            lo, hi = 0, lo
        return draw(it, "I", g, size(2), "np", "i", (as_ten(it, lo), as_ten(it, hi)))
    if name == "permutation":
        x = a.get(0, "x")
        i = as_ten(it, x)
        if i.rank == 0:
            return draw(it, "perm", g, [i.body], "np", "i", (i.body,))
        p = draw(it, "perm", g, [i.dims[0]], "np", "i", (i.dims[0],))
        return ops.index(i, [p])
    if name == "choice":
        x = as_ten(it, a.get(0, "a"))
        n = x.body if x.rank == 0 else x.dims[0]
        p = a.get(3, "p")
        ex = (n, str(it.vkey(a.get(2, "replace", True)))) + ((as_ten(it, p),) if p is not None else ())
        idx = draw(it, "choice", g, size(1), "np", "i", ex)
        return idx if x.rank == 0 else ops.index(x, [idx] if idx.rank else [idx.body])
    if name == "multivariate_normal":
        m, C = as_ten(it, a.get(0, "mean")), as_ten(it, a.get(1, "cov"))
        z = draw(it, "N", g, size(2) + [m.dims[-1]], "np")
        L_ = ops.tT(ops.chol(C))
        return elementwise(padd, m, ops.matmul(z, L_))
    if name == "exponential":
        return pm_scale(it, draw(it, "E", g, size(1), "np"), a.get(0, "scale", 1))
    if name == "shuffle":
        x = args[0]
        if isinstance(x, Ten):
            t = it.V(x)
            p = draw(it, "perm", g, [t.dims[0]], "np", "i", (t.dims[0],))
            it.mutate(x, ops.index(t, [p]))
        return None
    raise Unsup("rng." + name)


def pm_scale(it, t, s):
    return elementwise(pmul, t, as_ten(it, s))


_gid = [0]


def new_gen(it, seed, kind):
    n = it.__dict__.setdefault("gen_count", [0])
    n[0] += 1
    g = ExtInst("rng", gid=f"{kind}({it.vkey(seed) if seed is not None else 'unseeded'})", seeded=seed is not None)
    it.__dict__.setdefault("gens", []).append(g)
    return g


# --- distributions
def std_cdf(p):
    c = T.f_un("Phi", p)
    return c


def f_Phi(p):
    r = T.lift1("Phi", p, f_Phi)
    if r is not None:
        return r
    if p.terms and T._content(p) < 0:
        return psub(ONE, atom_poly(Atom("Phi", (pneg(p),))))
    if not p.terms:
        return num(Fraction(1, 2))
    return atom_poly(Atom("Phi", (p,)))


def norm_fn(nm, x, m, s):
    z = f_div(psub(x, m), s)
    if nm == "cdf":
        return f_Phi(z)
    if nm == "sf":
        return psub(ONE, f_Phi(z))
    if nm == "logcdf":
        return f_log(f_Phi(z))
    if nm == "ppf":
        return padd(m, pmul(s, atom_poly(Atom("Phiinv", (x,)))))
    lp = psub(pscale(pmul(z, z), Fraction(-1, 2)), padd(pscale(f_log(pscale(PI, 2)), Fraction(1, 2)), f_log(s)))
    if nm in ("logpdf", "log_prob"):
        return lp
    if nm == "pdf":
        return f_div(f_div(f_exp(pscale(pmul(z, z), Fraction(-1, 2))), s), ppow(pscale(PI, 2), num(Fraction(1, 2))))
    raise Unsup("norm." + nm)


def call_norm(it, nm, args, kw, L="np"):
    a = A(it, L, args, kw)
    if nm == "rvs":
        m, s = as_ten(it, a.get(0, "loc", 0)), as_ten(it, a.get(1, "scale", 1))
        n = a.get(2, "size")
        rs = a.get(3, "random_state")
        g = rs if isinstance(rs, ExtInst) else ("global:scipy" if rs is None else "seed:" + it.vkey(rs))
        return affine(draw(it, "N", g, [] if n is None else dims_of(it, n), "np"), m, s)
    x, m, s = a.ten(0), as_ten(it, a.get(1, "loc", 0)), as_ten(it, a.get(2, "scale", 1))
    return with_tag(elementwise(lambda p, q, r: norm_fn(nm, p, q, r), x, m, s), L, "f")


def mvn_logpdf(x, m, C):
    d = C.dims[0]
    C = ops.copy(C)
    Ci = ops.inv(C)
    dims = x.dims[:-1]

    def g(*idx):
        v = lambda k: psub(at(x, list(idx) + [k]), ops.at_b(m, [k]))
        q = ops.contract(lambda i: ops.contract(lambda j: pmul(pmul(v(i), at(Ci, (i, j))), v(j)), d), d)
        return pscale(padd(padd(q, atom_poly(Atom("logdet", (C,)))), pmul(d, f_log(pscale(PI, 2)))), Fraction(-1, 2))
    return ops.mk(dims, g, False, x.tag)


# ------------------------------------------------------------------------------------------- ext dispatch
def call_ext(it, name, args, kw):
    mod, _, leaf = name.rpartition(".")
    if mod == "builtins":
        f = BUILTINS.get(leaf)
        if f is not None:
            return f(it, args, kw)
        import builtins as _bi
        c = getattr(_bi, leaf, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return ExcV(Ext(name), tuple(args))
        raise Unsup(name)
    if name in EXC_CLASSES:
        return ExcV(Ext(name), tuple(args))
    f = SPECIAL.get(name)
    if f is not None:
        return f(it, args, kw)
    if mod in ("numpy", "numpy.linalg", "scipy.linalg", "scipy.special", "scipy.spatial.distance", "scipy.integrate"):
        if leaf in ("float64", "int64", "float32", "int32", "bool_"):
            return cast(with_tag(ops.copy(as_ten(it, args[0])), "np"), "h" if leaf == "float32" else leaf[0])
        f = FN.get(leaf)
        if f is None:
            raise Unsup(name)
        a = A(it, "np", args, kw)
        a.fname, a.mod = leaf, mod
        return with_out(a, f)
    if mod in ("torch", "torch.linalg", "torch.special", "torch.nn.functional"):
        f = FN.get(leaf)
        if f is None:
            raise Unsup(name)
        a = A(it, "torch", args, kw)
        a.fname, a.mod = leaf, mod
        return with_out(a, f)
    if mod == "math":
        f = FN.get(leaf)
        if f is None:
            if leaf == "isqrt":
                raise Unsup(name)
            raise Unsup(name)
        a = A(it, "py", args, kw)
        a.fname, a.mod = leaf, mod
        if leaf in ("floor", "ceil", "trunc"):
            r = f(a)
            return norm_scalar(it, with_tag(r, "py", "i"))
        if leaf == "prod":
            xs = it.to_list(args[0])
            acc = 1
            if xs is None:
                raise Unsup("prod")
            for x in xs:
                acc = it.binop(ast.Mult(), acc, x)
            return acc
        return norm_scalar(it, with_tag(f(a), "py"))
    raise Unsup(name)


EXC_CLASSES = {"numpy.linalg.LinAlgError", "torch.linalg.LinAlgError", "scipy.linalg.LinAlgWarning"}
SPECIAL = {}


def special(*names):
    def d(f):
        for n in names:
            SPECIAL[n] = f
        return f
    return d


@special("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator")
def _(it, args, kw):
    s = args[0] if args else kw.get("seed")
    if isinstance(s, ExtInst) and s.kind == "rng":
        return s
    return new_gen(it, s, "np")


@special("torch.Generator")
def _(it, args, kw):
    return new_gen(it, None, "torch")


for _nm in ("rand", "randn", "random", "normal", "uniform", "randint", "choice", "permutation", "standard_normal",
            "multivariate_normal", "shuffle", "random_sample"):
    SPECIAL["numpy.random." + _nm] = (lambda nm: lambda it, args, kw: rng_method(it, "global:numpy", nm, args, kw))(_nm)


@special("torch.distributions.multivariate_normal.MultivariateNormal", "torch.distributions.MultivariateNormal")
def _(it, args, kw):
    a = A(it, "torch", args, kw)
    C = a.get(1, "covariance_matrix")
    if C is None:
        L_ = a.get(None, "scale_tril")
        if L_ is None:
            raise Unsup("mvn")
        L_ = as_ten(it, L_)
        C = ops.matmul(L_, ops.tT(L_))
    m, C = a.ten(0, "loc"), as_ten(it, C)
    L_ = ops.chol(C)
    return ExtInst("MVN", loc=m, mean=m, cov=C, covariance_matrix=C, scale_tril=with_tag(L_, "torch", "f"))


@special("torch.distributions.normal.Normal", "torch.distributions.Normal")
def _(it, args, kw):
    a = A(it, "torch", args, kw)
    return ExtInst("Normal", loc=a.ten(0, "loc"), scale=a.ten(1, "scale"))


@special("statistics.NormalDist")
def _(it, args, kw):
    a = A(it, "py", args, kw)
    return ExtInst("NormalDist", loc=as_ten(it, a.get(0, "mu", 0)), scale=as_ten(it, a.get(1, "sigma", 1)))


for _nm in ("cdf", "pdf", "logpdf", "logcdf", "ppf", "sf", "rvs"):
    SPECIAL["scipy.stats.norm." + _nm] = (lambda nm: lambda it, args, kw: call_norm(it, nm, args, kw))(_nm)


@special("scipy.stats.multivariate_normal.logpdf")
def _(it, args, kw):
    a = A(it, "np", args, kw)
    x, m, C = a.ten(0), a.ten(1, "mean"), a.ten(2, "cov")
    return with_tag(mvn_logpdf(x, m, C), "np", "f")


@special("scipy.stats.multivariate_normal.cdf")
def _(it, args, kw):
    a = A(it, "np", args, kw)
    x, m, C = a.ten(0), a.ten(1, "mean"), a.ten(2, "cov")
    d = x.dims[-1].const() if x.rank else None
    if d is None or d > 8:
        f = fresh()
        return ops.mk(x.dims[:-1], lambda *i: atom_poly(Atom("mvncdf", (
            Ten((f,), (x.dims[-1],), psub(at(x, list(i) + [ivar(f)]), ops.at_b(m, [ivar(f)]))), ops.copy(C)))), False, ("np", "f"))
    d = int(d)
    cs = tuple(at(C, (num(j), num(k))) for j in range(d) for k in range(d))
    return ops.mk(x.dims[:-1], lambda *i: atom_poly(Atom("mvncdf", (
        tuple(psub(at(x, list(i) + [num(j)]), ops.at_b(m, [num(j)])) for j in range(d)), cs))), False, ("np", "f"))


@special("scipy.stats.qmc.scale")
def _(it, args, kw):
    a = A(it, "np", args, kw)
    x, lo, hi = a.ten(0, "sample"), a.ten(1, "l_bounds"), a.ten(2, "u_bounds")
    if a.get(None, "reverse", False) is not False:
        return elementwise(lambda p, l, u: f_div(psub(p, l), psub(u, l)), x, lo, hi)
    return with_tag(elementwise(lambda p, l, u: padd(pmul(p, psub(u, l)), l), x, lo, hi), "np", "f")


@special("scipy.stats.multivariate_normal.rvs")
def _(it, args, kw):
    a = A(it, "np", args, kw)
    C = a.ten(1, "cov")
    m = a.ten(0, "mean") if a.get(0, "mean") is not None else ops.mk((), lambda: ZERO)
    n = a.get(2, "size")
    rs = a.get(3, "random_state")
    g = rs if isinstance(rs, ExtInst) else ("global:scipy" if rs is None else "seed:" + it.vkey(rs))
    dims = [] if n is None else dims_of(it, n)
    dims = [d for d in dims if not is1(d)]
    if C.rank == 0 or is1(C.dims[0]):
        v = at(C, [ZERO] * C.rank)
        z = draw(it, "N", g, dims, "np")
        return elementwise(padd, m if m.rank == 0 else ops.mk((), lambda: at(m, [ZERO] * m.rank)),
                           elementwise(lambda p: pmul(ppow(v, num(Fraction(1, 2))), p), z))
    z = draw(it, "N", g, dims + [C.dims[0]], "np")
    return elementwise(padd, m, ops.matmul(z, ops.tT(ops.chol(C))))


@special("torch.autograd.grad")
def _(it, args, kw):
    a = A(it, "torch", args, kw)
    y, x = as_ten(it, args[0]), as_ten(it, args[1])
    if y.rank:
        y = ops.squeeze(y)
        if y.rank:
            raise Unsup("gradient of an array")
    g = ops.autograd(y, x)
    if g is None:
        it.raise_(ExcV(Ext("builtins.RuntimeError"), ("element 0 of tensors does not require grad and does not have a grad_fn",)))
    return (g,)


@special("functools.partial")
def _(it, args, kw):
    return Partial(args[0], list(args[1:]), dict(kw))


@special("functools.wraps", "functools.lru_cache", "contextlib.contextmanager")
def _(it, args, kw):
    return UF("identity", lambda it2, a2, k2: a2[0])


@special("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings", "sys.stdout.flush",
         "torch.manual_seed", "time.sleep", "gc.collect")
def _(it, args, kw):
    return None


@special("torch.set_default_dtype")
def _(it, args, kw):
    it.torch_default = dcode(it, args[0]) or "f"
    return None


@special("importlib.util.find_spec")
def _(it, args, kw):
    if args and isinstance(args[0], str) and args[0].split(".")[0] == "torch" and not it.torch_present:
        return None
    return ExtInst("spec")


@special("os.getenv")
def _(it, args, kw):
    return it.call(it.getattr(it.environ, "get"), args, kw)


@special("torch.set_grad_enabled")
def _(it, args, kw):
    on = it.truth(args[0] if args else kw["mode"]).const()
    if on is None:
        raise Unsup("gradient recording switched by a condition")
    it.st.nograd = not on
    return it.opq("set_grad_enabled", on)


@special("importlib.import_module")
def _(it, args, kw):
    n = args[0]
    if not isinstance(n, str):
        raise Unsup("import of a computed name")
    m = it.load(n)
    internal = n.split(".")[0] in it.repo.modules
    it.imports.append((it.modname, n, not internal or type(m).__name__ == "Mod"))
    return m


@special("os.path.dirname", "os.path.join", "os.path.abspath")
def _(it, args, kw):
    return "path"


@special("types.SimpleNamespace", "argparse.Namespace", "scipy.optimize.OptimizeResult")
def _(it, args, kw):
    o = it.new("inst", dict(kw), None, "namespace")
    return o


@special("collections.defaultdict", "collections.OrderedDict")
def _(it, args, kw):
    return it.mkdict({})


@special("collections.deque")
def _(it, args, kw):
    xs = it.to_list(args[0]) if args else []
    return it.mklist(xs or [])


@special("copy.copy", "copy.deepcopy")
def _(it, args, kw):
    v = args[0]
    if isinstance(v, Ten):
        return ops.copy(it.V(v))
    if isinstance(v, Obj) and v.kind in ("list", "dict", "inst", "set"):
        return it.new(v.kind, it.st.heap[v], v.cls, v.name)
    return v


@special("dataclasses.replace")
def _(it, args, kw):
    v = args[0]
    d = dict(it.st.heap[v])
    d.update(kw)
    return it.new("inst", d, v.cls)


@special("numpy.random.seed")
def _(it, args, kw):
    return None


@special("numpy.errstate", "torch.no_grad", "torch.enable_grad", "warnings.catch_warnings", "contextlib.nullcontext")
def _(it, args, kw):
    raise Unsup("ctx")


# ------------------------------------------------------------------------------------------- builtins
BUILTINS = {}


def bi(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return d


@bi("len")
def _(it, args, kw):
    v = it.resolve(args[0])
    if isinstance(v, Phi):
        return it.phi(v.c, BUILTINS["len"](it, [v.a], {}), BUILTINS["len"](it, [v.b], {}))
    if isinstance(v, Ten):
        t = it.V(v)
        if not t.rank:
            raise Unsup("len of scalar")
        return dimval(t.dims[0], t)
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, SymRange):
        return S(v.n, "i")
    if isinstance(v, Obj):
        c = it.st.heap.get(v)
        if isinstance(c, (tuple, dict)) and v.kind != "inst":
            if isinstance(c, tuple) and c and isinstance(c[0], str) and c[0] == "__phi__":
                _, cc, x, y = c
                if isinstance(x, tuple) and isinstance(y, tuple):
                    return S(f_ite(cc, num(len(x)), num(len(y))), "i")
                raise Unsup("len")
            return len(c)
        if isinstance(c, SymSeq):
            v = c
        elif v.kind == "inst" and v.cls is not None:
            m = v.cls.lookup("__len__")
            if m:
                return it.call(Bound(v, m), [], {})
    if isinstance(v, SymSeq):
        n = ZERO
        for s in v.segs:
            n = padd(n, num(len(s[1])) if s[0] == "lit" else s[1])
        return dimval(n)
    if isinstance(v, Opq):
        return S(sym("dim:len(" + hash_(v.k) + ")"), "i")
    raise Unsup("len")


@bi("range")
def _(it, args, kw):
    ts = [as_ten(it, a) for a in args]
    ts = [t if t.rank == 0 else ops.squeeze(t) for t in ts]
    ps = [t.body for t in ts]
    start, step = ZERO, ONE
    if len(ps) == 1:
        stop = ps[0]
    else:
        start, stop = ps[0], ps[1]
        if len(ps) > 2:
            step = ps[2]
    cs = [p.const() for p in (start, stop, step)]
    if all(c is not None and c.denominator == 1 for c in cs):
        return range(*[int(c) for c in cs])
    sc = step.const()
    n = psub(stop, start)
    if sc is None and size_lb(step) is not None and size_lb(step) > 0:
        return SymRange(start, f_un("ceil", pmul(n, ppow(step, num(-1)))), step)
    if sc is None or sc.denominator != 1:
        raise Unsup("symbolic step")
    if sc == -1:
        n = pneg(n)
    elif sc != 1:
        n = f_un("ceil", pscale(n, 1 / sc))
    return SymRange(start, n, int(sc))


def _bisect(left):
    def f(it, args, kw):
        if kw or len(args) != 2:
            raise Unsup("bisect arguments")
        t, x = as_ten(it, args[0]), as_ten(it, args[1])
        if t.rank != 1 or x.rank:
            raise Unsup("bisect arguments")
        n = t.dims[0].const()
        if n is not None and n <= 16:
            return S(psum_list([c_lt(at(t, (num(k),)), x.body) if left else c_le(at(t, (num(k),)), x.body) for k in range(int(n))]), "i")
        b = fresh()
        e = at(t, (ivar(b),))
        return S(psum(c_lt(e, x.body) if left else c_le(e, x.body), b, t.dims[0]), "i")
    return f


SPECIAL["bisect.bisect_left"] = _bisect(True)
SPECIAL["bisect.bisect_right"] = SPECIAL["bisect.bisect"] = _bisect(False)


@bi("enumerate")
def _(it, args, kw):
    st = args[1] if len(args) > 1 else kw.get("start", 0)
    args = [it.iterate(args[0])] + list(args[1:])
    xs = it.to_list(args[0])
    if xs is not None and isinstance(st, int):
        return it.mklist([(k + st, x) for k, x in enumerate(xs)])
    return SymEnum(args[0], st)


@bi("zip")
def _(it, args, kw):
    ls = [it.to_list(a) for a in args]
    if ls and all(l is not None for l in ls):
        return it.mklist([tuple(x) for x in zip(*ls)])
    conc = [l for l in ls if l is not None]
    if conc:
        n = min(len(l) for l in conc)
        cols = []
        for a, l in zip(args, ls):
            if l is not None:
                cols.append(l[:n])
            else:
                if isinstance(a, StarV):
                    raise Unsup("zip star")
                s = it.sym_iter(a)
                if s is None:
                    cols.append([it.opq("item", a, k) for k in range(n)])
                else:
                    cols.append([s[1](num(k)) for k in range(n)])
        return it.mklist([tuple(x) for x in zip(*cols)])
    if any(isinstance(a, StarV) for a in args):
        raise Unsup("zip star")
    return SymZip(list(args))


@bi("map")
def _(it, args, kw):
    f = args[0]
    xs = [it.to_list(a) for a in args[1:]]
    if all(x is not None for x in xs):
        return it.mklist([it.call(f, list(t), {}) for t in zip(*xs)])
    s = it.sym_iter(args[1])
    if s is not None and len(args) == 2:
        b = fresh()
        v = it.call(f, [s[1](ivar(b))], {})
        return it.new("list", SymSeq([("map", s[0], b, v)]))
    raise Unsup("map")


@bi("filter")
def _(it, args, kw):
    xs = it.to_list(args[1])
    if xs is None:
        raise Unsup("filter")
    out = []
    for x in xs:
        c = it.truth(it.call(args[0], [x], {}) if args[0] is not None else x).const()
        if c is None:
            raise Unsup("filter")
        if c:
            out.append(x)
    return it.mklist(out)


def isinst(it, v, T_):
    v = it.resolve(v)
    if isinstance(v, Phi):
        ra, rb = isinst(it, v.a, T_), isinst(it, v.b, T_)
        if ra is None or rb is None:
            return None
        if isinstance(ra, bool) and ra == rb:
            return ra
        return f_ite(v.c, num(ra) if isinstance(ra, bool) else ra, num(rb) if isinstance(rb, bool) else rb)
    if isinstance(T_, Obj):
        T_ = tuple(it.to_list(T_) or ())
    if isinstance(T_, tuple):
        rs = [isinst(it, v, t) for t in T_]
        if any(r is True for r in rs):
            return True
        if any(r is None for r in rs):
            return None
        return False
    if isinstance(T_, Cls):
        if isinstance(v, ExcV):
            return bool(it.exc_matches(v, T_))
        if isinstance(v, Obj) and v.kind == "inst":
            return v.cls is not None and T_ in v.cls.mro()
        return None if isinstance(v, Opq) else False
    if isinstance(T_, Ext):
        n = T_.name
        if isinstance(v, ExcV):
            return it.exc_matches(v, T_)
        if isinstance(v, Opq):
            if v.k.startswith("arr("):
                return {"numpy.ndarray": it.backend == "numpy", "torch.Tensor": it.backend == "torch"}.get(n, False)
            return None
        leaf = n.split(".")[-1]
        if n in ("typing.Any", "builtins.object"):
            return True
        if isinstance(v, bool):
            return leaf in ("bool", "int", "Number", "Integral", "Real")
        if isinstance(v, int):
            return leaf in ("int", "Number", "Integral", "Real")
        if isinstance(v, str):
            return leaf == "str"
        if v is None:
            return leaf == "NoneType"
        if isinstance(v, SliceV):
            return leaf == "slice"
        if isinstance(v, tuple):
            return leaf in ("tuple", "Sequence", "Iterable", "Sized")
        if isinstance(v, Obj):
            if v.kind == "inst":
                if v.cls is None:
                    return None
                return any(isinstance(b, Ext) and b.name == n for b in v.cls.mro())
            return leaf == v.kind or (v.kind == "list" and leaf in ("Sequence", "Iterable", "Sized", "MutableSequence")) or \
                (v.kind == "dict" and leaf in ("Mapping", "MutableMapping", "Iterable"))
        if isinstance(v, Ten):
            L, dt = lib(v), dtype(v)
            if leaf in ("ndarray",):
                return L == "np" and v.rank > 0
            if leaf in ("Tensor",):
                return L == "torch"
            if leaf == "float":
                return (L == "py" or (L == "np" and v.rank == 0)) and dt == "f"
            if leaf == "int":
                return L == "py" and dt in ("i", "b")
            if leaf == "bool":
                return L == "py" and dt == "b"
            if leaf in ("Number", "Real"):
                return v.rank == 0 and L in ("py", "np")
            if leaf in ("generic", "number"):
                return L == "np" and v.rank == 0
            if leaf in ("floating", "float64"):
                return L == "np" and v.rank == 0 and dt == "f"
            if leaf in ("integer", "int64"):
                return L == "np" and v.rank == 0 and dt == "i"
            if leaf == "Integral":
                return L == "py" and dt == "i"
            return False
        if isinstance(v, Ext):
            if leaf == "dtype":
                return v.name.startswith(n.split(".")[0] + ".") and dcode(it, v) is not None
            if leaf == "type":
                return True
            return False
        if isinstance(v, (Func, Bound, UF, Partial)):
            return leaf in ("Callable", "FunctionType")
        if isinstance(v, range) or isinstance(v, SymRange):
            return leaf in ("range", "Sequence", "Iterable")
        if isinstance(v, ExtInst):
            if v.kind == "rng":
                return leaf == "Generator"
            return None
        if isinstance(v, (SymZip, SymEnum)):
            return False
        return False
    return None


@bi("isinstance")
def _(it, args, kw):
    r = isinst(it, args[0], it.resolve(args[1]))
    if r is None:
        return it.opq("isinstance", args[0], args[1])
    if isinstance(r, Poly):
        return it.mkbool(r)
    return r


@bi("issubclass")
def _(it, args, kw):
    a, b = args
    if isinstance(a, Cls):
        return b in a.mro()
    raise Unsup("issubclass")


@bi("hasattr")
def _(it, args, kw):
    o, n = it.resolve(args[0]), args[1]
    if isinstance(o, Opq):
        return it.opq("hasattr", o, n)
    if isinstance(o, Ten):
        L = lib(o)
        tm = {"detach", "numel", "clone", "requires_grad", "cpu", "numpy", "to", "unsqueeze"}
        nm = {"astype", "size", "flat"}
        if n in tm:
            return L == "torch"
        if n == "astype":
            return L == "np"
        if n in ("shape", "ndim", "dtype", "item", "reshape", "tolist"):
            return L != "py"
        if n == "__len__":
            return o.rank > 0
        return it.opq("hasattr", o, n)
    if isinstance(o, Ext):
        return True
    if isinstance(o, (int, str)) or o is None:
        return hasattr(o, n)
    if isinstance(o, (tuple,)):
        return hasattr((), n)
    if isinstance(o, Obj) and o.kind in ("list", "dict", "set"):
        return hasattr({"list": [], "dict": {}, "set": set()}[o.kind], n)
    if isinstance(o, Obj) and o.kind == "inst":
        c = it.st.heap[o]
        if n in c:
            v = c[n]
            if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                return it.mkbool(b_not(v.c) if v.a is UNDEF else v.c)
            return True
        if o.cls is None:
            return it.opq("hasattr", o, n)
        if o.cls.lookup(n) is not None:
            return True
        if any(isinstance(b, (Ext, Opq)) and b.name not in ("builtins.object",) for b in o.cls.mro() if not isinstance(b, Cls)):
            return it.opq("hasattr", o, n)
        return False
    if isinstance(o, Mod):
        return it.mod_get(o, n) is not None
    if isinstance(o, ExtInst):
        return n in o.attrs or it.opq("hasattr", o.kind, n)
    if isinstance(o, (Func, UF, Bound)):
        return n in ("__call__", "__name__")
    raise Unsup("hasattr")


@bi("getattr")
def _(it, args, kw):
    if not isinstance(args[1], str):
        return it.opq("getattr", *args[:2])
    return it.getattr(args[0], args[1], *(args[2:3]))


@bi("setattr")
def _(it, args, kw):
    if isinstance(args[1], str):
        it.setattr(args[0], args[1], args[2])
    return None


@bi("callable")
def _(it, args, kw):
    v = it.resolve(args[0])
    if isinstance(v, (Func, Bound, UF, Cls, Ext, ExtM, Partial, Static)):
        return True
    if isinstance(v, Obj) and v.kind == "inst" and v.cls is not None:
        return v.cls.lookup("__call__") is not None
    if isinstance(v, Opq):
        return it.opq("callable", v)
    if isinstance(v, Phi):
        return it.phi(v.c, BUILTINS["callable"](it, [v.a], {}), BUILTINS["callable"](it, [v.b], {}))
    return False


@bi("float")
def _(it, args, kw):
    if not args:
        return pyfloat(0.0)
    v = it.resolve(args[0])
    if isinstance(v, str):
        try:
            return pyfloat(float(v))
        except ValueError:
            it.raise_("builtins.ValueError", "float")
    t = as_ten(it, v)
    if t.rank:
        t = ops.squeeze(t)
        if t.rank:
            raise Unsup("float of array")
    return with_tag(ops.copy(t), "py", "f")


@bi("int")
def _(it, args, kw):
    if not args:
        return 0
    v = it.resolve(args[0])
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            it.raise_("builtins.ValueError", "int")
    t = as_ten(it, v)
    if t.rank:
        t = ops.squeeze(t)
        if t.rank:
            raise Unsup("int of array")
    if dtype(t) == "f":
        t = elementwise(f_trunc, t)
    return norm_scalar(it, with_tag(ops.copy(t), "py", "i"))


@bi("bool")
def _(it, args, kw):
    return it.mkbool(it.truth(args[0]))


@bi("str", "repr", "format")
def _(it, args, kw):
    v = it.resolve(args[0]) if args else ""
    if isinstance(v, (str, int, bool)) or v is None:
        return str(v)
    if isinstance(v, Ext):
        return v.name
    if isinstance(v, ExcV):
        if v.args and isinstance(v.args[0], str):
            return v.args[0]
        return it.opq("str", *v.args)
    if isinstance(v, Cls):
        return v.name
    k = v.body.const() if isinstance(v, Ten) and not v.dims and v.tag in (("py", "i"), ("py", "f")) and len(args) == 1 else None
    if k is not None:
        return str(int(k) if v.tag[1] == "i" else float(k))
    raise Unsup("str")


@bi("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter")
def _(it, args, kw):
    raise Unsup("seq")


def _seq(nm):
    def f(it, args, kw):
        if not args:
            return () if nm == "tuple" else it.new("set" if "set" in nm else "list", ())
        v = it.iterate(args[0])
        xs = it.to_list(v)
        if xs is None:
            s = None
            if isinstance(v, SymSeq):
                s = v
            elif isinstance(v, Obj) and isinstance(it.st.heap.get(v), SymSeq):
                s = it.st.heap[v]
            if s is None:
                si = it.sym_iter(v)
                if si is not None:
                    b = fresh()
                    s = SymSeq([("map", si[0], b, si[1](ivar(b)))])
            if s is not None and nm in ("list", "tuple", "iter"):
                return it.new("list", s)
            if nm == "iter":
                return it.opq("iter", v)
            raise Unsup(nm)
        if nm == "tuple":
            return tuple(xs)
        if nm == "reversed":
            return it.mklist(list(reversed(xs)))
        if nm in ("set", "frozenset"):
            out = []
            seen = set()
            for x in xs:
                k = it.vkey(x)
                if k not in seen:
                    seen.add(k)
                    out.append(x)
            return it.new("set", tuple(out))
        if nm == "sorted":
            if kw.get("key") is not None or not all(isinstance(x, (int, str)) for x in xs):
                raise Unsup("sorted")
            return it.mklist(sorted(xs, reverse=bool(kw.get("reverse", False))))
        return it.mklist(xs)
    BUILTINS[nm] = f


for _n in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
    _seq(_n)


@bi("dict")
def _(it, args, kw):
    d = {}
    if args:
        v = it.resolve(args[0])
        c = it.st.heap.get(v) if isinstance(v, Obj) else None
        if isinstance(c, dict):
            d.update(c)
        else:
            xs = it.to_list(v)
            if xs is None:
                raise Unsup("dict")
            for p in xs:
                k, w = it.unpack(p, 2)
                d[it.dict_key(k)] = w
    d.update(kw)
    return it.mkdict(d)


@bi("sum")
def _(it, args, kw):
    v = args[0]
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    xs = it.to_list(v)
    if xs is not None:
        acc = start
        for x in xs:
            acc = it.binop(ast.Add(), acc, x)
        return acc
    s = it.sym_iter(v)
    if s is None:
        raise Unsup("sum")
    b = fresh()
    e = as_ten(it, s[1](ivar(b)))
    r = Ten(e.formals, e.dims, psum(e.body, b, s[0]), False, (lib(e), "i" if dtype(e) == "b" else dtype(e)))
    return it.binop(ast.Add(), start, r)


@bi("min", "max")
def _(it, args, kw):
    raise Unsup("minmax")


def _minmax(nm):
    f0 = f_max if nm == "max" else f_min

    def f(it, args, kw):
        if kw.get("key") is not None:
            raise Unsup("key")
        xs = list(args) if len(args) > 1 else it.to_list(args[0])
        if xs is None:
            s = it.sym_iter(args[0])
            if s is None:
                raise Unsup(nm)
            b = fresh()
            e = as_ten(it, s[1](ivar(b)))
            t = Ten((b,), (s[0],), e.body, False, e.tag)
            return ops.red_atom("r" + nm)(t, 0)
        if xs and all(isinstance(x, int) for x in xs):
            return (max if nm == "max" else min)(xs)
        if not xs:
            if "default" in kw:
                return kw["default"]
            it.raise_("builtins.ValueError", "empty")
        t = as_ten(it, xs[0])
        for x in xs[1:]:
            t = elementwise(f0, t, as_ten(it, x))
        return norm_scalar(it, t)
    BUILTINS[nm] = f


_minmax("min")
_minmax("max")


@bi("abs")
def _(it, args, kw):
    v = it.resolve(args[0])
    if isinstance(v, int):
        return abs(v)
    return norm_scalar(it, elementwise(f_abs, as_ten(it, v)))


@bi("round")
def _(it, args, kw):
    v = it.resolve(args[0])
    if isinstance(v, int):
        return v
    t = as_ten(it, v)
    if len(args) > 1:
        raise Unsup("round")
    return norm_scalar(it, with_tag(elementwise(lambda p: un("rint", p), t), dt="i"))


@bi("pow")
def _(it, args, kw):
    return it.binop(ast.Pow(), args[0], args[1])


@bi("divmod")
def _(it, args, kw):
    return (it.binop(ast.FloorDiv(), *args), it.binop(ast.Mod(), *args))


@bi("any", "all")
def _(it, args, kw):
    raise Unsup("anyall")


def _anyall(nm):
    def f(it, args, kw):
        v = args[0]
        xs = it.to_list(v)
        if xs is None:
            s = it.sym_iter(v)
            if s is None:
                raise Unsup(nm)
            b = fresh()
            p = it.truth(s[1](ivar(b)))
            t = Ten((b,), (s[0],), p, True, ("py", "b"))
            return it.mkbool(ops.red_atom("r" + nm)(t, 0, isbool=True).body)
        acc = ONE if nm == "all" else ZERO
        for x in xs:
            acc = (b_and if nm == "all" else b_or)(acc, it.truth(x))
        return it.mkbool(acc)
    BUILTINS[nm] = f


_anyall("any")
_anyall("all")


@bi("print", "input", "breakpoint")
def _(it, args, kw):
    return None


@bi("type")
def _(it, args, kw):
    v = it.resolve(args[0])
    if isinstance(v, Obj) and v.kind == "inst" and v.cls is not None:
        return v.cls
    if isinstance(v, ExcV):
        return v.cls
    if isinstance(v, (int, str, bool)) or v is None:
        return Ext("builtins." + type(v).__name__)
    raise Unsup("type")


@bi("next")
def _(it, args, kw):
    v = args[0]
    xs = it.to_list(v)
    if xs:
        if isinstance(v, Obj) and v.kind == "list":
            it.st.heap[v] = tuple(xs[1:])
        return xs[0]
    if len(args) > 1 and xs is not None:
        return args[1]
    return it.opq("next", v)


@bi("dir")
def _(it, args, kw):
    v = args[0]
    if isinstance(v, Mod):
        return it.mklist(sorted(it.st.heap[v.env].keys()))
    raise Unsup("dir")


@bi("vars")
def _(it, args, kw):
    v = it.resolve(args[0])
    if isinstance(v, Obj) and v.kind == "inst":
        return it.mkdict(it.st.heap[v])
    raise Unsup("vars")


@bi("id", "hash", "open")
def _(it, args, kw):
    return it.opq("id", args[0])


@bi("slice")
def _(it, args, kw):
    a = list(args)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@bi("object")
def _(it, args, kw):
    return it.new("inst", {}, None, "object")


@bi("__import__")
def _(it, args, kw):
    return it.load(args[0])


@bi("property")
def _(it, args, kw):
    return Prop(args[0])


@bi("staticmethod")
def _(it, args, kw):
    return Static(args[0], "static")


# ------------------------------------------------------------------------------------------- methods
METHODS = {"item", "tolist", "detach", "cpu", "numpy", "to", "astype", "size", "dim", "numel", "copy", "clone", "fill",
           "requires_grad_", "is_floating_point", "contiguous", "double", "long", "int", "float", "bool", "T",
           "fill_", "copy_", "zero_", "add_", "mul_", "backward", "element_size", "new_zeros", "type", "resize",
           "squeeze_", "is_contiguous"}


# methods and functions whose result may share the memory of their (first) argument
SHARING = {"reshape", "ravel", "flatten_view", "view", "t", "transpose", "swapaxes", "moveaxis", "permute", "squeeze", "unsqueeze", "expand", "expand_as", "detach",
           "numpy", "contiguous", "view_as", "reshape_as", "type_as", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "expand_dims",
           "broadcast_to", "from_numpy", "as_tensor", "diagonal", "real", "narrow", "select", "unbind", "split", "chunk", "array_split", "broadcast_arrays",
           "unfold", "movedim", "rollaxis", "flip", "flipud", "fliplr", "hsplit", "vsplit", "squeeze_", "data", "T", "mT", "H", "mH"}
OVERWRITES = {"overwrite_a": 0, "overwrite_b": 1, "overwrite_x": 0, "overwrite_ab": 0, "overwrite_input": 0}


def sharing(it, name, args, kw, r):
    """Memory effects of a library call: results that may be views, and arguments it is allowed to overwrite."""
    leaf = name.rsplit(".", 1)[-1]
    x = it.resolve(args[0]) if args else None
    if leaf in SHARING and isinstance(x, Ten) and not (name.startswith("torch.") and leaf in ("flip", "flipud", "fliplr")):
        if leaf == "asarray" and (lib(it.V(x)) == "torch" or not isinstance(r, Ten) or dtype(r) != dtype(it.V(x))):
            return
        for y in r if isinstance(r, tuple) else (r,):
            it.shares(y, x)
    for k, i in OVERWRITES.items():
        if it.resolve(kw.get(k)) is True and name.startswith(("scipy.", "numpy.")) and i < len(args):
            it.wrote(it.resolve(args[i]), k)
    if name in ("numpy.fill_diagonal", "numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.random.shuffle") and isinstance(x, Ten):
        it.wrote(x, leaf)


def call_method(it, obj, name, args, kw):
    o = it.resolve(obj)
    try:
        if isinstance(o, Ten):
            r = it.recorded(ten_method(it, o, name, args, kw))
            if it.watch is not None:
                if name in SHARING or (name in ("astype", "to", "type", "double", "float", "cpu") and isinstance(r, Ten) and dtype(r) == dtype(it.V(o))
                                       and not (name == "astype" and kw.get("copy", True) is not False)):
                    for x in r if isinstance(r, tuple) else (r,):
                        it.shares(x, o)
                if name == "requires_grad_" and o in it.watch:
                    it.wrote(o, "requires_grad_")
            return r
        if isinstance(o, Obj):
            return obj_method(it, o, name, args, kw)
        if isinstance(o, str):
            return str_method(it, o, name, args, kw)
        if isinstance(o, ExtInst):
            return inst_method(it, o, name, args, kw)
        if isinstance(o, SliceV) and name == "indices":
            b = [None if q is None else it.concrete_int(q) for q in (o.lo, o.hi, o.step)]
            n = it.concrete_int(args[0])
            if n is None or any(q is None and p is not None for q, p in zip(b, (o.lo, o.hi, o.step))):
                raise Unsup("slice of unknown bounds")
            return slice(*b).indices(n)
        if isinstance(o, tuple):
            if name == "index":
                for k, x in enumerate(o):
                    if equal(it, x, args[0]) is True:
                        return k
            if name == "count":
                return sum(1 for x in o if equal(it, x, args[0]) is True)
        if isinstance(o, int):
            if name == "item":
                return o
            if name == "bit_length":
                return o.bit_length()
    except (Unsup, TermLimit) as ex:
        it.note(f"method {name}: {ex}")
    return it.opq("m:" + name, o, tuple(args), tuple(sorted(kw.items())))


_INPLACE = {"add_": padd, "mul_": pmul, "sub_": psub, "div_": f_div}


def ten_method(it, o, name, args, kw):
    t = it.V(o)
    L = lib(t)
    it.extcalls["ndarray." + name] = it.extcalls.get("ndarray." + name, 0) + 1
    h = it.intercept.get("ndarray." + name)
    if h is not None:
        r = h(it, o, args, kw)
        if r is not NotImplemented:
            return r
    if name == "item":
        s = ops.squeeze(t)
        if s.rank:
            raise Unsup("item of array")
        return norm_scalar(it, with_tag(ops.copy(s), "py"))
    if name == "tolist":
        if t.rank == 0:
            return norm_scalar(it, with_tag(ops.copy(t), "py"))
        xs = it.to_list(t)
        if xs is not None:
            return it.mklist([ten_method(it, x, "tolist", [], {}) if isinstance(x, Ten) else x for x in xs])
        f = fresh()
        e = ops.index(t, [ivar(f)])
        return it.new("list", SymSeq([("map", t.dims[0], f, with_tag(ops.copy(e), "py") if e.rank == 0 else e)]))
    if name in ("detach", "cpu", "contiguous", "requires_grad_", "cuda", "retain_grad"):
        if name == "requires_grad_":
            if ops.GRAD is not None and isinstance(o, Ten):
                on = it.resolve(args[0] if args else kw.get("requires_grad", True))
                watch, it.watch = it.watch, None
                it.mutate(o, ops.unsever(t) if on is True else ops.sever(t) if on is False else t)
                it.watch = watch
            return o
        r = ops.copy(t)
        return ops.sever(r) if name == "detach" else r
    if name == "numpy":
        return with_tag(ops.copy(t), "np")
    if name in ("copy", "clone"):
        return ops.copy(t)
    if name in ("astype", "to", "type"):
        d = args[0] if args else kw.get("dtype")
        dt = dcode(it, d)
        if dt is None or dt == dtype(t):
            cp = kw.get("copy", True)
            if name == "astype" and cp is not False:
                return ops.copy(t)
            return o
        return cast(ops.copy(t), dt)
    if name in ("double", "float", "half"):
        return cast(t, "f" if name == "double" else "h")
    if name in ("long", "int"):
        return cast(t, "i")
    if name == "bool":
        return boolten(t)
    if name == "size":
        if args or "dim" in kw:
            return dimval(t.dims[cint(it, args[0] if args else kw["dim"])], t)
        return tuple(dimval(d, t, k) for k, d in enumerate(t.dims))
    if name in ("dim", "ndimension"):
        return t.rank
    if name == "numel":
        return dimval(ops.size_of(t), t)
    if name == "is_floating_point":
        return dtype(t) in "fh"
    if name == "is_integer":
        c = t.body.const()
        if c is not None:
            return c.denominator == 1
        raise Unsup("is_integer")
    if name in ("fill", "fill_", "zero_", "copy_"):
        v = ZERO if name == "zero_" else None
        if v is None:
            x = as_ten(it, args[0])
            nv = ops.broadcast_to(x, t.dims)
        else:
            nv = ops.const(t.dims, v, t.tag)
        it.mutate(o, with_tag(ops.copy(nv), *t.tag))
        return o
    if name in _INPLACE:
        it.mutate(o, elementwise(_INPLACE[name], t, as_ten(it, args[0])))
        return o
    if name == "masked_fill_":
        it.mutate(o, elementwise(f_ite, boolten(as_ten(it, args[0])), as_ten(it, args[1]), t, tag=t.tag))
        return o
    if name in ("clamp_",):
        r = call_fn(it, L, "clamp", [t] + list(args), kw)
        it.mutate(o, r)
        return o
    if name == "new_zeros":
        return ops.const(dims_of(it, args[0]), ZERO, t.tag)
    if name == "view_as" or name == "reshape_as":
        return ops.reshape(t, as_ten(it, args[0]).dims)
    if name == "type_as":
        return o
    if name == "sort" and L == "np":
        it.mutate(o, call_fn(it, L, "sort", [t] + list(args), kw))
        return None
    nm = {"t": "t", "absolute": "abs", "unsqueeze": "unsqueeze", "expand": "expand"}.get(name, name)
    if name == "flatten" or name == "ravel":
        return call_fn(it, L, "ravel", [t], {})
    if name == "transpose" and L == "np":
        return call_fn(it, L, "transpose", [t] + list(args), kw)
    if name == "dot":
        return call_fn(it, L, "dot", [t] + list(args), kw)
    if name == "repeat" and L == "torch":
        return call_fn(it, L, "tile", [t, tuple(args)], kw)
    if name in ("quantile",) and L == "torch":
        return call_fn(it, L, "quantile", [t] + list(args), kw)
    if nm in FN:
        return call_fn(it, L, nm, [t] + list(args), kw)
    raise Unsup("method " + name)


def call_fn(it, L, name, args, kw):
    a = A(it, "np" if L == "py" else L, args, kw)
    a.fname, a.mod = name, {"np": "numpy", "torch": "torch", "py": "numpy"}[L]
    return FN[name](a)


def obj_method(it, o, name, args, kw):
    c = it.st.heap[o]
    if o.kind == "list":
        if name == "append":
            if isinstance(c, tuple) and not (c and isinstance(c[0], str) and c[0] == "__phi__"):
                it.st.heap[o] = c + (args[0],)
            elif isinstance(c, SymSeq):
                segs = list(c.segs)
                if segs and segs[-1][0] == "lit":
                    segs[-1] = ("lit", segs[-1][1] + (args[0],))
                else:
                    segs.append(("lit", (args[0],)))
                it.st.heap[o] = SymSeq(segs)
            else:
                it.st.heap[o] = ("__opq__", it.vkey(args[0]))
            return None
        if name == "extend":
            xs = it.to_list(args[0])
            if xs is not None and isinstance(c, tuple):
                it.st.heap[o] = c + tuple(xs)
                return None
            a = it.st.heap.get(args[0]) if isinstance(args[0], Obj) else args[0]
            if xs is not None:
                a = SymSeq([("lit", tuple(xs))])
            if isinstance(a, SymSeq):
                base = c if isinstance(c, SymSeq) else SymSeq([("lit", c)] if c else [])
                it.st.heap[o] = SymSeq(list(base.segs) + list(a.segs))
                return None
            it.st.heap[o] = ("__opq__", it.vkey(args[0]))
            return None
        if name in ("pop", "popleft"):
            xs = it.to_list(o)
            if xs:
                k = it.concrete_int(args[0]) if args else (0 if name == "popleft" else -1)
                v = xs.pop(k)
                it.st.heap[o] = tuple(xs)
                return v
            raise Unsup("pop")
        if name == "copy":
            return it.new("list", c)
        if name == "insert":
            xs = it.to_list(o)
            k = it.concrete_int(args[0])
            if xs is not None and k is not None:
                xs.insert(k, args[1])
                it.st.heap[o] = tuple(xs)
                return None
        if name == "index":
            xs = it.to_list(o)
            for k, x in enumerate(xs or []):
                r = equal(it, it.resolve(x), args[0])
                if r is True:
                    return k
                if r is not False:
                    raise Unsup("index")
            if xs is not None:
                it.raise_("builtins.ValueError", "not in list")
        if name == "reverse":
            xs = it.to_list(o)
            if xs is not None:
                it.st.heap[o] = tuple(reversed(xs))
                return None
        if name == "clear":
            it.st.heap[o] = ()
            return None
        if name in ("sort", "remove"):
            it.st.heap[o] = ("__opq__", name)
            return None
    if o.kind in ("dict", "env") and isinstance(c, dict):
        if name == "get":
            k = it.dict_key(args[0])
            d = args[1] if len(args) > 1 else kw.get("default")
            if k is UNDEF:
                raise Unsup("key")
            if k not in c:
                return d
            v = it.resolve(c[k])
            if isinstance(v, Phi) and v.a is UNDEF:
                return it.phi(v.c, d, v.b)
            if isinstance(v, Phi) and v.b is UNDEF:
                return it.phi(v.c, v.a, d)
            return v
        if name in ("items",):
            return it.mklist([(k, unphi(v)) for k, v in c.items()])
        if name == "keys":
            return it.mklist(list(c))
        if name == "values":
            return it.mklist([unphi(v) for v in c.values()])
        if name == "setdefault":
            k = it.dict_key(args[0])
            if k is UNDEF:
                raise Unsup("key")
            if k in c:
                return it.resolve(c[k])
            d = dict(c)
            d[k] = args[1] if len(args) > 1 else None
            it.st.heap[o] = d
            return d[k]
        if name == "pop":
            k = it.dict_key(args[0])
            if k is UNDEF:
                raise Unsup("key")
            if k in c:
                d = dict(c)
                v = unphi(it.resolve(d.pop(k)))
                it.st.heap[o] = d
                return v
            if len(args) > 1:
                return args[1]
            it.raise_("builtins.KeyError", k)
        if name == "update":
            d = dict(c)
            if args:
                s = it.st.heap.get(args[0]) if isinstance(args[0], Obj) else None
                if not isinstance(s, dict):
                    raise Unsup("update")
                d.update(s)
            d.update(kw)
            it.st.heap[o] = d
            return None
        if name == "copy":
            return it.new("dict", dict(c))
        if name == "clear":
            it.st.heap[o] = {}
            return None
    if o.kind == "set" and isinstance(c, tuple):
        if name == "add":
            if not any(it.vkey(x) == it.vkey(args[0]) for x in c):
                it.st.heap[o] = c + (args[0],)
            return None
        if name in ("difference", "union", "intersection", "issubset"):
            xs = it.to_list(args[0])
            if xs is not None:
                ks = {it.vkey(x) for x in xs}
                if name == "difference":
                    return it.new("set", tuple(x for x in c if it.vkey(x) not in ks))
                if name == "intersection":
                    return it.new("set", tuple(x for x in c if it.vkey(x) in ks))
                if name == "issubset":
                    return all(it.vkey(x) in ks for x in c)
    raise Unsup(f"{o.kind}.{name}")


def unphi(v):
    if isinstance(v, Phi) and v.a is UNDEF:
        return v.b
    if isinstance(v, Phi) and v.b is UNDEF:
        return v.a
    return v


def str_method(it, o, name, args, kw):
    if name == "join":
        xs = it.to_list(args[0])
        if xs is not None and all(isinstance(x, str) for x in xs):
            return o.join(xs)
        return it.opq("join", o, args[0])
    if name == "format":
        return it.opq("format", o, tuple(args))
    if all(isinstance(a, (str, int)) or a is None or (isinstance(a, tuple) and all(isinstance(x, str) for x in a))
           for a in args) and hasattr(o, name):
        r = getattr(o, name)(*args)
        if isinstance(r, list):
            return it.mklist(r)
        return r
    raise Unsup("str." + name)


def inst_method(it, o, name, args, kw):
    h = o.attrs.get("on_call")
    if h is not None:
        return h(it, o, name, args, kw)
    if o.kind == "rng":
        if name == "manual_seed":
            o.attrs["gid"] = f"torch({it.vkey(args[0])})"
            o.attrs["seeded"] = True
            return o
        h = it.intercept.get("rng." + name)
        if h is not None:
            r = h(it, o, args, kw)
            if r is not NotImplemented:
                return r
        return rng_method(it, o, name, args, kw)
    if o.kind == "qmc" and name == "random":
        n = as_ten(it, args[0] if args else kw.get("n", 1))
        return draw(it, "U", o.attrs["gen"], [n.body, o.attrs["dim"].body], "np")
    if o.kind == "Normal":
        if name in ("cdf", "log_prob"):
            return with_tag(elementwise(lambda p, q, r: norm_fn(name, p, q, r), as_ten(it, args[0]), o.attrs["loc"],
                                        o.attrs["scale"]), "torch", "f")
        if name in ("sample", "rsample"):
            sh = dims_of(it, args[0]) if args else []
            z = draw(it, "N", "global:torch", sh + list(o.attrs["loc"].dims), "torch")
            return affine(z, o.attrs["loc"], o.attrs["scale"])
    if o.kind == "NormalDist":
        nm = {"cdf": "cdf", "pdf": "pdf", "inv_cdf": "ppf"}.get(name)
        if nm is not None:
            r = elementwise(lambda p, q, r: norm_fn(nm, p, q, r), as_ten(it, args[0]), o.attrs["loc"], o.attrs["scale"])
            return with_tag(r, "py", "f")
    if o.kind == "MVN":
        if name == "log_prob":
            return with_tag(mvn_logpdf(as_ten(it, args[0]), o.attrs["loc"], o.attrs["cov"]), "torch", "f")
        if name in ("sample", "rsample"):
            sh = dims_of(it, args[0]) if args else []
            C = o.attrs["cov"]
            z = draw(it, "N", "global:torch", sh + [C.dims[0]], "torch")
            return elementwise(padd, o.attrs["loc"], ops.matmul(z, ops.tT(ops.chol(C))))
    raise Unsup(o.kind + "." + name)


# ------------------------------------------------------------------------------------------- hidden generators, designs
for _n in ("rand", "randn", "random", "random_sample", "uniform", "normal", "standard_normal", "choice", "permutation", "randint",
           "shuffle", "exponential", "multivariate_normal"):
    SPECIAL["numpy.random." + _n] = (lambda nm: lambda it, args, kw: rng_method(it, ExtInst("rng", gid="global:numpy"), nm, args, kw))(_n)


def _qmc(it, args, kw):
    a = A(it, "np", args, kw)
    s = a.get(None, "seed")
    s = s if s is not None else a.get(None, "rng")
    g = s if isinstance(s, ExtInst) and s.kind == "rng" else new_gen(it, s, "np")
    return ExtInst("qmc", gen=g, dim=as_ten(it, a.get(0, "d")))


def _discrepancy(it, args, kw):
    a = A(it, "np", args, kw)
    t = a.ten(0)
    return S(atom_poly(Atom("discrepancy", (Ten(t.formals, t.dims, t.body), str(a.get(None, "method", "CD"))))), "f", "np")


SPECIAL["scipy.stats.qmc.discrepancy"] = _discrepancy
for _n in ("LatinHypercube", "Sobol", "Halton", "PoissonDisk"):
    SPECIAL["scipy.stats.qmc." + _n] = _qmc

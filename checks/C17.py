"""Parameter objects: alignment of values with names, paths, bounds and normalisations."""
from .common import *

PM = "gpmp/parameter/param.py:"
MOD = "gpmp.parameter.param:"
NAMES = ("va", "vb", "vc", "vd")
PATHS = (("g", "a"), ("g", "b"), ("m",), ("g", "b"))
NORMS = ("log", "log_inv", "none", "log")


def lst(w, v):
    o = Obj("list")
    w.it.st.heap[o] = tuple(v)
    return o


def iv(k):
    return Ten((), (), num(k), False, ("py", "i"))


def raised(r, *names):
    if r.returned:
        return False
    for p, e, _ in r.raises:
        c = getattr(e, "cls", None)
        n = getattr(c, "name", None) or str(c)
        if n.rsplit(".", 1)[-1] not in names:
            return None
    return True


class P:
    """Four parameters with symbolic values and bounds."""

    def __init__(self, w, tag="", enum=False):
        self.w, it = w, w.it
        self.v = w.arr("v" + tag, 4)
        self.b = [(w.scal(f"lo{tag}{k}"), w.scal(f"hi{tag}{k}")) for k in range(4)]
        self.b[2] = None
        nz = [getattr_enum(w, n) for n in NORMS] if enum else list(NORMS)
        self.names = [n + tag for n in NAMES]
        r = w.call(MOD + "Param", [], dict(values=self.v, paths=lst(w, [lst(w, p) for p in PATHS]), normalizations=lst(w, nz),
                                           names=lst(w, self.names), bounds=lst(w, self.b)), keep=True)
        if not r.returned:
            raise Unsup("parameter construction raises")
        self.o = r.value


def getattr_enum(w, n):
    return w.it.getattr(w.it.get(MOD + "Normalization"), {"log": "LOG", "log_inv": "LOG_INV", "none": "NONE"}[n])


class Py:
    """Plain structure of a value in a state: strings, lists and tuples."""

    def __init__(self, w, st):
        self.w, self.st = w, st

    def __call__(self, v, want=None):
        """The structure, or None when it is not plain."""
        it = self.w.it
        s = it.st
        it.st = self.st
        try:
            return self._c(v)
        finally:
            it.st = s

    def _c(self, v):
        it = self.w.it
        v = it.resolve(v)
        if v is None or isinstance(v, (str, bool, int)):
            return v
        if isinstance(v, Ten):
            c = v.body.const() if v.rank == 0 else None
            if c is not None and c.denominator == 1:
                return int(c)
        xs = it.to_list(v)
        if xs is not None:
            return [self._c(x) for x in xs]
        raise Unsup(f"not plain: {v}")


def rd(w, r, o, name):
    """Attribute of an object in the state of a result."""
    it = w.it
    s = it.st
    it.st = r.st
    try:
        return it.getattr(o, name)
    finally:
        it.st = s


def fields(ck, w, r, o, names, paths, norms, bounds, values, lab, where):
    py = Py(w, r.st)
    g = py(rd(w, r, o, "names"))
    ck.require(f"names, {lab}", g == list(names), where, f"{g} instead of {list(names)}", "parallel fields")
    g = py(rd(w, r, o, "paths"))
    ck.require(f"paths, {lab}", g == [list(p) for p in paths], where, f"{g}", "parallel fields")
    it = w.it
    ns = w.items(r, rd(w, r, o, "normalizations"))
    s = it.st
    it.st = r.st
    try:
        g = [it.resolve(it.getattr(x, "value")) for x in ns]
    finally:
        it.st = s
    ck.require(f"normalisations, {lab}", g == list(norms) if all(isinstance(x, str) for x in g) else None, where, f"{g} instead of {list(norms)}", "parallel fields")
    bs = w.items(r, rd(w, r, o, "bounds"))
    if len(bs) != len(bounds):
        ck.bad(f"bounds, {lab}", where, f"{len(bs)} entries instead of {len(bounds)}", "parallel fields")
    else:
        for k, (x, y) in enumerate(zip(bs, bounds)):
            if y is None or x is None:
                ck.require(f"bounds {k}, {lab}", x is None and y is None, where, "bounds of another parameter", "parallel fields")
            else:
                for q, (a, c) in enumerate(zip(w.items(r, x), y)):
                    ck.equal(f"bounds {k}.{q}, {lab}", w, a, c, r, None, where)
    ck.equal(f"values, {lab}", w, rd(w, r, o, "values"), values, r, None, where)


def sel(v, ks):
    return ops.concat([ops.expand(ops.index(v, [iv(k)]), 0) for k in ks], 0)


def read(ck, w, b):
    sp = lambda n, *a: spec(w, n, *a, mod="params")
    for enum in (False, True):
        p = P(w, enum=enum)
        it = w.it
        lab = f"enum={enum} {b}"
        cur = type("R", (), dict(st=it.st))()
        fields(ck, w, cur, p.o, p.names, PATHS, NORMS, p.b, p.v, f"construction {lab}", PM + "Param.__init__")
        want = sp("natural", p.v)
        ck.equal(f"natural values {lab}", w, it.getattr(p.o, "denormalized_values"), want.value, None, want, PM + "Param.denormalized_values")
        ck.equal(f"dimension {lab}", w, it.getattr(p.o, "dim"), iv(4), None, None, PM + "Param.__init__")
    p = P(w)
    nat = w.ten(sp("natural", p.v))
    for k, n in enumerate(NAMES):
        r = w.meth(p.o, "get_by_name", n)
        ck.equal(f"get_by_name {n} {b}", w, r.value, ops.index(p.v, [iv(k)]), r, None, PM + "Param.get_by_name")
        r = w.meth(p.o, "get_by_name", n, return_view=True)
        ck.equal(f"get_by_name view {n} {b}", w, r.value, sel(p.v, [k]), r, None, PM + "Param.get_by_name")
    for path, prefix, ks in ((("g",), True, (0, 1, 3)), (("g",), False, ()), (("g", "b"), False, (1, 3)), (("g", "b"), True, (1, 3)),
                             (("m",), False, (2,)), (("m",), True, (2,)), (("g", "a"), False, (0,))):
        cl = f"{path} prefix={prefix} {b}"
        if ks:
            r = w.meth(p.o, "get_by_path", lst(w, path), prefix_match=prefix)
            if ck.returns(f"get_by_path {cl}", r, PM + "Param.get_by_path"):
                ck.equal(f"get_by_path {cl}", w, r.value, sel(p.v, ks), r, None, PM + "Param.get_by_path")
            con = list(ks) == list(range(ks[0], ks[0] + len(ks)))
            r = w.meth(p.o, "get_by_path", lst(w, path), prefix_match=prefix, return_view=True)
            if con:
                if ck.returns(f"get_by_path view {cl}", r, PM + "Param.get_by_path"):
                    ck.equal(f"get_by_path view {cl}", w, r.value, sel(p.v, ks), r, None, PM + "Param.get_by_path")
            else:
                ck.require(f"scattered view refused {cl}", raised(r, "ValueError"), PM + "Param.get_by_path", "a scattered block is returned as a view", "raise set")
        if prefix:
            for f, want in (("indices_by_path_prefix", list(ks)), ("names_by_path_prefix", [NAMES[k] for k in ks]),
                            ("get_paths", [list(PATHS[k]) for k in ks])):
                r = w.meth(p.o, f, lst(w, path))
                g = Py(w, r.st)(r.value)
                ck.require(f"{f} {cl}", g == want, PM + "Param." + f, f"{g} instead of {want}", "selection by path")
            r = w.meth(p.o, "select_by_path_prefix", lst(w, path))
            ck.equal(f"select_by_path_prefix {cl}", w, r.value, sel(p.v, ks), r, None, PM + "Param.select_by_path_prefix")
    r = w.meth(p.o, "to_simple_dict")
    s = w.it.st
    w.it.st = r.st
    try:
        for k, n in enumerate(NAMES):
            ck.equal(f"to_simple_dict {n} {b}", w, w.it.getitem(r.value, n), ops.index(nat, [iv(k)]), None, None, PM + "Param.to_simple_dict")
    finally:
        w.it.st = s
    r = w.meth(p.o, "to_dict")
    w.it.st = r.st
    try:
        for k, n in enumerate(NAMES):
            d = w.it.getitem(r.value, n)
            wh = PM + "Param.to_dict"
            ck.equal(f"to_dict value {n} {b}", w, w.it.getitem(d, "value"), ops.index(p.v, [iv(k)]), None, None, wh)
            ck.equal(f"to_dict natural {n} {b}", w, w.it.getitem(d, "denormalized"), ops.index(nat, [iv(k)]), None, None, wh)
            py = Py(w, r.st)
            ck.require(f"to_dict path {n} {b}", py(w.it.getitem(d, "path")) == list(PATHS[k]), wh, "path of another parameter", "parallel fields")
            ck.require(f"to_dict normalisation {n} {b}", py(w.it.getitem(d, "normalization")) == NORMS[k], wh, "normalisation of another parameter", "parallel fields")
            bd = w.it.resolve(w.it.getitem(d, "bounds"))
            if p.b[k] is None:
                ck.require(f"to_dict bounds {n} {b}", bd is None, wh, "bounds of another parameter", "parallel fields")
            else:
                ck.equal(f"to_dict bounds {n} {b}", w, w.it.to_list(bd)[1], p.b[k][1], None, None, wh)
    finally:
        w.it.st = s
    r = w.meth(p.o, "check_bounds")
    got = w.items(r)
    for k, g in enumerate(got or []):
        if p.b[k] is None:
            ck.require(f"check_bounds without bounds {b}", g is True or isinstance(g, Ten) and g.body.const() == 1, PM + "Param.check_bounds", str(g), "value graph")
        else:
            wa = sp("inside", ops.index(nat, [iv(k)]), *p.b[k])
            ck.equal(f"check_bounds {k} {b}", w, g, wa.value, r, wa, PM + "Param.check_bounds")
    ck.require(f"check_bounds length {b}", len(got) == 4 if got is not None else None, PM + "Param.check_bounds", str(len(got or [])), "length of the result")


def with_obj(w, f):
    """Run f on a copy of the current state and restore it."""
    it = w.it
    s = it.st.copy()
    try:
        return f()
    finally:
        it.st = s


def write(ck, w, b):
    it = w.it
    sp = lambda n, *a: spec(w, n, *a, mod="params")

    def vals(p):
        return it.getattr(p.o, "values")

    def case(lab, where, fn):
        ck.guard(lab, lambda: with_obj(w, fn), where)

    def c_values():
        p = P(w)
        u = w.arr("u", 4)
        it.setattr(p.o, "values", u)
        ck.equal(f"values set {b}", w, vals(p), u, None, None, PM + "Param.values")
    case(f"values set {b}", PM + "Param.values", c_values)

    def c_den():
        p = P(w)
        u = w.arr("u", 4)
        it.setattr(p.o, "denormalized_values", u)
        want = sp("normalised", u)
        ck.equal(f"natural values set {b}", w, vals(p), want.value, None, want, PM + "Param.denormalized_values")
        ck.equal(f"natural values read back {b}", w, it.getattr(p.o, "denormalized_values"), u, None, None, PM + "Param.denormalized_values")
    case(f"natural values set {b}", PM + "Param.denormalized_values", c_den)

    for attr in ("values", "denormalized_values"):
        def c_bad():
            p = P(w)

            r = setcall(w, p.o, attr, w.arr("u", 3))
            ck.require(f"{attr} of another length refused {b}", raised(r, "ValueError"), PM + "Param." + attr,
                       "values of another length are accepted and no longer match names, paths, bounds and normalisations", "raise set")
        case(f"{attr} of another length refused {b}", PM + "Param." + attr, c_bad)

    for k, n in enumerate(NAMES):
        def c_name():
            p = P(w)
            x = w.scal("x")
            w.call(it.getattr(p.o, "set_by_name"), [n, x], keep=True)
            want = sp("put", p.v, iv(k), x)
            ck.equal(f"set_by_name {n} {b}", w, vals(p), want.value, None, want, PM + "Param.set_by_name")
            r = w.meth(p.o, "get_by_name", n)
            ck.equal(f"get after set_by_name {n} {b}", w, r.value, x, r, None, PM + "Param.set_by_name")
        case(f"set_by_name {n} {b}", PM + "Param.set_by_name", c_name)

        def c_un():
            p = P(w)
            x = w.scal("x")
            w.call(it.getattr(p.o, "set_from_unnormalized"), [], {n: x}, keep=True)
            nat = w.ten(sp("natural", p.v))
            want = sp("put", nat, iv(k), x)
            ck.equal(f"set_from_unnormalized {n} {b}", w, it.getattr(p.o, "denormalized_values"), want.value, None, want, PM + "Param.set_from_unnormalized")
        case(f"set_from_unnormalized {n} {b}", PM + "Param.set_from_unnormalized", c_un)

        def c_view():
            p = P(w)
            x = w.scal("x")
            v = w.call(it.getattr(p.o, "get_by_name"), [n], dict(return_view=True), keep=True).value
            it.setitem(v, 0, x)
            want = sp("put", p.v, iv(k), x)
            ck.equal(f"write through the view of {n} {b}", w, vals(p), want.value, None, want, PM + "Param.get_by_name")
        case(f"write through the view of {n} {b}", PM + "Param.get_by_name", c_view)

    for path, prefix, ks in ((("g",), True, (0, 1, 3)), (("g", "b"), False, (1, 3)), (("m",), False, (2,)), (("g", "a"), True, (0,))):
        cl = f"{path} prefix={prefix} {b}"

        def c_path():
            p = P(w)
            u = w.arr("u", len(ks))
            w.call(it.getattr(p.o, "set_by_path"), [lst(w, path), u], dict(prefix_match=prefix), keep=True)
            want = p.v
            for q, k in enumerate(ks):
                want = w.ten(sp("put", want, iv(k), ops.index(u, [iv(q)])))
            ck.equal(f"set_by_path {cl}", w, vals(p), want, None, None, PM + "Param.set_by_path")
            r = w.meth(p.o, "get_by_path", lst(w, path), prefix_match=prefix)
            ck.equal(f"get after set_by_path {cl}", w, r.value, u, r, None, PM + "Param.set_by_path")
        case(f"set_by_path {cl}", PM + "Param.set_by_path", c_path)

        def c_len():
            p = P(w)
            r = w.call(it.getattr(p.o, "set_by_path"), [lst(w, path), w.arr("u", len(ks) + 1)], dict(prefix_match=prefix))
            ck.require(f"set_by_path wrong count {cl}", raised(r, "ValueError"), PM + "Param.set_by_path", "a wrong number of values is accepted", "raise set")
        case(f"set_by_path wrong count {cl}", PM + "Param.set_by_path", c_len)

        def c_copy():
            p = P(w)
            v = w.call(it.getattr(p.o, "get_by_path"), [lst(w, path)], dict(prefix_match=prefix), keep=True).value
            it.setitem(v, 0, w.scal("x"))
            ck.equal(f"get_by_path returns a copy {cl}", w, vals(p), p.v, None, None, PM + "Param.get_by_path")
        case(f"get_by_path returns a copy {cl}", PM + "Param.get_by_path", c_copy)


def setcall(w, o, attr, v):
    """Attribute store whose exceptions are collected like those of a call."""
    return w.call(Ext("builtins.setattr"), [o, attr, v])


def select(ck, w, b):
    it = w.it
    p = P(w)
    where = PM + "Param.__getitem__"
    for lab, ix, ks in (("1", 1, (1,)), ("-1", -1, (3,)), ("[1:]", slice(1, None), (1, 2, 3)), ("[:2]", slice(None, 2), (0, 1)),
                        ("[::2]", slice(None, None, 2), (0, 2)), ("[1:3]", slice(1, 3), (1, 2)), ("list", [2, 0], (2, 0))):
        def one():
            a = ix
            if isinstance(ix, list):
                a = lst(w, ix)
            elif isinstance(ix, slice):
                a = w.call(Ext("builtins.slice"), [ix.start, ix.stop, ix.step]).value
            r = w.call(it.getattr(p.o, "__getitem__"), [a])
            if ck.returns(f"p{lab} {b}", r, where):
                fields(ck, w, r, r.value, [p.names[k] for k in ks], [PATHS[k] for k in ks], [NORMS[k] for k in ks],
                       [p.b[k] for k in ks], sel(p.v, ks), f"p{lab} {b}", where)
        ck.guard(f"p{lab} {b}", one, where)
    q = P(w, tag="2")
    for lab, f in (("p + q", lambda: w.call(it.getattr(p.o, "__add__"), [q.o])),
                   ("concat", lambda: w.call(it.getattr(it.get(MOD + "Param"), "concat"), [p.o, q.o]))):
        def two():
            r = f()
            wh = PM + "Param.concat"
            if ck.returns(f"{lab} {b}", r, wh):
                fields(ck, w, r, r.value, p.names + q.names, PATHS + PATHS, NORMS + NORMS, p.b + q.b, ops.concat([p.v, q.v], 0), f"{lab} {b}", wh)
                cur = type("R", (), dict(st=r.st))()
                fields(ck, w, cur, p.o, p.names, PATHS, NORMS, p.b, p.v, f"first operand after {lab} {b}", wh)
        ck.guard(f"{lab} {b}", two, PM + "Param.concat")


def construct(ck, w, b):
    it = w.it
    wh = PM + "Param.__init__"
    v = w.arr("v", 2)
    full = lambda: dict(values=v, paths=lst(w, [lst(w, ["a"]), lst(w, ["b"])]), normalizations=lst(w, ["none", "log"]), names=lst(w, ["x", "y"]),
                        bounds=lst(w, [None, None]))
    for f, bad in (("paths", lambda: lst(w, [lst(w, ["a"])])), ("normalizations", lambda: lst(w, ["none"])), ("names", lambda: lst(w, ["x"])),
                   ("bounds", lambda: lst(w, [None] * 3))):
        kw = full()
        kw[f] = bad()
        r = w.call(MOD + "Param", [], kw)
        ck.require(f"{f} of another length refused {b}", raised(r, "ValueError"), wh, "fields of different lengths are accepted", "raise set")
    kw = full()
    kw["normalizations"] = lst(w, ["none", "exp"])
    r = w.call(MOD + "Param", [], kw)
    ck.require(f"unknown normalisation refused {b}", raised(r, "ValueError"), wh, "an unknown normalisation is accepted", "raise set")
    s2, ir, ns = ((w.scal("lo" + t), w.scal("hi" + t)) for t in ("s", "r", "n"))
    for d in (1, 3):
        cv = w.arr("cv", d + 1)
        nm = ["tsigma2"] + [f"trho_{i}" for i in range(d)]
        pa = [("covparam", "variance")] + [("covparam", "lengthscale")] * d
        no = ["log"] + ["log_inv"] * d
        for fn, kw in (("make_anisotropic_param", dict(values=cv)), ("param_from_covparam_anisotropic", dict(covparam=cv))):
            r = w.call(MOD + fn, [], dict(logsigma2_bounds=s2, loginvrho_bounds=ir, name_prefix="t", **kw))
            if ck.returns(f"{fn} d={d} {b}", r, PM + fn):
                fields(ck, w, r, r.value, nm, pa, no, [s2] + [ir] * d, cv, f"{fn} d={d} {b}", PM + fn)
        cv2 = w.arr("cw", d + 2)
        fn = "param_from_covparam_anisotropic_noisy"
        r = w.call(MOD + fn, [cv2], dict(logsigma2_bounds=s2, logsigma2_noise_bounds=ns, loginvrho_bounds=ir, name_prefix="t"))
        if ck.returns(f"{fn} d={d} {b}", r, PM + fn):
            fields(ck, w, r, r.value, nm[:1] + ["tsigma2_noise"] + nm[1:], pa[:1] + pa, ["log"] + no, [s2, ns] + [ir] * d, cv2, f"{fn} d={d} {b}", PM + fn)
    # bounds given in the logarithmic scale are to be compared in that scale
    fn = "make_anisotropic_param"
    cv = w.arr("cv", 2)
    r = w.call(MOD + fn, [], dict(values=cv, logsigma2_bounds=s2, loginvrho_bounds=ir), keep=True)
    rb = w.meth(r.value, "check_bounds")
    got = w.items(rb)
    for k, bd in ((0, s2), (1, ir)):
        wa = spec(w, "inside", ops.index(cv, [iv(k)]), *bd, mod="params")
        ck.equal(f"logarithmic bounds {('logsigma2_bounds', 'loginvrho_bounds')[k]} compared with the logarithmic value", w, got[k], wa.value, rb, wa,
                 PM + "Param.check_bounds")


def run(ck):
    ck.explanation = ("Value graphs of every reading, writing, selecting, joining and converting operation of Param on four parameters with symbolic "
                      "values and bounds and all normalisations; the heap model decides views, copies and untouched entries.")
    for nm, f in (("read", read), ("write", write), ("select", select), ("construct", construct)):
        each(ck, nm, lambda w, b: f(ck, w, b), PM)

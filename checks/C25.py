"""Configuration: the object, the environment and the loaded numerical module stay valid and in agreement."""
from sa.terms import *
from sa import ops
from sa.ops import Unsup
from sa.vgraph import Builder, Frame, Obj, Ext, Opq, Phi
from sa.prims import as_ten, dtype, lib
from sa.world import World, Res

# a string no literal of the sources can match
OTHER = "§¶"
BACKENDS = ("numpy", "torch")


def env_of(w, st):
    return st.heap[w.it.environ]


def cfg(w, st, name):
    it = w.it
    s, it.st = it.st, st
    try:
        c = it.call(it.get("gpmp.config:get_config"), [], {})
        return it.resolve(it.getattr(c, name))
    finally:
        it.st = s


def image(w, st):
    """Everything the property speaks about, in one state."""
    e = env_of(w, st)
    r = {n: cfg(w, st, n) for n in ("backend", "dtype")}
    r["GPMP_BACKEND"], r["GPMP_DTYPE"] = e.get("GPMP_BACKEND"), e.get("GPMP_DTYPE")
    return {k: (v if isinstance(v, (str, type(None))) else w.it.vkey(v)) for k, v in r.items()}


def put(w, backend, env):
    """State reached by some history: the invariant is all that is assumed."""
    it = w.it
    st = it.st
    c = it.call(it.get("gpmp.config:get_config"), [], {})
    st.heap[c] = {**st.heap[c], "backend": backend, "dtype": "float64"}
    e = {k: v for k, v in st.heap[it.environ].items() if not k.startswith("GPMP_")}
    e.update(env)
    st.heap[it.environ] = e


def invariant(m):
    bad = []
    if m["backend"] is not None:
        if m["backend"] not in BACKENDS:
            bad.append(f"backend is {m['backend']!r}")
        elif m["GPMP_BACKEND"] != m["backend"]:
            bad.append(f"GPMP_BACKEND is {m['GPMP_BACKEND']!r} but the configuration says {m['backend']!r}")
    if m["dtype"] != "float64":
        bad.append(f"dtype is {m['dtype']!r}")
    return "; ".join(bad)


STATES = [(f"backend {b} set", b, dict(GPMP_BACKEND=b, GPMP_DTYPE="float64")) for b in BACKENDS] + [
    ("nothing set", None, {}), ("environment numpy", None, dict(GPMP_BACKEND="numpy")),
    ("environment torch", None, dict(GPMP_BACKEND="Torch"))]

GOOD = {"backend": ("numpy", "torch", "Torch", "NUMPY"),
        "dtype": ("float64", "double", "torch.float64", "Float64", None, Ext("builtins.float"), Ext("numpy.float64"),
                  Ext("torch.float64"))}
BAD = {"backend": ("jax", "JAX", OTHER, "", 3, True),
       "dtype": ("float32", "torch.float32", "int64x", OTHER, Ext("numpy.float32"), Ext("torch.float32"), "", "int32", "f4", "int64", "uint64",
                 "complex64", Ext("numpy.int64"), Ext("torch.complex64"))}


def shown(v):
    return v.name if isinstance(v, Ext) else "an unknown name" if v == OTHER else repr(v)


def unknown(m):
    return any(isinstance(v, str) and ("opq" in v or "phi" in v) for v in m.values())


def run(ck):
    ck.rule = "inductive invariant of the configuration state over the value graph of every configuration call"
    w = ck.world("numpy")
    it = w.it
    where = "gpmp/config.py"
    names = {"backend": "set_backend", "dtype": "set_dtype"}

    def step(clause, fn, args, kw, valid, key=None):
        def go():
            base = it.st.copy()
            for label, b, env in STATES:
                it.st = base.copy()
                put(w, b, env)
                before = image(w, it.st)
                r = w.call(fn() if callable(fn) else fn, list(args), dict(kw))
                after = image(w, r.st)
                cl = f"{clause}, from {label}"
                if unknown(after) or (r.returned and r.raises):
                    ck.und(cl, where, f"state not resolved: {after}")
                    continue
                if not valid:
                    changed = [k for k in after if after[k] != before[k]]
                    ck.require(cl, not r.returned and not changed, where,
                               ("accepted" if r.returned else "rejected, but changed " + ", ".join(changed)) + f": {before} -> {after}")
                    continue
                if not r.returned:
                    ck.bad(cl, where, f"a valid request is rejected: {r.raises}")
                    continue
                m = invariant(after)
                if not m and key:
                    k, v = key
                    if after[k] != v or after["GPMP_" + k.upper()] != v:
                        m = f"{k} and its environment variable should be {v!r}"
                ck.require(cl, not m, where, f"{m}: {before} -> {after}")
            it.st = base
        ck.guard(clause, go, where)

    cfn = lambda n: (lambda: it.get("gpmp.config:" + n))
    upd = lambda: it.getattr(it.call(it.get("gpmp.config:get_config"), [], {}), "update")
    for k in ("backend", "dtype"):
        for v in GOOD[k]:
            want = (v.lower() if k == "backend" else "float64")
            step(f"{names[k]}({shown(v)})", cfn(names[k]), [v], {}, True, (k, want))
            step(f"update({k}={shown(v)})", upd, [], {k: v}, True, (k, want))
        for v in BAD[k]:
            step(f"{names[k]}({shown(v)})", cfn(names[k]), [v], {}, False)
            step(f"update({k}={shown(v)})", upd, [], {k: v}, False)
    step("set_backend(None)", cfn("set_backend"), [None], {}, False)
    step("update(backend=None)", upd, [], dict(backend=None), True)
    for bk, bv in (("backend", "jax"), ("backend", OTHER), ("dtype", "float32"), ("dtype", OTHER)):
        o = "dtype" if bk == "backend" else "backend"
        for gv in GOOD[o][:4]:
            for order in ((o, bk), (bk, o)):
                step(f"update with valid {o} {shown(gv)} and invalid {bk} {shown(bv)}, {order[0]} first", upd, [],
                     {n: (gv if n == o else bv) for n in order}, False)
    for n in ("get_backend", "init_backend"):
        step(f"{n}()", cfn(n), [], {}, True)
    for n, a in (("set_device", ["cpu"]), ("clear_caches", []), ("get_logger", []), ("get_config", []), ("set_log_level", ["INFO"])):
        step(f"{n}()", cfn(n), a, {}, True)
    step("update of another field", upd, [], dict(seed=5, device="cpu"), True)

    # ------------------------------------------------------------ initialisation
    def init():
        base = it.st.copy()
        cases = [("GPMP_BACKEND=numpy", "numpy", True, "numpy"), ("GPMP_BACKEND=Torch", "Torch", True, "torch"),
                 ("GPMP_BACKEND unset, torch installed", None, True, "torch"),
                 ("GPMP_BACKEND unset, torch missing", None, False, "numpy")]
        for label, env, present, want in cases:
            for n in ("init_backend", "get_backend"):
                it.st = base.copy()
                put(w, None, {} if env is None else dict(GPMP_BACKEND=env))
                it.torch_present = present
                try:
                    r1 = w.call("gpmp.config:" + n)
                    it.st = r1.st
                    m1 = image(w, r1.st)
                    r2 = w.call("gpmp.config:" + n)
                    m2 = image(w, r2.st)
                finally:
                    it.torch_present = True
                cl = f"{n} with {label}"
                ck.require(cl, r1.returned and r1.value == want and m1["backend"] == want and m1["GPMP_BACKEND"] == want, where,
                           f"returned {r1.value!r}, state {m1}; documented choice {want!r}")
                ck.require(cl + ": idempotent", r2.returned and r2.value == r1.value and m1 == m2, where, f"{m1} -> {m2}")
        # a configured backend wins over a later change of the environment variable
        for b in BACKENDS:
            it.st = base.copy()
            put(w, b, dict(GPMP_BACKEND=b))
            r = w.call("gpmp.config:get_backend")
            ck.require(f"get_backend keeps the configured {b}", r.returned and r.value == b, where, f"returned {r.value!r}")
        it.st = base.copy()
        put(w, None, dict(GPMP_BACKEND="jax"))
        r = w.call("gpmp.config:init_backend")
        ck.require("init_backend with GPMP_BACKEND=jax is rejected", not r.returned, where, f"accepted, state {image(w, r.st)}")
        for v, good in (("float64", True), ("double", True), ("float32", False), (OTHER, False)):
            it.st = base.copy()
            put(w, None, dict(GPMP_DTYPE=v))
            r = w.call("gpmp.config:_GPMPConfig") if has(it, "_GPMPConfig") else None
            cl = f"start with GPMP_DTYPE={shown(v)}"
            if r is None:
                ck.und(cl, where, "configuration class not found")
            elif not good:
                ck.require(cl, not r.returned, where, "an unsupported precision is accepted from the environment")
            else:
                it.st = r.st
                ck.require(cl, r.returned and it.resolve(it.getattr(r.value, "dtype")) == "float64", where, "dtype is not float64")
        it.st = base
    ck.guard("initialisation", init, where)

    # ------------------------------------------------------------ the numerical module
    for b in BACKENDS:
        wb = ck.world(b)
        ck.guard(f"numerical module [{b}]", lambda: module(ck, Loaded(ck.repo, b), b), "gpmp/num/__init__.py")
        ck.guard(f"precision [{b}]", lambda: precision(ck, wb, b), f"gpmp/num/{b}_backend.py")


def has(it, n):
    return n in it.st.heap[it.load("gpmp.config").env]


class Loaded(World):
    """A process that imported the numerical module and what that import pulls in, nothing else."""

    def __init__(self, repo, backend):
        self.repo, self.backend = repo, backend
        self.given, self.entries = {}, []
        self.L = {"numpy": "np", "torch": "torch"}[backend]
        self.it = it = Builder(repo, backend)
        fr = Frame(None, None)
        fr.env = Obj("env", name="base")
        it.st.heap[fr.env] = {}
        fr.modname = "gpmp"
        it.frames.append(fr)
        it.load("gpmp.num")


def module(ck, w, b):
    it = w.it
    where = "gpmp/num/__init__.py"
    other = "torch" if b == "numpy" else "numpy"
    ck.require(f"[{b}] the other backend is not loaded", f"gpmp.num.{other}_backend" not in it.mods, where,
               f"importing gpmp.num with the {b} backend loads gpmp.num.{other}_backend")
    num_ = it.load("gpmp.num")
    d = it.st.heap[num_.env]
    src = it.load(f"gpmp.num.{b}_backend")
    n = bad = 0
    for k, v in it.st.heap[src.env].items():
        if k.startswith("_") or k not in d:
            continue
        n += 1
        f = it.resolve(d[k])
        q = getattr(f, "qual", "") if not isinstance(f, Ext) else f.name
        if f"{other}_backend" in str(q):
            bad += 1
            ck.bad(f"[{b}] gpmp.num.{k} comes from the configured backend", where, f"resolved to {q}")
    if n and not bad:
        ck.ok(f"[{b}] {n} names of gpmp.num come from the configured backend", where)
    v = cfg(w, it.st, "dtype_resolved")
    want = {"numpy": "numpy.float64", "torch": "torch.float64"}[b]
    ck.require(f"[{b}] native precision recorded", (v.name == want) if isinstance(v, Ext) else (None if isinstance(v, (Opq, Phi)) else False),
               f"gpmp/num/{b}_backend.py", f"dtype_resolved is {v}")
    r = w.call("gpmp.num:get_dtype")
    ck.require(f"[{b}] get_dtype", (r.value.name == want) if isinstance(r.value, Ext) else None, "gpmp/num/shared.py", f"{r.value}")


def precision(ck, w, b):
    it = w.it
    where = f"gpmp/num/{b}_backend.py"
    L = w.L

    def case(cl, name, args, kw=None):
        def go():
            r = w.call(it.get("gpmp.num:" + name), args, kw or {})
            if not r.returned:
                ck.und(cl, where, f"raises {r.raises}")
                return
            t = w.ten(r)
            s32 = [a for a in walk_atoms(t) if a.op == "f32"]
            ck.require(cl, dtype(t) == "f" and not s32, where,
                       f"result of gpmp.num.{name} has {'single precision' if dtype(t) == 'h' or s32 else 'dtype ' + dtype(t)}")
        ck.guard(cl, go, where)

    n = w.size("n")
    x = w.scal("a")
    single_np = w.arr("s", "n", "d", dt="h", L="np")
    double_np = w.arr("u", "n", "d", L="np")
    for nm in ("array", "asarray"):
        case(f"[{b}] {nm} of a single precision NumPy array", nm, [single_np])
        case(f"[{b}] {nm} of a double precision NumPy array", nm, [double_np])
        case(f"[{b}] {nm} of a Python float", nm, [x])
        case(f"[{b}] {nm} of a list of floats", nm, [(w.scal("a1"), w.scal("a2"))])
        case(f"[{b}] {nm} of a list of single precision numbers", nm, [it.mklist([w.arr(f"s{k}", dt="h", L="np") for k in range(3)])])
        case(f"[{b}] {nm} of a tuple of single precision rows", nm, [tuple(w.arr(f"r{k}", 2, dt="h", L="np") for k in range(2))])
        case(f"[{b}] {nm} of a list of lists of floats", nm, [it.mklist([it.mklist([w.scal(f"l{i}{k}") for k in range(2)]) for i in range(2)])])
        case(f"[{b}] {nm} of a single precision number", nm, [w.arr("s0", dt="h", L="np")])
        if b == "torch":
            case(f"[{b}] {nm} of a list of single precision tensors", nm, [it.mklist([w.arr(f"t{k}", dt="h", L="torch") for k in range(3)])])
            case(f"[{b}] {nm} of a single precision tensor", nm, [w.arr("s2", "n", dt="h", L="torch")])
    case(f"[{b}] asdouble of a single precision array", "asdouble", [w.arr("s3", "n", dt="h", L=L)])
    case(f"[{b}] asdouble of integers", "asdouble", [w.arr("s4", "n", dt="i", L=L)])
    for nm in ("zeros", "ones", "empty"):
        case(f"[{b}] {nm}", nm, [(n, w.size("d"))])
    case(f"[{b}] full", "full", [(n,), x])
    case(f"[{b}] eye", "eye", [n])
    case(f"[{b}] linspace", "linspace", [w.scal("lo"), w.scal("hi"), n])
    case(f"[{b}] rand", "rand", [n, w.size("d")])
    case(f"[{b}] randn", "randn", [n, w.size("d")])
    for nm in ("exp", "log", "sqrt"):
        case(f"[{b}] {nm} of a Python float", nm, [x])
    case(f"[{b}] multivariate_normal.rvs", "multivariate_normal.rvs", [w.arr("m", 2), w.arr("C", 2, 2), n])

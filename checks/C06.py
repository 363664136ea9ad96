"""Fisher information and RKHS norms."""
from .common import *


def fisher(ck, w, b, mt, p):
    g = Gp(w, mt)
    th = w.arr("theta", p)
    h = w.scal("h")
    for fn in ("fisher_information", "fisher_information_cpd"):
        where = MODEL + fn
        lin = mt == "linear_predictor" and fn.endswith("cpd")
        for tag, th_, kw in ((f"{fn} {mt} {b}", th, dict(covparam=th, epsilon=h)),):
            def go():
                r = w.meth(g.m, fn, g.xi, **kw)
                if not ck.returns(tag, r, where):
                    return
                t = w.ten(r)
                for i in range(p):
                    for j in range(p):
                        s = (spec(w, "fisher_lin", g.k, th_, g.mu, g.mp0, g.xi, i, j, h) if lin
                             else spec(w, "fisher", g.k, th_, g.xi, i, j, h))
                        e = ops.index(t, [i, j])
                        ck.equal(f"{tag} entry {i},{j}", w, e, s.value, r, s, where)
            ck.guard(tag, go, where)

    def default():
        """Omitted covparam means the model's own."""
        g2 = Gp(w, mt, covparam=th)
        for fn in ("fisher_information", "fisher_information_cpd"):
            r1 = w.meth(g2.m, fn, g2.xi, epsilon=h)
            r2 = w.meth(g2.m, fn, g2.xi, covparam=th, epsilon=h)
            if r1.returned and r2.returned:
                ck.equal(f"{fn} default parameters {mt} {b}", w, w.ten(r1), w.ten(r2), r1, r2, MODEL + fn)
    ck.guard(f"fisher default parameters {mt} {b}", default, MODEL + "fisher_information")


def norms(ck, w, b):
    g = Gp(w, "zero")
    for fn, mt, sp in (("norm_k_sqrd_with_zero_mean", "zero", "norm_zero"), ("k_inverses", "zero", "kinv"),
                       ("norm_k_sqrd", "linear_predictor", "norm_lin")):
        where = MODEL + fn

        def go():
            g = Gp(w, mt)
            a = (g.k, g.th) if mt == "zero" else (g.k, g.th, g.mu, g.mp0)
            s = spec(w, sp, *a, g.xi, g.zi)
            r = w.meth(g.m, fn, g.xi, g.zi, g.th)
            if not ck.returns(f"{fn} {b}", r, where):
                return
            got = w.items(r) if sp == "kinv" else [r.value]
            want = w.items(s) if sp == "kinv" else [s.value]
            for i, (x, y) in enumerate(zip(got, want)):
                t = w.ten(r, x)
                if w.ten(s, y).rank == 0 and t.rank == 1:
                    t = ops.reshape(t, [])
                ck.equal(f"{fn}[{i}] {b}", w, t, y, r, s, where)
        ck.guard(f"{fn} {b}", go, where)


def explicit(ck, w, b):
    """One contrast: the closed-form values."""
    g = Small(w)
    with g:
        fn = "norm_k_sqrd"
        s = spec(w, "norm_lin", g.k, g.th, g.mu, g.mp0, g.xi, g.zi)
        r = w.meth(g.m, fn, g.xi, g.zi, g.th)
        if ck.returns(f"{fn} with one contrast {b}", r, MODEL + fn):
            t = w.ten(r)
            g.equal(ck, f"{fn} with one contrast {b}", ops.reshape(t, []) if t.rank == 1 else t, s.value, r, s, MODEL + fn, "norm with one contrast")


def subst_input(p, name, value):
    """The term with the input array `name` replaced by `value`."""
    def go(o):
        if isinstance(o, Atom):
            if o.op == "in" and o.args[0] == name:
                return Atom(o.op, (at_name(value),) + o.args[1:])
            return Atom(o.op, tuple(go(a) for a in o.args))
        if isinstance(o, Poly):
            return Poly(tuple((Mono(tuple((b, go(z)) for b, z in m.sums), tuple((go(a), go(e)) for a, e in m.factors)), c) for m, c in o.terms))
        if isinstance(o, Ten):
            return Ten(o.formals, tuple(go(d) for d in o.dims), go(o.body), o.isbool, o.tag)
        if isinstance(o, tuple):
            return tuple(go(x) for x in o)
        return o
    return renorm(go(p))


def at_name(t):
    return next(a.args[0] for a in walk_atoms(t.body) if a.op == "in")


SODF = "gpmp.num.torch_backend:SecondOrderDifferentiableFunction"


def second_order(ck, w, mt):
    """fisher_information_torch is half the second derivative of the expected deviance at the parameters."""
    it, where = w.it, "gpmp/core/fisher.py:fisher_information_torch"
    lab = f"fisher_information_torch {mt}"
    g = Gp(w, mt)
    th, u = w.arr("theta", 2), w.arr("u", 2)
    seen = {}

    def make(it, f, args, kw):
        fun = args[0] if args else kw.get("f")
        seen["value"] = as_ten(it, it.call(fun, [u], {}))
        H = w.arr("HESS", 2, 2)

        def evaluate(it, a, k):
            seen["point"] = it.V(it.resolve(a[0]))
            return S(sym("in:y"), "f", w.L)
        return it.new("inst", dict(evaluate=UF("evaluate", evaluate), gradient=UF("gradient", lambda it, a, k: w.arr("GRAD", 2)), hessian=UF("hessian", lambda it, a, k: H)), None, "SODF")
    it.intercept[SODF] = make
    try:
        r = w.meth(g.m, "fisher_information_torch", g.xi, th)
    finally:
        it.intercept.pop(SODF)
    if not ck.returns(lab, r, where):
        return
    if "value" not in seen or "point" not in seen:
        return ck.und(lab, where, "not computed with SecondOrderDifferentiableFunction")
    s = spec(w, "deviance", g.k, u, th, g.xi)
    # up to a factor, and terms that do not depend on the variable
    free = ops.elementwise(lambda p: subst_input(p, "u", th), seen["value"])
    ref = w.ten(s, s.value)
    at0 = ops.elementwise(lambda p: subst_input(p, "u", th), ref)
    rise = lambda a, b: ops.elementwise(psub, a, b)
    ok = [c for c in (Fraction(1), Fraction(1, 2)) if ck.compare(w, rise(seen["value"], free), ops.elementwise(lambda p: pscale(p, c), rise(ref, at0)), r, s)[0] == "eq"]
    if not ok:
        return ck.equal(lab + ": function differentiated", w, seen["value"], s.value, r, s, where)
    ck.ok(lab + ": function differentiated", where)
    ck.equal(lab + ": point", w, seen["point"], th, r, None, where)
    ck.equal(lab + ": result", w, r.value, ops.elementwise(lambda p: pscale(p, Fraction(1, 2) / ok[0]), w.arr("HESS", 2, 2)), r, None, where)


def hessian(ck, w):
    """The helper differentiates the function twice at the point."""
    it, where = w.it, "gpmp/num/torch_backend.py:SecondOrderDifferentiableFunction"
    x = w.arr("x", 2)
    o = w.call(SODF, [UF("f", lambda it, a, k: S(atom_poly(Atom("f", tuple(at(as_ten(it, a[0]), (num(i),)) for i in range(2)))), "f", w.L))], keep=True)
    if not ck.returns("SecondOrderDifferentiableFunction", o, where):
        return
    r = w.call(it.getattr(o.value, "hessian"), [])
    ck.require("hessian before gradient raises", not r.returned, where, "accepted", "typestate")
    r = w.call(it.getattr(o.value, "gradient"), [])
    ck.require("gradient before evaluate raises", not r.returned, where, "accepted", "typestate")
    G, H = w.arr("G", 2), w.arr("H", 2, 2)
    Y = atom_poly(Atom("f", tuple(at(x, (num(i),)) for i in range(2))))
    calls = []

    def grad(it, name, args, kw):
        y, v = as_ten(it, args[0]), as_ten(it, args[1])
        if ck.compare(w, v, x)[0] != "eq":
            calls.append("derivative with respect to something else than the point")
        if not y.dims and peq(y.body, Y):
            if kw.get("create_graph") is not True:
                calls.append("first derivative without a graph")
            return (ops.copy(G),)
        for i in range(2):
            if not y.dims and peq(y.body, at(G, (num(i),))):
                return (ops.mk((num(2),), lambda j: at(H, (num(i), j)), False, (w.L, "f")),)
        raise Unsup("derivative of something else")
    it.intercept["torch.autograd.grad"] = grad
    try:
        r = w.call(it.getattr(o.value, "evaluate"), [x], keep=True)
        if ck.returns("evaluate", r, where):
            ck.equal("evaluate: value", w, r.value, S(Y, "f", w.L), r, None, where)
        r = w.call(it.getattr(o.value, "gradient"), [], keep=True)
        if ck.returns("gradient", r, where):
            ck.equal("gradient: value", w, r.value, G, r, None, where)
        r = w.call(it.getattr(o.value, "hessian"), [], keep=True)
        if ck.returns("hessian", r, where):
            t = w.ten(r)
            both = lambda i, j: padd(at(H, (num(i), num(j))), at(H, (num(j), num(i))))
            ok = all(peq(at(t, (num(i), num(j))), pscale(both(i, j), Fraction(1, 2))) for i in range(2) for j in range(2))
            one = all(peq(at(t, (num(i), num(j))), at(H, (num(i), num(j)))) or peq(at(t, (num(i), num(j))), at(H, (num(j), num(i)))) for i in range(2) for j in range(2))
            ck.require("hessian: value", ok or one, where, f"entry 0,1 is {show(at(t, (ZERO, ONE)))[:120]}", "second derivatives of the function")
    finally:
        it.intercept.pop("torch.autograd.grad")
    ck.require("derivatives taken", not calls, where, "; ".join(calls[:2]), "arguments of the derivatives")


def run(ck):
    ck.explanation = ("Value graphs of the Fisher information (each entry, two parameters, symbolic design and step) and of the "
                      "norms compared with their definitions at the caller's parameters, on both backends.")
    for b in BACKENDS:
        for mt in MEANTYPES:
            ck.guard(f"fisher {mt} {b}", lambda: fisher(ck, ck.world(b), b, mt, 2))
        ck.guard(f"norms {b}", lambda: norms(ck, ck.world(b), b))
        ck.guard(f"one contrast {b}", lambda: explicit(ck, ck.world(b), b))
    ck.guard("hessian", lambda: hessian(ck, ck.world("torch")))
    for mt in MEANTYPES:
        ck.guard(f"fisher_information_torch {mt}", lambda: second_order(ck, ck.world("torch"), mt))

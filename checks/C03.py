"""Gaussian negative log-likelihoods."""
from .common import *

CASES = (
    ("negative_log_likelihood_zero_mean", "zero", "nll_zero"),
    ("negative_log_likelihood", "parameterized", "nll_param"),
    ("negative_log_restricted_likelihood", "linear_predictor", "nlrl"),
)


def one(ck, w, b, fn, mt, sp):
    g = Gp(w, mt)
    a = (g.mp, g.th) if mt == "parameterized" else (g.th,)
    if mt == "zero":
        want = spec(w, sp, g.k, g.th, g.xi, g.zi)
    else:
        want = spec(w, sp, g.k, g.th, g.mu, g.mp if mt == "parameterized" else g.mp0, g.xi, g.zi)
    where = MODEL + fn
    kfn = w.it.get("gpmp.kernel:" + fn)
    for tag, call in (("Model." + fn, lambda: w.meth(g.m, fn, *a, g.xi, g.zi)),
                      ("kernel." + fn, lambda: w.call(kfn, (g.m,) + a + (g.xi, g.zi)))):
        def value():
            r = call()
            if ck.returns(f"{tag} returns {b}", r, where):
                ck.equal(f"{tag} value {b}", w, r.value, want.value, r, want, where)
        ck.guard(f"{tag} value {b}", value, where)

        def fails():
            with Fault(w, FACTOR) as f:
                r = call()
            c = f"{tag} infinite when factorisation fails {b}"
            rule = "a failed factorisation yields +inf"
            if not f.seen:
                ck.und(c, where, "no factorisation call found")
            elif not r.returned:
                ck.bad(c, where, f"{r.raises[0][1].name if r.raises else 'nothing'} escapes instead of +inf", rule)
            else:
                inf = S(atom_poly(Atom("inf", ())))
                st, d = ck.compare(w, r.value, inf, r)
                if any(e for pc, e, _ in r.raises):
                    st, d = "diff", f"{r.raises[0][1].name} escapes"
                ck.add(c, {"eq": "ok", "diff": "violation", "und": "undecided"}[st], where, d, rule)
        ck.guard(f"{tag} failure {b}", fails, where)


def explicit(ck, w, b):
    """One contrast: the closed-form restricted likelihood."""
    g = Small(w)
    fn = "negative_log_restricted_likelihood"
    with g:
        want = spec(w, "nlrl", g.k, g.th, g.mu, g.mp0, g.xi, g.zi)
        r = w.meth(g.m, fn, g.th, g.xi, g.zi)
        if ck.returns(f"{fn} with one contrast {b}", r, MODEL + fn):
            g.equal(ck, f"{fn} with one contrast {b}", r.value, want.value, r, want, MODEL + fn, "restricted likelihood with one contrast")


def run(ck):
    ck.explanation = ("Value graphs of the three likelihood criteria (methods and kernel wrappers, both backends) compared with "
                      "the Gaussian negative log-density at the caller's parameters; exception flow with every Cholesky "
                      "factorisation failing.")
    for b in BACKENDS:
        for c in CASES:
            ck.guard(f"{c[0]} {b}", lambda: one(ck, ck.world(b), b, *c))
        ck.guard(f"restricted likelihood with one contrast {b}", lambda: explicit(ck, ck.world(b), b))

"""Virtual leave-one-out identities."""
from .common import *


def one(ck, w, b, mt):
    g = Gp(w, mt)
    if mt == "zero":
        wants = [spec(w, "loo_zero", g.k, g.th0, g.xi, g.zi)]
    elif mt == "parameterized":
        wants = [spec(w, "loo_param", g.k, g.th0, g.mu, g.mp0, g.xi, g.zi)]
    else:
        wants = [spec(w, s, g.k, g.th0, g.mu, g.mp0, g.xi, g.zi) for s in ("loo_lin", "loo_lin_spd")]
    where = MODEL + "loo"
    r = w.meth(g.m, "loo", g.xi, g.zi)
    if not ck.returns(f"loo {mt} {b}", r, where):
        return
    got = w.items(r)
    if got is None or len(got) != 3:
        ck.bad(f"loo {mt} {b} arity", where, "loo must return (prediction, variance, error)")
        return
    for i, nm in enumerate(("prediction", "variance", "error")):
        ck.equal_any(f"loo {nm} {mt} {b}", w, got[i], [(w.items(x)[i], x) for x in wants], r, where)
    # column observations give the same numbers
    zc = ops.mk((dim("n"), ONE), lambda i, j: at(g.zi, (i,)), False, g.zi.tag)
    r = w.meth(g.m, "loo", g.xi, zc)
    if ck.returns(f"loo column zi {mt} {b}", r, where):
        for i, nm in enumerate(("prediction", "variance", "error")):
            ck.equal_any(f"loo {nm} column zi {mt} {b}", w, w.items(r)[i], [(w.items(x)[i], x) for x in wants], r, where)


def explicit(ck, w, b):
    """One contrast: the closed-form values."""
    g = Small(w)
    where = MODEL + "loo"
    with g:
        want = spec(w, "loo_lin", g.k, g.th0, g.mu, g.mp0, g.xi, g.zi)
        r = w.meth(g.m, "loo", g.xi, g.zi)
        if ck.returns(f"loo with one contrast {b}", r, where):
            for i, nm in enumerate(("prediction", "variance", "error")):
                g.equal(ck, f"loo {nm} with one contrast {b}", w.items(r)[i], w.items(want)[i], r, want, where, "leave-one-out values with one contrast")


def run(ck):
    ck.explanation = "Value graphs of Model.loo for the three mean types on both backends compared with the virtual cross-validation identities."
    for b in BACKENDS:
        for mt in MEANTYPES:
            ck.guard(f"loo {mt} {b}", lambda: one(ck, ck.world(b), b, mt), MODEL + "loo")
        ck.guard(f"loo with one contrast {b}", lambda: explicit(ck, ck.world(b), b), MODEL + "loo")

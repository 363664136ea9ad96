"""Model of the optimiser call: records its arguments and evaluates the objective at scripted points."""
from .common import *


class Optimiser:
    """Stands for scipy.optimize.minimize while active."""

    def __init__(self, w, script=(), x=None, fun=None, grads=False, probe=None):
        self.probe = probe      # evaluate the objective there without leaving a trace
        self.probed = None
        self.w, self.script, self.x, self.fun = w, list(script), x, fun
        self.calls = []
        self.values = []
        self.grads = []
        self.want_grad = grads

    def __enter__(self):
        self.w.it.intercept["scipy.optimize.minimize"] = self.run
        return self

    def __exit__(self, *a):
        self.w.it.intercept.pop("scipy.optimize.minimize", None)

    def run(self, it, name, args, kw):
        names = ("fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options")
        a = dict(zip(names, args))
        a.update(kw)
        self.calls.append(a)
        self.st = it.st
        fun = a["fun"]
        if self.probe is not None:
            st = it.st.copy()
            self.probed = it.call(fun, [self.probe], {})
            self.probe_st = it.st
            it.st = st
        if self.script:
            p0 = self.script[0]
            buf = it.call_ext("numpy.array", [p0], {})
            for k, p in enumerate(self.script):
                it.setitem(buf, ops.SliceV(None, None, None), p)     # optimisers reuse their work array
                self.values.append(it.call(fun, [buf], {}))
                if self.want_grad and a.get("jac") is not None:
                    self.grads.append(it.call(a["jac"], [buf], {}))
            it.setitem(buf, ops.SliceV(None, None, None), self.w.arr("scratch", *p0.dims, L="np"))
        o = it.new("inst", dict(x=self.x, fun=self.fun, success=True), None, "OptimizeResult")
        return o

"""Records what is drawn: figures, axes and the data given to the drawing calls of matplotlib."""
from .common import *
from sa.prims import ExtInst

PLT = "matplotlib.pyplot."
ON_AXES = ("plot", "step", "fill", "fill_between", "errorbar", "hist", "scatter", "contour", "contourf", "axvline", "axhline",
           "semilogy", "semilogx", "loglog", "ecdf", "stairs", "imshow", "pcolormesh", "bar", "vlines", "hlines")
ON_PLT = {"xlabel": "set_xlabel", "ylabel": "set_ylabel", "title": "set_title", "xlim": "set_xlim", "ylim": "set_ylim"}
OTHER = ("show", "tight_layout", "colorbar", "legend", "ion", "ioff", "grid", "close", "draw", "pause", "suptitle", "savefig")


class Draw:
    """One drawing call: its axes, name, arguments as they were at the call, and the condition of its path."""

    def __init__(self, ax, name, args, kw, pc):
        self.ax, self.name, self.args, self.kw, self.pc = ax, name, args, kw, pc


class Canvas:
    def __init__(self, w):
        self.w, self.draws, self.figs, self.fig, self.ax = w, [], [], None, None

    def __enter__(self):
        i = self.w.it.intercept
        self.names = [PLT + n for n in ON_AXES + tuple(ON_PLT) + OTHER + ("figure", "subplots", "subplot", "gca", "gcf", "sca", "axes")]
        for n in self.names:
            i[n] = self.pyplot
        return self

    def __exit__(self, *a):
        for n in self.names:
            self.w.it.intercept.pop(n, None)

    # ------------------------------------------------------------------ figures and axes
    def new_fig(self):
        f = ExtInst("figure", number=len(self.figs) + 1, axes=[])
        f.attrs["on_call"] = self.on_fig
        self.figs.append(f)
        self.fig, self.ax = f, None
        return f

    def new_ax(self, fig, pos):
        a = ExtInst("axes", figure=fig, pos=pos)
        a.attrs["on_call"] = self.on_ax
        fig.attrs["axes"].append(a)
        self.fig, self.ax = fig, a
        return a

    def gca(self):
        if self.fig is None:
            self.new_fig()
        if self.ax is None:
            self.new_ax(self.fig, (1, 1, 1))
        return self.ax

    def ints(self, it, vs):
        out = []
        for v in vs:
            c = as_ten(it, v).body.const()
            if c is None:
                raise Unsup("panel layout")
            out.append(int(c))
        return out

    def at_pos(self, it, fig, args):
        p = tuple(self.ints(it, args)) or (1, 1, 1)
        if len(p) == 1:
            p = tuple(int(c) for c in str(p[0]))
        for a in fig.attrs["axes"]:
            if a.attrs["pos"] == p:
                self.fig, self.ax = fig, a
                return a
        return self.new_ax(fig, p)

    def subplots(self, it, fig, args, kw):
        n, m = self.ints(it, [args[0] if args else kw.get("nrows", 1), args[1] if len(args) > 1 else kw.get("ncols", 1)])
        axs = [[self.new_ax(fig, (n, m, i * m + j + 1)) for j in range(m)] for i in range(n)]
        if kw.get("squeeze", True) is not True:
            return it.mklist([it.mklist(r) for r in axs])
        if n * m == 1:
            return axs[0][0]
        if n == 1 or m == 1:
            return it.mklist([a for r in axs for a in r])
        return it.mklist([it.mklist(r) for r in axs])

    # ------------------------------------------------------------------ calls
    def pyplot(self, it, name, args, kw):
        n = name[len(PLT):]
        if n == "figure":
            num_ = args[0] if args else kw.get("num")
            for f in self.figs:
                if num_ is f or (isinstance(num_, int) and num_ == f.attrs["number"]):
                    self.fig = f
                    self.ax = f.attrs["axes"][-1] if f.attrs["axes"] else None
                    return f
            return self.new_fig()
        if n == "subplots":
            f = self.new_fig()
            return (f, self.subplots(it, f, args, kw))
        if n == "gcf":
            return self.fig or self.new_fig()
        if n in ("gca",):
            return self.gca()
        if n in ("subplot", "axes"):
            return self.at_pos(it, self.fig or self.new_fig(), args)
        if n == "sca":
            self.ax, self.fig = args[0], args[0].attrs["figure"]
            return None
        if n in OTHER:
            return None
        return self.on_ax(it, self.gca(), ON_PLT.get(n, n), args, kw)

    def on_fig(self, it, f, name, args, kw):
        if name == "add_subplot":
            return self.at_pos(it, f, args)
        if name == "subplots":
            return self.subplots(it, f, args, kw)
        if name == "gca":
            self.fig = f
            self.ax = f.attrs["axes"][-1] if f.attrs["axes"] else None
            return self.gca()
        return None

    def on_ax(self, it, a, name, args, kw):
        if name in ("get_xlim", "get_ylim"):
            return (self.w.scal(name + "0"), self.w.scal(name + "1"))
        if name == "twinx":
            return self.new_ax(a.attrs["figure"], ("twin",) + tuple(a.attrs["pos"]))
        self.draws.append(Draw(a, name, [self.now(it, v) for v in args], {k: self.now(it, v) for k, v in kw.items()}, it.st.pc))
        return it.opq("drawn", name)

    def now(self, it, v):
        """The value at the time of the call."""
        v = it.resolve(v)
        if isinstance(v, (str, bool)) or v is None or isinstance(v, (Opq, ExtInst, Ext)):
            return v
        try:
            return ops.copy(as_ten(it, v))
        except Unsup:
            return v

    # ------------------------------------------------------------------ reading
    def of(self, *names, ax=None):
        return [d for d in self.draws if d.name in names and (ax is None or d.ax is ax)]

    def panels(self):
        out = []
        for d in self.draws:
            if d.ax not in out:
                out.append(d.ax)
        return out

    def text(self, ax, name):
        r = [d.args[0] for d in self.of(name, ax=ax) if d.args]
        return r[-1] if r else None

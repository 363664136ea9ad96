"""C13: library calls never modify the caller's arrays, lists and dictionaries, nor results returned earlier.

Write-effect and may-alias analysis on the value graphs of the scenarios of the other checks: every array of a
scenario and every array a call returned is watched; an in-place operation (augmented assignment, item assignment,
out=, overwrite_*=True, a mutating method) whose target may share memory with a watched array is a violation.
"""
import importlib
import multiprocessing
import os
import sys

from sa.report import Check
from sa.world import World
from sa.vgraph import UF
from .common import *

CORPUS = ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C11", "C12", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24",
          "C27", "C28", "C29", "C30", "C31")
CONSUMES = {"gpmp.kernel.prior_defaults:set_default_prior_hyperparameters_from_kwargs"}      # documented to take keys out of its argument


class Watched(Check):
    """Builds the scenarios of another check with writes recorded; its clauses are not used."""

    def __init__(self, prop):
        super().__init__(prop, "quick")
        World.WATCH = True


def effects(name):
    """{entry: sorted writes}, number of watched arrays, functions translated, for the scenarios of one check."""
    sys.setrecursionlimit(20000)
    entries, seen, arrays, err, funcs = {}, 0, 0, "", set()
    if name == "own":
        ck = Watched("C13")
        run1 = own
    else:
        ck = Watched(name)
        run1 = importlib.import_module("checks." + name).run
    try:
        run1(ck)
    except Exception as e:      # noqa: the scenarios built before still count
        err = f"{type(e).__name__}: {e}"
    for w in ck._worlds.values():
        funcs |= set(w.it.calls)
        arrays += len(w.it.watch or ())
        for e, ws in w.entries:
            seen += 1
            d = entries.setdefault((e, w.backend), set())
            d |= {x for x in ws if ":" in x[1] or x[0].endswith("given by the caller")}
            if e in CONSUMES:
                d -= {x for x in d if x[0] == "a dict given by the caller"}
    return name, {k: sorted(v) for k, v in entries.items()}, seen, arrays, err, sorted(funcs)


def own(ck):
    """Entry points no other check reaches with arrays."""
    for b in BACKENDS:
        w = ck.world(b)
        ck.guard("gradients " + b, lambda: gradients(ck, w))


def gradients(ck, w):
    """Differentiation helpers: the point is the caller's, and so is what the differentiated function receives."""
    it = w.it

    def value(it, args, kw):
        t = it.V(it.resolve(args[0]))
        return ops.sum_(t)
    f, f3 = UF("f", value), UF("f3", value)
    x = w.arr("x", 3)
    w.call("gpmp.num:value_and_grad", [f, x])
    g = w.call("gpmp.num:grad", [f], keep=True)
    if g.returned:
        w.call(g.value, [x])
    dc = w.call("gpmp.num:DifferentiableSelectionCriterion", [f3, w.arr("xi", "n", "d"), w.arr("zi", "n")], keep=True)
    for m in ("evaluate", "evaluate_no_grad", "evaluate_pre_grad", "gradient"):
        if dc.returned:
            try:
                w.call(it.getattr(dc.value, m), [x], keep=True)
            except Unsup:
                pass


def where_of(ck, q):
    """File and function of a qualified name."""
    mod, _, fn = q.partition(":")
    m = ck.repo.modules.get(mod)
    path = getattr(m, "path", None)
    return (str(path) if path else mod.replace(".", "/") + ".py") + (":" + fn if fn else "")


def run(ck):
    ck.explanation = ("Write effects under may-aliasing (views, reshapes, conversions without copy, slices) over the scenarios of the other checks: "
                      "one clause per public entry point and backend; the arrays of the scenarios and all arrays returned by earlier calls are watched.")
    names = ("own",) + CORPUS
    n = max(1, min(len(os.sched_getaffinity(0)), 8))
    if n > 1:
        with multiprocessing.get_context("fork").Pool(n) as p:
            parts = list(p.imap_unordered(effects, sorted(names, key=lambda c: c not in ("C16", "C02", "C12", "C20", "C21", "C01")), chunksize=1))
    else:
        parts = [effects(c) for c in names]
    World.WATCH = False
    by, funcs = {}, set()
    for name, entries, seen, arrays, err, fs in parts:
        ck.count("calls followed", seen)
        ck.count("arrays watched", arrays)
        if err:
            ck.und("scenarios of " + name, "", err)
        funcs |= set(fs)
        for k, ws in entries.items():
            by.setdefault(k, set()).update(ws)
    ck.funcs |= funcs
    for (e, b), ws in sorted(by.items()):
        if not e.startswith("gpmp"):
            continue
        ck.count("entry points")
        if not ws:
            ck.ok(f"{e} leaves the caller's data unchanged {b}", where_of(ck, e), rule="no write reaches memory of the caller")
        for what, at, how in sorted(ws):
            ck.bad(f"{e} leaves the caller's data unchanged {b}", where_of(ck, at),
                   f"{at} writes into memory shared with {what if what.startswith('a') and ' ' in what else repr(what)}" + (f" ({how})" if how else ""),
                   "no write reaches memory of the caller")

"""Clause bookkeeping, verdicts, known findings and evidence for one property."""
import json
import os
import sys
import time
import traceback

from .terms import *
from . import terms as T
from .loader import Repo
from .vgraph import Opq, Phi, UNDEF, Obj, Ext, Func, Bound, Cls, Stop
from .ops import Unsup
from .world import World, opaque_in, settle, Res, OPAQUE_OPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
SPEC_DIR = os.path.join(ROOT, "spec")


# library functions known by name only: a value built from one that the specification does not use stays undecided
WEAK = {"cumsum", "cumprod", "reshape", "sort", "argsort", "scatter", "uniq", "nuniq", "quantile", "interp", "nz", "rprod", "rank",
        "opqcell", "qr_q", "qr_r", "svd_u", "svd_s", "svd_v", "eigh_w", "eigh_v", "condnum", "detsign"}


class AnchorLost(Exception):
    pass


def same_after_renorm(g, x):
    """Second comparison on rebuilt terms with common index variables."""
    try:
        vs = [ivar(fresh()) for _ in g.formals]
        a = renorm(subst(g.body, dict(zip(g.formals, vs))))
        b = renorm(subst(x.body, dict(zip(x.formals, vs))))
        if key(a) == key(b):
            return True
        d = psub(a, b)
        return not d.terms or not clear_denominators(d).terms
    except (TermLimit, RecursionError):
        return False


def same_entries(g, x, limit=64):
    """Entry by entry comparison of arrays of constant size."""
    ds = [d.const() if d is not None else None for d in x.dims]
    if not ds or None in ds:
        return False
    n = 1
    for d in ds:
        n *= int(d)
    if n > limit:
        return False
    try:
        for k in range(n):
            idx = []
            for d in reversed(ds):
                idx.append(num(k % int(d)))
                k //= int(d)
            idx = tuple(reversed(idx))
            a, b = renorm(at(g, idx)), renorm(at(x, idx))
            if not peq(a, b) and clear_denominators(psub(a, b)).terms:
                return False
        return True
    except (TermLimit, RecursionError):
        return False


def never_written(t):
    """Every opaque node of the value is an element, at a constant position, of an array created without contents."""
    n = 0
    for a in walk_atoms(t):
        if a.op == "uninit":
            ix = [p for p in a.args if isinstance(p, Poly)]
            if any(p.const() is None for p in ix):
                return False
            n += 1
        elif a.op in OPAQUE_OPS or (a.op == "ind" and a.args and a.args[0] == "opq"):
            return False
    return n > 0


class Check:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.t0 = time.time()
        self.clauses = []
        self.repo = Repo(os.environ.get("VERIF_REPO", "/repo"))
        self.repo.add_spec(SPEC_DIR)
        self.funcs = set()
        self.extfuncs = set()
        self.opaque = {}
        self.counts = {}
        self._worlds = {}
        self.known = load_known(prop)
        self.explanation = ""
        self.assumptions = []

    # ------------------------------------------------------------------ worlds
    def world(self, backend, fresh=False):
        if fresh or backend not in self._worlds:
            w = World(self.repo, backend)
            if fresh:
                self._worlds[(backend, len(self._worlds))] = w
            else:
                self._worlds[backend] = w
            return w
        return self._worlds[backend]

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # ------------------------------------------------------------------ clauses
    def add(self, clause, status, where="", detail="", rule=""):
        self.clauses.append(dict(clause=clause, status=status, where=where, detail=detail, rule=rule))

    def ok(self, clause, where="", detail="", rule=""):
        self.add(clause, "ok", where, detail, rule)

    def bad(self, clause, where="", detail="", rule=""):
        self.add(clause, "violation", where, detail, rule)

    def und(self, clause, where="", detail="", rule=""):
        self.add(clause, "undecided", where, detail, rule)

    def require(self, clause, cond, where="", detail="", rule=""):
        if cond is None:
            self.und(clause, where, detail, rule)
        elif cond:
            self.ok(clause, where, "", rule)
        else:
            self.bad(clause, where, detail, rule)

    def guard(self, clause, fn, where=""):
        """Run fn(); an analysis limitation makes the clause undecided."""
        try:
            return fn()
        except (Unsup, TermLimit) as e:
            self.und(clause, where, f"analysis limit: {e}")
        except AnchorLost as e:
            self.und(clause, where, f"anchor lost: {e}")
        except RecursionError:
            self.und(clause, where, "analysis limit: recursion")
        except Stop as e:
            x = e.args[0] if e.args else None
            if x is not None and isinstance(x.cls, Ext) and x.cls.name == "builtins.KeyError" and x.args:
                self.bad(clause, where, f"no entry {x.args[0]!r} in the result", "documented entries are present")
            else:
                self.und(clause, where, f"reading the result fails: {x}")
        except Exception as e:      # noqa: an engine failure never counts as a verdict
            tb = traceback.extract_tb(sys.exc_info()[2])
            self.und(clause, where, f"engine: {type(e).__name__}: {e} @ {tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}")
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()

    # ------------------------------------------------------------------ comparisons
    def compare(self, w, got, want, rg=None, rw=None):
        """('eq'|'diff'|'und', detail)."""
        it = w.it
        gs = rg.st if rg is not None else it.st
        ws = rw.st if rw is not None else it.st

        def conv(v, st):
            s = it.st
            it.st = st
            try:
                v = it.resolve(v)
                if isinstance(v, (bool, str)) or v is None or isinstance(v, (Opq, Ext, Func, Bound, Cls)):
                    return v
                if isinstance(v, tuple):
                    return v
                if isinstance(v, Obj) and v.kind == "list":
                    xs = it.to_list(v)
                    if xs is not None:
                        return tuple(xs)
                if isinstance(v, Obj):
                    return v
                try:
                    return settle(it.prims.as_ten(it, v))
                except Unsup:
                    return v
            finally:
                it.st = s
        g, x = conv(got, gs), conv(want, ws)
        if g is UNDEF:
            return "diff", "no value returned"
        if isinstance(x, tuple):
            if isinstance(g, Ten):
                s = it.st
                it.st = gs
                try:
                    xs = it.to_list(g)
                finally:
                    it.st = s
                g = tuple(xs) if xs is not None else g
            if not isinstance(g, tuple):
                return ("und", f"not a tuple: {short(g)}") if isinstance(g, (Opq, Phi)) else ("diff", f"not a tuple: {short(g)}")
            if len(g) != len(x):
                return "diff", f"{len(g)} values instead of {len(x)}"
            worst = ("eq", "")
            for k, (a, b) in enumerate(zip(g, x)):
                r, d = self.compare(w, a, b, rg, rw)
                if r == "diff":
                    return r, f"[{k}] {d}"
                if r == "und":
                    worst = (r, f"[{k}] {d}")
            return worst
        if isinstance(x, Ten):
            if isinstance(g, bool):
                g = it.prims.as_ten(it, g)
            if not isinstance(g, Ten):
                if g is None or isinstance(g, (str, Obj)):
                    return "diff", f"got {short(g)}"
                return "und", f"not numeric: {short(g)}"
            if g.rank != x.rank:
                o = opaque_in(g)
                return ("und" if o is not None else "diff"), f"rank {g.rank} instead of {x.rank}"
            for p, q in zip(g.dims, x.dims):
                if p is not None and q is not None and not peq(p, q):
                    if opaque_in(p) is not None or opaque_in(q) is not None or _soft(p) or _soft(q):
                        return "und", f"size {show(p)} / {show(q)}"
                    return "diff", f"size {show(p)} instead of {show(q)}"
            if ten_key(g) == ten_key(x) or same_after_renorm(g, x):
                return "eq", ""
            if same_entries(g, x):
                return "eq", ""
            T.UNROLL[0] = True
            try:
                if same_after_renorm(g, x) or same_entries(g, x):
                    return "eq", ""
            finally:
                T.UNROLL[0] = False
            gb = rename(g.body, dict(zip(g.formals, x.formals))) if g.formals else g.body
            o = opaque_in(g) or opaque_in(x)
            if o is not None and never_written(g) and opaque_in(x) is None:
                return "diff", "reads an array element that was never stored"
            if o is not None:
                return "und", f"opaque node {show(atom_poly(o))[:200] if isinstance(o, Atom) else short(o)}"
            extra = {a.op for a in walk_atoms(g)} & WEAK - {a.op for a in walk_atoms(x)}
            if extra:
                return "und", f"computed with {sorted(extra)}, which the rules do not relate to the specification"
            return "diff", "value graph differs; " + diff_text(gb, x.body)
        if isinstance(g, (Opq, Phi)) or isinstance(x, (Opq, Phi)):
            return ("eq", "") if it.vkey(g) == it.vkey(x) else ("und", f"{short(g)} / {short(x)}")
        if isinstance(g, Obj) or isinstance(x, Obj):
            return ("eq", "") if g is x else ("und", f"{short(g)} / {short(x)}")
        if isinstance(g, (Func, Bound, Cls)) or isinstance(x, (Func, Bound, Cls)):
            return ("eq", "") if it.vkey(g) == it.vkey(x) else ("und", f"{short(g)} / {short(x)}")
        if isinstance(g, Ten) and x is None:
            return "diff", "a value where None is expected"
        return ("eq", "") if g == x else ("diff", f"{short(g)} instead of {short(x)}")

    def equal(self, clause, w, got, want, rg=None, rw=None, where="", rule=""):
        r, d = self.compare(w, got, want, rg, rw)
        self.count("value graphs compared")
        self.add(clause, {"eq": "ok", "diff": "violation", "und": "undecided"}[r], where, d, rule or "value graph equals specification")
        return r

    def equal_any(self, clause, w, got, wants, rg=None, where="", rule=""):
        """wants: [(value, Res)] equivalent forms; a violation needs a difference from all of them."""
        ds = []
        for v, rw in wants:
            r, d = self.compare(w, got, v, rg, rw)
            if r == "eq":
                ds = [(r, "")]
                break
            ds.append((r, d))
        self.count("value graphs compared")
        r, d = ds[0] if len(ds) == 1 else next((x for x in ds if x[0] == "und"), ds[0])
        self.add(clause, {"eq": "ok", "diff": "violation", "und": "undecided"}[r], where, d, rule or "value graph equals specification")
        return r

    def returns(self, clause, res, where=""):
        """The call returns on every path (no unconditional exception)."""
        if res.returned:
            return True
        self.bad(clause, where, "no path returns a value: " + "; ".join(str(e) for _, e, _ in res.raises[:3]), "call returns")
        return False

    # ------------------------------------------------------------------ verdict
    def finish(self):
        seed = int(os.environ.get("VERIF_SEED", "1"))
        for w in self._worlds.values():
            self.funcs |= set(w.it.calls)
            self.extfuncs |= set(w.it.extcalls)
            for k, v in w.it.opaque_reasons.items():
                self.opaque[k] = self.opaque.get(k, 0) + v
        viol, known = [], []
        for c in self.clauses:
            if c["status"] == "violation":
                k = match_known(self.known, c)
                (known if k else viol).append((c, k))
        nok = sum(c["status"] == "ok" for c in self.clauses)
        und = [c for c in self.clauses if c["status"] == "undecided"]
        repofuncs = sorted(f for f in self.funcs if f.startswith("gpmp"))
        cov = dict(self.counts)
        cov.update(
            explanation=self.explanation or "Static analysis of the current sources; see DESIGN.md.",
            clauses_checked=len(self.clauses), clauses_holding=nok, clauses_undecided=len(und),
            modules_parsed=sum(1 for m in self.repo.modules if m.startswith("gpmp")),
            functions_analysed=len(repofuncs), library_primitives_modelled=len(self.extfuncs),
            rules=sorted({c["rule"] for c in self.clauses if c["rule"]}),
            functions=repofuncs[:400],
            results=[dict(clause=c["clause"], status=c["status"], where=c["where"], **({"detail": c["detail"][:400]} if c["detail"] else {}))
                     for c in sorted(self.clauses, key=lambda c: c["status"] == "ok")][:220],
            clauses_by_construct={k: sum(c["where"] == k for c in self.clauses) for k in sorted({c["where"] for c in self.clauses})},
        )
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=seed, level="other",
                  coverage=cov, wall_s=round(time.time() - self.t0, 3), violations=len(viol),
                  assumptions=self.assumptions or ["library functions behave as modelled in sa/prims.py",
                                                   "real arithmetic (rounding is not modelled)"])
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for t in dict.fromkeys(k["what"] for _, k in known):
            print(f"KNOWN-FINDING: property={self.prop} {t}")
        print(f"{self.prop}: {len(self.clauses)} clauses, {nok} hold, {len(viol)} violated, {len(known)} known findings, "
              f"{len(und)} undecided; {len(repofuncs)} functions analysed")
        if os.environ.get("VERIF_VERBOSE"):
            for c in self.clauses:
                print("  ", c["status"], c["clause"], c["where"], c["detail"][:600])
        if viol:
            rp = os.path.join(EVID, self.prop + ".violation.json")
            with open(rp, "w") as f:
                json.dump(dict(property=self.prop, rerun=f"python3 check.py {self.prop}",
                               violations=[c for c, _ in viol]), f, indent=1)
            for c, _ in viol:
                print(f"  {c['clause']} at {c['where']}: {c['detail'][:600]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if nok == 0:
            print(f"{self.prop}: no clause could be decided")
            for c in und[:20]:
                print("   undecided", c["clause"], c["detail"][:300])
            return 2
        return 0


def _soft(p):
    return any(a.op == "sym" and "?" in str(a.args[0]) for a in walk_atoms(p))


def ten_key(t):
    return key(Ten(t.formals, t.dims, t.body))


def short(v):
    return str(v)[:160]


def diff_text(g, x):
    gm = {key(m): (m, c) for m, c in g.terms}
    xm = {key(m): (m, c) for m, c in x.terms}
    extra = [show(Poly((gm[k],))) for k in gm if k not in xm or gm[k][1] != xm[k][1]]
    miss = [show(Poly((xm[k],))) for k in xm if k not in gm or gm[k][1] != xm[k][1]]
    return "computed: " + " | ".join(e[:260] for e in extra[:3]) + " ; expected: " + " | ".join(e[:260] for e in miss[:3])


# ---------------------------------------------------------------------- known findings
def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == prop]


def match_known(known, c):
    for k in known:
        if k["clause"] == c["clause"] and k.get("where", c["where"]) == c["where"] and k.get("match", "") in c["detail"]:
            return k
    return None

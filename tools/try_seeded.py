"""Runs checks on scratch copies of /repo with each planted change: python3 tools/try_seeded.py [ID-prefix] [--all]

Without --all only the check of the change's own property runs."""
import concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ALL = "--all" in sys.argv
props = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]


def one(d):
    i = os.path.basename(d)
    p = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="try_")
    try:
        shutil.copytree("/repo/gpmp", t + "/r/gpmp")
        r = subprocess.run(["git", "apply", "--directory=r", "--unsafe-paths", d + "/patch.diff"], cwd=t, capture_output=True, text=True)
        if r.returncode:
            return i, p, "patch does not apply " + r.stderr[:100], {}
        out, t0 = {}, time.time()
        for q in (props if ALL else [p]):
            if not os.path.exists(f"{ROOT}/checks/{q}.py"):
                out[q] = "-"
                continue
            c = subprocess.run(["python3", "check.py", q], cwd=ROOT, capture_output=True, text=True, timeout=900,
                               env=dict(os.environ, VERIF_REPO=t + "/r", VERIF_EVIDENCE=t + "/e"))
            out[q] = c.returncode
        return i, p, f"{time.time()-t0:.0f}s", out
    finally:
        shutil.rmtree(t)


ds = sorted(d for d in glob.glob(ROOT + "/seeded/*") if os.path.basename(d).startswith(args[0] if args else ""))
with cf.ThreadPoolExecutor(7) as ex:
    for i, p, note, out in ex.map(one, ds):
        own = {1: "CAUGHT", 0: "missed"}.get(out.get(p), out.get(p))
        print(f"{i:34s} {p} {own} {note}" + (f" caught by {[q for q in out if out[q] == 1]} errors {[q for q in out if out[q] not in (0, 1, '-')]}" if ALL else ""), flush=True)

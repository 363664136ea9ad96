"""Records a planted change: python3 tools/plant.py SPEC.py

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python text) and optionally BACKENDS.
The change is made in a scratch copy of /repo; it is kept in /verif/seeded/ID only if the stable tests still pass there, the
demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys, runpy

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig",
           GPMP_LOG_LEVEL="WARNING", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
SH = '''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero when it is broken. Run in the repository's root.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 GPMP_LOG_LEVEL=WARNING MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
for b in %s; do
  GPMP_BACKEND=$b timeout 140 /opt/venv/bin/python "$D/demo.py" || exit 1
done
'''


def stable(copy):
    import xml.etree.ElementTree as ET
    base = json.load(open("/opt/vp/BASELINE.json"))
    ps = []
    for b in ("numpy", "torch"):
        ps.append(subprocess.Popen(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300",
                                    "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitprefix=" + b,
                                    f"--junitxml={copy}/../{os.path.basename(copy)}.{b}.xml"], cwd=copy, env=dict(ENV, GPMP_BACKEND=b),
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in ps:
        p.wait()
    sys.path.insert(0, "/opt/vp")
    out = f"/tmp/{os.path.basename(copy)}.json"
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, f"junit:{copy}.*.xml"], stdout=subprocess.DEVNULL)
    res = json.load(open(out))
    os.remove(out)
    for b in ("numpy", "torch"):
        os.remove(f"{copy}.{b}.xml")
    return base, res


def main():
    sp = runpy.run_path(sys.argv[1])
    ID = sp["ID"]
    copy = f"/tmp/plant_{ID}"
    if os.path.exists(copy):
        shutil.rmtree(copy)
    shutil.copytree("/repo", copy, symlinks=True)
    d = f"/tmp/demo_{ID}"
    os.makedirs(d, exist_ok=True)
    try:
        open(f"{d}/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + sp["DEMO"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(SH % " ".join(sp.get("BACKENDS", ("numpy", "torch"))))
        r0 = subprocess.run(["bash", f"{d}/demo.sh"], cwd=copy, env=ENV, capture_output=True, text=True)
        if r0.returncode:
            sys.exit(f"{ID}: demo fails on the unchanged tree\n" + r0.stdout[-1500:] + r0.stderr[-1500:])
        for f, old, new in sp["EDITS"]:
            s = open(f"{copy}/{f}").read()
            if s.count(old) != 1:
                sys.exit(f"{ID}: {f}: text found {s.count(old)} times")
            open(f"{copy}/{f}", "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=copy, capture_output=True, text=True).stdout
        r1 = subprocess.run(["bash", f"{d}/demo.sh"], cwd=copy, env=ENV, capture_output=True, text=True)
        if r1.returncode == 0:
            sys.exit(f"{ID}: demo still passes with the change")
        if "--notest" not in sys.argv:
            base, res = stable(copy)
            bad = [t for t in base["stable"] if t not in set(res["passed"])]
            if bad:
                sys.exit(f"{ID}: tests fail {bad[:5]}")
        out = f"{ROOT}/seeded/{ID}"
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(patch)
        shutil.copy(f"{d}/demo.py", out)
        shutil.copy(f"{d}/demo.sh", out)
        json.dump(dict(property=sp["PROPERTY"], needs=sp["NEEDS"], what_it_breaks=sp["BREAKS"]), open(f"{out}/meta.json", "w"), indent=1)
        print(ID, "kept; demo:", (r1.stderr or r1.stdout).strip().splitlines()[-1:])
    finally:
        shutil.rmtree(copy)
        shutil.rmtree(d)


main()

"""plant.py [IDs]: (re)generate seeded/<id>/ from tools/bugs.py, confirm the demonstration in a scratch copy and, with
   --check, run the property's quick check on the scratch copy; --tests applies all patches together and runs the test suite."""
import json, os, shutil, subprocess, sys
V = "/verif"
sys.path.insert(0, V + "/tools")
from bugs import BUGS
SC = "/tmp/plant/repo"
args = [a for a in sys.argv[1:] if not a.startswith("--")]


def sh(c, cwd=SC, env=None, t=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", JAX_PLATFORMS="cpu")
    e.update(env or {})
    return subprocess.run(c, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)


os.makedirs("/tmp/plant", exist_ok=True)
sh("rsync -a --delete /repo/ %s/ || (rm -rf /tmp/plant/repo && cp -a /repo %s)" % (SC, SC), cwd="/tmp")
sh("git checkout -q -- . && git clean -fdq")
patches = []
for b in BUGS:
    if args and b["id"] not in args:
        continue
    d = "%s/seeded/%s" % (V, b["id"])
    os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- .")
    for f, old, new in b["edits"]:
        s = open(SC + "/" + f).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(SC + "/" + f, "w").write(s.replace(old, new))
    diff = sh("git diff").stdout
    # changed lines must be original ones
    sh("git checkout -q -- .")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# fails when the property is broken\nD="$(cd "$(dirname "$0")" && pwd)"\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 JAX_PLATFORMS=cpu\n'
        'exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d)
    a = sh("git apply %s/patch.diff" % d)
    r1 = sh("bash %s/demo.sh" % d)
    ok = r0.returncode == 0 and r1.returncode != 0 and a.returncode == 0
    print(b["id"], b["property"], "demo", "ok" if ok else "BAD clean=%d patched=%d %s" % (r0.returncode, r1.returncode, (r0.stderr + a.stderr)[-400:]), end=" ")
    if not ok:
        print(); sh("git checkout -q -- ."); continue
    patches.append(d + "/patch.diff")
    if "--check" in sys.argv:
        r = sh("/opt/venv/bin/python -m symx.run %s quick" % b["property"], cwd=V, env=dict(PYTHONPATH="/verif:" + SC, NUMBA_DISABLE_JIT="1",
               OMP_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", SYMX_REPO=SC))
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print("CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, (v or [""])[0][:100], r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else r.stderr[-300:], end="")
    print(flush=True)
    sh("git checkout -q -- .")
if "--tests" in sys.argv:
    for p in patches:
        r = sh("git apply " + p)
        if r.returncode:
            print("conflict, skipped in the batch:", p)
    # no rebuild: pure python
    r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --timeout=600 --runslow -n 8 --continue-on-collection-errors "
           "--ignore=pystatsm/tests/glmm_test.py --tb=short -o junit_family=xunit2 --junitxml=/tmp/plant/junit.xml pystatsm", t=1500)
    r = sh("python3 /opt/vp/results.py /tmp/plant/out.json junit:/tmp/plant/junit.xml; python3 /verif/tools/cmpbase.py /tmp/plant/out.json")
    print(r.stdout[-1500:], r.stderr[-500:])
    sh("git checkout -q -- .")

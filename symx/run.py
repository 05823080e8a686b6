import os
import sys
os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
# z3, mpmath, sympy live in the tooling venv; numpy and friends stay those of the repository's venv
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import importlib
import numpy
import numba
# with compilation disabled numba's scalar types are plain objects: let numpy read them as the dtypes they stand for
for _t in ("int32", "int64", "float32", "float64"):
    getattr(numba, _t).dtype = numpy.dtype(_t)


def main():
    pid = sys.argv[1]
    from symx import harness
    mod = importlib.import_module("checks." + pid.lower())
    if len(sys.argv) > 2 and sys.argv[2] == "--replay":
        sys.exit(harness.replay(sys.argv[3], mod))
    if len(sys.argv) > 2 and sys.argv[2] == "--only":
        hs = [h for h in mod.HARNESSES if h.name.startswith(sys.argv[3])]
        out = harness.run_all(hs, 1, False)
        for q in out:
            if "crash" in q:
                print(q)
                continue
            print("%-50s paths %d  %d/%d  wall %.1f %s%s" % (q["name"], q["paths"], q["discharged"], q["obligations"], q.get("wall", 0),
                  q["engine"] or "", " TRUNC" if q["truncated"] else ""))
            for i in q["inconclusive"][:6]:
                print("     inc:", i[:250])
            for v in q["violations"][:6]:
                print("     VIOL:", v["claim"], str(v["detail"])[:160])
            for m in q["mismatch"][:3]:
                print("     mismatch:", str(m)[:200])
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(harness.main_check(pid, mod, tier))


main()

#!/usr/bin/env python3
"""run.py <ID> quick|thorough   decide one property
   run.py setup                 build everything
   run.py replay <file>         run the recorded failing requests again and print the answers
   run.py all [quick|thorough]  every check in turn"""
import importlib, json, os, sys, subprocess, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import core

MODULES = {"E": "expr_checks", "G": "codegen_checks", "L": "lib_checks", "A": "accuracy_checks"}


def run(pid, tier):
    ctx = core.Ctx(pid, tier)
    try:
        core.build()
        mod = importlib.import_module("gentest_checks" if pid in ("L07", "L08") else MODULES[pid[0]])
        try:
            getattr(mod, "check_" + pid)(ctx)
        except core.StopCheck:
            pass
        return ctx.finish()
    except core.CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print("CHECK-ERROR %s" % pid)
        return 2


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        core.build()
        return 0
    if a[0] == "replay":
        data = json.load(open(a[1]))
        for v in data["violations"]:
            print(v["what"])
            for q in v.get("requests", []):
                r = core.vh([q])[0]
                print("   ", q, "->", r.status, list(r))
        return 0
    if a[0] == "all":
        tier = a[1] if len(a) > 1 else "quick"
        man = json.load(open(os.path.join(core.VERIF, "MANIFEST.json")))
        bad = 0
        for c in man["checks"]:
            r = subprocess.run([sys.executable, __file__, c["property"], tier])
            if r.returncode:
                print("EXIT %d %s" % (r.returncode, c["property"]))
                bad += 1
        return 1 if bad else 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())

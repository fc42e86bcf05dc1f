#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's working tree."""
import importlib, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True


def main():
    args = sys.argv[1:]
    prop = args[0]
    if "--tier" in args:
        os.environ["VERIF_TIER"] = args[args.index("--tier") + 1]
    import common
    mod = importlib.import_module(prop.lower())
    ck = common.Check(prop, level=getattr(mod, "LEVEL", "exploration"))
    os.makedirs(common.BUILD, exist_ok=True)
    try:
        mod.check(ck)
        rc = ck.finish(**getattr(mod, "FINISH", {}))
    except common.HarnessError as e:
        if ck.viol:
            print("note: stopped early: %s" % e)
            rc = ck.finish(min_nontrivial=0)
        else:
            print("%s: NO ANSWER: %s" % (prop, e))
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)


main()

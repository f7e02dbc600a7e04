#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common as C


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    import checks
    rep = C.Report(pid, tier, "")
    try:
        checks.CHECKS[pid](rep, tier)
    except C.Broken as e:
        C.log(f"ERROR {pid}: {e}")
        if rep.viol:
            return rep.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return rep.finish()


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        C.engine()
        C.rt_obj()
        import facts
        facts.driver()
        sys.exit(0)
    sys.exit(main())

"""check.py Pnn: decides one property on the current working tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import mir


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    rep = lib.Report(pid)
    mod = importlib.import_module("rules." + pid.lower())
    an = lib.Analysis()
    mod.check(an, rep, tier)
    if not rep.obl:
        print("no obligation was found for " + pid)
        return 3
    return lib.finish(rep, an, mod.RULE, tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except mir.BuildError as e:
        print("the working tree could not be analysed:\n" + str(e))
        rc = 4
    except lib.Missing as e:
        print("anchor not found: " + str(e))
        rc = 5
    except Exception:
        traceback.print_exc()
        rc = 6
    sys.exit(rc)

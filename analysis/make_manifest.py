"""Writes MANIFEST.json from properties.jsonl and the rules that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

NOT_APPLICABLE = {}


def main():
    checks, na = [], []
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        pid = json.loads(line)["id"]
        path = os.path.join(HERE, "rules", pid.lower() + ".py")
        if pid in NOT_APPLICABLE or not os.path.exists(path):
            na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no rule has been written for it yet, so nothing is claimed")})
            continue
        mod = importlib.import_module("rules." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "./check.sh " + pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": getattr(mod, "TECHNIQUE", "abstract interpretation of the compiler's MIR"),
            "level": "other",
            "level_note": "Static analysis over every path of the analysed functions, for all inputs. " + mod.RULE,
        })
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks were added to the repository", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "Every check compiles /repo's working tree with a compiler driver that dumps type-checked MIR, "
                 "and decides its rule on that dump without running the library. See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print("%d checks, %d not applicable" % (len(checks), len(na)))


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's working tree
   check.py replay FILE                 run the behaviours of a replay file again"""
import json, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, registry  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if sys.argv[1] == "replay":
        rp = json.load(open(sys.argv[2]))
        run = core.Run(rp["property"], "quick", rp["seed"])
        try:
            for v in rp["violations"]:
                print(v["reason"])
                for o in run.drive(v["vector"].get("mode") or rp["mode"], [v["vector"]]):
                    print(json.dumps(o, indent=1, ensure_ascii=False))
        finally:
            run.cleanup()
        return 0
    if sys.argv[1] == "setup":
        import shutil
        for t in ("tlc", "java", "python3"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    run = core.Run(prop, tier, seed)
    try:
        chk = registry.CHECKS[prop]
        chk["run"](run)
        run.assumptions += chk.get("assumptions", [])
        return run.finish("model_checking", chk, chk.get("mode", ""))
    except core.Infra as e:
        print(f"ERROR property={prop} {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.cleanup()


if __name__ == "__main__":
    sys.exit(main())

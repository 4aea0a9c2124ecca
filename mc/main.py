import ast
import importlib
import json
import os
import sys
import traceback
import warnings


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    warnings.simplefilter("ignore")
    from mc import core
    import numpy as np
    np.seterr(all="ignore")
    mod = importlib.import_module("mc." + prop.lower())
    warnings.simplefilter("ignore")
    ctx = core.Ctx(prop, tier, seed)
    if len(sys.argv) > 3 and sys.argv[2] == "replay":
        with open(sys.argv[3]) as f:
            rec = json.load(f)
        res = ctx.case(getattr(mod, rec["case"]), *ast.literal_eval(rec["args"]))
        for v in ctx.stats.violations.values():
            print(v["message"]), print(v["traceback"])
            print("VIOLATION property=%s replay=%s" % (prop, sys.argv[3]))
            return 1
        for e in ctx.stats.errors:
            print(e)
            return 2
        print("no violation; result: %r" % (res,))
        return 0
    try:
        mod.explore(ctx)
    except Exception as e:
        fr = core._from_repo(sys.exc_info()[2])
        if fr is None:
            raise
        ctx._violate("exception:explore:%s:%s" % (type(e).__name__, fr.name), str(e), mod.explore, (), traceback.format_exc())
    return ctx.finish(mod.LEVEL, mod.RULE, getattr(mod, "ASSUMPTIONS", ()), getattr(mod, "EXHAUSTIVE", True))


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

"""One harness case: python3-vt -m symx.worker MODULE HARNESS CASE TIER BUDGET OUT"""
import importlib
import json
import os
import resource
import sys
import warnings


def main():
    mod, hname, case, tier, budget, out = sys.argv[1:7]
    os.environ["VERIF_TIER"] = tier
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    from symx import loader

    loader.install_symbolic()
    from symx import harness as H

    importlib.import_module(mod)
    h = H.REGISTRY[hname]
    res = H.explore(h, int(case), tier, mod, float(budget))
    res["sources"] = sorted(loader.sources().values())
    with open(out, "w") as f:
        json.dump(res, f, default=str)


if __name__ == "__main__":
    main()

"""Concrete replay: python -m symx.replay FILE   or   --serve MODULE"""
import json
import os
import sys


def main():
    from symx import loader

    real_stdout = sys.stdout
    sys.stdout = open(os.devnull, "w")
    loader.install_concrete()
    from symx import harness as H

    if sys.argv[1] == "--serve":
        mod = sys.argv[2]
        for line in sys.stdin:
            q = json.loads(line)
            try:
                out = H.run_concrete(mod, q["h"], q["case"], q["inputs"], q["tier"], q.get("tolscale", 0.5))
            except Exception as e:
                out = {"error": f"{type(e).__name__}: {e}"}
            real_stdout.write(json.dumps(out, default=str) + "\n")
            real_stdout.flush()
        return 0
    q = json.load(open(sys.argv[1]))
    os.environ["VERIF_TIER"] = q["tier"]
    out = H.run_concrete(q["check_module"], q["harness"], q["case"], q["inputs"], q["tier"])
    sys.stdout = real_stdout
    print(json.dumps(out, indent=1, default=str))
    return 1 if out.get("failures") or out.get("exception") else 0


if __name__ == "__main__":
    sys.exit(main())

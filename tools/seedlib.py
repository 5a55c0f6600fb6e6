"""Plant a bug: build /verif/seeded/<id>, confirm it in a scratch copy, and run the property's check on that copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "e07aec0"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return r.returncode, r.stdout


def scratch():
    d = tempfile.mkdtemp(prefix="seed_")
    sh(f"cp -a /repo/. {d}/repo")
    return d


def seed(id, prop, edits, demo, needs, breaks, stubs=True):
    out = os.path.join(HERE, "seeded", id)
    d = scratch()
    repo = d + "/repo"
    try:
        for f, a, b in edits:
            s = open(f"{repo}/{f}").read()
            if s.count(a) != 1:
                print(id, "EDIT does not match once:", s.count(a), repr(a[:60]))
                return
            rc, o = sh(f"git -C /repo show {BASE}:{f}")
            for line in a.splitlines():
                if line.strip() and line not in o:
                    print(id, "WARNING line not original:", line)
            open(f"{repo}/{f}", "w").write(s.replace(a, b))
        rc, diff = sh("git diff", cwd=repo)
        if os.path.exists(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        if stubs:
            shutil.copytree(HERE + "/envstubs", out + "/stubs", ignore=shutil.ignore_patterns("__pycache__"))
        open(out + "/demo.py", "w").write(demo)
        open(out + "/demo.sh", "w").write(
            '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
            'export PYTHONPATH="$PWD:$d/stubs"\nexec /opt/venv/bin/python "$d/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        ok = True
        rc, o = sh(f"bash {out}/demo.sh", cwd="/repo")
        if rc:
            ok = False
            print(id, "demo fails on the unchanged tree:", o[-600:])
        rc, o = sh(f"bash {out}/demo.sh", cwd=repo)
        if rc == 0:
            ok = False
            print(id, "demo passes with the patch")
        last = o.strip().splitlines()[-1:] if o.strip() else []
        for f, _, _ in edits:
            rc, o = sh(f"{PY} -m py_compile {f}", cwd=repo)
            if rc:
                ok = False
                print(id, "does not compile", o)
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
        rc, o = sh(f"{PY} -m pytest -q -p no:cacheprovider tests/test_graph_handler.py", cwd=repo, env=env)
        if rc:
            ok = False
            print(id, "stable test fails", o[-400:])
        env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=d)
        rc, o = sh(f"python3 run_check.py {prop}", cwd=HERE, env=env)
        record(id, prop, rc == 1, o) if ok else None
        lines = [x for x in o.splitlines() if not x.startswith("KNOWN")]
        print(id, prop, "CONFIRMED" if ok else "REJECTED", "caught" if rc == 1 else f"MISSED rc={rc}", last,
              "|", [x for x in lines if "VIOLATION" in x][:2], lines[-1:] if rc != 1 else "")
        if rc != 1:
            print("   ", [x[:150] for x in lines[:4]])
    finally:
        shutil.rmtree(d)


def record(id, prop, caught, out):
    import re
    p = HERE + "/tools/seed_results.json"
    d = json.load(open(p)) if os.path.exists(p) else {}
    hs = []
    for m in re.finditer(r"^  (\w+)\[\d+\] ", out, re.M):
        if m.group(1) not in hs:
            hs.append(m.group(1))
    d[id] = {"property": prop, "caught": caught, "by": hs[:4]}
    json.dump(d, open(p, "w"), indent=1, sort_keys=True)


def recheck(ids=None):
    """run each seeded bug's check on a scratch copy with the bug applied"""
    for id in sorted(os.listdir(HERE + "/seeded")):
        if ids and id not in ids:
            continue
        out = os.path.join(HERE, "seeded", id)
        meta = json.load(open(out + "/meta.json"))
        d = scratch()
        try:
            rc, o = sh(f"git apply {out}/patch.diff", cwd=d + "/repo")
            if rc:
                print(id, "does not apply", o)
                continue
            rc0, _ = sh(f"bash {out}/demo.sh", cwd="/repo")
            rc1, _ = sh(f"bash {out}/demo.sh", cwd=d + "/repo")
            rc, o = sh(f"python3 run_check.py {meta['property']}", cwd=HERE,
                       env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_EVIDENCE=d))
            record(id, meta["property"], rc == 1, o)
            print(id, meta["property"], "demo", rc0, rc1, "caught" if rc == 1 else f"MISSED rc={rc}", flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    recheck(sys.argv[1:])

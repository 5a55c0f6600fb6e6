#!/usr/bin/env python3
"""run_check.py PROPERTY [--tier quick|thorough] [--only HARNESS]

Decides one property by symbolic execution of /repo's current code and SMT solving.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: error of the check.
"""
import argparse
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_SEED"] = str(seed)
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    modname = f"checks.{a.prop.lower()}"
    from symx import harness as H

    mod = importlib.import_module(modname)
    jobs = []
    total_budget = 300 if tier == "quick" else 3600
    total_budget = getattr(mod, "BUDGET", {}).get(tier, total_budget)
    for h in H.REGISTRY.values():
        if a.only and not re.search(a.only, h.name):
            continue
        if h.opts.get("tier") == "thorough" and tier == "quick":
            continue
        for i in range(len(h.cases)):
            jobs.append((h, i))
    jobs.sort(key=lambda j: -j[0].opts.get("weight", 1))
    tmp = tempfile.mkdtemp(prefix=f"symx_{a.prop}_")
    py = shutil.which("python3-vt") or sys.executable
    running, results, errors = [], [], []
    pending = list(jobs)
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    hard = t0 + total_budget
    while pending or running:
        while pending and len(running) < nproc:
            h, i = pending.pop(0)
            budget = h.opts.get("budget", 60) if tier == "quick" else h.opts.get("budget_thorough", 600)
            left = max(5.0, hard - time.time())
            b = min(budget, left)
            out = os.path.join(tmp, f"{h.name}_{i}.json")
            p = subprocess.Popen([py, "-m", "symx.worker", modname, h.name, str(i), tier, str(b), out],
                                 env=env, cwd=HERE, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"))
            running.append((p, h, i, out, time.time() + b * 1.5 + 90))
        time.sleep(0.05)
        for r in list(running):
            p, h, i, out, dl = r
            if p.poll() is None:
                if time.time() > dl:
                    p.kill()
                    p.wait()
                else:
                    continue
            running.remove(r)
            if os.path.exists(out):
                results.append(json.load(open(out)))
                if a.v:
                    x = results[-1]
                    print(f"  {h.name}[{i}] paths={x['paths']} obl={x['discharged']}/{x['obligations']} "
                          f"viol={len(x['violations'])} spur={x['spurious_total']} inc={len(x['inconclusive'])} "
                          f"unsup={len(x['unsupported'])} wit={x['witness']} trunc={x['truncated']} {x['wall_s']:.1f}s",
                          flush=True)
            else:
                err = open(out + ".err").read()[-1500:]
                errors.append(dict(harness=h.name, case=i, error="killed/timeout" if p.returncode in (-9, None) else err))
                if a.v:
                    print(f"  {h.name}[{i}] ERROR {err}", flush=True)
    shutil.rmtree(tmp, ignore_errors=True)

    # ---------------------------------------------------------------- verdicts
    known = load_known(a.prop)
    viol, known_hit = [], []
    for r in results:
        for v in r["violations"]:
            k = match_known(known, r, v)
            if k is not None:
                known_hit.append(k)
            else:
                viol.append((r, v))
    rdir = os.path.join(HERE, "replays", a.prop)
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        os.unlink(os.path.join(rdir, old))
    tot = dict(paths=0, checked_paths=0, obligations=0, discharged=0)
    stats = {}
    for r in results:
        for k in tot:
            tot[k] += r[k]
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    incon = [(r["harness"], x) for r in results for x in r["inconclusive"]]
    unsup = [(r["harness"], x) for r in results for x in r["unsupported"]]
    spur = [(r["harness"], x) for r in results for x in r["spurious"]]
    trunc = [f"{r['harness']}[{r['case']}]" for r in results if r["truncated"]]
    byh = {}
    for r in results:
        d = byh.setdefault(r["harness"], dict(functions=r["functions"], bounds=r["bounds"], cases=0, paths=0,
                                              obligations=0, discharged=0, inconclusive=0, witness=False,
                                              labels={}, solver_s=0.0))
        d["cases"] += 1
        d["paths"] += r["paths"]
        d["obligations"] += r["obligations"]
        d["discharged"] += r["discharged"]
        d["inconclusive"] += len(r["inconclusive"])
        d["witness"] = d["witness"] or r["witness"]
        d["solver_s"] = round(d["solver_s"] + r["stats"]["solver_s"], 2)
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            samples.append(dict(harness=r["harness"], case=r["case"], **s))
    validated = sum(1 for s in samples if not s.get("failures") and not s.get("exception"))
    cov = dict(
        states=tot["paths"],
        transitions=stats.get("branch_queries", 0) + stats.get("queries", 0),
        traces_validated_against_impl=validated,
        samples=samples[:12],
        obligations=tot["obligations"],
        discharged=tot["discharged"],
        meaning="states = symbolic paths of the real code executed; transitions = solver queries (branch feasibility "
                "+ obligation); traces_validated = solver models of reachable checked paths replayed on the real "
                "float code without failure; obligations counted per path",
        solver=dict(queries=stats.get("queries", 0), unsat=stats.get("unsat", 0), sat=stats.get("sat", 0),
                    unknown=stats.get("unknown", 0), branch_queries=stats.get("branch_queries", 0),
                    solver_seconds=round(stats.get("solver_s", 0.0), 2)),
        harnesses=byh,
        inconclusive=[f"{h}: {x}" for h, x in incon][:60],
        unsupported=[f"{h}: {x}" for h, x in unsup][:30],
        spurious=[dict(harness=h, label=x["label"]) for h, x in spur][:30],
        truncated=trunc,
        errors=errors,
        encoded_sources=sorted({s for r in results for s in r.get("sources", []) if not s.startswith(HERE)}),
    )
    ev = dict(property=a.prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    for k in sorted(set(known_hit)):
        print(f"KNOWN-FINDING: property={a.prop} {k}")
    for h, x in incon[:20]:
        print(f"INCONCLUSIVE {h}: {x}")
    for h, x in unsup[:10]:
        print(f"UNSUPPORTED {h}: {x}")
    for h, x in spur[:10]:
        print(f"NOT-REPRODUCED {h}: {x['label']} {json.dumps(x, default=str)[:1500] if a.v else ''}")
    for e in errors:
        print(f"ERROR {e['harness']}[{e['case']}]: {e['error'][-600:]}")
    print(f"{a.prop} {tier}: {len(results)} harness cases, {tot['paths']} paths, {tot['discharged']}/{tot['obligations']} "
          f"obligations discharged, {len(incon)} inconclusive, {stats.get('queries', 0)}+{stats.get('branch_queries', 0)} "
          f"queries, {time.time() - t0:.1f}s")
    if viol:
        for n, (r, v) in enumerate(viol):
            path = os.path.join(rdir, f"{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=a.prop, check_module=modname, harness=r["harness"], case=r["case"], tier=tier,
                               label=v["label"], inputs=v["inputs"], observed=v["replay"],
                               how="python -m symx.replay FILE (cwd /verif, PYTHONPATH=/verif) re-runs the real code"),
                          f, indent=1, default=str)
            print(f"  {r['harness']}[{r['case']}] {v['label']}: inputs={json.dumps(v['inputs'])[:400]} "
                  f"observed={json.dumps(v['replay'].get('failures') or v['replay'].get('exception'), default=str)[:300]}")
        print(f"VIOLATION property={a.prop} replay={os.path.join(rdir, '0.json')}")
        return 1
    # a case that stays undecided is listed above and in the evidence; only a check that decided nothing fails
    for hn, d in byh.items():
        if not d["discharged"]:
            print(f"UNDECIDED {hn}: nothing discharged")
        elif not d["witness"]:
            print(f"NO-WITNESS {hn}: no model of a checked path was found")
    if not tot["discharged"]:
        print("CHECK-ERROR nothing was decided")
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "floats are interpreted as mathematical reals; a counterexample must break the property by more than the stated "
    "margin (1e-4 unless noted) and must reproduce on the float code",
    "exp/log/non-integer powers and sin/cos/arccos/arctan2 are axiomatised (sound over-approximation: identities, "
    "monotonicity, range and sign facts)",
    "vartools and dynamic_obstacle_avoidance are absent from the sandbox: /verif/envstubs implements their documented "
    "contract; obstacles are nondeterministic stubs where the harness says so",
]


def load_known(prop):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def match_known(known, r, v):
    for k in known:
        if k["harness"] == r["harness"] and (k["label"] == v["label"]):
            if "case" in k and k["case"] != r["case"]:
                continue
            if "observed" in k:
                o = json.dumps(v["replay"].get("failures") or "") + str(v["replay"].get("exception") or "")
                if k["observed"] not in o:
                    continue
            return k["what"]
    return None


if __name__ == "__main__":
    sys.exit(main())

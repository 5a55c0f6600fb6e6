"""Single source for properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "nonlinear_avoidance/"
TECH = "symbolic execution of the real Python source, obligations decided by an SMT solver (z3, real arithmetic)"
NOTE = ("Bounded: holds for every input within the bounds each harness states (evidence lists functions, bounds, paths, "
        "queries). Floats are modelled as reals, transcendental functions by axioms instantiated per path; vartools and "
        "dynamic_obstacle_avoidance (not installed here) are replaced by committed reference stand-ins; a counterexample is "
        "reported only after it replays on the unmodified code.")

P = []


def prop(id, title, statement, over, qtext, why, files, mech, note="", tech=TECH, design=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  note=note, tech=tech, design=design))


from props_list import define  # noqa: E402

NOT_APPLICABLE = define(prop, N)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    napp = dict(NOT_APPLICABLE)
    for p in P:
        if p["id"] in napp:
            na.append({"property": p["id"], "reason": napp[p["id"]]})
            continue
        if not os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            na.append({"property": p["id"], "reason": "check not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": f"python3 run_check.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3 run_check.py {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "model_checking",
                       "level_note": (NOTE + " " + p["note"]).strip()})
    design(napp)
    m = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the code is executed symbolically from its source. See DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


def design(napp):
    import ast
    sec = []
    for p in P:
        sec.append(f"### {p['id']} {p['title']}\n")
        if p["id"] in napp:
            sec.append(f"Not applicable: {napp[p['id']]}\n")
            continue
        if p["design"]:
            sec.append(p["design"] + "\n")
        f = os.path.join(HERE, "checks", p["id"].lower() + ".py")
        if os.path.exists(f):
            for n in ast.parse(open(f).read()).body:
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    d = n.decorator_list[0]
                    if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
                        b = d.args[1].value if len(d.args) > 1 and isinstance(d.args[1], ast.Constant) else ""
                        sec.append(f"* `{n.name}`: {b}")
            sec.append("")
    res = os.path.join(HERE, "tools", "seed_results.json")
    seeds = []
    if os.path.exists(res):
        for k, v in sorted(json.load(open(res)).items()):
            mp = os.path.join(HERE, "seeded", k, "meta.json")
            if os.path.exists(mp):
                mt = json.load(open(mp))
                seeds.append(f"* `{k}` ({v['property']}): {mt['what_it_breaks']} (needs: {mt['needs']}). "
                             + ("Caught by " + ", ".join(f"`{h}`" for h in v["by"]) if v["caught"] else "**Missed.**"))
    head = open(os.path.join(HERE, "tools", "design_head.md")).read()
    open(os.path.join(HERE, "DESIGN.md"), "w").write(
        head.replace("@@PROPS@@", "\n".join(sec)).replace("@@SEEDS@@", "\n".join(seeds)))


if __name__ == "__main__":
    main()

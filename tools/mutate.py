#!/usr/bin/env python3
"""Mutation of the functions the harnesses list: which small changes of the code does no check notice?

python3-vt tools/mutate.py base                 time every harness case on the unchanged tree
python3-vt tools/mutate.py run [-n N] [-s SEED] [--file RE] [--fn RE] [--prop RE]
Works in copies under /tmp/mut; results in /tmp/mut/results.jsonl.  Used to find weak checks only; no check reads it.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = "/tmp/mut"
PY = shutil.which("python3-vt") or sys.executable
SLOTS = int(os.environ.get("SLOTS", "8"))


def registry():
    """[(prop, harness, ncases, functions)]"""
    code = ("import sys,json,importlib;sys.path.insert(0,%r)\n"
            "from symx import harness as H\n"
            "m=importlib.import_module('checks.'+sys.argv[1])\n"
            "print(json.dumps([(sys.argv[1],h.name,len(h.cases),list(h.functions),h.opts.get('budget',60)) for h in H.REGISTRY.values() if h.opts.get('tier')!='thorough']))" % VERIF)
    out = []
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if re.match(r"c\d+\.py$", f):
            out += json.loads(subprocess.check_output([PY, "-c", code, f[:-3]], cwd=VERIF))
    return out


def run_case(prop, h, i, repo, budget, tag):
    out = f"{OUT}/o_{tag}.json"
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
    try:
        subprocess.run([PY, "-m", "symx.worker", f"checks.{prop}", h, str(i), "quick", str(budget), out], env=env, cwd=VERIF,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=budget * 1.5 + 60)
    except subprocess.TimeoutExpired:
        return None
    return json.load(open(out)) if os.path.exists(out) else None


def base():
    regs = registry()
    jobs = [(p, h, i, b) for p, h, n, f, b in regs for i in range(n)]
    res = {}
    with cf.ThreadPoolExecutor(SLOTS) as ex:
        futs = {ex.submit(run_case, p, h, i, REPO, b, f"b{k}"): (p, h, i) for k, (p, h, i, b) in enumerate(jobs)}
        for f in cf.as_completed(futs):
            r = f.result()
            p, h, i = futs[f]
            res[f"{p}.{h}.{i}"] = dict(wall=r["wall_s"] if r else 999, viol=len(r["violations"]) if r else -1,
                                       inc=len(r["inconclusive"]) if r else -1)
    json.dump(res, open(f"{OUT}/base.json", "w"), indent=0)
    print(len(res), sum(x["wall"] for x in res.values()))


SWAP_BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
SWAP_CMP = {ast.Lt: [">", "<="], ast.Gt: ["<", ">="], ast.LtE: [">", "<"], ast.GtE: ["<", ">"], ast.Eq: ["!="], ast.NotEq: ["=="],
            ast.Is: ["is not"], ast.IsNot: ["is"]}
SWAP_NAME = {"maximum": "minimum", "minimum": "maximum", "max": "min", "min": "max", "argmax": "argmin", "argmin": "argmax", "cos": "sin", "sin": "cos",
             "any": "all", "all": "any", "floor": "ceil", "ones": "zeros", "zeros": "ones"}


def mutants(src, fn_node):
    """[(start, end, new text)] on the text of the file"""
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        s, e = pos(n)
        return b[s:e].decode()
    out = []
    doc = ast.get_docstring(fn_node)
    body = fn_node.body[1:] if doc is not None else fn_node.body
    skip = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Raise, ast.Assert)) or (isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name))
                                                          and re.search(r"warn|print|logg|breakpoint", ast.unparse(n.func))):
                skip |= {id(x) for x in ast.walk(n)}
            if isinstance(n, ast.AnnAssign):
                skip |= {id(x) for x in ast.walk(n.annotation)}
    for st in body:
        for n in ast.walk(st):
            if id(n) in skip:
                continue
            if isinstance(n, ast.BinOp) and type(n.op) in SWAP_BIN:
                s, e = pos(n.left)[1], pos(n.right)[0]
                op = b[s:e].decode()
                o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(n.op)]
                k = op.find(o)
                if k >= 0 and op.count(o) == 1:
                    out.append((s + k, s + k + 1, SWAP_BIN[type(n.op)], f"{o} -> {SWAP_BIN[type(n.op)]}"))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP_CMP:
                s, e = pos(n.left)[1], pos(n.comparators[0])[0]
                for new in SWAP_CMP[type(n.ops[0])]:
                    out.append((s, e, f" {new} ", f"cmp{b[s:e].decode()}-> {new}"))
            elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
                s, e = pos(n.values[0])[1], pos(n.values[1])[0]
                t = b[s:e].decode()
                if isinstance(n.op, ast.And) and "and" in t:
                    out.append((s, e, t.replace("and", "or"), "and -> or"))
                elif "or" in t:
                    out.append((s, e, t.replace("or", "and"), "or -> and"))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                out.append((*pos(n), "(" + txt(n.operand) + ")", "drop not"))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                out.append((*pos(n), "(" + txt(n.operand) + ")", "drop minus"))
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                v = n.value
                for new in ({0: [1], 1: [0, 2], -1: [0]}.get(v, [v * 2, v / 2] if isinstance(v, float) else [v + 1])):
                    out.append((*pos(n), repr(new), f"{v} -> {new}"))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((*pos(n), repr(not n.value), f"{n.value} flipped"))
            elif isinstance(n, ast.Attribute) and n.attr in SWAP_NAME:
                s, e = pos(n)
                out.append((e - len(n.attr), e, SWAP_NAME[n.attr], f"{n.attr} -> {SWAP_NAME[n.attr]}"))
            elif isinstance(n, ast.Name) and n.id in SWAP_NAME and isinstance(n.ctx, ast.Load):
                out.append((*pos(n), SWAP_NAME[n.id], f"{n.id} -> {SWAP_NAME[n.id]}"))
            elif isinstance(n, ast.If):
                out.append((*pos(n.test), "False and (" + txt(n.test) + ")", "if False"))
                if not (len(n.body) == 1 and isinstance(n.body[0], ast.Raise)):
                    out.append((*pos(n.test), "True or (" + txt(n.test) + ")", "if True"))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                out.append((*pos(n), "pass", "delete: " + txt(n)[:60].replace("\n", " ")))
            elif isinstance(n, (ast.Break, ast.Continue)):
                out.append((*pos(n), "pass", "delete " + txt(n)))
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a0, a1 = n.args[0], n.args[1]
                if txt(a0) != txt(a1) and not re.search(r"range|arange|zeros|ones|isclose|tile|dot|linspace", ast.unparse(n.func)):
                    s, e = pos(a0)[0], pos(a1)[1]
                    out.append((s, e, txt(a1) + b[pos(a0)[1]:pos(a1)[0]].decode() + txt(a0), "swap args of " + ast.unparse(n.func)))
            if isinstance(n, ast.keyword) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                pass
    return sorted(set(out))


def functions(regs):
    d = {}
    for p, h, n, fs, b in regs:
        for f in fs:
            if ".py:" in f:
                d.setdefault(f, []).append((p, h, n, b))
    return d


def find(tree, q):
    node = tree
    for part in q.split("."):
        nxt = [x for x in ast.iter_child_nodes(node) if isinstance(x, (ast.ClassDef, ast.FunctionDef)) and x.name == part]
        if not nxt:
            return None
        node = nxt[-1]
    return node


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("-n", type=int, default=300)
    ap.add_argument("--per", type=int, default=6)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("--file", default=".")
    ap.add_argument("--fn", default=".")
    ap.add_argument("--limit", type=float, default=240)
    ap.add_argument("--survivors", help="only the mutants this results file lists as not killed")
    ap.add_argument("--wide", action="store_true", help="also the harnesses of the other functions of the file")
    ap.add_argument("--out", default=f"{OUT}/results.jsonl")
    a = ap.parse_args()
    os.makedirs(OUT, exist_ok=True)
    if a.cmd == "base":
        return base()
    regs = registry()
    fns = functions(regs)
    bt = json.load(open(f"{OUT}/base.json"))
    rnd = random.Random(a.s)
    only = None
    if a.survivors:
        only = {(d["fn"], d["text"], d["new"]) for d in map(json.loads, open(a.survivors)) if d["status"] != "KILLED"}
        a.per = a.n = 10 ** 6
    todo = []
    for f in sorted(fns):
        path, q = f.split(":")
        if not re.search(a.file, path) or not re.search(a.fn, q) or not os.path.exists(os.path.join(REPO, path)):
            continue
        src = open(os.path.join(REPO, path)).read()
        node = find(ast.parse(src), q)
        if node is None or isinstance(node, ast.ClassDef):
            print("no function", f)
            continue
        ms = [m for m in mutants(src, node)]
        rnd.shuffle(ms)
        if only is not None:
            at = lambda m: src.splitlines()[src.encode()[:m[0]].decode().count("\n")].strip()[:100]
            ms = [m for m in ms if (f, at(m), m[2]) in only]
        kept = []
        for m in ms:
            new = src.encode()[:m[0]] + m[2].encode() + src.encode()[m[1]:]
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            kept.append(m)
            if len(kept) >= a.per:
                break
        for m in kept:
            todo.append((f, path, m))
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["fn"], d["start"], d["new"]))
    todo = [t for t in todo if (t[0], t[2][0], t[2][2]) not in done]
    rnd.shuffle(todo)
    todo = todo[:a.n]
    print(len(fns), "functions,", len(todo), "mutants", flush=True)
    slots = list(range(SLOTS))
    lock = threading.Lock()
    for s in slots:
        d = f"{OUT}/r{s}"
        if not os.path.exists(d):
            subprocess.check_call(["git", "clone", "-q", REPO, d])

    def one(t):
        f, path, m = t
        with lock:
            s = slots.pop()
        try:
            repo = f"{OUT}/r{s}"
            src = open(os.path.join(REPO, path), "rb").read()
            target = os.path.join(repo, path)
            with open(target, "wb") as fh:
                fh.write(src[:m[0]] + m[2].encode() + src[m[1]:])
            cases = [(bt.get(f"{p}.{h}.{i}", dict(wall=30))["wall"], p, h, i, b) for p, h, n, b in fns[f] for i in range(n)]
            cases.sort()
            if a.wide:
                more = {(p, h, n, b) for g, hs in fns.items() if g.startswith(path + ":") for p, h, n, b in hs}
                more -= set(map(tuple, fns[f]))
                cases += sorted((bt.get(f"{p}.{h}.{i}", dict(wall=30))["wall"], p, h, i, b) for p, h, n, b in more for i in range(n))
            spent, status, by, notes = 0.0, "SURVIVED", None, []
            for w, p, h, i, b in cases:
                if spent > a.limit:
                    status = "LIMIT"
                    break
                r = run_case(p, h, i, repo, b, f"s{s}")
                if r is None:
                    notes.append(f"{p}.{h}[{i}] died")
                    spent += w
                    continue
                spent += r["wall_s"]
                if r["violations"] and not bt.get(f"{p}.{h}.{i}", {}).get("viol"):
                    status, by = "KILLED", f"{p}.{h}[{i}] {r['violations'][0]['label']}"
                    break
                bi = bt.get(f"{p}.{h}.{i}", {}).get("inc", 0)
                if len(r["inconclusive"]) > bi or r["spurious_total"] or r["unsupported"]:
                    notes.append(f"{p}.{h}[{i}] inc={len(r['inconclusive'])} spur={r['spurious_total']} unsup={len(r['unsupported'])}")
            with open(target, "wb") as fh:
                fh.write(src)
            line = src[:m[0]].decode().count("\n") + 1
            rec = dict(fn=f, line=line, what=m[3], start=m[0], new=m[2], status=status, by=by, notes=notes[:6], text=src.decode().splitlines()[line - 1].strip()[:100])
            with lock:
                with open(a.out, "a") as fh:
                    fh.write(json.dumps(rec) + "\n")
            return rec
        finally:
            with lock:
                slots.append(s)
    cnt = {}
    with cf.ThreadPoolExecutor(SLOTS) as ex:
        for r in ex.map(one, todo):
            cnt[r["status"]] = cnt.get(r["status"], 0) + 1
            if r["status"] != "KILLED":
                print(r["status"], r["fn"].split("/")[-1], r["line"], r["what"], "|", r["text"], "|", r["notes"][:2], flush=True)
    print(cnt)


main()

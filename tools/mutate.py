#!/usr/bin/env python3
"""Mutation campaign: single-site edits of the code under test in scratch copies, judged by the checks' own cases.

usage: mutate.py OUT.jsonl [--jobs N] [--budget SECONDS] [--files a,b] [--sample P] [--full LIST.jsonl]
A measure of the machinery only; no registered check uses it.
"""
import argparse
import ast
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo"
FILES = ["stream/gen.py", "stream/shuffle.py", "metric/metric.py"] + ["kernel/%s.py" % k for k in
         ("add mul div sqrt relu signabs shiftreg jkff sigmoid tanh utils linear conv rnn").split()]
CMP = {ast.Gt: ">=", ast.GtE: ">", ast.Lt: "<=", ast.LtE: "<", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
CMPS = {ast.Gt: ">", ast.GtE: ">=", ast.Lt: "<", ast.LtE: "<=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*", "//"], ast.FloorDiv: ["/"], ast.Pow: ["*"], ast.Mod: ["*"], ast.LShift: [">>"], ast.RShift: ["<<"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}
BINS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**", ast.Mod: "%", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|"}
NAMES = {"gt": ["ge", "lt"], "ge": ["gt"], "lt": ["le", "gt"], "le": ["lt"], "eq": ["ne"], "ne": ["eq"], "floor": ["ceil", "round"], "ceil": ["floor", "round"], "round": ["floor", "ceil"],
         "add": ["sub"], "sub": ["add"], "add_": ["sub_"], "sub_": ["add_"], "mul": ["div"], "div": ["mul"], "mul_": ["div_"], "div_": ["mul_"], "max": ["min"], "min": ["max"], "argmax": ["argmin"],
         "zeros": ["ones"], "ones": ["zeros"], "zeros_like": ["ones_like"], "ones_like": ["zeros_like"], "clamp": ["abs"], "abs": ["neg"], "sign": ["abs"], "clone": [None], "contiguous": [None],
         "bitwise_and": ["bitwise_or"], "bitwise_or": ["bitwise_and"], "bitwise_xor": ["bitwise_or"], "logical_and": ["logical_or"], "sum": ["mean"], "mean": ["sum"], "all": ["any"], "any": ["all"], "lower": [None],
         "transpose": [None], "t": [None], "sigmoid": ["tanh"], "tanh": ["sigmoid"], "square": ["abs"], "sqrt": ["abs"], "log2": ["log"], "minimum": ["maximum"], "maximum": ["minimum"]}
SUFFIX = [("i", "w"), ("0", "1"), ("a", "b"), ("_f", "_n"), ("h", "w"), ("uni", "bi"), ("ctler", "ctlee"), ("pos", "neg"), ("i1", "i0")]


def mutants(path):
    text = open(os.path.join(SRC, path)).read()
    tree = ast.parse(text)
    lines = text.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    raw = text.encode()
    pos = lambda ln, col: off[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def emit(a, b, new, why, ln):
        m = raw[:a] + new.encode() + raw[b:]
        if m != raw:
            try:
                compile(m, path, "exec")
            except SyntaxError:
                return
            out.append({"file": path, "line": ln, "why": why, "a": a, "b": b, "new": new, "old": raw[a:b].decode()})
    names = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute):
            names.add(n.attr)
        elif isinstance(n, ast.Name):
            names.add(n.id)
        elif isinstance(n, ast.arg):
            names.add(n.arg)

    def siblings(nm):
        r = []
        for x, y in SUFFIX:
            for p, q in ((x, y), (y, x)):
                for k in range(len(nm)):
                    if nm[k:k + len(p)] == p:
                        s = nm[:k] + q + nm[k + len(p):]
                        if s in names and s != nm and s not in r:
                            r.append(s)
        return r[:2]
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            docs.add(n.body[0].value)

    def in_msg(n):
        return n in msgs
    msgs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Assert) and n.msg is not None:
            msgs.update(ast.walk(n.msg))
        if isinstance(n, ast.Raise) and n.exc is not None:
            msgs.update(ast.walk(n.exc))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            msgs.update(ast.walk(n))
        if isinstance(n, ast.FunctionDef) and n.name in ("extra_repr",):
            msgs.update(ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "super", "isinstance"):
            msgs.update(ast.walk(n))
    for n in ast.walk(tree):
        if in_msg(n) or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            s = raw[a:b].decode()
            t = type(n.ops[0])
            if s.strip() == CMPS[t]:
                emit(a, b, " " + CMP[t] + " ", "compare", n.lineno)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            s = raw[a:b].decode()
            if BINS[type(n.op)] in s and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                for o in BIN[type(n.op)]:
                    emit(a, b, s.replace(BINS[type(n.op)], o, 1), "operator", n.lineno)
        elif isinstance(n, ast.AugAssign):
            a, b = span(n.target)[1], span(n.value)[0]
            s = raw[a:b].decode()
            if "+=" in s:
                emit(a, b, s.replace("+=", "-="), "operator", n.lineno)
            elif "-=" in s:
                emit(a, b, s.replace("-=", "+="), "operator", n.lineno)
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            s = raw[a:b].decode()
            emit(a, b, s.replace("and", "or") if isinstance(n.op, ast.And) else s.replace("or", "and"), "boolean", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n)
            emit(a, b, "(" + raw[span(n.operand)[0]:span(n.operand)[1]].decode() + ")", "drop unary", n.lineno)
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            if isinstance(n.value, bool):
                emit(a, b, str(not n.value), "constant", n.lineno)
            elif isinstance(n.value, int):
                emit(a, b, str(n.value + 1), "constant", n.lineno)
                emit(a, b, "(%d)" % (n.value - 1), "constant", n.lineno)
            elif isinstance(n.value, float):
                emit(a, b, repr(n.value + 1), "constant", n.lineno)
                emit(a, b, repr(n.value * .9), "constant", n.lineno)
            elif isinstance(n.value, str) and n.value and n.value in ("unipolar", "bipolar", "sobol", "race", "lfsr", "sys", "rc", "tc", "ceil", "floor", "round", "fxp", "i", "w", "clip", "norm", "input", "weight"):
                emit(a, b, repr(n.value + "x"), "string", n.lineno)
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            a, b = span(n)
            v = span(n.value)[1]
            for k in NAMES[n.attr]:
                if k is not None:
                    emit(v, b, "." + k, "method", n.lineno)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and None in NAMES.get(n.func.attr, []):
            emit(span(n.func.value)[1], span(n)[1], "", "drop call", n.lineno)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
            (a, b), (c, d) = span(n.args[0]), span(n.args[1])
            emit(a, d, raw[c:d].decode() + raw[b:c].decode() + raw[a:b].decode(), "swap arguments", n.lineno)
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and raw[:span(k)[0]].rstrip().endswith(b","):
                    a, b = span(k)
                    emit(len(raw[:a].rstrip()) - 1, b, "", "drop keyword", k.lineno)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
            v = span(n.value)[1]
            for k in siblings(n.attr):
                emit(v, span(n)[1], "." + k, "sibling", n.lineno)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for k in siblings(n.id):
                emit(*span(n), k, "sibling", n.lineno)
        if isinstance(n, (ast.If, ast.IfExp)):
            a, b = span(n.test)
            s = raw[a:b].decode()
            emit(a, b, "not (%s)" % s, "condition", n.lineno)
            emit(a, b, "(True or (%s))" % s, "condition", n.lineno)
            emit(a, b, "(False and (%s))" % s, "condition", n.lineno)
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Assert)) or (isinstance(n, ast.Assign) and not isinstance(n.value, ast.Dict)):
            a, b = span(n)
            if raw[a:b].startswith((b"self.hwcfg", b"self.swcfg", b'"""')) and not raw[a:b].endswith(b"{}"):
                continue
            emit(a, b, "pass", "drop statement", n.lineno)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            a, b = span(n)
            emit(a, b, raw[span(n.value)[0]:span(n.value)[1]].decode(), "drop slice", n.lineno)
    seen, uniq = set(), []
    for m in out:
        k = (m["a"], m["b"], m["new"])
        if k not in seen:
            seen.add(k)
            uniq.append(m)
    return uniq


GROUP = {"stream/gen.py": "01 02 03 04 40 36 42 41 35 31", "stream/shuffle.py": "05 06 40 41 31 33 37", "metric/metric.py": "27 28 29 40 35 41 32 33", "kernel/add.py": "08 40 36 41 12 31 30 35",
         "kernel/mul.py": "09 40 33 31 36 41 35 30 12", "kernel/div.py": "11 40 41 30 31 33 12 35", "kernel/sqrt.py": "13 40 41 30 31 12 35", "kernel/relu.py": "14 40 16 41 43", "kernel/signabs.py": "15 40 41 30 31",
         "kernel/shiftreg.py": "10 40 41 31 35", "kernel/jkff.py": "07 06 10 12 40 41 31", "kernel/sigmoid.py": "16 40 32 41 43 31", "kernel/tanh.py": "16 40 43", "kernel/utils.py": "24 25 26 27 34 35 32 41 20 21 22 03",
         "kernel/linear.py": "17 20 21 22 23 40 41 35 30 43 37 32 31 19", "kernel/conv.py": "18 20 21 22 23 40 41 35 30 43 37 32 31", "kernel/rnn.py": "19 34 40 41 35 43 30 23 24 32 12"}


def judge(m, work, budget, full):
    """in a fresh process: apply, import, run cases until one fails"""
    sys.path.insert(0, V)
    os.environ["UNARYSIM_REPO"] = work
    os.environ["UMON_CASE_TIMEOUT"] = "40"
    from umon import env
    env.REPO = work
    env.setup()
    from umon import core
    t0 = time.time()
    rnd = random.Random(m["file"] + str(m["a"]))
    groups = []
    ids = ["C" + k for k in GROUP[m["file"]].split()]
    if full:
        ids += ["C%02d" % k for k in range(1, 44) if "C%02d" % k not in ids and k not in (38, 39)]
    try:
        import UnarySim.kernel, UnarySim.stream, UnarySim.metric.metric  # noqa
    except BaseException as e:
        return {"status": "killed", "by": "import", "what": str(e)[:100]}
    for i in ids:
        try:
            mod = importlib.import_module("umon.props." + i.lower())
            cs = mod.cases("quick", 1)
        except BaseException as e:
            return {"status": "killed", "by": "import " + i, "what": str(e)[:100]}
        for k, c in enumerate(cs):
            c.setdefault("seed", 100003 + k)
        rnd.shuffle(cs)
        groups.append((i, mod, cs))
    ran, errs = 0, 0
    chunk = 6 if not full else 40
    while any(g[2] for g in groups):
        for i, mod, cs in groups:
            for _ in range(min(chunk, len(cs))):
                if time.time() - t0 > budget:
                    return {"status": "survived", "ran": ran, "errors": errs, "left": sum(len(g[2]) for g in groups)}
                c = cs.pop()
                known = core.load_known(i)
                r = core.run_case(mod, c, "quick")
                ran += 1
                errs += r["status"] == "error"
                if r["status"] == "violated" or any(k not in known for k, _ in r["findings"]):
                    return {"status": "killed", "by": i, "what": str(r["what"] or r["findings"])[:160], "t": round(time.time() - t0, 1), "ran": ran}
    return {"status": "survived", "ran": ran, "errors": errs, "left": 0}


def child(q, m, work, budget, full):
    resource.setrlimit(resource.RLIMIT_DATA, (8 << 30, 8 << 30))
    dn = os.open("/dev/null", os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    try:
        q.put(judge(m, work, budget, full))
    except BaseException as e:
        q.put({"status": "harness", "what": repr(e)[:300]})


def worker(k, todo, done, budget, full):
    import torch, numpy  # noqa
    torch.set_num_threads(1)
    work = "/tmp/mut/w%d" % k
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(SRC, work, ignore=shutil.ignore_patterns(".git", "hw", "app", "__pycache__"))
    while True:
        m = todo.get()
        if m is None:
            break
        p = os.path.join(work, m["file"])
        raw = open(os.path.join(SRC, m["file"]), "rb").read()
        open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
        q = mp.Queue()
        pr = mp.Process(target=child, args=(q, m, work, budget, full))
        pr.start()
        try:
            r = q.get(timeout=budget + 120)
        except Exception:
            r = {"status": "killed", "by": "timeout"}
        pr.kill()
        pr.join()
        open(p, "wb").write(raw)
        done.put(dict(m, **r))
    shutil.rmtree(work, ignore_errors=True)
    done.put(None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--files")
    ap.add_argument("--sample", type=float, default=1)
    ap.add_argument("--full")
    a = ap.parse_args()
    if a.full:
        ms = [json.loads(ln) for ln in open(a.full)]
        ms = [{k: m[k] for k in ("file", "line", "why", "a", "b", "new", "old")} for m in ms if m["status"] != "killed"]
    else:
        ms = [m for f in (a.files.split(",") if a.files else FILES) for m in mutants(f)]
        random.Random(0).shuffle(ms)
        ms = ms[:int(len(ms) * a.sample)]
    print(len(ms), "mutants", flush=True)
    todo, done = mp.Queue(), mp.Queue()
    for m in ms:
        todo.put(m)
    for _ in range(a.jobs):
        todo.put(None)
    ws = [mp.Process(target=worker, args=(k, todo, done, a.budget, bool(a.full))) for k in range(a.jobs)]
    for w in ws:
        w.start()
    left = a.jobs
    n = {}
    with open(a.out, "a") as f:
        while left:
            r = done.get()
            if r is None:
                left -= 1
                continue
            n[r["status"]] = n.get(r["status"], 0) + 1
            f.write(json.dumps(r) + "\n")
            f.flush()
            if sum(n.values()) % 50 == 0:
                print(n, flush=True)
    print(n, "DONE", flush=True)


if __name__ == "__main__":
    main()

"""mutate.py [--per-file N] [--workers W] [--seed S] [--props C01,..] [--files a.py,..] [--out LOG]

Development tool: random small mutations of the python files the properties are anchored in, each run against the quick
checks of the properties concerned, in scratch copies under /tmp/mut (never in /repo). Survivors are printed for review:
they are equivalent, outside every property, or blind spots.
"""
import argparse
import ast
import json
import os
import random
import subprocess
import threading

S = "/tmp/mut"
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.MatMult: "*", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*"}
METH = {"max": "min", "min": "max", "sum": "mean", "mean": "sum", "cumsum": "cumprod", "argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor", "sin": "cos", "cos": "sin",
        "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like", "any": "all", "all": "any", "minimum": "maximum", "maximum": "minimum"}


def sites(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    out = []

    def add(n, new, kind):
        s, e = span(n)
        out.append((s, e, new, kind, n.lineno))

    def between(a, c, new, kind):
        s, e = span(a)[1], span(c)[0]
        mid = b[s:e].decode()
        out.append((s, e, new(mid), kind, a.lineno))

    def visit(n, infn):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and "warn" in text(n.func)):
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in ("__repr__", "__str__") or "plot" in n.name:
                return
            infn = True
            n.returns = None
            for a in n.args.args + n.args.kwonlyargs:
                a.annotation = None
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                n.body = body[1:]
        if isinstance(n, ast.AnnAssign):
            n.annotation = ast.Constant(value=None, lineno=n.lineno, col_offset=n.col_offset, end_lineno=n.lineno, end_col_offset=n.col_offset)
            if n.value is not None:
                visit(n.value, infn)
            return
        if infn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                op = SWAP.get(type(n.ops[0]))
                if op:
                    between(n.left, n.comparators[0], lambda mid: f" {op} " + ("(" * mid.count("(")), "cmp") if mid_ok(text(n)) else None
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                s, e = span(n.left)[1], span(n.right)[0]
                mid = b[s:e].decode()
                sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.MatMult: "@", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.Pow: "**"}[type(n.op)]
                if mid.count(sym) == 1 and not isinstance(n.left, ast.Constant) or (mid.count(sym) == 1 and not isinstance(getattr(n.left, "value", None), str)):
                    out.append((s, e, mid.replace(sym, BIN[type(n.op)]), "bin", n.lineno))
                # drop one operand
                add(n, text(n.left), "left")
                add(n, text(n.right), "right")
            if isinstance(n, ast.BoolOp):
                add(n, text(n.values[0]), "bool-first")
                add(n, text(n.values[-1]), "bool-last")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)) and not isinstance(n.operand, ast.Constant):
                add(n, text(n.operand), "unary")
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    add(n, str(not v), "const")
                elif isinstance(v, int):
                    add(n, str(v + 1), "const")
                    add(n, str(v - 1) if v else "(-1)", "const")
                elif isinstance(v, float):
                    add(n, repr(v * 2) if v else "1.0", "const")
                    if v:
                        add(n, "0.0", "const")
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                add(n.test, "(not (" + text(n.test) + "))", "ifnot")
                add(n.test, "True", "iftrue")
                add(n.test, "False", "iffalse")
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(n, "pass", "delete")
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(n, ast.AugAssign) or isinstance(t, (ast.Subscript, ast.Attribute)) or isinstance(t, ast.Name) and t.id in text(n.value):
                    add(n, "pass", "delete")
            if isinstance(n, ast.Attribute) and n.attr in METH:
                s, e = span(n)
                out.append((e - len(n.attr), e, METH[n.attr], "method", n.lineno))
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg and isinstance(k.value, (ast.Name, ast.Attribute)) and k.arg not in ("device", "dtype", "error_message"):
                        s, e = span(k)
                        # drop the keyword
                        m = b[e:]
                        e2 = e + 1 if m[:1] == b"," else e
                        out.append((s, e2, "", "dropkw", k.lineno if hasattr(k, "lineno") else n.lineno))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("clone", "contiguous", "detach", "clamp", "abs", "sqrt", "exp", "t", "flip", "float", "unsqueeze", "expand", "transpose", "permute"):
                    add(n, text(n.func.value), "dropcall")
                a = [x for x in n.args if isinstance(x, (ast.Name, ast.Attribute))]
                if len(a) >= 2:
                    i = random.randrange(len(a) - 1)
                    s, _ = span(a[i])
                    _, e = span(a[i + 1])
                    mid = b[span(a[i])[1]:span(a[i + 1])[0]].decode()
                    out.append((s, e, text(a[i + 1]) + mid + text(a[i]), "swapargs", n.lineno))
            if isinstance(n, ast.Assert):
                return
        for c in ast.iter_child_nodes(n):
            visit(c, infn)

    def mid_ok(t):
        return True

    visit(tree, False)
    return out, b


def sh(cmd, timeout=None, env=None):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)


def prepare(w):
    d = f"{S}/{w}"
    if not os.path.isdir(d):
        os.makedirs(d)
        sh(f"rsync -a --exclude build --exclude .git /repo/ {d}/repo/")
        sh(f"rsync -a --exclude .git --exclude seeded --exclude evidence --exclude replays /verif/ {d}/verif/")
        sh(f"mkdir -p {d}/verif/evidence {d}/verif/replays; sed -i 's#/repo#{d}/repo#g' {d}/verif/run.py {d}/verif/checks/*.py {d}/verif/vlib/*.py")
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--per-file", type=int, default=30)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--props")
    ap.add_argument("--files")
    ap.add_argument("--out", default="/tmp/mut/log")
    a = ap.parse_args()
    random.seed(a.seed)
    table = {}
    for line in open("/verif/properties.jsonl"):
        p = json.loads(line)
        if a.props and p["id"] not in a.props.split(","):
            continue
        for f in sorted({x for x in json.dumps(p).split('"') if x.endswith(".py") and x.startswith(("pytorch3d", "projects")) and " " not in x}):
            table.setdefault(f, []).append(p["id"])
    jobs = []
    for f, props in sorted(table.items()):
        if a.files and f not in a.files.split(","):
            continue
        src = open("/repo/" + f).read()
        ss, b = sites(src)
        random.shuffle(ss)
        n = 0
        for s, e, new, kind, line in ss:
            if n >= a.per_file:
                break
            m = b[:s] + new.encode() + b[e:]
            try:
                if ast.dump(ast.parse(m)) == ast.dump(ast.parse(b)):
                    continue
            except SyntaxError:
                continue
            n += 1
            jobs.append((f, props, m.decode(), kind, line, b[s:e].decode()[:90], new[:90]))
    random.shuffle(jobs)
    os.makedirs(S, exist_ok=True)
    log = open(a.out, "a")
    lock = threading.Lock()
    stats = {"killed": 0, "survived": 0}

    def work(w):
        d = prepare(w)
        while True:
            with lock:
                if not jobs:
                    return
                f, props, m, kind, line, old, new = jobs.pop()
            path = f"{d}/repo/{f}"
            orig = open("/repo/" + f).read()
            open(path, "w").write(m)
            killed = None
            for p in props:
                try:
                    r = sh(f"cd {d}/verif && VERIF_SEED=1 VERIF_TIER=quick timeout 200 python3 run.py {p} --no-build --jobs {a.jobs}", timeout=260)
                    if r.returncode:
                        killed = f"{p} rc={r.returncode}"
                        break
                except subprocess.TimeoutExpired:
                    killed = f"{p} timeout"
                    break
            open(path, "w").write(orig)
            with lock:
                stats["killed" if killed else "survived"] += 1
                log.write(json.dumps(dict(file=f, line=line, kind=kind, old=old, new=new, killed=killed, props=props)) + "\n")
                log.flush()

    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(stats)


if __name__ == "__main__":
    main()

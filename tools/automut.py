#!/usr/bin/env python3
"""Mechanical mutants of one source file, run against a list of checks:
     automut.py FILE "C17 C24" [--jobs 4] [--sample N] [--seed S] [--lines a-b]
Prints the survivors.  Everything happens in copies under /tmp/am."""
import warnings
warnings.simplefilter("ignore")
import argparse, ast, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln) + 1)
    pos = lambda ln, c: off[ln - 1] + c      # noqa: E731
    seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))      # noqa: E731
    txt = lambda n: src[slice(*seg(n))]      # noqa: E731
    out = []

    def rep(n, new, what):
        a, b = seg(n)
        if src[a:b] != new:
            out.append((n.lineno, what, src[:a] + new + src[b:], "%s -> %s" % (src[a:b].replace("\n", " ")[:60], new.replace("\n", " ")[:60])))

    def walk(n, ctx):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.Global)):
            return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            if isinstance(n.value, ast.Call):
                if getattr(n.value.func, "id", "") == "print":
                    return
                rep(n, "pass", "delcall")
        if isinstance(n, ast.BinOp):
            l, r = txt(n.left), txt(n.right)
            ops = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Pow: ["*"]}.get(type(n.op), [])
            isstr = any(isinstance(v, ast.Constant) and isinstance(v.value, str) for v in (n.left, n.right))
            if not isstr:
                for o in ops:
                    rep(n, "%s %s %s" % (l, o, r), "binop")
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    rep(n, "(%s)" % l, "dropright")
                if isinstance(n.op, (ast.Mult,)):
                    rep(n, "(%s)" % r, "dropleft")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, "(%s)" % txt(n.operand), "neg")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "(%s)" % txt(n.operand), "not")
        if isinstance(n, ast.Attribute) and n.attr == "T":
            rep(n, txt(n.value), "transpose")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = txt(n.left), txt(n.comparators[0])
            if not (isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, str)):
                o = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}.get(type(n.ops[0]))
                if o:
                    rep(n, "%s %s %s" % (l, o, r), "cmp")
        if isinstance(n, ast.BoolOp):
            a, b = n.values[0], n.values[1]
            rep(n, (" or " if isinstance(n.op, ast.And) else " and ").join(txt(v) for v in n.values), "bool")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bool)) and n.value is not None and ctx != "default":
            if isinstance(n.value, int):
                rep(n, str(n.value + 1), "const")
                if n.value > 0:
                    rep(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                rep(n, repr(n.value * 1.3 + 0.1), "const")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value), "const")
        if isinstance(n, ast.AugAssign):
            o = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
            rep(n, "pass", "delstmt")
            if o:
                rep(n, "%s %s %s" % (txt(n.target), o, txt(n.value)), "aug")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            rep(n, "pass", "delstmt")
        if isinstance(n, ast.Call):
            f = txt(n.func)
            if f in ("numpy.copy", "np.copy", "copy.copy", "copy.deepcopy") and n.args:
                rep(n, "(%s)" % txt(n.args[0]), "nocopy")
            pl = [a for a in n.args]
            for i in range(len(pl) - 1):
                if all(isinstance(a, (ast.Name, ast.Subscript, ast.Attribute)) for a in pl[i:i + 2]):
                    a, b = seg(pl[i])[0], seg(pl[i + 1])[1]
                    mid = src[seg(pl[i])[1]:seg(pl[i + 1])[0]]
                    new = txt(pl[i + 1]) + mid + txt(pl[i])
                    out.append((n.lineno, "argswap", src[:a] + new + src[b:], "%s -> %s" % (src[a:b].replace("\n", " "), new.replace("\n", " "))))
            for k in n.keywords:
                if k.arg is not None and not isinstance(k.value, ast.Constant) and len(n.keywords) > 1:
                    pass
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and isinstance(n.ctx, ast.Load):
            rep(n, "%s[0]" % txt(n.value), "index0")
        if isinstance(n, ast.If):
            rep(n.test, "not (%s)" % txt(n.test), "ifnot")
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.body:
                walk(d, "")
            return
        for c in ast.iter_child_nodes(n):
            walk(c, "")
    walk(tree, "")
    ok, seen = [], set()
    for m in out:
        if m[2] in seen:
            continue
        seen.add(m[2])
        try:
            compile(m[2], "m", "exec")
        except SyntaxError:
            continue
        ok.append(m)
    return ok


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--lines", default="")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    src = open(os.path.join("/repo", a.file)).read()
    ms = mutants(src)
    if a.lines:
        lo, hi = (int(v) for v in a.lines.split("-"))
        ms = [m for m in ms if lo <= m[0] <= hi]
    if a.sample and len(ms) > a.sample:
        ms = random.Random(a.seed).sample(ms, a.sample)
    ms.sort(key=lambda m: m[0])
    if a.list:
        for m in ms:
            print(m[0], m[1], m[3])
        print(len(ms))
        return
    checks = a.checks.split()

    def one(i):
        m = ms[i]
        d = "/tmp/am/%d-%d" % (os.getpid(), i)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__", "build", "*.so"))
        try:
            with open(os.path.join(d, a.file), "w") as f:
                f.write(m[2])
            res = []
            for c in checks:
                env = dict(os.environ, VP_REPO=d, VP_PURE="1", VP_NOMC="1", VP_WORKERS="3", VP_PROCS="3")
                try:
                    p = subprocess.run([sys.executable, os.path.join(V, "run.py"), c], env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True, timeout=600, cwd=V)
                    res.append(p.returncode)
                except subprocess.TimeoutExpired:
                    res.append(9)
                if res[-1] == 1:
                    return i, "caught", c
            return i, "SURVIVED" if all(r == 0 for r in res) else "broken%s" % res, ""
        finally:
            shutil.rmtree(d, ignore_errors=True)
    n = {"caught": 0}
    with ThreadPoolExecutor(a.jobs) as ex:
        for i, r, c in ex.map(one, range(len(ms))):
            if r == "caught":
                n["caught"] += 1
                n[c] = n.get(c, 0) + 1
            else:
                print("%s:%d %s [%s] %s" % (a.file, ms[i][0], r, ms[i][1], ms[i][3]), flush=True)
    print(len(ms), "mutants", n, flush=True)


main()

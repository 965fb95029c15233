#!/usr/bin/env python3
"""Development aid: apply textual mutations to a scratch copy of /repo and see
which checks notice.  mutate.py FILE  where FILE defines MUTS = [(props, file, old, new)]"""
import os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = runpy.run_path(sys.argv[1])["MUTS"]
sel = sys.argv[2:]
for n, (props, f, old, new) in enumerate(muts):
    if sel and str(n) not in sel:
        continue
    d = tempfile.mkdtemp(prefix="mut-")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
    p = os.path.join(r, f)
    s = open(p).read()
    if s.count(old) < 1:
        print(n, "NO MATCH", repr(old[:60]))
        shutil.rmtree(d)
        continue
    open(p, "w").write(s.replace(old, new, 1))
    res = []
    for prop in props.split():
        env = dict(os.environ, VP_REPO=r)
        q = subprocess.run([sys.executable, os.path.join(V, "run.py"), prop], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        cl = sorted(set(re.findall(r"event \d+: ([^;\n]*)", q.stdout)))
        res.append("%s:%s %s" % (prop, {0: "MISSED", 1: "caught"}.get(q.returncode, "RC%d" % q.returncode), ",".join(cl)[:120]))
        if q.returncode not in (0, 1):
            print(q.stdout[-1500:])
    print(n, repr(new[:50].strip()), "->", "; ".join(res), flush=True)
    shutil.rmtree(d)

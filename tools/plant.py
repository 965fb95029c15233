#!/usr/bin/env python3
"""Development aid: write and confirm planted bugs.

plant.py FILE [id ...]   FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]
 - writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}
 - the demo must succeed on a copy of /repo and fail with the patch, the unit tests must pass with it
 - reports what the property's check says"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
bugs = runpy.run_path(sys.argv[1])["BUGS"]
sel = sys.argv[2:]


def run(cmd, cwd, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
    return p.returncode, p.stdout


for b in bugs:
    if sel and b["id"] not in sel:
        continue
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(tmp, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# cwd: the repository\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    rc0, o0 = run(["bash", os.path.join(d, "demo.sh")], r)
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "matches:", s.count(old), repr(old[:70]))
            ok = False
            break
        open(p, "w").write(s.replace(old, new))
    if ok:
        rc, diff = run(["git", "diff"], r)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        rc1, o1 = run(["bash", os.path.join(d, "demo.sh")], r)
        rc2, o2 = run([PY, "-W", "ignore", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "test/unittests"], r, {"PYTHONPATH": r + ":/opt/vp/plugins"})
        m = re.search(r"(\d+) passed", o2)
        rc3, o3 = run([sys.executable, os.path.join(V, "run.py"), b["prop"]], V, {"VP_REPO": r})
        cl = sorted(set(re.findall(r"event \d+: ([^;\n]*)", o3)))
        print("%-28s clean demo %d, bug demo %d, tests %s, %s %s" % (
            b["id"], rc0, rc1, m.group(0) if m else "?", b["prop"],
            {0: "MISSED", 1: "caught " + ",".join(cl)[:100]}.get(rc3, "RC%d %s" % (rc3, o3[-300:]))), flush=True)
        if rc0:
            print(o0[-800:])
        if not rc1:
            print(o1[-500:])
    shutil.rmtree(tmp)

#!/usr/bin/env python3
"""Run one check:  run.py PROPERTY [quick|thorough]

 1. the harness drives /repo's current code and records cases,
 2. TLC validates every case against the trace specification,
 3. TLC model checks the design specifications the property rests on.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the machinery itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CLS = os.path.join(VERIF, "build", "classes")
SPEC = os.path.join(VERIF, "spec")


class Broken(Exception):
    pass


class Slow(Broken):
    pass


def sh(cmd, env=None, cwd=None, timeout=850):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise Slow("time limit: %s" % " ".join(cmd[:6])) from x
    return p.returncode, p.stdout, p.stderr


def setup():
    src = os.path.join(VERIF, "java", "vp", "RealNumOverrides.java")
    cls = os.path.join(CLS, "vp", "RealNumOverrides.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(CLS, exist_ok=True)
    rc, out, err = sh(["javac", "-cp", TLA + ":" + CM, "-d", CLS, src])
    if rc:
        raise Broken("javac failed\n" + out + err)


def tlc(module, cfg, scratch, env, extra=(), workers=os.environ.get("VP_WORKERS", "8"), heap="6g", limit=850):
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + scratch, "-cp", ":".join([CLS, TLA, CM]),
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vp.RealNumOverrides",
           "tlc2.TLC", "-noGenerateSpecTE", "-deadlock", "-workers", workers, "-metadir", meta,
           "-config", cfg] + list(extra) + [module + ".tla"]
    return sh(cmd, env=env, cwd=SPEC, timeout=limit)


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def design_cfg(c, over, scratch):
    """a configuration with some lines replaced"""
    lines = open(os.path.join(SPEC, c)).read().splitlines()
    for k, v in over.items():
        pat = re.compile(r"^\s*%s\s*(=|<-)" % k) if k != "INVARIANTS" else re.compile(r"^INVARIANTS")
        n = [i for i, x in enumerate(lines) if pat.match(x)]
        if len(n) != 1:
            raise Broken("no %s in %s" % (k, c))
        lines[n[0]] = "INVARIANTS " + v if k == "INVARIANTS" else " %s %s" % (k, v)
    fd, path = tempfile.mkstemp(suffix=".cfg", prefix=c[:-4] + "-", dir=scratch)
    with os.fdopen(fd, "w") as f:
        f.write("\n".join(lines) + "\n")
    return path


def build_ext(scratch):
    """compile the .pyx files of the working tree, outside /repo"""
    d = os.path.join(scratch, "ext")
    src = os.path.join(REPO, "pyparticleest", "utils")
    u = os.path.join(d, "pyparticleest", "utils")
    os.makedirs(u)
    for n in os.listdir(src):
        if n.endswith((".pyx", ".pxd", ".pxi")) or n == "__init__.py":
            shutil.copy(os.path.join(src, n), u)
    shutil.copy(os.path.join(REPO, "pyparticleest", "__init__.py"), os.path.join(d, "pyparticleest"))
    rc, inc, _ = sh([PY, "-c", "import numpy; print(numpy.get_include())"])
    env = {"CFLAGS": "-O1 -w -I" + inc.strip(), "PYTHONDONTWRITEBYTECODE": "1"}
    procs = []
    e = dict(os.environ)
    e.update(env)
    for m in ("ckalman", "cmlnlg_compute"):
        procs.append((m, subprocess.Popen(["/opt/venv/bin/cythonize", "-q", "-i", "pyparticleest/utils/%s.pyx" % m],
                                          cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for m, p in procs:
        o, _ = p.communicate(timeout=300)
        if p.returncode or not any(n.startswith(m + ".") and n.endswith(".so") for n in os.listdir(u)):
            raise Broken("extension %s does not build\n%s" % (m, o[-2000:]))
    return u


def harness(suite, prop, tier, seed, scratch, ext, extra_env):
    out = os.path.join(scratch, "%s-%s-%s.json" % (suite, prop, "ext" if ext else "pure"))
    env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),
           "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0",
           "MPLCONFIGDIR": scratch}
    if REPO != "/repo":
        env["PYTHONPATH"] = REPO
    if ext:
        env["VP_EXT_DIR"] = ext
    env.update(extra_env)
    rc, o, e = sh([PY, "-W", "ignore", os.path.join(VERIF, "harness", "main.py"),
                   suite, prop, tier, str(seed), out], env=env, cwd=scratch)
    if rc == 4:
        return None, e.strip()
    if rc:
        raise Broken("harness %s failed (%d)\n%s" % (suite, rc, e[-3000:]))
    return out, ""


OKLINE = "Model checking completed. No error has been found"


def one_run(module, cases, scratch, limit):
    """-> ok, {id: {(event, clause)}}, ids done, states, transitions"""
    fd, path = tempfile.mkstemp(suffix=".json", dir=scratch)
    with os.fdopen(fd, "w") as f:
        json.dump(cases, f)
    try:
        rc, out, err = tlc(module, module + ".cfg", scratch, {"VP_CASES": path}, limit=limit)
    except Slow:
        rc, out, err = -1, "", "time limit"
    finally:
        os.unlink(path)
    bad, done = {}, set()
    for line in out.splitlines():
        m = re.match(r'"?@@V (\S+) (\d+) (.*?)"?$', line)
        if m:
            bad.setdefault(int(m.group(1)), set()).add((int(m.group(2)), m.group(3)))
        m = re.match(r'"?@@D (\S+) (\d+)"?$', line)
        if m:
            done.add(int(m.group(1)))
    gen, dist = counts(out)
    ok = OKLINE in out
    if ok and done != set(c["id"] for c in cases):
        raise Broken("TLC did not finish %d cases of %s" % (len(cases) - len(done), module))
    return ok, bad, done, dist, gen, out[-3000:] + err[-2000:]


def validate(module, cases_file, scratch):
    """-> (cases, {id: {(event, clause)}}, done ids, states, transitions)

    TLC stops at the first case the specification cannot even evaluate (such a
    case is no behaviour of it): the offending ones are then searched for."""
    cases = json.load(open(cases_file))
    ok, bad, done, dist, gen, msg = one_run(module, cases, scratch, 600)
    if not ok:
        if not os.environ.get("VP_QUIET"):
            print("TLC stopped on %s: %s" % (module, msg if os.environ.get("VP_DEBUG") else msg[-200:].replace("\n", " ")))
        undef, t0 = 0, time.time()
        todo = [[c for c in cases if c["id"] not in done]]
        while todo and undef < 3 and time.time() - t0 < 200:
            part = todo.pop()
            if not part:
                continue
            o, b, d, x, g, msg = one_run(module, part, scratch, 100)
            for i in b:
                bad.setdefault(i, set()).update(b[i])
            done |= d
            dist += x
            gen += g
            if o:
                continue
            if len(part) == 1:
                bad.setdefault(part[0]["id"], set()).add((0, "undefined"))
                undef += 1
                continue
            rest = [c for c in part if c["id"] not in d]
            todo += [rest[len(rest) // 2:], rest[:len(rest) // 2]]
        if not undef:
            raise Broken("TLC failed on %s\n%s" % (module, msg))
    return cases, bad, done, dist, gen


def owned(clause, pats):
    if pats is None or clause in ("exc", "undefined", "shape"):
        return True
    return any(clause == p or clause.startswith(p + ".") for p in pats)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def shorten(o, depth=0):
    if isinstance(o, list):
        return [shorten(v, depth + 1) for v in o[:4]] + (["... %d more" % (len(o) - 4)] if len(o) > 4 else [])
    if isinstance(o, dict):
        return {k: shorten(v, depth + 1) for k, v in o.items()}
    return o


def main():
    prop = sys.argv[1]
    if prop == "setup":
        try:
            setup()
        except Broken as b:
            print(b)
            sys.exit(2)
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    setup()
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []},
          "assumptions": cfg.get("assumptions", []), "violations": 0}
    cov = ev["coverage"]
    detail = {}
    violations, found = [], []
    keep = os.environ.get("VP_KEEP")
    try:
        env = {}
        if cfg.get("schedules"):
            sm = cfg["schedules"]
            rc, out, err = tlc(sm, "%s_%s.cfg" % (sm, tier), scratch, {}, workers="1")
            lines = sorted(set(x.strip()[4:-1].replace('\\"', '"') for x in out.splitlines() if x.startswith('"@@S')))
            if "No error has been found" not in out or not lines:
                raise Broken("schedule generation failed\n" + out[-3000:] + err[-1000:])
            sp = os.path.join(scratch, "sched.txt")
            open(sp, "w").write("\n".join(lines))
            env["VP_SCHED"] = sp
            g, d = counts(out)
            cov["states"] += d
            cov["transitions"] += g
            detail["schedules_enumerated"] = len(lines)
        for suite in cfg["suites"]:
            cf = None
            for conf in suite.get("conf", ["pure"]):
                ext = None
                if conf == "ext" and os.environ.get("VP_PURE"):      # tools/automut.py
                    continue
                if conf == "ext":
                    ext = os.path.join(scratch, "ext", "pyparticleest", "utils")
                    if not os.path.isdir(ext):
                        ext = build_ext(scratch)
                env2 = dict(env)
                if conf == "ext" and cf:    # what the other configuration did
                    env2["VP_TWIN"] = cf
                h0 = time.time()
                cf, err = harness(suite["name"], prop, tier, seed, scratch, ext, env2)
                h1 = time.time()
                if cf is None:
                    found.append((suite["name"], conf, None, [(0, "import: " + err[-300:])]))
                    continue
                cases, bad, done, st, tr = validate(suite["trace"], cf, scratch)
                cov["states"] += st
                cov["transitions"] += tr
                cov["traces_validated_against_impl"] += len(done)
                kinds = {}
                for c in cases:
                    k = c["kind"] + ("/" + c["filter"] if "filter" in c else "") + ("/" + c["method"] if "method" in c else "")
                    kinds[k] = kinds.get(k, 0) + 1
                detail["%s/%s" % (suite["name"], conf)] = {
                    "cases": len(cases), "kinds": kinds, "harness_s": round(h1 - h0, 1),
                    "tlc_s": round(time.time() - h1, 1)}
                if cases:
                    cov["samples"].append(shorten(cases[len(cases) // 2]))
                byid = {c["id"]: c for c in cases}
                for i in sorted(bad):
                    cl = sorted(x for x in bad[i] if owned(x[1], suite.get("clauses")))
                    if cl:
                        found.append((suite["name"], conf, byid[i], cl))
                    elif os.environ.get("VP_DEBUG"):
                        print("not owned:", suite["name"], i, sorted(bad[i]))
        for entry in ([] if os.environ.get("VP_NOMC") else cfg.get("mc", [])):      # tools/automut.py
            mod, over = entry[0], (entry[1] if len(entry) > 1 else {})
            c = "%s_%s.cfg" % (mod, tier)
            if tier in over:
                over = over[tier]
            if over is None:
                continue
            m0 = time.time()
            if over:
                c = design_cfg(c, over, scratch)
            rc, out, err = tlc(mod, c, scratch, {})
            if "No error has been found" not in out or not counts(out)[1]:
                raise Broken("design model %s/%s does not hold\n%s\n%s" % (mod, c, out[-4000:], err[-1000:]))
            g, d = counts(out)
            cov["states"] += d
            cov["transitions"] += g
            detail["design/%s" % mod + ("/" + ",".join("%s=%s" % (k, v.lstrip("=< -")) for k, v in over.items()) if over else "")] = {"distinct_states": d, "states_generated": g,
                                       "tlc_s": round(time.time() - m0, 1)}
        cov["breakdown"] = detail
        known = known_findings()
        for n, (suite, conf, case, cl) in enumerate(found):
            key = "%s:%s" % (suite, ",".join(sorted(set(x[1] for x in cl))))
            hit = [k for k in known if k[0] == prop and case is not None and k[1] == case.get("finding_key", "-")]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
                continue
            rp = os.path.join(evdir, "replay", "%s-%d.json" % (prop, len(violations) + 1))
            if len(violations) < 20:
                json.dump({"property": prop, "suite": suite, "conf": conf, "seed": seed, "tier": tier,
                           "failing": [{"event": a, "clause": b} for a, b in cl], "case": case}, open(rp, "w"))
                print("VIOLATION property=%s replay=%s" % (prop, rp))
                print("  %s/%s case %s: %s %s" % (suite, conf, case["id"] if case else "-",
                      "; ".join("event %d: %s" % x for x in cl[:6]), (case or {}).get("exc", "")[:200]))
            violations.append(key)
        ev["violations"] = len(violations)
        rc = 1 if violations else 0
    except Broken as b:
        print("MACHINERY: %s" % b)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        if keep:
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    if rc != 2:
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %s in %.1f s, %d traces, %d states" % (
        prop, tier, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc], ev["wall_s"],
        cov["traces_validated_against_impl"], cov["states"]))
    sys.exit(rc)


if __name__ == "__main__":
    main()

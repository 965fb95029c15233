"""python main.py SUITE PROPERTY TIER SEED OUT: run scenarios, write cases."""
import importlib, json, multiprocessing, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
import pyparticleest.smoother  # noqa: E402,F401


def work(i):
    try:
        return SUITE.run(SCS[i])
    except Exception as e:      # the harness itself failed: not an observation
        import traceback
        return {"id": SCS[i]["id"], "kind": "machinery", "exc": traceback.format_exc()}


if __name__ == "__main__":
    name, prop, tier, seed, out = sys.argv[1:6]
    SUITE = importlib.import_module("suite_" + name)
    SCS = SUITE.prepare(SUITE.scenarios(prop, tier, int(seed)), random.Random("%s/%s/%s" % (name, prop, seed)))
    procs = int(os.environ.get("VP_PROCS", "8"))
    with multiprocessing.Pool(procs) as pool:
        cases = pool.map(work, range(len(SCS)), chunksize=max(1, min(8, len(SCS) // (4 * procs))))
    bad = [c for c in cases if c.get("kind") == "machinery"]
    if bad:
        sys.stderr.write(bad[0]["exc"])
        sys.exit(3)
    with open(out, "w") as f:
        json.dump(cases, f)

"""Scenarios for the forward filters and the resampling (C01..C10)."""
import json, math, os, random
import numpy
from fm import Tables
import drive_filter as df
import drive_sample as ds

FULL = ["cpf", "cpfas"]
PLAIN = ["pf", "apf", "sir", "pfy"]
COND = ["cpf", "cpfas", "csiras", "cpfyas"]
NEEDY = {"sir", "csiras", "pfy", "cpfyas"}
CASE_NAMES = {"pf": ["PF", "pf", "Pf"], "apf": ["APF", "apf"], "sir": ["SIR", "sir"],
              "pfy": ["pfy", "PFY"], "cpf": ["cpf", "CPF"], "cpfas": ["cpfas", "CPFAS"],
              "csiras": ["csiras", "CSIRAS"], "cpfyas": ["cpfyas", "CPFYAS"]}


def ops_random(rng, filt, steps, first=None, missing=0.25, mid=0.1, Y=3, uNone=None):
    ops = []
    if first is None:
        first = rng.random() < 0.5
    if filt in ("pfy", "cpfyas") and rng.random() < 0.7:
        first = True
    if uNone is None:
        uNone = rng.random() < 0.15
    if first:
        ops.append({"op": "measure", "y": None if filt not in NEEDY and rng.random() < 0.15 else rng.randrange(Y)})
    for _ in range(steps):
        y = rng.randrange(Y)
        if filt not in NEEDY and rng.random() < missing:
            y = None
        ops.append({"op": "forward", "u": None if uNone else rng.randrange(4), "y": y})
        if filt not in ("pfy", "cpfyas") and rng.random() < mid:
            ops.append({"op": "measure", "y": rng.randrange(Y)})
    return ops


def nsteps(ops):
    return 1 + sum(o["op"] == "forward" for o in ops)


def possible_path(rng, tab, ops, T):
    us = [o["u"] for o in ops if o["op"] == "forward"]
    p = [rng.randrange(tab.K)]
    for t in range(T - 1):
        row = tab.lt[tab.ctx(-1 if us[t] is None else us[t], t)][p[-1]]
        p.append(rng.choice([x for x in range(tab.K) if row[x] > -math.inf]))
    return p


REPS = ("flat", "flat", "flat", "flat", "deep", "rec", "obj", "obj")


def finish(rng, sc):
    T = nsteps(sc["ops"])
    if sc["filter"] in COND:
        sc["ref"] = possible_path(rng, sc["tab"], sc["ops"], T)
        sc["width"] = 1 if sc["filter"] == "cpfyas" else rng.choice([1, 1, 2, 3])
    sc["seed"] = rng.randrange(2 ** 30)
    if sc["N"] <= 12:
        sc["rep"] = REPS[sc["seed"] // 2 % len(REPS)]
    return sc


def scen(rng, ident, filt, N=None, res=None, steps=None, full=None, smooth=True, **kw):
    K = rng.choice([2, 3, 4])
    peak = rng.choice([0.5, 1.0, 2.0])
    if steps is None:
        steps = rng.randint(1, 6)
    if N is None:
        N = rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
    # transitions and measurements that are impossible
    possible = kw.pop("possible", False)
    # or all but impossible
    zeros = not possible and rng.random() < 0.25 or (rng.random() < 0.2 and "tiny")
    tab = Tables(rng, K, zeros=zeros, peak=peak, spread=kw.pop("spread", rng.choice([0.3, 1.0, 2.0])),
                 shift=kw.pop("shift", rng.choice([0.0, 0.0, 0.0, -1200.0, 900.0])), never=rng.choice([0.5, 1.0]) if not possible and rng.random() < 0.2 else 0.0,
                 scale=rng.choice([0.0, 0.0, 0.0, 900.0, -1100.0, 40.0]))
    if filt in ("pf", "apf") + tuple(FULL) and rng.random() < 0.3:
        tab.couple_meas(rng)
    if filt in ("pfy", "cpfas", "cpfyas") and rng.random() < 0.5:
        tab.couple(rng)
    if full is None:
        full = filt in ("pf", "apf", "cpf", "cpfas") and rng.random() < 0.4
    sc = {"run": "filter", "id": ident, "filter": filt, "fname": rng.choice(CASE_NAMES[filt]),
          "N": N, "tab": tab, "full": full,
          "res": res if res is not None else rng.choice([0, 0.3, 0.5, 2.0 / 3, 0.9, 1.0, 1.5]),
          "ops": ops_random(rng, filt, steps, **kw),
          "wrap": rng.choice(["int", "int", "arr", "col"])}
    sc["own_sir"] = filt in ("sir", "csiras") and rng.random() < 0.6
    T = nsteps(sc["ops"])
    sc["prealloc"] = rng.choice([None, None, None, 1, 2, T, T + 2, max(1, T - 1)])
    if sc["prealloc"] is not None and rng.random() < 0.3 and not any(
            o.get("u", 0) is None or o["y"] is None for o in sc["ops"]) and sc["ops"][0]["op"] == "measure":
        sc["typed"] = True
        sc["wrap"] = "int"
    if smooth and rng.random() < 0.35:
        sc["smooth"] = rng.choice(["full", "ancestor", "mcmc"])
        if filt in COND and zeros is True:
            sc["smooth"] = "ancestor"
        sc["M"] = rng.choice([1, 2, 5])
    sc["looks"] = [k for k in range(len(sc["ops"])) if rng.random() < 0.3]
    return finish(rng, sc)


def tuned(rng, ident, filt):
    """threshold just above or below the effective sample size"""
    sc = scen(rng, ident, filt, N=rng.choice([2, 3, 5, 8]), res=0, steps=1, smooth=False, missing=0.0,
              mid=0.0, first=True, spread=rng.choice([0.3, 1.0, 3.0]))
    sc["full"] = False
    case = df.run_filter(sc)
    if case["exc"] or not case["ev"]:
        return sc
    w = numpy.asarray([float(v) for v in case["ev"][0]["w"]])
    if filt == "apf":
        a = sc["tab"].ctx(case["ops"][1]["u"], 0)
        w = w + numpy.asarray([sc["tab"].ls[case["ops"][1]["y"]][a][x] for x in case["ev"][0]["x"]])
    p = numpy.exp(w - w.max())
    p /= p.sum()
    neff = 1.0 / (p ** 2).sum()
    sc["res"] = float(neff / sc["N"] * rng.choice([0.97, 0.999, 0.99999, 1.00001, 1.001, 1.03]))
    return sc


def tied(rng, ident, filt):
    """an effective sample size that equals the threshold: not below it"""
    N = rng.choice([2, 4, 4, 8])
    sc = scen(rng, ident, filt, N=N, res=rng.choice([1.0, 1.0, 0.5]), steps=rng.choice([1, 2]), full=False, smooth=False,
              first=False, missing=0.6, mid=0.0)
    if rng.random() < 0.6:        # measurements that rule particles out, and do not tell the others apart
        for y in range(len(sc["tab"].ll)):
            for r in sc["tab"].ll[y]:
                for x in range(sc["tab"].K):
                    r[x] = -math.inf if x == y % sc["tab"].K else -1.0
        sc["tab"].hm = [[0.0 for _ in r] for r in sc["tab"].hm]
        if filt == "pf":
            sc["ops"].insert(0, {"op": "measure", "y": rng.randrange(3)})
    sc["ties"] = True
    return finish(rng, sc)


def large(rng, props):
    """many particles; many steps"""
    out = []
    for f in props:
        out.append(scen(rng, 0, f, N=rng.choice([65, 70, 101, 130]), steps=3, smooth=False, possible=True))
        out.append(scen(rng, 0, f, N=rng.choice([3, 4]), steps=40, smooth=False, possible=True))
    return out


def alive(sc):
    """the step to be repeated starts with, and leads to, proper weights"""
    case = df.run_filter(dict(sc, n=1, smooth=""))
    return not case["exc"] and all("nan" not in [str(v) for v in e["w"]] for e in case["ev"])


def flaw_scen(rng, ident, filt, n, res=None, far=False):
    """repeat a step; what nothing can explain is left to the other traces"""
    for k in range(4):
        sc = flaw_one(rng, ident, filt, n, res, k == 3)
        if far:
            # the reference moves where no particle is likely to go
            u = [o["u"] for o in sc["ops"] if o["op"] == "forward"]
            a, to = sc["tab"].ctx(-1 if u[-1] is None else u[-1], len(u) - 1), sc["ref"][-1]
            for r in sc["tab"].lt[a]:
                w = [0.0 if x == to else math.exp(v) for x, v in enumerate(r)]
                if sum(w) == 0:
                    w = [0.0 if x == to else 1.0 for x in range(len(r))]
                r[:] = [math.log(v / sum(w)) if v > 0 else -math.inf for v in w]
                r[to] = -900.0 + rng.gauss(0, 1)
        if k == 3 or alive(sc):
            return sc


def flaw_one(rng, ident, filt, n, res, possible):
    steps = rng.choice([1, 2, 2, 3])
    N = rng.choice([2, 3, 4, 5]) if filt not in COND else rng.choice([2, 3, 4])
    sc = scen(rng, ident, filt, N=N, res=1.01 if res is None else res, steps=steps, full=False,
              smooth=False, missing=0.0, mid=0.0, uNone=False, first=True if steps == 1 else None,
              spread=rng.choice([0.7, 1.5]), possible=possible)
    sc["run"] = "flaw"
    sc["n"] = n
    return sc


def weights(rng, log):
    N = rng.choice([1, 2, 3, 4, 5, 7, 10])
    kind = rng.choice(["rand", "rand", "rand", "equal", "peak", "zeros", "ties", "decades"])
    if kind == "equal":
        w = [1.0] * N
    elif kind == "peak":
        w = [1e-6] * N
        w[rng.randrange(N)] = 1.0
    elif kind == "zeros":
        w = [0.0 if rng.random() < 0.5 else rng.random() + 1e-3 for _ in range(N)]
        w[rng.randrange(N)] = 0.7
    elif kind == "ties":
        w = [rng.choice([0.125, 0.25, 0.5]) for _ in range(N)]
    elif kind == "decades":
        w = [10 ** rng.uniform(-12, 0) for _ in range(N)]
    else:
        w = [rng.random() + 1e-9 for _ in range(N)]
    scale = 10 ** rng.choice([0, 0, -3, 5])
    w = [v * scale for v in w]
    if log:
        off = rng.choice([0, 0, -50.0, 80.0, -1e4, 1e4])
        w = [(math.log(v) if v > 0 else -math.inf) + off for v in w]
    return w


def sample_scens(rng, tier):
    out = []
    big = 8 if tier == "thorough" else 2
    for i in range(60 * big):
        out.append({"run": "sample", "via": "sample", "w": weights(rng, False), "n": rng.choice([1, 2, 3, 5, 8, 13, 20]),
                    "reps": 40, "arr": rng.random() < 0.8})
    for i in range(16 * big):
        out.append({"run": "sample", "via": "sample", "w": weights(rng, False),
                    "n": rng.choice([1, 2, 3, 5, 7]), "reps": 6000})
    for i in range(40 * big):
        w = weights(rng, True)
        n = rng.choice([len(w), len(w), 1, 2, 2 * len(w), 3, 11])
        out.append({"run": "sample", "via": "resample", "w": w, "n": n,
                    "explicit": not (n == len(w) and rng.random() < 0.5), "reps": 30})
    for i in range(10 * big):
        w = weights(rng, True)
        out.append({"run": "sample", "via": "resample", "w": w, "n": len(w), "explicit": rng.random() < 0.5,
                    "reps": 2500})
    for i in range(12 * big):
        out.append({"run": "sample", "via": "pa.sample", "w": weights(rng, True), "n": 1, "reps": 2500})
    # weights whose exponentials underflow
    for off in (-1000.0, -1e5, 1000.0, 1e5):
        w = [math.log(v) + off for v in (0.2, 0.3, 0.5)]
        out.append({"run": "sample", "via": "resample", "w": w, "n": 3, "explicit": False, "reps": 500})
        out.append({"run": "sample", "via": "pa.sample", "w": w, "n": 1, "reps": 2500})
    # many particles
    for N, n in ((1000, 1000), (1000, 10), (10, 1000), (257, 300)):
        out.append({"run": "sample", "via": "sample", "w": [rng.random() ** 3 for _ in range(N)], "n": n, "reps": 3})
    for i in range(60 * big):
        w = weights(rng, True)
        out.append({"run": "best", "w": w, "n": rng.choice([0, 1, 2, 3, len(w), len(w) + 2])})
    for i in range(25 * big):
        out.append({"run": "neff", "w": weights(rng, True)})
    return out


def scenarios(prop, tier, seed):
    rng = random.Random("%s-%s" % (prop, seed))
    big = 12 if tier == "thorough" else 4
    out = []
    if prop == "C01":
        out = sample_scens(rng, tier)
        for i in range(20 * big):
            out.append(scen(rng, 0, rng.choice(["pf", "apf"]), res=1.5, smooth=False))
    elif prop == "C02":
        for i in range(110 * big):
            out.append(scen(rng, 0, "pf"))
        for i in range(8 * big):
            out.append(flaw_scen(rng, 0, "pf", 2500))
        out.append(scen(rng, 0, "pf", N=150, steps=5, smooth=False))
        out.append(scen(rng, 0, "pf", N=4, steps=60, smooth=False))
    elif prop == "C03":
        for i in range(30 * big):
            for f in PLAIN:
                out.append(tuned(rng, 0, f))
        for i in range(20 * big):
            for f in PLAIN:
                out.append(scen(rng, 0, f, smooth=False))
        for i in range(15 * big):
            out.append({"run": "neff", "w": weights(rng, True)})
        for i in range(12 * big):
            out.append(tied(rng, 0, "pf"))
        for i in range(3 * big):
            out += [tied(rng, 0, "sir"), tied(rng, 0, "pfy")]
        out += large(rng, PLAIN)
    elif prop == "C04":
        for i in range(12 * big):
            for f in PLAIN + COND:
                out.append(scen(rng, 0, f, smooth=False,
                                shift=rng.choice([-1e6, -2e4, -800.0, 800.0, 2e4, 1e6]),
                                spread=rng.choice([1.0, 30.0, 900.0])))
        for f in PLAIN + COND:
            out.append(scen(rng, 0, f, N=5, steps=40, smooth=False, shift=rng.choice([-800.0, -30.0, 300.0]), possible=True))
    elif prop == "C05":
        for i in range(18 * big):
            for f in PLAIN + COND:
                sc = scen(rng, 0, f, steps=rng.randint(2, 7))
                if rng.random() < 0.5:
                    sc["smooth"] = rng.choice(["full", "ancestor", "mcmc", "rs", "rsas"])
                    if f in COND and sc["tab"].zeros:
                        sc["smooth"] = "ancestor"
                    if f in ("pf", "apf") and nsteps(sc["ops"]) > 1:
                        sc["smooth"] = rng.choice([sc["smooth"], "mhips", "mhips_reduced", "mhbp"])
                        if sc["smooth"].startswith("mh"):
                            if any(o["y"] is None for o in sc["ops"]) and sc["tab"].zeros:
                                sc["smooth"] = "full"
                            sc["sopt"] = {"R": 2}
                    sc["M"] = rng.choice([1, 2, 5])
                out.append(sc)
        out += large(rng, PLAIN + COND)
    elif prop == "C06":
        for i in range(90 * big):
            out.append(scen(rng, 0, "apf"))
        for i in range(30 * big):
            out.append(tuned(rng, 0, "apf"))
        for i in range(8 * big):
            out.append(flaw_scen(rng, 0, "apf", 2500))
        out += large(rng, ["apf"])
    elif prop == "C07":
        for i in range(100 * big):
            out.append(scen(rng, 0, "sir"))
        for i in range(6 * big):
            out.append(flaw_scen(rng, 0, "sir", 2500))
        out += large(rng, ["sir"])
    elif prop == "C08":
        for i in range(30 * big):
            for f in COND:
                out.append(scen(rng, 0, f))
        for i in range(6 * big):
            for f in COND:
                out.append(flaw_scen(rng, 0, f, 3000))
        for i in range(2 * big):
            for f in ("cpfas", "csiras", "cpfyas"):
                out.append(flaw_scen(rng, 0, f, 3000, far=True))
        out += large(rng, COND)
    elif prop == "C09":
        for i in range(50 * big):
            for f in ("pfy", "cpfyas"):
                out.append(scen(rng, 0, f))
        for i in range(6 * big):
            for f in ("pfy", "cpfyas"):
                out.append(flaw_scen(rng, 0, f, 2500))
        out += large(rng, ["pfy", "cpfyas"])
    elif prop == "C10":
        for i in range(60 * big):
            out.append(scen(rng, 0, rng.choice(["pf", "apf", "cpf", "cpfas"]), full=True, smooth=i % 3 == 0,
                            missing=0.4, mid=0.2))
        for i in range(15 * big):
            for f in ("sir", "csiras", "pfy", "cpfyas"):
                out.append(scen(rng, 0, f, smooth=False))
        out += large(rng, ["pf", "cpfas"]) + scheduled(rng, tier)
    return out


def scheduled(rng, tier):
    """call sequences enumerated by TLC from spec/Schedules.tla"""
    path = os.environ.get("VP_SCHED")
    out = []
    if not path:
        return out
    for line in open(path):
        d = json.loads(line)
        tab = Tables(rng, 3)
        sc = {"run": "filter", "id": 0, "filter": d["filter"], "N": d["n"], "tab": tab,
              "full": d["filter"] in ("pf", "apf", "cpf", "cpfas"),
              "res": d["res"] / 100.0, "wrap": "int",
              "prealloc": None if d["pre"] < 0 else d["pre"],
              "ops": [{"op": o["op"], "y": None if o["y"] < 0 else o["y"],
                       "u": None if o["u"] < 0 else o["u"]} for o in d["ops"]]}
        if d["look"]:
            sc.update({"smooth": rng.choice(["full", "ancestor"]), "M": 2, "looks": [d["look"] - 1]})
        out.append(finish(rng, sc))
    return out


def run(sc):
    return {"filter": df.run_filter, "flaw": df.flaw, "sample": ds.run_sample,
            "best": ds.run_best, "neff": ds.run_neff}[sc["run"]](sc)


def prepare(scs, rng):
    for i, sc in enumerate(scs):
        sc["id"] = i + 1
        sc.setdefault("seed", rng.randrange(2 ** 30))
    return scs

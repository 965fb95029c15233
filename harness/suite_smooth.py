"""Scenarios for the smoothers (C11..C15)."""
import random
from fm import Tables, rows
import suite_filter as sf
import drive_smooth as dsm

BSI = ["full", "rs", "rsas", "mcmc", "ancestor"]
MH = ["mhips", "mhips_reduced", "mhbp"]


def options(rng, method):
    if method == "rs":
        return rng.choice([None, {"R": 0}, {"R": 1}, {"R": 2.9}, {"R": 10}, {"R": 200}])
    if method == "rsas":
        return rng.choice([None, {"ratio": rng.choice([0.01, 0.5, 5.0])},
                           {"x1": rng.random(), "P1": rng.random(), "sv": rng.random(), "sw": 0.1 + rng.random(),
                            "ratio": rng.choice([0.05, 1.0])}])
    if method == "mcmc":
        return {"R": rng.choice([0, 1, 1, 2, 3, 5])}
    if method in MH:
        return {"R": rng.choice([0, 1, 1, 2, 2, 3])}
    return None


def base(rng, method, N, T, M, K=None, zeros=None, couple=None, missing=0.2, peak=None, filt=None, first=None, never=True):
    K = K or rng.choice([2, 3, 4])
    if zeros is None:
        zeros = rng.choice([True, True, "tiny", False, False])
    if filt is None:
        filt = rng.choice(["pf", "pf", "pf", "apf"] + (["cpfas", "cpf", "sir", "pfy", "csiras", "cpfyas"]
                                                       if method in BSI else []))
    tab = Tables(rng, K, zeros=zeros, peak=peak or rng.choice([0.7, 1.2, 2.0]),
                 spread=rng.choice([0.3, 1.0, 1.5]), shift=rng.choice([0.0, 0.0, -2000.0, 500.0]),
                 never=rng.choice([0.4, 1.0]) if never and rng.random() < 0.25 and not filt.startswith("c") else 0.0,
                 scale=rng.choice([0.0, 0.0, 0.0, 900.0, -1100.0, 40.0]))
    tab.slack = rng.choice([0.0, 0.0, 0.5, 1.5])
    if couple is None:
        couple = rng.random() < 0.4
    if couple:
        tab.couple(rng, 0.8)
    if rng.random() < (0.3 if method in BSI else 0.6):
        tab.couple_meas(rng, 0.9)
    opt = options(rng, method)
    sc = {"filter": filt, "N": N, "M": M, "tab": tab, "method": method, "opt": opt,
          "R": int(opt["R"]) if opt and "R" in opt else 0,
          "res": rng.choice([0.0, 0.3, 0.67, 1.01]), "wrap": rng.choice(["int", "arr"]),
          "prealloc": rng.choice([None, None, T, T + 3, 1]), "seed": rng.randrange(2 ** 30),
          "ops": sf.ops_random(rng, filt, T - 1, mid=0.0, missing=missing, first=first)}
    if filt.startswith("c"):
        sc["ref"] = sf.possible_path(rng, tab, sc["ops"], T)
    return sc


def alive(make):
    """scenarios in which the filter always has something to work with"""
    for k in range(6):
        sc = make(k < 5)
        if k == 5 or dsm.proper(sc):
            return sc


def det(rng, method):
    return alive(lambda never: det1(rng, method, never))


def law(rng, method, n, mode):
    return alive(lambda never: law1(rng, method, n, mode, never))


def large(rng, method, **kw):
    """many particles and trajectories; many steps"""
    out = []
    for N, M, T in ((rng.choice([65, 101]), rng.choice([67, 120]), 3), (rng.choice([3, 5]), 2, 40), (4, 90, 4)):
        sc = alive(lambda never: base(rng, method, N, T, M, couple=False if method in MH else None, never=never, zeros=False, **kw))
        sc["run"] = "smooth"
        sc["hook"] = False
        if method == "rs":
            sc["opt"] = rng.choice([None, {"R": 3}])
        if method in MH + ["mcmc"] and N > 50:
            sc["opt"], sc["R"] = None, 1
        out.append(sc)
    return out


def det1(rng, method, never):
    T = rng.choice([1, 2, 3, 4, 6, 9, 14]) if method in BSI else rng.choice([2, 3, 4, 6, 9])
    sc = base(rng, method, rng.choice([1, 2, 3, 5, 8, 12]), T, rng.choice([1, 2, 3, 5, 9]),
              couple=False if method in MH else None, never=never)
    if T == 1:
        sc["ops"] = [{"op": "measure", "y": rng.randrange(3)}]
        if "ref" in sc:
            sc["ref"] = sc["ref"][:1]
    sc["run"] = "smooth"
    sc["hook"] = rng.random() < 0.4
    sc["rep"] = sf.REPS[sc["seed"] // 2 % len(sf.REPS)]
    if method in MH[:2] and sc["seed"] % 11 == 0 and sc["N"] < 6:
        # the default number of passes, counted by the hook
        sc["opt"], sc["hook"], sc["R"] = rng.choice([None, {}]), True, {"mhips": 30, "mhips_reduced": 10}[method]
    return sc


def law1(rng, method, n, mode, never):
    """mode: 'N1' one particle, 'M1' one trajectory, 'dom' one particle has all the
    weight at the end, 'agg' positions aggregated"""
    if method in BSI:
        N, T = rng.choice([(2, 4), (3, 3), (3, 4), (4, 3), (5, 3), (4, 2)])
        M = rng.choice([1, 2, 3])
        K = None
    else:
        K, T = rng.choice([(2, 4), (3, 3), (2, 3), (4, 2), (3, 2)] if mode == "N1" else [(2, 4), (3, 3), (2, 3), (3, 2)])
        N = 1 if mode == "N1" else rng.choice([2, 3, 4])
        M = 1 if mode == "M1" else rng.choice([2, 3])
    sc = base(rng, method, N, T, M, K=K, peak=rng.choice([1.0, 1.6]),
              couple=None if method in BSI else rng.random() < 0.65, never=never)
    if mode == "dom":
        # the last measurement singles out one state
        y = rng.randrange(3)
        sc["ops"][-1]["y"] = y
        par = (T - 1) % 2
        keep = rng.randrange(sc["tab"].K)
        for q in (0, 1):
            sc["tab"].ll[y][q] = [v - (400.0 if x != keep and q == par else 0.0)
                                  for x, v in enumerate(sc["tab"].ll[y][q])]
        for o in sc["ops"][:-1]:
            if o["y"] == y:
                o["y"] = (y + 1) % 3
        sc["dom"] = True
    if method in ("rs", "rsas") and rng.random() < 0.7:
        # tight bounds that differ a lot between the time steps
        tab = sc["tab"]
        tab.slack = 0.0
        tab.lt = [[rows(rng, tab.K, False, pk) for _ in range(tab.K)] for pk in rng.sample([0.1, 0.1, 2.5, 2.5], 4)]
        for k, o in enumerate(sc["ops"]):
            if o["op"] == "forward":
                o["u"] = rng.randrange(4)
        if rng.random() < 0.6:
            tab.g = [[0.0] * tab.K for _ in range(tab.K)]
            tab.h = [[0.0] * tab.K for _ in range(tab.K)]
        if method == "rs":
            sc["opt"] = {"R": rng.choice([1, 3, 10])}
            sc["R"] = sc["opt"]["R"]
    sc["run"] = "law"
    sc["n"] = n
    return sc


def scenarios(prop, tier, seed):
    rng = random.Random("%s-%s" % (prop, seed))
    big = 9 if tier == "thorough" else 3
    n = 4000
    out = []
    if prop == "C10":
        out += [det(rng, m) for m in BSI + MH for _ in range(14 * big)]
    elif prop == "C11":
        out += [det(rng, "full") for _ in range(80 * big)]
        out += large(rng, "full")
        out += [law(rng, "full", n, "") for _ in range(24 * big)]
    elif prop == "C12":
        for m in ("rs", "rsas"):
            out += [det(rng, m) for _ in range(40 * big)]
            out += large(rng, m)
            out += [law(rng, m, n, "") for _ in range(16 * big)]
    elif prop == "C13":
        out += [det(rng, "mcmc") for _ in range(80 * big)]
        out += large(rng, "mcmc")
        out += [law(rng, "mcmc", n, "") for _ in range(24 * big)]
    elif prop == "C14":
        for m in MH:
            out += [det(rng, m) for _ in range(25 * big)]
            out += large(rng, m)
            for mode, k in ((("N1", 2), ("M1", 12), ("dom", 9), ("agg", 4)) if m == "mhbp" else
                            (("N1", 4), ("M1", 6), ("dom", 6), ("agg", 4))):
                out += [law(rng, m, 4000, mode) for _ in range(k * big)]
    elif prop == "C15":
        out += [det(rng, "ancestor") for _ in range(150 * big)]
        out += [sc for f in ("pf", "cpfas", "sir", "pfy", "cpfyas") for sc in large(rng, "ancestor", filt=f)]
        out += [law(rng, "ancestor", 1000, "") for _ in range(10 * big)]
    return out


def run(sc):
    return dsm.run_smooth(sc) if sc["run"] == "smooth" else dsm.slaw(sc)


def prepare(scs, rng):
    for i, sc in enumerate(scs):
        sc["id"] = i + 1
    return scs

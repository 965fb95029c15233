"""Several runs whose calls are interleaved (C30).

A run is a short program of calls: its outputs alone, interleaved with those of
other runs as a schedule of the specification says, and repeated afterwards with
the same model and arguments are recorded.  Every run has numpy's random state
to itself: the state is exchanged whenever another run takes over."""
import copy, json, os, random
import numpy
from common import guard, Quiet
import drive_filter as df
import gm
import suite_gauss as sg
from fm import FM, FMSir, Tables, V
from suite_em import LtvGrad, LtvNum
import pyparticleest.filter as pf
import pyparticleest.paramest.paramest as paramest
from pyparticleest.simulator import Simulator

FILTERS = ["pf", "pf", "apf", "sir", "csiras", "pfy", "cpf", "cpfas", "cpfyas"]


def fmprog(rng):
    filt = rng.choice(FILTERS)
    how = rng.choice(["pt", "pt", "sim"])
    T = rng.choice([2, 3, 4, 6])
    first = rng.random() < 0.5 or filt in ("pfy", "cpfyas")
    tab = Tables(rng, rng.choice([2, 3, 4]), peak=rng.choice([0.5, 1.5]), shift=rng.choice([0, -900.0]))
    meth = rng.choice(["full", "ancestor", "mcmc", "rs", "rs", "rsas"] + (["mhips", "mhips_reduced", "mhbp"] if filt in ("pf", "apf") else []))
    ys = [None if filt in ("pf", "apf", "cpf", "cpfas") and rng.random() < 0.2 else rng.randrange(3) for _ in range(T)]
    p = {"kind": "fm", "how": how, "filter": filt, "N": rng.choice([2, 3, 5]), "M": rng.choice([1, 2, 4]), "tab": tab, "method": meth,
         "first": first, "y": ys, "u": [rng.randrange(4) for _ in range(T)], "res": rng.choice([0.0, 0.67, 1.01]),
         "opt": rng.choice([{"R": 2}, {"R": 2}, {}, None] if meth in ("mcmc", "mhips", "mhbp") else [{"R": 3}, None] if meth == "rs" else [None, {}]),
         "rep": rng.choice(["flat", "flat", "deep", "rec"]) if how == "pt" else "flat", "ref": None,
         "room": rng.choice([None, None, T + 3]), "seed": rng.randrange(2 ** 30)}
    if filt.startswith("c"):
        p["ref"] = [rng.randrange(tab.K) for _ in range(T + (not first))]
    return p


def gmprog(rng):
    cls = rng.choice(["ltv", "nlg", "mls", "mls", "mlm", "hier"])
    if cls == "ltv":
        lz, ny = rng.choice([(1, 1), (2, 1), (2, 2)])
        T = rng.choice([2, 3, 4])
        u, y = sg.data(rng, T, ny, True, 0.2)
        sc = {"cls": cls, "s": gm.gen(rng, "ltv", 0, lz, ny), "u": u, "y": y, "T": T, "first": rng.random() < 0.5, "filter": "pf",
              "N": rng.choice([1, 2, 3]), "M": rng.choice([1, 2]), "res": rng.choice([0.0, 1.01]), "seed": rng.randrange(2 ** 30)}
        sc["method"] = rng.choice(["full", "mcmc", "ancestor"])
    else:
        meth = rng.choice({"nlg": ["full", "rs", "mcmc", "ancestor", "mhips", "mhbp"], "mls": ["full", "rs", "mcmc", "ancestor", "mhips", "mhbp"],
                           "mlm": ["full", "mcmc", "ancestor", "mhips"], "hier": ["full", "rs", "mcmc", "ancestor"]}[cls])
        sc = sg.runsc(rng, cls, meth, corr=cls == "mls", T=rng.choice([2, 3, 4]))
        if sc["th"]:
            sc["s"] = sc["s"].fold(sc["th"][1])
    y = sc["y"] if sc["first"] else sc["y"][1:]
    return {"kind": "gm", "cls": cls, "how": rng.choice(["pt", "sim", "sim"]), "filter": sc["filter"], "N": sc["N"], "M": sc["M"], "s": sc["s"],
            "method": sc["method"], "first": sc["first"], "y": y, "u": [0.3 if v is None else v for v in sc["u"][:len(y)]], "res": sc["res"],
            "opt": rng.choice([{"R": 2}] * 5 + [{}, None] if sc["method"] in ("mcmc", "mhips", "mhbp") else [None, {}]), "style": sc.get("style", "list"),
            "ref": None, "room": rng.choice([None, sc["T"] + 2]), "seed": sc["seed"]}


class FMEM(FM):
    """parameters that only record what was maximized"""
    params = None

    def set_params(self, params):
        self.params = numpy.copy(params)

    def maximize(self, straj):
        return numpy.array([numpy.mean([V(s.pa.part)[:, 0] for s in straj.traj])])

    def maximize_weighted(self, straj, alltrajs, weights):
        return numpy.array([numpy.sum(alltrajs[:, :, 0] * weights) / len(alltrajs)])


def saprog(rng):
    p = fmprog(rng)
    while p["filter"] not in ("pf", "cpf", "cpfas"):
        p = fmprog(rng)
    v = rng.choice(["saem", "psaem", "psaem2"])
    if v != "saem" and p["ref"] is None:
        p["filter"], p["ref"] = rng.choice(["cpf", "cpfas"]), [rng.randrange(p["tab"].K) for _ in range(len(p["y"]) + (not p["first"]))]
    p.update(how="em", variant=v, method=rng.choice(["full", "ancestor"]), rep="flat", th=[0.5], M=rng.choice([1, 2]),
             alpha=[1.0] + [rng.choice([1.0, 0.5, 0.25]) for _ in range(3)])
    p["opt"] = None
    return p


def emprog(rng):
    if rng.random() < 0.7:
        return saprog(rng)
    T = rng.choice([3, 5])
    s = gm.gen(rng, "ltv", 0, 1, 1)
    s.nparam = 1
    s.fz.append(("p1", numpy.array([[0.4]])))
    u, y = sg.data(rng, T, 1, True, 0.0)
    return {"kind": "em", "how": "em", "filter": "pf", "N": 2, "M": 1, "s": s, "grad": rng.random() < 0.5, "method": "full", "first": True, "y": y,
            "u": [0.3 if v is None else v for v in u], "res": 0.67, "opt": None, "ref": None, "th": [round(rng.uniform(-0.5, 0.5), 2)],
            "seed": rng.randrange(2 ** 30)}


def scenarios(prop, tier, seed):
    rng = random.Random("%s-%s" % (prop, seed))
    scheds = [json.loads(x)["s"] for x in open(os.environ["VP_SCHED"]).read().splitlines()]
    rng.shuffle(scheds)
    out = []
    for i in range(700 if tier == "quick" else 2400):
        sch = scheds[i % len(scheds)]
        n = max(sch)
        a = rng.choice([fmprog, fmprog, gmprog, gmprog, gmprog, emprog] if i % 4 == 0 else [fmprog, gmprog])(rng)
        progs, share = [a], False
        how = rng.choice(["own", "own", "like", "share"]) if a["how"] != "em" or a["kind"] == "fm" else "own"
        while len(progs) < n:
            if how == "own":
                b = rng.choice([fmprog, gmprog])(rng)
            else:
                # the same kind of run on other data, of the same model when shared
                b = dict(a, seed=rng.randrange(2 ** 30), N=rng.choice([2, 3, 4]), M=rng.choice([1, 2, 3]))
                if a["kind"] == "fm":
                    b["y"] = [None if v is None else (v + 1) % 3 for v in a["y"]]
                    if how == "like":
                        b["tab"] = Tables(rng, a["tab"].K)
                else:
                    b["y"] = [None if v is None else [q + 0.5 for q in v] for v in a["y"]]
                    if how == "like":
                        b["s"] = copy.deepcopy(a["s"])
                        for f in ("fz", "fxi", "h"):
                            if getattr(b["s"], f, None):
                                k, m = getattr(b["s"], f)[0]
                                getattr(b["s"], f)[0] = (k, m + 0.4)
            progs.append(b)
        rng.shuffle(progs) if how == "own" else None
        out.append({"progs": progs, "sched": sch, "share": how == "share"})
    return out


def make_model(p):
    if p["kind"] == "fm":
        m = (FMEM if p["how"] == "em" else FMSir if p["filter"] in ("sir", "csiras") else FM)(p["tab"], p["seed"])
        m.how = p["rep"]
        return m
    if p["kind"] == "em":
        return (LtvGrad if p["grad"] else LtvNum)(p["s"], par=p["th"])
    if p["cls"] == "nlg" and p["s"].how.get("y") == "hook":
        p["s"].ysh = 0.0
    return {"ltv": lambda: gm.HLTV(p["s"]), "nlg": lambda: gm.HNLG(p["s"], p["style"], "both", False), "hier": lambda: gm.HHier(p["s"], p["style"]),
            "mls": lambda: gm.HMLS(p["s"], p["style"]), "mlm": lambda: gm.HMLM(p["s"], p["style"])}[p["cls"]]()


def make_args(p, model):
    if p["kind"] == "fm":
        a = {"y": list(p["y"]), "u": list(p["u"])}
    else:
        a = {"y": [None if v is None else numpy.asarray(v, dtype=float) for v in p["y"]], "u": [numpy.asarray([v]) for v in p["u"]]}
    a["opt"] = None if p["opt"] is None else dict(p["opt"])
    a["fopt"] = {}
    if p["ref"]:
        a["fopt"]["cond_traj"] = df.ref_traj(model, p["ref"])
    return a


def txt(a):
    return [repr(float(v)) for v in numpy.asarray(a, dtype=float).ravel()]


def args_out(a):
    """the arguments as they are now"""
    o = [json.dumps([None if v is None else txt(v) for v in a[k]]) for k in ("y", "u")]
    o.append(repr(a["opt"]))
    o.append(repr(sorted(a["fopt"])))
    for s in a["fopt"].get("cond_traj", []):
        o += txt(V(s.pa.part)[:, 0]) + txt(s.ancestors) + txt(s.pa.w) + txt(s.pa.w_offset)
    return o


class Run(object):
    """one program in one execution"""

    def __init__(self, p, model, args):
        self.p, self.model, self.a = p, model, args
        self.rs = numpy.random.RandomState(p["seed"] & 0x7fffffff).get_state()
        self.fmrng = random.Random(p["seed"])
        self.pt = self.sim = None
        self.kept = []
        self.k = 0

    def parts(self, part):
        if self.p["kind"] == "fm":      # states; the names of the particles are the model's
            return txt(V(part)[:, 0])
        return txt(part)

    def out(self):
        """everything the run has produced so far"""
        o = []
        for s in (self.pt.traj if self.pt is not None else []):
            o += self.parts(s.pa.part) + txt(s.pa.w) + txt(s.pa.w_offset) + txt(s.ancestors)
        for st in self.kept:
            for s in st.traj:
                o += self.parts(s.pa.part)
        return o

    def reads(self):
        o = []
        if self.p["kind"] == "fm" and self.p["rep"] != "flat":
            return o
        n = 1 if self.p["kind"] == "fm" else None
        for st in self.kept:
            o += txt(st.get_smoothed_estimates()[:, :, :n])
        if self.sim is not None:
            e, w = self.sim.get_filtered_estimates()
            o += txt(e[:, :, :n]) + txt(w)
            o += txt(self.sim.get_filtered_mean()[:, :n]) + txt(self.sim.get_smoothed_mean()[:, :n])
        return o

    # ---- the trajectory driven step by step
    def pt_(self):
        p, a = self.p, self.a
        kw = {} if p["room"] is None else {"T": p["room"]}
        if p["ref"] or p["seed"] % 2:
            kw["filter_options"] = a["fopt"]
        return pf.ParticleTrajectory(self.model, p["N"], resample=p["res"], filter=p["filter"], **kw)

    def feed(self, lo, hi):
        p, a = self.p, self.a
        for i in range(lo, hi):
            if p["first"] and i == 0:
                self.pt.measure(a["y"][0])
            else:
                self.pt.forward(a["u"][i - int(p["first"])], a["y"][i])

    def smooth(self, M, method, opt):
        self.kept.append(self.pt.perform_smoothing(M, method=method, smoother_options=opt))

    def do_pt(self, k):
        p, n = self.p, len(self.p["y"])
        h = n // 2
        if k == 0:
            self.pt = self.pt_()
            self.feed(0, h)
        elif k == 1:
            self.feed(h, n)
        elif k == 2:
            self.smooth(p["M"], p["method"], self.a["opt"])
        else:
            self.smooth(2, "ancestor", None)
            return self.reads()
        return []

    def do_sim(self, k):
        p, a = self.p, self.a
        if k == 0:
            self.sim = Simulator(self.model, u=a["u"], y=a["y"])
        elif k == 1:
            kw = {"filter_options": a["fopt"]} if p["ref"] or p["seed"] % 2 else {}
            self.sim.simulate(p["N"], p["M"], filter=p["filter"], res=p["res"], smoother=p["method"], smoother_options=a["opt"],
                              meas_first=p["first"], **kw)
            self.pt, self.kept = self.sim.pt, [self.sim.straj]
        elif k == 2:
            return self.reads()
        else:
            self.smooth(2, "ancestor", None)
            return self.reads()
        return []

    def do_em(self, k):
        p, a = self.p, self.a
        if k == 0:
            self.sim = {"saem": paramest.ParamEstimationSAEM, "psaem": paramest.ParamEstimationPSAEM, "psaem2": paramest.ParamEstimationPSAEM2,
                        "": paramest.ParamEstimation}[p.get("variant", "")](self.model, u=a["u"], y=a["y"])
        elif k == 3:
            return self.reads()
        elif p["kind"] == "fm":
            kw = {"smoother": p["method"], "filter": p["filter"], "meas_first": p["first"], "alpha_gen": lambda i: p["alpha"][i], "max_iter": k}
            if p["ref"] or p["seed"] % 2:
                kw["filter_options"] = a["fopt"]
            if p["variant"] == "saem":
                kw["num_traj"] = p["M"]
            elif p["variant"] == "psaem":
                kw["M"] = p["M"]
            r = self.sim.maximize(numpy.array(p["th"]), p["N"], **kw)
            self.pt, self.kept = self.sim.pt, [self.sim.straj]
            return txt(r[0])
        else:
            r = self.sim.maximize(numpy.array(p["th"]), p["N"], p["M"], max_iter=k, meas_first=p["first"], smoother="full")
            self.pt, self.kept = self.sim.pt, [self.sim.straj]
            return txt(r[0])
        return []

    def step(self):
        p = self.p
        numpy.random.set_state(self.rs)
        if p["kind"] == "fm":
            self.model.rng = self.fmrng
        ret = {"pt": self.do_pt, "sim": self.do_sim, "em": self.do_em}[p["how"]](self.k)
        self.rs = numpy.random.get_state()
        self.k += 1
        return self.out() + ret


def litter(v):
    """leave values behind in memory that has been freed"""
    for n in list(range(1, 40)) + [48, 64, 80, 96, 120, 160, 240, 400]:
        keep = [numpy.full(n, v) for _ in range(4)]
        del keep


def run(sc):
    progs, n = sc["progs"], len(sc["progs"])
    case = {"kind": "runs", "id": sc["id"], "progs": [{"kind": p["kind"], "cls": p.get("cls", ""), "how": p["how"], "filter": p["filter"],
            "method": p["method"], "N": p["N"], "M": p["M"]} for p in progs], "share": sc["share"], "sched": sc["sched"],
            "len": [sc["sched"].count(k + 1) for k in range(n)], "alone": [[] for _ in progs], "ev": [], "args": [], "state": [], "exc": ""}
    with guard(120) as g, Quiet():
        def setup(models=None, args=None):
            if models is None:
                m0 = make_model(progs[0])
                models = [m0 if sc["share"] or k == 0 else make_model(p) for k, p in enumerate(progs)]
            if args is None:
                args = [make_args(p, m) for p, m in zip(progs, models)]
                if sc["share"]:
                    # the same option dictionaries for all
                    for a in args[1:]:
                        a["opt"], a["fopt"] = args[0]["opt"], args[0]["fopt"]
            return models, args, [Run(p, m, a) for p, m, a in zip(progs, models, args)]
        states = []
        before = None
        for k in range(n):          # alone, with everything of its own
            models, args, runs = setup()
            before = before or [args_out(a) for a in args]
            for _ in range(case["len"][k]):
                litter(7.25)
                case["alone"][k].append(runs[k].step())
            states.append(str(hash(runs[k].rs[1].tobytes())))      # the key, not how much of it has been used
        models, args, runs = setup()
        for k in sc["sched"]:
            litter(-3500.0 if len(case["ev"]) % 2 else float("nan"))
            case["ev"].append({"x": "mixed", "p": k, "out": runs[k - 1].step()})
        case["args"] = [{"was": b, "now": args_out(a)} for a, b in zip(args, before)]
        # repeated one after the other, with the same models and arguments
        models, args, runs = setup(models, args)
        for k in range(n):
            for _ in range(case["len"][k]):
                litter(1e6)
                case["ev"].append({"x": "again", "p": k + 1, "out": runs[k].step()})
        case["state"] = states
    case["exc"] = g.exc or ""
    return case


def prepare(scs, rng):
    for i, sc in enumerate(scs):
        sc["id"] = i + 1
    return scs

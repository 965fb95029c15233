"""The Instrumenter around finite and Gaussian models (C27)."""
import io, os, random, sys
from contextlib import redirect_stdout
import numpy
from common import ivec, guard, Quiet
import drive_filter as df
import gm
import suite_gauss as sg
import suite_filter as sf
from fm import FM, Tables
import pyparticleest.filter as pf
from pyparticleest.utils.intrument import Instrumenter, OpCount

NAMES = {"sample_process_noise_full": ("ptraj", "ancestors", "ut", "tt"),
         "update_full": ("particles", "traj", "uvec", "yvec", "tvec", "ancestors", "noise"),
         "measure_full": ("particles", "traj", "uvec", "yvec", "tvec", "ancestors"),
         "logp_xnext": ("particles", "next_part", "u", "t"),
         "logp_xnext_max_full": ("part", "past_trajs", "pind", "uvec", "yvec", "tvec", "cur_ind"),
         "propose_smooth": ("ptraj", "anc", "future_trajs", "find", "yt", "ut", "tt", "cur_ind"),
         "logp_proposal": ("prop_part", "ptraj", "anc", "future_trajs", "find", "yt", "ut", "tt", "cur_ind"),
         "logp_xnext_full": ("part", "past_trajs", "pind", "future_trajs", "find", "ut", "yt", "tt", "cur_ind"),
         "logp_xnext_singlestep": ("part", "past_trajs", "pind", "future_parts", "find", "ut", "yt", "tt", "cur_ind"),
         "eval_1st_stage_weights": ("particles", "u", "y", "t"),
         "eval_logp_x0": ("particles", "t")}
SIZES = ("particles", "part", "next_part", "prop_part", "ancestors", "anc", "find")
COUNTS = ("sample", "update", "measure", "pdfxn", "pdfxn_full", "pdfxnmax", "propsmooth", "pdfsmooth", "eval1st", "eval_logp_x0")


class Spy(object):
    """stands between the Instrumenter and the model, and writes down what the
    model is asked"""

    def __init__(self, model):
        self.__dict__["inner"] = model
        self.__dict__["calls"] = []

    def __getattr__(self, name):
        if name == "inner":
            raise AttributeError(name)
        v = getattr(self.inner, name)
        if name not in NAMES:
            return v

        def f(*a, **k):
            args = dict(zip(NAMES[name], a), **k)
            self.calls.append({"f": name, "n": {s: len(args[s]) if args.get(s) is not None else -1 for s in SIZES}})
            return v(*a, **k)
        return f

    def __setattr__(self, name, v):
        setattr(self.inner, name, v)


def scenarios(prop, tier, seed):
    rng = random.Random("%s-%s" % (prop, seed))
    big = 12 if tier == "thorough" else 4
    out = []
    for i in range(90 * big):
        f = rng.choice(["pf", "pf", "apf", "cpf", "cpfas"] if i % 3 else ["sir", "csiras", "pfy", "cpfyas"])
        sc = sf.scen(rng, 0, f, full=False, smooth=False, possible=True, missing=0.2 if f in ("pf", "apf", "cpf", "cpfas") else 0.0)
        meth = rng.choice(["full", "ancestor", "mcmc", "rs", "rsas"] + (["mhips", "mhips_reduced", "mhbp"] if f in ("pf", "apf") and sf.nsteps(sc["ops"]) > 1 else []))
        sc.update({"kind": "finite", "method": meth, "M": rng.choice([1, 2, 5]), "opt": {"R": 2} if meth.startswith("m") else None})
        out.append(sc)
    for i in range(14 * big):
        cls = rng.choice(["nlg", "mls", "hier"])
        lxi, lz, ny = rng.choice(sg.SIZES)
        s = gm.gen(rng, {"nlg": "nlg", "mls": "mlnlg", "hier": "hier"}[cls], lxi, 0 if cls == "nlg" else lz, ny)
        u, y = sg.data(rng, 4, ny, True)
        meth = rng.choice(["full", "ancestor", "mcmc"] + (["mhips"] if cls == "mls" else []))
        out.append({"kind": "gauss", "cls": cls, "s": s, "u": u, "y": y, "first": True, "N": rng.choice([2, 3]), "M": 2, "res": 0.67,
                    "method": meth, "opt": {"R": 1} if meth.startswith("m") else None, "seed": rng.randrange(2 ** 30)})
    for i in range(6 * big):
        out.append({"kind": "add", "a": [rng.randrange(50) for _ in COUNTS], "b": [rng.randrange(50) for _ in COUNTS]})
    for i in range(len(COUNTS)):
        # a single kind, or a few
        for n in (1, rng.choice([2, 3])):
            few = set([i] + rng.sample(range(len(COUNTS)), n - 1))
            ab = [[rng.randrange(50) for _ in COUNTS], [1 + rng.randrange(50) if j in few else 0 for j in range(len(COUNTS))]]
            k = rng.random() < 0.5
            out.append({"kind": "add", "a": ab[k], "b": ab[not k]})
    return out


def prepare(scs, rng):
    for i, sc in enumerate(scs):
        sc["id"] = i + 1
        sc.setdefault("seed", rng.randrange(2 ** 30))
    return scs


def counts(oc):
    return {n: int(getattr(oc, "cnt_" + n)) for n in COUNTS}


def printed(ins):
    """what print_statistics says"""
    b = io.StringIO()
    with redirect_stdout(b):
        ins.print_statistics()
    out = {}
    for line in b.getvalue().splitlines():
        k, _, v = line.partition(":")
        if k.strip().startswith("cnt_"):
            out[k.strip()[4:]] = int(v)
    return out


def drive(sc, model):
    """one run as a generator: yields after every operation"""
    numpy.random.seed(sc["seed"] & 0x7fffffff)
    if sc["kind"] == "finite":
        pt = df.make_pt(sc, model)
        for o in sc["ops"]:
            df.do_op(sc, pt, o)
            yield ["".join(df.digest(q) for q in pt.traj)]
    else:
        pt = pf.ParticleTrajectory(model, sc["N"], resample=sc["res"])
        ys = [None if v is None else numpy.asarray(v, dtype=float) for v in sc["y"]]
        us = [None if v is None else numpy.asarray([v]) for v in sc["u"]]
        pt.measure(ys[0])
        for i in range(1, len(ys)):
            pt.forward(us[i - 1], ys[i])
            yield ["".join(df.digest(q) for q in pt.traj)]
    st = pt.perform_smoothing(sc["M"], method=sc["method"], smoother_options=sc["opt"])
    yield ["".join(df.digest(q) for q in pt.traj), [q.pa.part.tolist() for q in st.traj]]
    if sc["kind"] == "finite" and len(pt) > 1:
        # one against many
        a, b, n = pt[0].pa.part, pt[1].pa.part, len(pt[0].pa.part)
        r = [model.logp_xnext(a, b[:1], 1, 0), model.logp_xnext(a[:1], b, 1, 0)]
        for p, f in ((a, [0]), (a[:1], list(range(n)))):
            f = numpy.asarray(f)
            r.append(model.logp_xnext_full(p, None, None, [pt[1]], f, pt.uvec, pt.yvec, pt.tvec, 0))
            r.append(model.logp_xnext_singlestep(p, None, None, b, f, pt.uvec, pt.yvec, pt.tvec, 0))
        yield [numpy.asarray(v).tolist() for v in r]


def make(sc):
    if sc["kind"] == "finite":
        return FM(sc["tab"], sc["seed"])
    s = sc["s"]
    if sc["cls"] == "nlg":
        return gm.HNLG(s, "arr", "both", False)
    return gm.HHier(s, "arr") if sc["cls"] == "hier" else gm.HMLS(s, "arr")


def run(sc):
    case = {"kind": "run", "id": sc["id"], "exc": "", "ev": [], "a": {}, "b": {}, "sum": {}, "said": [], "what": sc["kind"]}
    if sc["kind"] == "add":
        a, b = (OpCount(**{"cnt_" + n: v for n, v in zip(COUNTS, sc[k])}) for k in "ab")
        case.update({"kind": "add", "a": dict(zip(COUNTS, sc["a"])), "b": dict(zip(COUNTS, sc["b"]))})
        with guard() as g:
            case["sum"] = counts(a + b)
            case["kept"] = counts(a) == case["a"] and counts(b) == case["b"]
        case["exc"] = g.exc or ""
        return case
    with guard() as g, Quiet():
        plain = list(drive(sc, make(sc)))
    if g.exc:
        # not a run at all: nothing to compare
        case["kind"] = "none"
        return case
    with guard() as g, Quiet():
        spy = Spy(make(sc))
        ins = Instrumenter(spy)
        for k, d in enumerate(drive(sc, ins)):
            case["ev"].append({"calls": list(spy.calls), "cnt": counts(ins.oc), "mem": {n: int(getattr(ins, "cnt_" + n)) for n in COUNTS},
                               "same": k < len(plain) and d == plain[k]})
            del spy.calls[:]
        case["said"] = [{"k": k, "v": v} for k, v in sorted(printed(ins).items())]
        case["full"] = len(case["ev"]) == len(plain)
    case["exc"] = g.exc or ""
    return case

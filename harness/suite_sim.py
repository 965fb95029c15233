"""The Simulator on finite models (C16)."""
import random
import numpy
from common import num, vec, mat, ivec, guard, Quiet
import drive_filter as df
from fm import FM, Tables, dec
import suite_smooth as ss
from pyparticleest.simulator import Simulator


class FMP(FM):
    params = None

    def set_params(self, params):
        self.params = params


def scenarios(prop, tier, seed):
    rng = random.Random("%s-%s" % (prop, seed))
    out = []
    for i in range(260 * (9 if tier == "thorough" else 3)):
        filt = rng.choice(["pf", "pf", "apf", "sir", "cpf", "cpfas", "pfy", "csiras", "cpfyas"])
        T = rng.choice([1, 2, 3, 4, 7]) if i % 40 else 30
        first = rng.random() < 0.5
        meth = rng.choice([None, "full", "ancestor", "mcmc", "rs"] + (["mhips", "mhbp"] if T + (not first) > 1 and filt in ("pf", "apf") else []))
        tab = Tables(rng, rng.choice([2, 3, 4]), peak=rng.choice([0.5, 1.5]), spread=rng.choice([0.5, 1.5]),
                     shift=rng.choice([0, 0, -900.0, 900.0]), scale=rng.choice([0.0, 0.0, 800.0]))
        ys = [rng.randrange(3) for _ in range(T)]
        if filt in ("pf", "apf", "cpf", "cpfas"):
            ys = [None if (rng.random() < 0.2) else y for k, y in enumerate(ys)]
        sc = {"filter": filt, "N": rng.choice([1, 2, 3, 5, 9]) if (i + 7) % 40 else 75, "M": rng.choice([0, 1, 2, 4]) if rng.random() < 0.9 else rng.choice([11, 80]),
              "tab": tab, "method": meth, "first": first, "y": ys,
              "u": None if rng.random() < 0.3 else [rng.randrange(4) for _ in range(T)],
              "yarr": rng.random() < 0.5 and None not in ys,
              "res": rng.choice([0.0, 0.4, 0.67, 1.01, None]), "opt": {"R": 2} if meth in ("mcmc", "mhips", "mhbp") else None,
              "seed": rng.randrange(2 ** 30), "par": [rng.choice([0.5, -1.0, 2.0]) for _ in range(rng.choice([1, 2]))]}
        if filt.startswith("c"):
            sc["ref"] = [rng.randrange(tab.K) for _ in range(T + (not first))]
            if filt == "cpfyas" and sc["N"] == 1:
                sc["N"] = 2
        sc["again"] = rng.choice(["", "", "", "other", "same", "same"])
        out.append(sc)
    return out


def run(sc):
    model = FMP(sc["tab"], sc["seed"])
    numpy.random.seed(sc["seed"])
    tabs = ["p0", "lt", "ll", "ls", "lq", "h", "hm"]
    T = len(sc["y"])
    case = {"kind": "sim", "id": sc["id"], "filter": sc["filter"], "method": sc["method"] or "", "N": sc["N"], "M": sc["M"],
            "m": sc["tab"].js(*tabs), "first": sc["first"], "y": [dec(v) for v in sc["y"]],
            "u": [-1] * T if sc["u"] is None else list(sc["u"]), "T": T + (0 if sc["first"] else 1),
            "res": num(0.67 if sc["res"] is None else sc["res"]), "exc": "", "smoothed": bool(sc["method"]) and sc["M"] > 0,
            "ref": sc.get("ref", []), "par": vec(sc["par"])}
    with guard() as g, Quiet():
        y = numpy.asarray(sc["y"]).reshape((-1, 1)) if sc["yarr"] else list(sc["y"])
        u = None if sc["u"] is None else (numpy.asarray(sc["u"]).reshape((-1, 1)) if sc["yarr"] else list(sc["u"]))
        sim = Simulator(model, u=u, y=y)
        par = numpy.asarray(sc["par"], dtype=float)
        sim.set_params(par)
        par[:] = 77.0
        case["mpar"] = vec(model.params)
        kw = {} if sc["res"] is None else {"res": sc["res"]}
        if sc.get("ref"):
            kw["filter_options"] = {"cond_traj": df.ref_traj(model, sc["ref"])}
        if sc["first"] or (sc["seed"] % 2):
            kw["meas_first"] = sc["first"]
        if sc["again"]:     # an earlier simulation with another number of particles and trajectories
            if sc["again"] == "other":
                n, m, first = sc["N"] + 1, sc["M"] + 1, sc["first"] == (bool(sc.get("ref")) or (sc["method"] or "").startswith("mh"))
            else:
                n, m, first = sc["N"], sc["M"], sc["first"]
            sim.simulate(n, m if sc["method"] and sc["M"] else 0, smoother=sc["method"] or "full", filter=sc["filter"],
                         **dict(kw, res=1.5, smoother_options=sc["opt"], meas_first=first))
            if sc["seed"] % 4:      # what that one gave
                sim.get_filtered_estimates(), sim.get_filtered_mean()
                if sc["method"] and sc["M"]:
                    sim.get_smoothed_estimates(), sim.get_smoothed_mean()
        ret = sim.simulate(sc["N"], sc["M"], filter=sc["filter"], smoother=sc["method"], smoother_options=sc["opt"], **kw)
        case["ret"] = num(ret)
        st = []
        for s in sim.pt.traj:
            ids = [int(v) for v in s.pa.part[:, 1]]
            st.append({"x": ivec(s.pa.part[:, 0]), "id": ids, "w": vec(s.pa.w), "anc": ivec(s.ancestors),
                       "prov": [model.prov[k] for k in ids]})
        case["st"] = st
        est, w = sim.get_filtered_estimates()
        case["estx"], case["estid"], case["eshape"] = mat(est[:, :, 0]), mat(est[:, :, 1]), list(est.shape)
        case["estw"], case["wshape"] = mat(w), list(w.shape)
        fm = sim.get_filtered_mean()
        case["fmean"] = mat(fm)
        if case["smoothed"]:
            case["sx"] = [ivec(s.pa.part[:, 0]) for s in sim.straj.traj]
            case["sid"] = [ivec(s.pa.part[:, 1]) for s in sim.straj.traj]
            se = sim.get_smoothed_estimates()
            case["sshape"] = list(se.shape)
            case["sestx"], case["sestid"] = [ivec(r) for r in se[:, :, 0]], [ivec(r) for r in se[:, :, 1]]
            case["smean"] = mat(sim.get_smoothed_mean())
    if g.exc:
        case["exc"] = g.exc
    return case


def prepare(scs, rng):
    for i, sc in enumerate(scs):
        sc["id"] = i + 1
    return scs

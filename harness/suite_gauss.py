"""Gaussian model classes (C17..C22, C24)."""
import random
import numpy
from common import num, vec, mat, ivec, guard, Quiet
import gm
from pyparticleest.simulator import Simulator
from pyparticleest.filter import ParticleApproximation, ParticleTrajectory, TrajectoryStep

SIZES = [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 2), (1, 1, 2), (2, 1, 2), (1, 2, 2), (1, 3, 1), (2, 2, 1)]


def rvec(rng, n):
    return [round(rng.gauss(0, 1), 2) for _ in range(n)]


def data(rng, T, ny, first, missing=0.25, nou=False):
    """inputs of the T-1 steps and measurements of the T times"""
    u = [None if nou else round(rng.gauss(0, 1), 2) for _ in range(T)]
    y = [None if rng.random() < missing else rvec(rng, ny) for _ in range(T)]
    if not first:
        y[0] = None
    return u, y


def scenarios(prop, tier, seed):
    rng = random.Random("%s-%s" % (prop, seed))
    k = (8 if prop in ("C14", "C19", "C21") else 12) if tier == "thorough" else 2 if prop in ("C14", "C19", "C21") else 5
    out = []
    if prop == "C17":
        for i in range(110 * k):
            lz = rng.choice([1, 1, 2, 2, 3])
            ny = rng.choice([1, 1, 2])
            T = rng.choice([1, 2, 3, 4, 5, 6])
            first = rng.random() < 0.5 or T == 1
            u, y = data(rng, T, ny, first, rng.choice([0.0, 0.3]))
            npar = 2 if rng.random() < 0.3 else 0
            out.append({"kind": "ltv", "s": gm.gen(rng, "ltv", 0, lz, ny, noisy=rng.choice([1.0, 1.0, 0.05]), nparam=npar), "T": T, "first": first,
                        "u": u, "y": y, "N": rng.choice([1, 1, 2, 4]), "method": rng.choice(["full", "full", "mcmc", "ancestor"]),
                        "M": rng.choice([1, 1, 2, 3]), "res": rng.choice([0.0, 0.67, 1.01]), "seed": rng.randrange(2 ** 30)})
            reused(rng, out[-1], npar)
        for i in range(40 * k):
            lz, ny = rng.choice([(1, 1), (2, 1), (2, 2), (3, 1), (1, 2)])
            out.append({"kind": "lcalls", "s": gm.gen(rng, "ltv", 0, lz, ny), "seed": rng.randrange(2 ** 30)})
        for lz, ny, T, N, M in [(4, 1, 4, 2, 2), (3, 3, 4, 1, 2), (2, 1, 14, 2, 1), (1, 1, 24, 1, 2), (2, 1, 3, 66, 70)] * (1 if k == 1 else 2):
            u, y = data(rng, T, ny, True, 0.2)
            out.append({"kind": "ltv", "s": gm.gen(rng, "ltv", 0, lz, ny), "T": T, "first": True, "u": u, "y": y, "N": N,
                        "method": rng.choice(["full", "mcmc"]), "M": M, "res": rng.choice([0.0, 1.01]), "seed": rng.randrange(2 ** 30)})
    if prop == "C18":
        out += largeruns(rng, "nlg", ["full", "mcmc", "rs", "mhips", "mhbp"], [(2, 0, 1), (4, 0, 1)])
        for i in range(40 * k):
            meth = rng.choice(["full", "mcmc", "rs", "rsas", "ancestor", "mhips", "mhips_reduced", "mhbp"])
            out.append(runsc(rng, "nlg", meth))
        for i in range(60 * k):
            lx, ny = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 2), (3, 2), (3, 1)])
            out.append({"kind": "calls", "cls": "nlg", "s": gm.gen(rng, "nlg", lx, 0, ny), "style": rng.choice(["list", "arr"]),
                        "late": rng.random() < 0.3, "ini": rng.choice(["both", "both", "both", "x0", "Px0", "lxi"]),
                        "seed": rng.randrange(2 ** 30), "n": 2500 * (1 if tier == "quick" else 8)})
    if prop in ("C19", "C21"):
        for i in range(46 * k):
            lxi, lz, ny = rng.choice(SIZES)
            cls = "mls" if prop == "C19" else "hier"
            noC = cls == "mls" and rng.random() < 0.12
            out.append({"kind": "calls", "cls": cls, "s": gm.gen(rng, "mlnlg" if cls == "mls" else "hier", lxi, lz, ny, noC=noC,
                        corr=rng.random() < 0.7), "style": rng.choice(["list", "arr"]),
                        "seed": rng.randrange(2 ** 30), "n": 1600 * (1 if tier == "quick" else 8)})
        for i in range(50 * k):
            out.append(runsc(rng, "mls" if prop == "C19" else "hier", None))
        out += largeruns(rng, "mls" if prop == "C19" else "hier", [None], [(1, 2, 1), (3, 3, 1), (2, 4, 2)])
    if prop == "C20":
        for i in range(70 * k):
            out.append(runsc(rng, "mlm", "full", corr=False))
            out[-1]["steps"] = False
        out += largeruns(rng, "mlm", ["full"], [(1, 1, 1), (2, 3, 1)])
    if prop == "C22":
        for i in range(110 * k):
            cls = rng.choice(["mls", "mls", "mlm", "hier"])
            meth = rng.choice({"mls": ["full", "rs", "rsas", "mcmc", "ancestor", "mhips", "mhbp"], "mlm": ["full", "mcmc", "ancestor", "mhips"],
                               "hier": ["full", "rs", "mcmc", "ancestor"]}[cls])
            out.append(runsc(rng, cls, meth, corr=cls == "mls" and rng.random() < 0.7))
            out[-1]["steps"] = False
        for cls, meths in (("mls", ["full", "ancestor", "rs"]), ("mlm", ["full"]), ("hier", ["full", "mcmc"])):
            out += largeruns(rng, cls, meths, [(1, 1, 1), (2, 3, 1)])
    if prop == "C14":
        out += moveruns(rng, 60 * k)
    if prop == "C24":
        for i in range(50 * k):
            cls = rng.choice(["ltv", "mls", "mls"])
            npar = rng.choice([1, 2, 2, 3])
            lxi, lz, ny = rng.choice(SIZES[:7])
            if cls == "ltv":
                lxi = 0
            s = gm.gen(rng, "ltv" if cls == "ltv" else "mlnlg", lxi, lz, ny, nparam=npar, corr=False)
            # parts of the model that do not depend on the parameters
            for names in (("fxi", "Axi", "Qxi", "fz", "Az", "Qz"), ("h", "C", "R"), ("z0", "P0", "xi0", "Pxi0")):
                if rng.random() < 0.15:
                    for n in names:
                        if getattr(s, n, None):
                            setattr(s, n, [x for x in getattr(s, n) if not gm.parterm(x[0])])
            if rng.random() < 0.4:
                # a single matrix of each term does
                for names in (("fz", "Az", "Qz", "fxi", "Axi", "Qxi"), ("h", "C", "R"), ("z0", "P0", "xi0", "Pxi0")):
                    names = [n for n in names if getattr(s, n, None)]
                    one = rng.choice(names + names + [""])
                    for n in names:
                        f = getattr(s, n)
                        if n != one:
                            setattr(s, n, [x for x in f if not gm.parterm(x[0])])
                        elif not gm.haspar(f):
                            r, c = f[0][1].shape
                            cov = n in ("Qz", "Qxi", "R", "P0", "Pxi0")
                            f.append(("p%d" % npar, numpy.round(0.3 * (gm.spd(rng, r) if cov else gm.r1(rng, r, c)), 4)))
            out.append({"kind": "grad", "cls": cls, "s": s, "npar": npar, "seed": rng.randrange(2 ** 30)})
    return out


def moveruns(rng, k):
    """Metropolis-Hastings smoothers of Rao-Blackwellized models"""
    out = []
    for i in range(k):
        cls = rng.choice(["mls", "mlm"])
        sc = runsc(rng, cls, rng.choice(["mhips", "mhips_reduced", "mhbp"]), corr=cls == "mls" and rng.random() < 0.5)
        sc.update(steps=False, nmoves=14, M=rng.choice([1, 2, 3, 4]), N=rng.choice([2, 3, 5]))
        out.append(sc)
    return out


def largeruns(rng, cls, meths, sizes):
    """many particles and trajectories; many steps; many dimensions"""
    out = []
    for size in sizes:
        for N, M, T in ((40, 36, 3), (2, 2, 12)) if size == sizes[0] else ((2, 2, 3),):
            sc = runsc(rng, cls, rng.choice(meths), corr=cls != "mlm", size=size, T=T)
            if T > 6:
                sc["s"].tame()
            sc.update(N=N, steps=meths == [None] or cls == "nlg")
            sc["M"] = M if sc["method"] else 0
            out.append(sc)
    return out


def runsc(rng, cls, meth, corr=True, size=None, T=None):
    lxi, lz, ny = rng.choice(SIZES[:7])
    if cls == "nlg":
        lxi, lz, ny = rng.choice([1, 1, 2, 3]), 0, rng.choice([1, 2])
    if size is not None:
        lxi, lz, ny = size
    T = T or rng.choice([1, 2, 3, 4, 5]) if meth not in ("mhips", "mhips_reduced", "mhbp") else rng.choice([2, 3, 4])
    first = rng.random() < 0.5 or T == 1
    u, y = data(rng, T, ny, first, rng.choice([0.0, 0.3]), nou=rng.random() < 0.2)
    npar = 2 if cls in ("mls", "mlm") and rng.random() < 0.3 else 0
    s = gm.gen(rng, cls if cls in ("hier", "nlg") else "mlnlg", lxi, lz, ny, corr=corr and rng.random() < 0.7, nparam=npar,
               noC=cls not in ("hier", "nlg") and rng.random() < 0.08)
    if meth not in ("mhips", "mhips_reduced", "mhbp"):
        # a certain start
        for n in ("P0", "Pxi0"):
            if getattr(s, n, None) and rng.random() < 0.1:
                setattr(s, n, [("1", 0.0 * getattr(s, n)[0][1])])
    filt = "apf" if cls in ("nlg", "mls") and rng.random() < 0.35 else "pf"
    return reused(rng, {"kind": "run", "cls": cls, "s": s, "filter": filt,
            "style": rng.choice(["list", "arr"]), "u": u, "y": y, "T": T, "first": first, "N": rng.choice([1, 2, 3, 5]),
            "M": rng.choice([1, 2, 3]) if meth else 0, "method": meth, "res": rng.choice([0.0, 1.01]), "steps": True, "split": rng.random() < 0.5, "late": rng.random() < 0.3,
            "seed": rng.randrange(2 ** 30)}, npar)


def prepare(scs, rng):
    for i, sc in enumerate(scs):
        sc["id"] = i + 1
    return scs


def run(sc):
    numpy.random.seed(sc["seed"])
    rng = random.Random(sc["seed"])
    return {"ltv": run_ltv, "lcalls": run_lcalls, "calls": run_calls, "run": run_run, "grad": run_grad}[sc["kind"]](sc, rng)


def digest(pt):
    return [(mat(x.pa.part), vec(x.pa.w), ivec(x.ancestors)) for x in pt.traj]


def simulate(model, sc, filt, method, opt=None, digs=None):
    ys = sc["y"] if sc["first"] else sc["y"][1:]
    ys = [None if v is None else numpy.asarray(v, dtype=float) for v in ys]
    us = None if all(v is None for v in sc["u"]) else [None if v is None else numpy.asarray([v]) for v in sc["u"]]
    if us is not None:
        us = us[:len(ys)]       # one input per data point
    sim = Simulator(model, u=us, y=ys)
    if sc.get("online"):
        sim.pt = online(model, sc, filt, us, ys)
        if digs is not None and method:
            digs += digest(sim.pt)
        if method:
            sim.straj = sim.pt.perform_smoothing(sc["M"], method=method, smoother_options=opt)
        return sim
    if digs is not None and method and sc.get("split"):
        # filtering and smoothing apart, keeping what the filter produced
        sim.simulate(sc["N"], 0, filter=filt, res=sc["res"], smoother=None, meas_first=sc["first"])
        digs += digest(sim.pt)
        sim.straj = sim.pt.perform_smoothing(sc["M"], method=method, smoother_options=opt)
        return sim
    sim.simulate(sc["N"], sc["M"], filter=filt, res=sc["res"], smoother=method, smoother_options=opt, meas_first=sc["first"])
    return sim


def online(model, sc, filt, us, ys):
    """the same run through the trajectory itself: with room for more steps than
    are taken, measurements that arrive after their step, and estimates looked
    at on the way"""
    how, s = sc["online"], sc["s"]
    pt = ParticleTrajectory(model, sc["N"], resample=sc["res"], filter=filt, T=len(sc["y"]) + how["room"] if how["room"] is not None else None)
    off = 0
    if sc["first"]:
        off = 1
        pt.measure(ys[0])
    for i in range(off, len(ys)):
        u = None if us is None else us[i - off]
        if how["after"][i] and filt == "pf":
            pt.forward(u, None)
            if how["look"][i] and not s.lz:
                look(pt, sc)
            pt.measure(ys[i])
        else:
            pt.forward(u, ys[i])
        if how["look"][i]:
            look(pt, sc)
    return pt


def look(pt, sc):
    meth = sc["method"] if sc["method"] in ("full", "ancestor") else "ancestor"
    model = pt.pf.model
    rec = getattr(model, "rec", None)       # evaluations against the whole future only
    if rec is not None:
        model.rec = []
    pt.perform_smoothing(1, method=meth)
    if rec is not None:
        model.rec = rec


def lookers(rng, sc):
    """how a run is driven: by the simulator, or step by step"""
    n = len(sc["y"]) + 2
    sc["online"] = None
    if rng.random() < 0.35:
        sc["online"] = {"room": rng.choice([None, None, 0, 1, 3]), "after": [rng.random() < 0.4 for _ in range(n)],
                        "look": [rng.random() < 0.3 for _ in range(n)]}
    return sc


def prepared(sc, make, rng):
    """the model of a run: new, or one that has been used before, possibly
    with other parameters"""
    th = sc.get("th")
    model = make() if th is None else make(par=th[0])
    if sc.get("warm"):
        w = dict(sc, N=2, M=1, split=False, online=None)
        w["y"] = [None if v is None else [q + 1.0 for q in v] for v in sc["y"]]
        w["u"] = [None if v is None else 2.0 - v for v in sc["u"]]
        method = sc["method"] if sc["method"] in ("full", "ancestor", "mcmc") else None
        simulate(model, w, "pf", method, {"R": 1} if method == "mcmc" else None)
    if th is not None:
        model.set_params(numpy.array(th[1]))
    return model


def reused(rng, sc, params):
    """use the model before the run, change the parameters before it"""
    sc["warm"] = rng.random() < 0.3
    lookers(rng, sc)
    sc["th"] = [[round(rng.uniform(0.05, 0.8), 2) for _ in range(params)] for _ in range(2)] if params else None
    return sc


def folded(sc):
    return sc["s"].fold(sc["th"][1]) if sc.get("th") else sc["s"]


def yjs(ys):
    return [[] if v is None else vec(v) for v in ys]


def ujs(us):
    return [0 if v is None else num(v) for v in us]


def run_ltv(sc, rng):
    s = sc["s"]
    case = {"kind": "ltv", "id": sc["id"], "m": folded(sc).js(), "N": sc["N"], "M": sc["M"], "method": sc["method"], "exc": "",
            "u": ujs(sc["u"]), "y": yjs(sc["y"]), "st": [[] for _ in sc["y"]], "w": [], "sm": []}
    with guard() as g, Quiet():
        sim = simulate(prepared(sc, lambda **k: gm.HLTV(s, **k), rng), sc, "pf", sc["method"], {"R": 2} if sc["method"] == "mcmc" else None)
        case["st"] = [mat(x.pa.part) for x in sim.pt.traj]
        case["w"] = [vec(x.pa.w) for x in sim.pt.traj]
        case["sm"] = [mat(x) for x in sim.get_smoothed_estimates()]
        if len(case["st"]) != len(sc["y"]):
            raise ValueError("trajectory length")
    case["exc"] = g.exc or ""
    return case


def beliefs(npr, lxi, lz, n, mz=False):
    rows = []
    for _ in range(n):
        r = [round(v, 3) for v in npr.normal(size=lxi + lz)]
        if lxi and npr.rand() < 0.2:
            r[:lxi] = [0.0] * lxi       # where terms in xi vanish
        if lz:
            b = numpy.round(npr.normal(size=(lz, lz)), 1)
            how = npr.rand()            # a certain, a singular and an ordinary belief
            if how < 0.06:
                b = 0.0 * b
            elif how < 0.12:
                b[1:] = b[0]
            r += list(numpy.round(b.dot(b.T) + (0.2 if how >= 0.12 else 0.0) * numpy.eye(lz), 3).ravel())
            if mz:
                r += list(numpy.round(0.2 * npr.normal(size=lz * lz), 3))
        rows.append(r)
    return numpy.array(rows)


def run_lcalls(sc, rng):
    """single calls of a linear model, in any order"""
    s = sc["s"]
    case = {"kind": "calls", "id": sc["id"], "m": s.js(), "exc": "", "cls": "ltv", "ev": []}
    npr = numpy.random.RandomState(sc["seed"])
    with guard() as g, Quiet():
        model = gm.HLTV(s)
        for _ in range(7):
            n = rng.choice([1, 2, 3])
            t = rng.randrange(5)
            u = rng.choice([None, round(rng.gauss(0, 1), 2)])
            uu = None if u is None else numpy.asarray([u])
            y = numpy.array(rvec(rng, s.ny))
            P, F = beliefs(npr, 0, s.lz, n), beliefs(npr, 0, s.lz, n)
            op = rng.choice(["update", "measure", "smooth", "smooth"])
            e = {"op": op, "parts": mat(P), "next": mat(F), "exc": "", "t": t, "u": 0 if u is None else num(u), "y": vec(y),
                 "last": rng.random() < 0.25}
            Q = P.copy()
            if op == "update":
                e["rows"] = mat(model.update(Q, uu, t, None))
            elif op == "measure":
                e["vals"] = vec(model.measure(Q, y, t))
                e["rows"] = mat(Q)
            else:
                ut, yt = [None] * 7, [None] * 7
                ut[t] = uu
                e["rows"] = mat(model.sample_smooth(Q, None, None, None if e["last"] else [pt(F.copy()), pt(beliefs(npr, 0, s.lz, n))],
                                                    numpy.arange(n), ut, yt, list(range(7)), t))
            case["ev"].append(e)
    case["exc"] = g.exc or ""
    return case


class Acc(object):
    """sums of stacked samples"""

    def __init__(self):
        self.x = []

    def add(self, rows):
        self.x.append(numpy.asarray(rows, dtype=float).reshape((1, -1)))

    def addmany(self, rows):
        self.x.append(numpy.asarray(rows, dtype=float))

    def js(self):
        x = numpy.concatenate(self.x)
        m, sd = numpy.mean(x, 0), numpy.std(x, 0)
        q = [[int(numpy.sum(numpy.abs(x[:, i] - m[i]) < c * sd[i])) for c in (0.6744897501960817, 1.959963984540054)]
             for i in range(x.shape[1])]
        return {"n": len(x), "sum": vec(numpy.sum(x, 0)), "sum2": mat(x.T.dot(x)), "q": q}


def pt(parts, anc=None):
    """a trajectory step holding the particles"""
    return TrajectoryStep(ParticleApproximation(parts), numpy.arange(len(parts)) if anc is None else anc)


def run_calls(sc, rng):
    s, cls = sc["s"], sc["cls"]
    nlg = cls == "nlg"
    npr = numpy.random.RandomState(sc["seed"])
    case = {"kind": "calls", "id": sc["id"], "m": s.js(), "exc": "", "cls": cls, "ev": []}
    with guard() as g, Quiet():
        if nlg:
            gm.initial(s, sc["ini"])
            case["m"] = s.js()
            model = gm.HNLG(s, sc["style"], sc["ini"], sc["late"])
        elif cls == "mls":
            model = gm.HMLS(s, sc["style"])
        else:
            model = gm.HHier(s, sc["style"], rng.random() < 0.5)
    if g.exc:
        case["exc"] = g.exc
        return case

    def particles(n):
        return beliefs(npr, s.lxi, s.lz, n)

    def ev(op, f, parts, **kw):
        """f() -> observations"""
        e = {"op": op, "parts": mat(parts), "exc": ""}
        e.update(kw)
        with guard() as gg, Quiet():
            e.update(f())
        if gg.exc:
            e["exc"] = gg.exc
        case["ev"].append(e)

    def cp(a):
        return numpy.array(a, copy=True)

    lx = s.lxi + s.lz
    for rep in range(2):
        N = rng.choice([1, 2, 3, 4])
        t = rng.randrange(5)
        u = rng.choice([None, round(rng.gauss(0, 1), 2)])
        uu = None if u is None else numpy.asarray([u])
        ju = 0 if u is None else num(u)
        y = numpy.array(rvec(rng, s.ny))
        com = {"t": t, "u": ju, "y": vec(y)}
        P = particles(N)
        if nlg and s.how.get("y") == "hook":
            s.ysh = 0.0
            case["m"] = s.js()
        noise = numpy.round(npr.normal(size=(N, s.lxi)), 3)
        same = list(range(N))
        one = [0] * N
        ev("update", lambda: {"rows": mat(model.update(cp(P), uu, t, cp(noise)))}, P, noise=mat(noise), **com)

        def meas():
            Q = cp(P)
            v = model.measure(Q, cp(y), t)
            return {"vals": vec(v), "rows": mat(Q)}
        ev("measure", meas, P, **com)
        nx = particles(N)[:, :lx]
        ev("logp_xnext", lambda: {"vals": vec(model.logp_xnext(cp(P), cp(nx), uu, t))}, P, next=mat(nx), find=same, **com)
        if not nlg:
            ev("logp_xnext", lambda: {"vals": vec(model.logp_xnext(cp(P), cp(nx[:1]), uu, t))}, P, next=mat(nx[:1]), find=one, **com)
        ev("logp_max", lambda: {"val": num(model.logp_xnext_max(cp(P), uu, t))}, P, **com)
        if cls != "hier":
            ev("stage1", lambda: {"vals": vec(model.eval_1st_stage_weights(cp(P), uu, cp(y), t))}, P, **com)
        K = 3 if rng.random() < 0.7 else 1
        PK = P[[i % N for i in range(K)]] if K > 1 else P[:1]
        reps = max(1, sc["n"] // (1 if rep == 0 else 2))

        def law(draw, chunk=50):
            """reps stacked draws; each call of the library makes `chunk` of them"""
            a = Acc()
            d = len(PK)
            for _ in range(max(1, reps // chunk)):
                a.addmany(numpy.asarray(draw(chunk)).reshape((chunk, -1)))
            return a.js()
        tile = lambda c: numpy.tile(PK, (c, 1))      # noqa: E731

        def proposed(f):
            """the law of proposed nonlinear states; the first rows with their beliefs"""
            first = []

            def draw(c):
                r = numpy.asarray(f(c))
                if not first:
                    first.append(mat(r[:K]))
                return r[:, :s.lxi]
            a = law(draw)
            a["zrows"] = first[0]
            return a
        if cls != "hier":
            ev("noise", lambda: law(lambda c: model.sample_process_noise(tile(c), uu, t)), PK, **com)
        if rep == 0 and cls != "hier":
            nk = rng.choice([1, 2])
            zr = []

            def init():
                a = Acc()
                for _ in range(max(1, reps // 50)):
                    p = model.create_initial_estimate(50 * nk)
                    a.addmany(numpy.asarray(p[:, :s.lxi]).reshape((50, -1)))
                    zr.append(p[0])
                    zr.append(p[-1])
                r = a.js()
                r["k"] = nk
                if not nlg:
                    r["zrows"] = mat(numpy.array(zr[:2] + zr[-2:]))
                return r
            ev("init", init, PK[:1], **com)
        tt = [0, 1, 2, 3, 4, 5]
        ut = [None] * 6
        ut[t] = uu
        yt = [None] * 6
        # proposals of the MH smoothers: step from time t to t+1
        anc = [rng.randrange(N) for _ in range(N)]
        find = [rng.randrange(N) for _ in range(N)]
        if cls != "hier":
            other = [pt(particles(N + 1)) for _ in range(rng.choice([0, 1, 2]))]
            if nlg:
                ev("logp_prop", lambda: {"vals": vec(model.logp_proposal(cp(nx), other + [pt(cp(P))], numpy.array(anc), None, numpy.array(find), yt, ut, tt, t + 1))},
                   P[anc], next=mat(nx), find=same, **com)
                ev("logp_prop0", lambda: {"vals": vec(model.logp_proposal(cp(P), None, None, None, numpy.array(same), yt, ut, tt, 0))}, P, **com)
                ev("logp_x0", lambda: {"vals": vec(model.eval_logp_x0(cp(P), 0))}, P, **com)
                P0 = numpy.concatenate([gm.mf(s.xi0).reshape((1, -1)), P])
                ev("logp_x0", lambda: {"vals": vec(model.eval_logp_x0(cp(P0), 0))}, P0, **com)
                if rep == 0:
                    ak = [rng.randrange(N) for _ in range(K)]
                    ev("prop", lambda: law(lambda c: model.propose_smooth(other + [pt(cp(P))], numpy.array(ak * c), None, numpy.arange(K * c), yt, ut, tt, t + 1)),
                       P[ak], **com)
            else:
                NP = particles(N)
                ev("single", lambda: {"vals": vec(model.logp_xnext_singlestep(cp(P), None, None, cp(NP), numpy.array(find), ut, yt, tt, t))},
                   P, next=mat(NP), find=find, **com)
                ev("logp_prop", lambda: {"vals": vec(model.logp_proposal(cp(NP), other + [pt(cp(P))], numpy.array(anc), None, numpy.array(same), yt, ut, tt, t + 1))},
                   P[anc], next=mat(NP), find=same, **com)
                if rep == 0:
                    ak = [rng.randrange(N) for _ in range(K)]
                    ev("prop", lambda: proposed(lambda c: model.propose_smooth(other + [pt(cp(P))], numpy.array(ak * c), None, numpy.arange(K * c), yt, ut, tt, t + 1)),
                       P[ak], **com)
            if rep == 0:
                def fresh():
                    a = proposed(lambda c: model.propose_smooth(None, None, None, numpy.arange(K * c), yt, ut, tt, 0))
                    a["k"] = K
                    return a
                ev("init", fresh, PK[:1], **com)
        if not nlg:
            ev("condpred", lambda: {"rows": mat(model.cond_predict_single_step(cp(P), None, None, cp(nx), numpy.array(find), ut, yt, tt, t))},
               P, next=mat(nx), find=find, **com)
            # backward sampling of the linear states
            fk = [rng.randrange(N) for _ in range(len(PK))]
            last = rng.random() < 0.25
            fut = None if last else [pt(cp(nx))]

            def smooth():
                bad = []

                def draw(c):
                    r = model.sample_smooth(tile(c), None, None, fut, numpy.array(fk * c), ut, yt, tt, t)
                    bad.append(not numpy.array_equal(r[:, :s.lxi], tile(c)[:, :s.lxi]))
                    return r[:, s.lxi:lx]
                r = law(draw)
                r["xiok"] = not any(bad)
                return r
            if rep == 0:
                ev("smooth", smooth, PK, next=mat(nx), find=fk, last=last, **com)
    return case


OPT = {"rs": {"R": 5}, "mcmc": {"R": 3}, "mhips": {"R": 2}, "mhips_reduced": {"R": 2}, "mhbp": {"R": 2}}


def picked(log, rng, n):
    """some of the recorded evaluations, of every kind"""
    out = []
    for op in ("meas", "next", "single", "draw"):
        ev = [e for e in log if e["op"] == op]
        out += rng.sample(ev, min(len(ev), n))
    return out


def run_run(sc, rng):
    s, cls = sc["s"], sc["cls"]
    case = {"kind": "run", "id": sc["id"], "m": folded(sc).js(), "N": sc["N"], "M": sc["M"], "method": sc["method"] or "", "exc": "", "cls": cls, "filter": sc["filter"],
            "u": ujs(sc["u"]), "y": yjs(sc["y"]), "resample": sc["res"] > 0.5, "st": [], "sm": [], "rec": [], "mv": [], "steps": sc["steps"]}
    with guard() as g, Quiet():
        if cls == "nlg":
            if s.how.get("y") == "hook":
                s.ysh = 0.0
                case["m"] = s.js()
            make = lambda: gm.HNLG(s, sc["style"], "both", sc["late"])      # noqa: E731
        elif cls == "hier":
            make = lambda: gm.HHier(s, sc["style"], late=sc["late"])        # noqa: E731
        else:
            make = lambda **k: {"mls": gm.HMLS, "mlm": gm.HMLM}[cls](s, sc["style"], **k)   # noqa: E731
        model = prepared(sc, make, rng)
        if cls == "mlm":
            model.rec = []
        digs = []
        model.log = [] if s.lz and not sc.get("nomoves") else None
        sim = simulate(model, sc, sc["filter"], sc["method"], OPT.get(sc["method"]), digs)
        case["kept"] = not digs or digs == digest(sim.pt)
        case["st"] = [{"p": mat(x.pa.part), "w": vec(x.pa.w), "anc": ivec(x.ancestors)} for x in sim.pt.traj]
        if len(case["st"]) != len(sc["y"]):
            raise ValueError("trajectory length")
        if sc["method"]:
            case["sm"] = [mat(x) for x in sim.get_smoothed_estimates()]
        if model.log:
            case["mv"] = picked(model.log, rng, sc.get("nmoves", 8))
        if cls == "mlm":
            case["rec"] = [{"k": k, "parts": mat(p), "fut": [mat(f) for f in fut], "find": ivec(fi), "vals": vec(v)}
                           for p, fut, fi, k, v in model.rec[:12]]
    case["exc"] = g.exc or ""
    return case


def run_grad(sc, rng):
    s, cls = sc["s"], sc["cls"]
    case = {"kind": "grad", "id": sc["id"], "m": s.js(), "exc": "", "cls": cls, "ev": []}
    npr = numpy.random.RandomState(sc["seed"])
    lz = s.lz

    def rows(n):
        return beliefs(npr, s.lxi, lz, n, True)
    ths = [[round(rng.uniform(0.05, 0.8), 2) for _ in range(sc["npar"])] for _ in range(3)]
    with guard() as g, Quiet():
        model = (gm.HLTV if cls == "ltv" else gm.HMLS)(s, par=ths[0])
        n = rng.choice([1, 2, 3])
        a, b = rows(n), rows(n)
        t = rng.randrange(4)
        u = round(rng.gauss(0, 1), 2)
        y = numpy.array(rvec(rng, s.ny))
        uu = numpy.array([u])
        a2, b2 = rows(n), rows(n)
    if g.exc:
        case["exc"] = g.exc
        return case
    def stale(rng, calls):
        tt, u2, y2 = t + 1, numpy.array([u + 1.0]), y + 1.0
        f = rng.choice([lambda: model.eval_logp_xnext(a2.copy(), b2.copy(), u2, tt), lambda: model.eval_logp_y(a2.copy(), y2, tt),
                        lambda: model.eval_logp_xnext_val_grad(a2.copy(), b2.copy(), u2, tt),
                        lambda: model.eval_logp_y_val_grad(a2.copy(), y2, tt)])
        f()

    calls = {"x0": (lambda p, q: model.eval_logp_x0_val_grad(p, 0), lambda p, q: numpy.mean(model.eval_logp_x0(p, 0))),
             "xnext": (lambda p, q: model.eval_logp_xnext_val_grad(p, q, uu, t), lambda p, q: numpy.sum(model.eval_logp_xnext(p, q, uu, t))),
             "y": (lambda p, q: model.eval_logp_y_val_grad(p, y, t), lambda p, q: numpy.sum(model.eval_logp_y(p, y, t)))}
    for op in ("x0", "xnext", "y"):
        e = {"op": op, "parts": mat(a), "next": mat(b), "u": num(u), "t": 0 if op == "x0" else t, "y": vec(y), "th": [vec(v) for v in ths],
             "vals": [], "plain": [], "grads": [], "exc": ""}
        with guard() as gg, Quiet():
            for th in ths:
                for what in rng.sample(["grad", "plain"], 2):
                    model.set_params(numpy.array(th))
                    if rng.random() < 0.5:
                        # elsewhere in between, with the model's hooks saying something else
                        stale(rng, calls)
                    if what == "grad":
                        v, gr = calls[op][0](a.copy(), b.copy())
                        e["vals"].append(num(numpy.sum(v)))
                        e["grads"].append(vec(gr))
                    else:
                        e["plain"].append(num(calls[op][1](a.copy(), b.copy())))
        if gg.exc:
            e["exc"] = gg.exc
        case["ev"].append(e)
    return case

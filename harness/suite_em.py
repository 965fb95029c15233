"""Expectation maximization (C23, C25)."""
import random
import numpy
from common import num, vec, mat, ivec, guard, Quiet
import gm
import pyparticleest.interfaces as interfaces
import pyparticleest.paramest.paramest as paramest
import pyparticleest.paramest.interfaces as pi
from pyparticleest.filter import ParticleApproximation, TrajectoryStep


class Stop(Exception):
    pass


class Marked(interfaces.ParticleFiltering, interfaces.AuxiliaryParticleFiltering, interfaces.FFBSi):
    """state [label, mark, parameter used, uid]; the label never changes, backward
    simulation follows label + 1, everything else identifies where a state comes from"""

    def __init__(self, log, wscale):
        self.log, self.wscale, self.params, self.uid, self.stage1 = log, wscale, None, 0, False

    def create_initial_estimate(self, N):
        self.log("init", n=int(N))
        self.N, self.stage1 = N, False
        x = numpy.zeros((N, 4))
        x[:, 0] = numpy.arange(N)
        x[:, 1] = numpy.random.uniform(size=N)
        x[:, 3] = self.uid + numpy.arange(N)
        self.uid += N
        return x

    def sample_process_noise(self, particles, u, t):
        return numpy.random.uniform(size=len(particles))

    def update(self, particles, u, t, noise):
        particles[:, 1] = noise
        particles[:, 2] = self.params[0]

    def measure(self, particles, y, t):
        return self.wscale * particles[:, 0]

    def eval_1st_stage_weights(self, particles, u, y, t):
        self.stage1 = True
        return numpy.zeros(len(particles))

    def logp_xnext(self, particles, next_part, u, t):
        want = numpy.mod(next_part[:, 0] + 1, self.N)
        return numpy.where(particles[:, 0] == want, 0.0, -1000.0)

    def set_params(self, params):
        self.params = numpy.copy(params)
        self.log("set", p=vec(params))

    def maximize(self, straj):
        return self.hook(straj, None, None)

    def maximize_weighted(self, straj, alltrajs, weights):
        return self.hook(straj, alltrajs, weights)


def scenarios(prop, tier, seed):
    rng = random.Random("%s-%s" % (prop, seed))
    k = 10 if tier == "thorough" else 3
    out = []
    if prop == "C23":
        for _ in range(140 * k):
            n = rng.choice([1, 2, 3, 4, 5])
            meth = rng.choice([("full", None, "shift"), ("ancestor", None, "ancestor"), ("mcmc", {"R": 0}, "ancestor"), ("mcmc", {"R": 90}, "shift")])
            out.append({"kind": "loop", "variant": "em", "iters": rng.choice([1, 2, 3, 4]), "nump": sched(rng, [2, 3, 4, 5, 7]),
                        "numt": sched(rng, [1, 2, 3]), "filter": rng.choice(["pf", "pf", "apf"]), "method": meth[0], "opt": meth[1],
                        "expect": meth[2], "first": rng.random() < 0.5, "T": rng.choice([1, 2, 3]), "cb": rng.random() < 0.75,
                        "cbsim": rng.random() < 0.75, "np": n % 3 + 1, "seed": rng.randrange(2 ** 30), "ws": 0.0})
        for _ in range(110 * k):
            out.append({"kind": "num", "grad": rng.random() < 0.5, "np": rng.choice([1, 2, 3]), "M": rng.choice([1, 2, 3, 5]), "T": rng.choice([1, 2, 3, 5]),
                        "bounds": rng.random() < 0.4, "array": rng.random() < 0.7, "seed": rng.randrange(2 ** 30)})
        for _ in range(24 * k):
            lz, ny = rng.choice([(1, 1), (1, 2), (2, 1)])
            T = rng.choice([2, 3, 4])
            s = gm.gen(rng, "ltv", 0, lz, ny)
            npar = rng.choice([1, 2])
            for j in range(npar):
                getattr(s, rng.choice(["fz", "fz", "h", "z0"])).append(("p%d" % (j + 1), gm.r1(rng, 1, 1, 1.0)))
            for n in ("fz", "h", "z0"):
                f = getattr(s, n)
                rows = f[0][1].shape[0]
                for i, (kk, m) in enumerate(f):
                    if kk[0] == "p":
                        m = numpy.round(numpy.array([[rng.choice([-1, 1]) * rng.uniform(0.5, 1.2)] for _ in range(rows)]), 2)
                        f[i] = (kk, m)
            y = [None if rng.random() < 0.2 else [round(rng.gauss(0, 1.5), 2) for _ in range(ny)] for _ in range(T)]
            first = rng.random() < 0.5
            if not first:
                y[0] = None
            if all(v is None for v in y):
                y[-1] = [1.0] * ny
            out.append({"kind": "emltv", "s": s, "np": npar, "T": T, "y": y, "u": [round(rng.gauss(0, 1), 2) for _ in range(T)], "first": first,
                        "N": rng.choice([1, 3]), "M": rng.choice([1, 2]), "grad": rng.random() < 0.6, "bounds": rng.random() < 0.35,
                        "iters": 2, "seed": rng.randrange(2 ** 30)})
    if prop == "C29":
        for _ in range(160 * k):
            npar = rng.choice([1, 2, 2, 3])
            start = round(rng.gauss(0, 1), 2)
            step = rng.choice([0.05, 0.1, -0.2, 0.5])
            nv = rng.choice([1, 2, 3, 5, 12, 25])
            vals = [round(start + step * i, 4) for i in range(nv)]
            if rng.random() < 0.3:
                rng.shuffle(vals)
            dflt = rng.random() < 0.1
            out.append({"kind": "gt", "np": npar, "j": rng.randrange(npar), "vals": vals, "array": rng.random() < 0.7,
                        "default": dflt, "num": 100 if dflt else rng.choice([2, 3, 7, 20]), "nums": 1 if dflt else rng.choice([1, 2, 3, 6]),
                        "analytic": rng.random() < 0.7, "T": rng.choice([1, 2, 3, 5]), "seed": rng.randrange(2 ** 30)})
    if prop == "C25":
        for _ in range(220 * k):
            v = rng.choice(["saem", "saem", "psaem", "psaem", "psaem", "psaem2"])
            iters = rng.choice([1, 2, 3, 4, 6, 8])
            sc = {"kind": "loop", "variant": v, "iters": iters, "nump": sched(rng, [2, 3, 4, 5]), "numt": sched(rng, [1, 2, 3]),
                  "first": rng.random() < 0.5, "T": rng.choice([1, 2, 3]), "cb": rng.random() < 0.75, "cbsim": rng.random() < 0.75,
                  "np": rng.choice([1, 2]), "seed": rng.randrange(2 ** 30), "method": "full", "opt": None, "expect": "any", "ws": 0.4,
                  "filter": "pf", "eps": 0.0, "pct": 0, "maxtraj": 0, "rb": False, "cond": v != "saem" or rng.random() < 0.5}
            pool = rng.choice([[1.0], [0.5], [1.0, 0.5, 0.25], [0.3, 0.7, 0.1], [0.9, 1.0, 0.0, 0.2]])
            sc["alpha"] = [rng.choice([a for a in pool if a > 0])] + [rng.choice(pool) for _ in range(iters)]
            if rng.random() < 0.12:
                sc["alpha"] = None        # the default step sizes
            if v == "saem":
                sc["expect"], sc["method"] = rng.choice([("any", "full"), ("ancestor", "ancestor"), ("ancestor", "mcmc")])
                sc["opt"] = {"R": 0} if sc["method"] == "mcmc" else None
            else:
                sc["nump"] = sc["nump"][0] if isinstance(sc["nump"], list) else sc["nump"]
                sc["numt"] = 1
                sc["expect"], sc["method"] = rng.choice([("any", "full"), ("ancestor", "ancestor")] + ([("ancestor", "mcmc")] if v == "psaem2" else []))
                sc["opt"] = {"R": 0} if sc["method"] == "mcmc" else None
                sc["eps"] = rng.choice([0.0, 0.0, 0.05, 0.2, 1.0])
                sc["pct"] = rng.choice([0, 10, 30, 50, 90])
                if v == "psaem":
                    sc["numt"] = rng.choice([1, 1, 2, 3])
                    sc["rb"] = rng.random() < 0.35
                    sc["maxtraj"] = rng.choice([0, 0, 1, 3, 5])
                    if sc["cb"]:
                        sc["stop"] = True     # the callback ends it
            if sc["cond"]:
                sc["filter"] = rng.choice(["cpf", "cpfas"])
            out.append(sc)
        for v in ["saem", "saem", "psaem", "psaem2"] * k:     # beyond the default step sizes' first phase
            out.append({"kind": "loop", "variant": v, "iters": rng.choice([103, 105, 107]), "nump": 2, "numt": 1, "first": rng.random() < 0.5, "T": 1,
                        "cb": v == "psaem", "stop": v == "psaem", "cbsim": False, "np": 1, "seed": rng.randrange(2 ** 30), "method": "full",
                        "opt": None, "expect": "any", "ws": 0.4, "filter": "pf" if v == "saem" else "cpfas", "eps": 0.0, "pct": 0,
                        "maxtraj": 0, "rb": False, "cond": v != "saem", "alpha": None})
    return out


def sched(rng, vals):
    return rng.choice(vals) if rng.random() < 0.5 else [rng.choice(vals) for _ in range(rng.choice([1, 2, 5]))]


def prepare(scs, rng):
    for i, sc in enumerate(scs):
        sc["id"] = i + 1
    return scs


def run(sc):
    numpy.random.seed(sc["seed"])
    rng = random.Random(sc["seed"])
    return {"loop": run_loop, "num": run_num, "emltv": run_emltv, "gt": run_gt}[sc["kind"]](sc, rng)


def aslist(v):
    return list(v) if isinstance(v, list) else [v]


def run_loop(sc, rng):
    ev = []
    names = {}

    def tag(row):
        k = tuple(float(v) for v in row)
        return names.setdefault(k, "s%d" % len(names))

    def log(e, **kw):
        kw["e"] = e
        if e == "init":
            st["new"] = True
        ev.append(kw)
    st = {}
    T = sc["T"]
    n = sc["np"]
    y = [[float(rng.randrange(3))] if rng.random() < 0.7 else None for _ in range(T)]
    LT = T + (0 if sc["first"] else 1)
    model = Marked(log, sc["ws"])
    cls = {"em": paramest.ParamEstimation, "saem": paramest.ParamEstimationSAEM, "psaem": paramest.ParamEstimationPSAEM,
           "psaem2": paramest.ParamEstimationPSAEM2}[sc["variant"]]
    est = cls(model, u=None, y=y)
    p0 = numpy.array([round(rng.gauss(0, 1), 3) for _ in range(n)])
    alphas = []

    def hook(straj, trajs, w):
        ret = numpy.array([round(rng.gauss(0, 1), 3) for _ in range(n)])
        e = {"p": vec(model.params), "ret": vec(ret), "stage1": model.stage1, "belong": straj is est.straj, "lab": [],
             "pt": [{"x": [tag(r) for r in s.pa.part], "par": vec(s.pa.part[:, 2]), "anc": ivec(s.ancestors), "w": vec(s.pa.w)} for s in est.pt.traj],
             "sm": [[tag(r) for r in s.pa.part] for s in straj.traj],
             "trajs": [], "w": []}
        e["lab"] = [ivec(s.pa.part[:, 0]) for s in straj.traj]
        if trajs is not None:
            e["trajs"] = [[tag(trajs[t, j]) for t in range(trajs.shape[0])] for j in range(trajs.shape[1])]
            e["w"] = vec(w)
        log("max", **e)
        if sum(1 for x in ev if x["e"] == "max") > sc["iters"]:
            raise Stop("too many iterations")
        return ret
    model.hook = hook
    case = {"kind": "loop", "id": sc["id"], "variant": sc["variant"], "method": sc["method"], "exc": "", "p0": vec(p0), "T": LT,
            "nump": aslist(sc["nump"]), "numt": aslist(sc["numt"]), "iters": sc["iters"], "filter": sc["filter"],
            "smoother": sc["expect"], "cb": sc["cb"], "cbsim": sc["cbsim"], "eps": num(sc.get("eps", 0)), "pct": num(sc.get("pct", 0)),
            "maxtraj": sc.get("maxtraj", 0), "rb": sc.get("rb", False), "condfilter": sc.get("cond", False), "ref": [], "alpha": [],
            "firstcb": 1, "ev": ev, "anyy": any(v is not None for v in y[(1 if sc["first"] else 0):])}
    kw = {"meas_first": sc["first"], "filter": sc["filter"], "smoother": sc["method"]}
    if sc["variant"] in ("em", "saem"):
        kw["num_traj"] = sc["numt"]
    elif sc["variant"] == "psaem":
        kw["M"] = sc["numt"]
        kw["raoblackwell"] = sc["rb"]
        kw["max_traj"] = sc["maxtraj"]
    if sc["variant"] in ("psaem", "psaem2"):
        kw["discard_eps"], kw["discard_percentile"] = sc["eps"], sc["pct"]
    if sc["variant"] != "psaem":
        kw["smoother_options"] = sc["opt"]
    if sc["variant"] != "em" and sc["alpha"] is not None:
        al = sc["alpha"]
        kw["alpha_gen"] = lambda i: al[i]
        case["alpha"] = vec(al)
    if sc.get("cond"):
        ref = []
        for t in range(LT):
            x = numpy.array([[rng.randrange(3), rng.random(), 0.0, -1.0]])
            ref.append(TrajectoryStep(ParticleApproximation(x), numpy.zeros(1, dtype=int)))
        kw["filter_options"] = {"cond_traj": numpy.array(ref, dtype=object)}
        case["ref"] = [[tag(s.pa.part[0]) for s in ref]]
    if sc["cb"]:
        def callback(params, Q, cur_iter):
            log("cb", p=vec(params), it=int(cur_iter))
            if sc.get("stop"):
                return sum(1 for x in ev if x["e"] == "cb") >= sc["iters"]
            return None
        kw["callback"] = callback
    if sc["cbsim"]:
        def cbsim(e):
            log("cbsim")
            if e is not est:
                raise ValueError("another estimator")
        kw["callback_sim"] = cbsim
    start = numpy.copy(p0)
    with guard() as g, Quiet():
        r = est.maximize(start, sc["nump"], max_iter=sc["iters"] + (2 if sc.get("stop") else 0), **kw)
        log("return", p=vec(r[0]))
        if not numpy.array_equal(start, p0):
            raise ValueError("the initial parameters were changed")
    case["exc"] = g.exc or ""
    cbs = [i for i, e in enumerate(ev) if e["e"] == "cb"]
    case["firstcb"] = cbs[0] + 1 if cbs else 1
    return case


class _Quad(object):
    """quadratic terms of the objective"""

    def _setup(self, sc, rng):
        n = sc["np"]
        g = lambda lo, hi: numpy.array([round(rng.uniform(lo, hi), 2) for _ in range(n)])      # noqa: E731
        self.a, self.b, self.c = g(0.3, 2), g(0.3, 2), g(0.3, 2)
        self.k0, self.k1, self.k2 = g(-1, 1), g(-1, 1), g(-1, 1)
        self.array = sc["array"]
        self.params = g(-1, 1)

    def set_params(self, params):
        self.params = numpy.copy(params)

    def create_initial_estimate(self, N):
        return numpy.random.normal(size=(N, 1))

    def sample_process_noise(self, particles, u, t):
        return numpy.random.normal(size=particles.shape)

    def update(self, particles, u, t, noise):
        particles[:] = 0.7 * particles + u + noise

    def measure(self, particles, y, t):
        return -0.5 * (particles[:, 0] - y[0]) ** 2

    def logp_xnext(self, particles, next_part, u, t):
        return -0.5 * numpy.sum((next_part - 0.7 * particles - u) ** 2, 1)

    def _t(self, w, target):
        """per particle values and the sum of the gradients"""
        e = self.params - target                # (M, n)
        return -0.5 * numpy.sum(w * e ** 2, 1), -numpy.sum(w * e, 0)

    def t0(self, p):
        return self._t(self.a, self.k0 + p[:, :1])

    def t1(self, p, q, u, t):
        return self._t(self.b, self.k1 + q[:, :1] - 0.5 * p[:, :1] + u + 0.1 * t)

    def t2(self, p, y, t):
        return self._t(self.c, self.k2 + y[0] - p[:, :1] + 0.2 * t)

    def eval_logp_x0(self, particles, t):
        return self.t0(particles)[0]

    def eval_logp_xnext(self, particles, x_next, u, t):
        v = self.t1(particles, x_next, u, t)[0]
        return v if self.array else numpy.sum(v)

    def eval_logp_y(self, particles, y, t):
        v = self.t2(particles, y, t)[0]
        return v if self.array else numpy.sum(v)

    def eval_logp_x0_val_grad(self, particles, t):
        v, g = self.t0(particles)
        return (v if self.array else numpy.mean(v)), g / len(particles)

    def eval_logp_xnext_val_grad(self, particles, x_next, u, t):
        v, g = self.t1(particles, x_next, u, t)
        return numpy.sum(v), g

    def eval_logp_y_val_grad(self, particles, y, t):
        v, g = self.t2(particles, y, t)
        return numpy.sum(v), g


class QuadNum(_Quad, interfaces.ParticleFiltering, interfaces.FFBSi, pi.ParamEstInterface, pi.ParamEstBaseNumeric):
    pass


class QuadGrad(_Quad, interfaces.ParticleFiltering, interfaces.FFBSi, pi.ParamEstInterface_GradientSearch, pi.ParamEstBaseNumericGrad):
    pass


class Base(interfaces.ParticleFiltering, interfaces.FFBSi):
    """a model with arguments of its own"""

    def __init__(self, scale=1.0, **kwargs):
        self.scale = scale
        super(Base, self).__init__(**kwargs)


class QuadNum2(_Quad, pi.ParamEstBaseNumeric, Base, pi.ParamEstInterface):
    pass


class QuadGrad2(_Quad, pi.ParamEstBaseNumericGrad, Base, pi.ParamEstInterface_GradientSearch):
    pass


class _Plain(object):
    """the densities used by filter and smoother are those of the objective"""

    def logp_xnext(self, particles, next_part, u, t):
        return self.t1(particles, next_part, u, t)[0]

    def measure(self, particles, y, t):
        return self.t2(particles, y, t)[0]


class QuadPlain(_Plain, _Quad, interfaces.ParticleFiltering, interfaces.FFBSi, pi.ParamEstInterface, pi.ParamEstBaseNumeric):
    eval_logp_xnext = pi.ParamEstInterface.eval_logp_xnext
    eval_logp_y = pi.ParamEstInterface.eval_logp_y


class _Full(object):
    """sums over the trajectories of its own, on what it is given"""

    def eval_logp_y_fulltraj(self, straj, yt, tt):
        return self.eval_logp_y_val_grad_fulltraj(straj, yt, tt)[0]

    def eval_logp_xnext_fulltraj(self, straj, ut, tt):
        return self.eval_logp_xnext_val_grad_fulltraj(straj, ut, tt)[0]

    def eval_logp_y_val_grad_fulltraj(self, straj, yt, tt):
        x = straj.get_smoothed_estimates()
        r = [self.t2(x[k], yt[k], tt[k]) for k in range(len(x)) if yt[k] is not None]
        return sum(numpy.mean(v) for v, _ in r), sum([g for _, g in r], numpy.zeros(len(self.params))) / x.shape[1]

    def eval_logp_xnext_val_grad_fulltraj(self, straj, ut, tt):
        x = straj.get_smoothed_estimates()
        r = [self.t1(x[k], x[k + 1], ut[k], tt[k]) for k in range(len(x) - 1)]
        return sum(numpy.mean(v) for v, _ in r), sum([g for _, g in r], numpy.zeros(len(self.params))) / x.shape[1]


class FullNum(_Full, QuadNum):
    pass


class FullGrad(_Full, QuadGrad):
    pass


QUADS = {False: [QuadNum, QuadNum, QuadNum2, QuadPlain, FullNum], True: [QuadGrad, QuadGrad, QuadGrad2, FullGrad]}


def run_num(sc, rng):
    from pyparticleest.simulator import Simulator
    T, n = sc["T"], sc["np"]
    y = [numpy.array([round(rng.gauss(0, 1), 2)]) if rng.random() < 0.75 else None for _ in range(T)]
    u = [round(rng.gauss(0, 1), 2) for _ in range(T)]
    b = None
    if sc["bounds"]:
        b = []
        for _ in range(n):
            c = round(rng.gauss(0, 1.5), 2)
            b.append((c, c + rng.choice([0.3, 1.0, 4.0])))
    case = {"kind": "num", "id": sc["id"], "exc": "", "bounds": [] if b is None else [[num(v) for v in r] for r in b],
            "y": [[] if v is None else vec(v) for v in y], "u": vec(u)}
    with guard() as g, Quiet():
        cls = rng.choice(QUADS[sc["grad"]])
        kw = {"scale": 2.5} if cls in (QuadNum2, QuadGrad2) else {}
        if rng.random() < 0.5:
            model = cls(**kw)
            if b is not None:
                model.set_param_bounds(b)
        else:
            model = cls(param_bounds=b, **kw)
        if kw and model.scale != 2.5:
            raise ValueError("an argument was lost")
        model._setup(sc, rng)
        if b is not None:
            model.params = numpy.array([0.5 * (lo + hi) for lo, hi in b])
        for k in ("a", "b", "c", "k0", "k1", "k2"):
            case[k] = vec(getattr(model, k))
        sim = Simulator(model, u, y)
        sim.simulate(max(2, sc["M"]), sc["M"], filter="pf", smoother="full", meas_first=True)
        case["x"] = [vec(s.pa.part[:, 0]) for s in sim.straj.traj]
        case["ret"] = vec(model.maximize(sim.straj))
        # the terms of the objective themselves
        th = numpy.array([round(rng.gauss(0, 1), 2) for _ in range(n)])
        model.set_params(th)
        case["th"], st = vec(th), sim.straj
        case["vy"] = [num(model.eval_logp_y_val_grad_fulltraj(st, st.y, st.t)[0] if sc["grad"] else model.eval_logp_y_fulltraj(st, st.y, st.t))]
        case["vxn"] = [num(model.eval_logp_xnext_val_grad_fulltraj(st, st.u, st.t)[0] if sc["grad"] else model.eval_logp_xnext_fulltraj(st, st.u, st.t))]
    case["exc"] = g.exc or ""
    return case


def _plots():
    """a stand-in for matplotlib that keeps what is drawn"""
    import sys
    import types
    drawn = []
    fig = types.SimpleNamespace(clf=lambda: drawn.clear())
    plt = types.ModuleType("matplotlib.pyplot")
    plt.figure = lambda *a, **k: fig
    plt.plot = lambda x, y, *a, **k: drawn.append([[num(p), num(q)] for p, q in zip(x, y)])
    lib = types.ModuleType("matplotlib")
    lib.pyplot = plt
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = lib, plt
    import pyparticleest.paramest.gradienttest as gt
    gt.plt = plt
    return gt, drawn


class QuadSeen(QuadGrad):
    def create_initial_estimate(self, N):
        self.seen = N
        return super(QuadSeen, self).create_initial_estimate(N)


def run_gt(sc, rng):
    gt, drawn = _plots()
    T, n = sc["T"], sc["np"]
    y = [numpy.array([round(rng.gauss(0, 1), 2)]) if rng.random() < 0.75 else None for _ in range(T)]
    u = [round(rng.gauss(0, 1), 2) for _ in range(T)]
    case = {"kind": "gt", "id": sc["id"], "exc": "", "id0": sc["j"], "analytic": sc["analytic"], "num": sc["num"], "nums": sc["nums"],
            "vals": vec(sc["vals"])}
    with guard() as g, Quiet():
        model = QuadSeen()
        model._setup(sc, rng)
        for k in ("a", "b", "c", "k0", "k1", "k2"):
            case[k] = vec(getattr(model, k))
        th = numpy.array([round(rng.gauss(0, 1), 2) for _ in range(n)])
        case["th"] = vec(th)
        est = gt.GradientTest(model, u, y)
        est.set_params(th)
        kw = {} if sc["default"] else {"num": sc["num"], "nums": sc["nums"]}
        if not sc["analytic"] or not sc["default"]:
            kw["analytic_grad"] = sc["analytic"]
        vals = numpy.array(sc["vals"]) if sc["array"] else list(sc["vals"])
        est.test(sc["j"], vals, **kw)
        case["n"] = int(model.seen)
        st = est.straj
        case["x"] = [vec(s.pa.part[:, 0]) for s in st.traj]
        case["iny"], case["inu"] = [[] if v is None else vec(v) for v in y], vec(u)
        case["y"] = [[] if v is None else vec(v) for v in st.y]
        case["u"] = [num(v) if v is not None else "0" for v in st.u]
        case["tt"] = [num(v) for v in st.t]
        for name, p in (("px0", est.plot_x0), ("pxn", est.plot_xn), ("py", est.plot_y)):
            p.plot(1)
            case[name] = {"params": vec(p.params), "vals": vec(p.vals), "diff": [] if p.diff is None else vec(p.diff), "draw": list(drawn)}
    case["exc"] = g.exc or ""
    return case


class LtvNum(gm.HLTV, pi.ParamEstBaseNumeric, pi.ParamEstInterface):
    pass


class LtvGrad(gm.HLTV, pi.ParamEstBaseNumericGrad, pi.ParamEstInterface_GradientSearch):
    pass


def run_emltv(sc, rng):
    s = sc["s"]
    case = {"kind": "emltv", "id": sc["id"], "m": s.js(), "exc": "", "th": [], "bounds": [],
            "y": [[] if v is None else vec(v) for v in sc["y"]], "u": [num(v) for v in sc["u"]]}
    th0 = [round(rng.uniform(-0.5, 0.5), 2) for _ in range(sc["np"])]
    b = None
    if sc["bounds"]:
        b = [(v - 0.2, v + 0.5) for v in th0]
        case["bounds"] = [[num(v) for v in r] for r in b]
    with guard() as g, Quiet():
        model = (LtvGrad if sc["grad"] else LtvNum)(s, par=th0)
        model.param_bounds = b
        ys = sc["y"] if sc["first"] else sc["y"][1:]
        ys = [None if v is None else numpy.asarray(v) for v in ys]
        est = paramest.ParamEstimation(model, u=[numpy.asarray([v]) for v in sc["u"]][:len(ys)], y=ys)
        th = [th0]
        r = est.maximize(numpy.array(th0), sc["N"], sc["M"], max_iter=sc["iters"], meas_first=sc["first"], smoother="full",
                         callback=lambda params, Q, cur_iter: th.append(list(params)))
        if not numpy.array_equal(r[0], th[-1]):
            raise ValueError("the result is not the last estimate")
        case["th"] = [vec(v) for v in th]
    case["exc"] = g.exc or ""
    return case

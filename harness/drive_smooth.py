"""Drive the smoothers on finite models (C11..C15)."""
import numpy
from common import num, vec, ivec, guard, Quiet
import drive_filter as df
from fm import FM, dec, V, rep


class FMRec(FM):
    """records what sample_smooth is handed"""
    rec = None
    mh = False
    calls = ()

    def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
        if self.rec is not None:
            ids = lambda s: [int(v) for v in V(s.pa.part)[:, 1]]
            self.rec.append({
                "t": int(cur_ind), "ids": [int(v) for v in V(part)[:, 1]],
                "np": 0 if ptraj is None else len(ptraj),
                "pid": [] if ptraj is None or len(ptraj) == 0 else
                [int(v) for v in V(ptraj[-1].pa.part)[numpy.asarray(anc, dtype=int), 1]],
                "nf": 0 if future_trajs is None else len(future_trajs),
                "fid": [] if future_trajs is None else
                [int(v) for v in V(future_trajs[0].pa.part)[numpy.asarray(find, dtype=int), 1]],
                "u": [dec(v) for v in ut], "y": [dec(v) for v in yt], "tt": [num(v) for v in tt]})
        return FM.sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind)


    def _h(self, f, part, traj, anc, u, y, t):
        if self.rec is not None and self.mh:
            own = [] if part is None else [int(v) for v in V(part)[:, 1]]
            par = ([] if traj is None or len(traj) == 0 else
                   [int(v) for v in V(traj[-1].pa.part)[numpy.asarray(anc, dtype=int), 1]])
            self.calls.append({"f": f, "lt": 0 if traj is None else len(traj), "ids": own, "par": par,
                               "now": 0, "pass": [], "u": [dec(v) for v in u], "y": [dec(v) for v in y], "t": [num(v) for v in t]})

    def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
        self._h("noise", None, ptraj, ancestors, ut, [], tt)
        return FM.sample_process_noise_full(self, ptraj, ancestors, ut, tt)

    def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
        self._h("update", particles, traj, ancestors, uvec, yvec, tvec)
        return FM.update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise)

    def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
        self._h("measure", particles, traj, ancestors, [], yvec, tvec)
        return FM.measure_full(self, particles, traj, uvec, yvec, tvec, ancestors)


class FMHook(FMRec):
    """a model with the optional hooks of the smoothers: both hand back new
    trajectories, so that it shows whether they are used"""

    def __init__(self, tab, seed=0):
        FMRec.__init__(self, tab, seed)
        self.passes, self.posts = 0, []

    def _copy(self, st, rec):
        out = numpy.empty((len(st.traj),), dtype=object)
        full = all(s is not None for s in st.traj)
        for t, s in enumerate(st.traj):
            p = numpy.array(V(s.pa.part))
            for k in range(len(p)):
                p[k, 1] = self.new(dict(rec, old=int(p[k, 1])))
            out[t] = df.pf.TrajectoryStep(df.pf.ParticleApproximation(rep(p, self.how)), s.ancestors)
        return out, full

    def pre_mhips_pass(self, st):
        self.passes += 1
        return self._copy(st, {"k": "pre", "n": self.passes})[0]

    def post_smoothing(self, st):
        out, full = self._copy(st, {"k": "post", "n": len(self.posts) + 1})
        self.posts.append({"len": len(st.traj), "full": full, "w": [len(s.pa.part) for s in st.traj],
                           "ids": [[int(v) for v in V(s.pa.part)[:, 1]] for s in st.traj]})
        return out

    def origin(self, i):
        """the particle before any post processing"""
        while 0 <= i < len(self.prov) and self.prov[i]["k"] == "post":
            i = self.prov[i]["old"]
        return i

    def _h(self, f, part, traj, anc, u, y, t):
        FMRec._h(self, f, part, traj, anc, u, y, t)
        if self.rec is not None and self.mh:
            c = self.calls[-1]
            c["now"] = self.passes
            c["pass"] = [self.prov[i].get("n", -1) if self.prov[i]["k"] == "pre" else -1 for i in c["par"]]


TAB = ("p0", "lt", "ll", "lps", "g", "h", "hm")


def build(sc):
    model = (FMHook if sc.get("hook") else FMRec)(sc["tab"], sc["seed"])
    model.how = sc.get("rep", "flat")
    numpy.random.seed(sc["seed"] & 0x7fffffff)
    pt = df.make_pt(sc, model)
    for o in sc["ops"]:
        df.do_op(sc, pt, o)
    return model, pt


def proper(sc):
    with guard() as g, Quiet():
        for s in build(sc)[1]:
            if numpy.isnan(numpy.asarray(s.pa.w, dtype=float)).any():
                return False
    return not g.exc


def base_case(sc, kind):
    T = 1 + sum(o["op"] == "forward" for o in sc["ops"])
    u = [dec(o["u"]) for o in sc["ops"] if o["op"] == "forward"] + [-1]
    y = [dec(o["y"]) for o in sc["ops"]]
    if sc["ops"][0]["op"] != "measure":
        y = [-1] + y
    return {"kind": kind, "id": sc["id"], "method": sc["method"], "N": sc["N"], "M": sc["M"], "T": T,
            "m": sc["tab"].js(*TAB), "u": u, "y": y, "R": sc.get("R", 0), "exc": "", "coupled":
            any(v for r in sc["tab"].g for v in r)}


def steps(pt):
    return [{"x": ivec(V(s.pa.part)[:, 0]), "id": ivec(V(s.pa.part)[:, 1]), "w": vec(s.pa.w),
             "anc": ivec(s.ancestors), "dig": df.digest(s)} for s in pt]


def run_smooth(sc):
    """one smoothing run, everything recorded"""
    case = base_case(sc, "smooth")
    with guard() as g, Quiet():
        model, pt = build(sc)
        case["st"] = steps(pt)
        model.rec, model.calls = [], []
        model.mh = sc["method"].startswith("mh")
        s = pt.perform_smoothing(sc["M"], method=sc["method"], smoother_options=sc.get("opt"))
        case["after"] = [df.digest(q) for q in pt]
        est = s.get_smoothed_estimates() if model.how == "flat" else numpy.array([V(q.pa.part) for q in s.traj])
        case["shape"] = list(est.shape)
        case["len"] = len(s)
        case["hook"] = bool(sc.get("hook"))
        case["npre"] = getattr(model, "passes", 0)
        case["posts"] = getattr(model, "posts", [])
        case["postn"] = [[model.prov[int(v)].get("n", -1) if model.prov[int(v)]["k"] == "post" else -1 for v in e[:, 1]]
                         for e in est] if sc.get("hook") else []
        origin = model.origin if sc.get("hook") else (lambda v: v)
        case["x"] = [ivec(e[:, 0]) for e in est]
        case["sid"] = [[origin(int(v)) for v in e[:, 1]] for e in est]
        case["tx"] = [ivec(V(q.pa.part)[:, 0]) for q in s.traj]
        case["tid"] = [[origin(int(v)) for v in V(q.pa.part)[:, 1]] for q in s.traj]
        case["su"] = [dec(v) for v in s.u]
        case["sy"] = [dec(v) for v in s.y]
        case["stt"] = [num(v) for v in s.t]
        case["rec"] = model.rec
        case["calls"] = model.calls
    if g.exc:
        case["exc"] = g.exc
    return case


def dominated(pt):
    """the last step has a single particle of any weight"""
    w = numpy.asarray(pt[-1].pa.w, dtype=float)
    return numpy.sum(w > w.max() - 200.0) == 1


def slaw(sc):
    """law of the smoothed trajectories given the filtered ones"""
    case = base_case(sc, "slaw")
    case["n"] = sc["n"]
    case["dom"] = bool(sc.get("dom"))
    index = sc["method"] in ("full", "rs", "rsas", "mcmc", "ancestor")
    with guard(600) as g, Quiet():
        for k in range(400):
            model, pt = build(sc)
            if not sc.get("dom") or dominated(pt):
                break
            sc["seed"] += 1
        else:
            case["dom"] = False
        case["st"] = steps(pt)
        lookup = [{int(v): i for i, v in enumerate(V(s.pa.part)[:, 1])} for s in pt]
        model.track = False
        M = sc["M"]
        hist, fin = {}, {}
        for _ in range(sc["n"]):
            s = pt.perform_smoothing(M, method=sc["method"], smoother_options=sc.get("opt"))
            if index:
                ids = [[lookup[t].get(int(v), -1) for v in V(s.traj[t].pa.part)[:, 1]] for t in range(len(pt))]
                key = tuple(int(v) for v in numpy.bincount([max(0, v) for v in ids[-1]], minlength=sc["N"]))
                fin[key] = fin.get(key, 0) + 1
            else:
                ids = [[int(v) for v in V(s.traj[t].pa.part)[:, 0]] for t in range(len(pt))]
            for j in range(M):
                p = tuple(r[j] for r in ids)
                if p not in hist:
                    hist[p] = [0] * M
                hist[p][j] += 1
        case["hist"] = [{"p": list(k), "f": v} for k, v in sorted(hist.items())]
        case["fin"] = [{"c": list(k), "f": v} for k, v in sorted(fin.items())]
    if g.exc:
        case["exc"] = g.exc
    return case

"""Drive the forward filters on finite models and record every step."""
import hashlib, random
import numpy
from common import num, vec, ivec, guard, Quiet
import pyparticleest.filter as pf
from fm import FM, FMSir, Tables, dec, V, rep


class FMFull(FM):
    """The same model seen through the non-Markovian interface; records the
    histories it is handed."""

    def __init__(self, tab, seed=0):
        FM.__init__(self, tab, seed)
        self.calls = []

    def _h(self, f, traj, anc, u, y, t):
        if self.track:
            self.calls.append({
                "f": f, "lt": 0 if traj is None else len(traj),
                "ids": [[int(v) for v in V(s.pa.part)[:, 1]] for s in (traj if traj is not None else [])],
                "anc": [] if anc is None else ivec(anc),
                "u": [dec(v) for v in u],
                "y": [dec(v) for v in y] if y is not None else [],
                "t": [int(v) for v in t]})

    def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
        self._h("noise", ptraj, ancestors, ut, None, tt)
        return FM.sample_process_noise_full(self, ptraj, ancestors, ut, tt)

    def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
        self._h("update", traj, ancestors, uvec, yvec, tvec)
        return FM.update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise)

    def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
        self._h("measure", traj, ancestors, uvec, yvec, tvec)
        return FM.measure_full(self, particles, traj, uvec, yvec, tvec, ancestors)


def ref_traj(model, xs, width=1, rng=None):
    """conditioning trajectory; element 0 of every step is the reference"""
    out = numpy.empty((len(xs),), dtype=object)
    for t, x in enumerate(xs):
        p = numpy.empty((width, 2))
        for k in range(width):
            p[k] = (x if k == 0 else rng.randrange(model.tab.K),
                    model.new({"k": "ref" if k == 0 else "other", "t": t}))
        out[t] = pf.TrajectoryStep(pf.ParticleApproximation(rep(p, model.how)), numpy.arange(width))
    return out


def digest(step):
    h = hashlib.sha1()
    h.update(numpy.ascontiguousarray(V(step.pa.part)).tobytes())
    h.update(numpy.ascontiguousarray(numpy.asarray(step.pa.w, dtype=float)).tobytes())
    h.update(numpy.ascontiguousarray(numpy.asarray(step.ancestors, dtype=float)).tobytes())
    h.update(repr(float(step.pa.w_offset)).encode())
    return h.hexdigest()[:16]


def snapshot(model, pt, ret, idx=-1):
    s = pt[idx]
    parts = V(s.pa.part)
    ids = [int(v) for v in parts[:, 1]]
    ok_anc = s.ancestors is not None
    ev = {"ret": "none" if ret is None else ("true" if ret else "false"),
          "len": len(pt), "x": ivec(parts[:, 0]), "id": ids,
          "prov": [model.prov[i] if 0 <= i < len(model.prov) else {"k": "bad"} for i in ids],
          "w": vec(s.pa.w), "off": num(s.pa.w_offset), "num": int(s.pa.num),
          "anc": ivec(s.ancestors) if ok_anc else [],
          "dig": [digest(q) for q in pt.traj]}
    if isinstance(model, FMFull) and idx == -1:
        ev["calls"] = model.calls
        model.calls = []
    else:
        ev["calls"] = []
    return ev


TABS = dict((k, v + ("hm",) + (() if "h" in v else ("h",))) for k, v in {"pf": ("p0", "lt", "ll"), "apf": ("p0", "lt", "ll", "ls"), "sir": ("p0", "lt", "ll", "lq"),
        "csiras": ("p0", "lt", "ll", "lq"), "pfy": ("p0", "lt", "ll", "lpy", "h"),
        "cpf": ("p0", "lt", "ll"), "cpfas": ("p0", "lt", "ll", "h"), "cpfyas": ("p0", "lt", "ll", "lpy", "h")}.items())


def wrap(v, how):
    """measurements and inputs as scalars or as arrays"""
    if v is None or how == "int":
        return v
    if how == "arr":
        return numpy.asarray([v], dtype=float)
    return numpy.asarray([[v]], dtype=float)


def make_pt(sc, model):
    opts = {}
    if sc["filter"].startswith("c"):
        opts["cond_traj"] = ref_traj(model, sc["ref"], sc.get("width", 1), random.Random(sc["seed"]))
    kw = {}
    if sc.get("prealloc") is not None:
        kw["T"] = sc["prealloc"]
        if sc.get("typed"):
            kw["utype"] = kw["ytype"] = float
    return pf.ParticleTrajectory(model, sc["N"], resample=sc["res"], filter=sc.get("fname", sc["filter"]),
                                 filter_options=opts, **kw)


def do_op(sc, pt, op):
    how = sc.get("wrap", "int")
    if op["op"] == "measure":
        return pt.measure(wrap(op["y"], how))
    return pt.forward(wrap(op["u"], how), wrap(op["y"], how))


class Looks(object):
    """smoothing in the middle of a run; every estimate is kept"""

    def __init__(self, sc, model, pt):
        self.sc, self.model, self.pt, self.kept = sc, model, pt, []

    def digests(self):
        out = []
        for st in self.kept:
            h = hashlib.sha1()
            for q in st.traj:
                h.update(numpy.ascontiguousarray(V(q.pa.part)).tobytes())
            n = len(st.traj)
            h.update(repr([[dec(v) for v in st.u[:n - 1]], [dec(v) for v in st.y[:n]], [int(v) for v in st.t[:n]]]).encode())
            out.append(h.hexdigest()[:16])
        return out

    def look(self):
        how, opt = self.sc["smooth"], self.sc.get("sopt")
        if how.startswith("mh") and len(self.pt) < 2:
            how, opt = "full", None
        self.kept.append(self.pt.perform_smoothing(self.sc["M"], method=how, smoother_options=opt))
        e = self.event(snapshot(self.model, self.pt, None))
        st, n = self.kept[-1], len(self.pt)
        e["st"] = [{"len": len(st.traj), "u": [dec(v) for v in st.u[:n - 1]], "y": [dec(v) for v in st.y[:n]],
                    "t": [int(v) for v in st.t[:n]]}]
        e["first"] = []
        return e

    def event(self, e):
        e["sd"] = self.digests()
        e["st"] = []
        return e


def run_filter(sc):
    """one trace: scenario -> case"""
    tab = sc["tab"]
    model = (FMFull if sc.get("full") else FMSir if sc.get("own_sir") else FM)(tab, sc["seed"])
    model.how = sc.get("rep", "flat")
    numpy.random.seed(sc["seed"] & 0x7fffffff)
    ops = [{"op": o["op"], "u": dec(o.get("u")), "y": dec(o.get("y"))} for o in sc["ops"]]
    case = {"kind": "filter", "id": sc["id"], "filter": sc["filter"], "N": sc["N"],
            "res": num(sc["res"]), "m": tab.js(*TABS[sc["filter"]]),
            "ref": list(sc.get("ref", [])), "full": bool(sc.get("full")),
            "ops": ops, "ev": [], "exc": "", "extra": sc.get("note", ""),
            "sm": sc.get("smooth", ""), "ties": bool(sc.get("ties"))}
    with guard() as g, Quiet():
        pt = make_pt(sc, model)
        looks = Looks(sc, model, pt)
        case["ops"] = []
        for k, o in enumerate(sc["ops"]):
            case["ops"].append(ops[k])
            ret = do_op(sc, pt, o)
            e = looks.event(snapshot(model, pt, ret))
            # the initial set is only visible once the first step has been taken
            e["first"] = [] if case["ev"] or o["op"] != "forward" else [snapshot(model, pt, None, 0)]
            case["ev"].append(e)
            if sc.get("smooth") and (k + 1 == len(sc["ops"]) or k in sc.get("looks", [])):
                e = looks.look()
                case["ops"].append({"op": "smooth", "u": -1, "y": -1})
                case["ev"].append(e)
    if g.exc:
        case["exc"] = g.exc
    return case


def flaw(sc):
    """Law of one forward step: repeat it from one state, count the ancestors."""
    tab = sc["tab"]
    model = FM(tab, sc["seed"])
    numpy.random.seed(sc["seed"] & 0x7fffffff)
    import copy
    case = {"kind": "flaw", "id": sc["id"], "filter": sc["filter"], "N": sc["N"],
            "res": num(sc["res"]), "m": tab.js(*TABS[sc["filter"]]), "ref": list(sc.get("ref", [])),
            "exc": "", "n": sc["n"]}
    with guard(300) as g, Quiet():
        pt = make_pt(sc, model)
        for o in sc["ops"][:-1]:
            do_op(sc, pt, o)
        s = pt[-1]
        case["t"] = len(pt) - 1
        case["x"] = ivec(V(s.pa.part)[:, 0])
        case["w"] = vec(s.pa.w)
        case["xp"] = ([-1] * sc["N"] if len(pt) == 1 else
                      ivec(V(pt[-2].pa.part)[numpy.asarray(s.ancestors, dtype=int), 0]))
        o = sc["ops"][-1]
        case["u"], case["y"] = dec(o["u"]), dec(o["y"])
        model.track = False
        cnts, last, nres = {}, [0] * sc["N"], 0
        cond = sc["filter"].startswith("c")
        for _ in range(sc["n"]):
            q = copy.deepcopy(pt)
            r = do_op(sc, q, o)
            nres += bool(r)
            a = numpy.asarray(q[-1].ancestors)
            free = a[:-1] if cond else a
            key = tuple(int(v) for v in numpy.bincount(free, minlength=sc["N"]))
            cnts[key] = cnts.get(key, 0) + 1
            if cond:
                last[int(a[-1])] += 1
        case["nres"] = nres
        case["cnts"] = [{"c": list(k), "f": f} for k, f in sorted(cnts.items())]
        case["last"] = last
    if g.exc:
        case["exc"] = g.exc
    return case

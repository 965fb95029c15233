"""Kalman and MLNLG computations, compiled or pure, called directly; and the
same runs made with either."""
import json, os, random
import numpy, scipy.linalg
from common import guard, Quiet, num, vec, mat
import suite_gauss

EXT = bool(os.environ.get("VP_EXT_DIR"))
if EXT:
    import pyparticleest.utils.ckalman as K
    import pyparticleest.utils.cmlnlg_compute as MC
else:
    import pyparticleest.utils.kalman as K
    import pyparticleest.utils.mlnlg_compute as MC

OPS = ["lognormpdf", "cho", "cho_vec", "vec", "scalar", "predict", "diff", "measure", "smooth", "prederr", "l2", "l2f", "l2A", "logprod"]


def scenarios(prop, tier, seed):
    rng = random.Random("%s-%s" % (prop, seed))
    k = 12 if tier == "thorough" else 3
    out = []
    for i in range(24 * k):
        for op in OPS + ["measure"] * 3:
            out.append({"kind": "util", "op": op, "seed": rng.randrange(2 ** 30)})
    for p in ("C17", "C18", "C19", "C20", "C21", "C22", "C24"):
        scs = suite_gauss.scenarios(p, "quick", "%s-%s-%s" % (prop, seed, tier))
        rng.shuffle(scs)
        for sc in scs[:10 * k]:
            if sc["kind"] == "calls":
                sc["n"] = 20
            out.append({"kind": "twin", "sc": sc, "seed": sc["seed"]})
    return out


def prepare(scs, rng):
    for i, sc in enumerate(scs):
        sc["id"] = i + 1
        if "sc" in sc:
            sc["sc"]["id"] = i + 1
    return scs


TWIN = None


def twin(i):
    global TWIN
    p = os.environ.get("VP_TWIN")
    if not p:
        return None
    if TWIN is None:
        TWIN = {c["id"]: c for c in json.load(open(p)) if c["kind"] == "twin"}
    return TWIN[i]


def flat(o, out):
    if isinstance(o, dict):
        for k in sorted(o):
            if k not in ("exc", "id", "m"):
                flat(o[k], out)
    elif isinstance(o, list):
        for v in o:
            flat(v, out)
    elif isinstance(o, bool):
        out.append(int(o))
    elif isinstance(o, (int, float)):
        out.append(o)
    elif isinstance(o, str):
        try:
            float(o)
            out.append(o)
        except ValueError:
            pass
    return out


def run(sc):
    if sc["kind"] == "twin":
        c = suite_gauss.run(sc["sc"])
        case = {"id": sc["id"], "kind": "twin", "what": c["kind"] + "/" + str(sc["sc"].get("cls", "")), "own": flat(c, []), "exc": "",
                "runexc": c["exc"], "other": [], "otherexc": c["exc"]}
        if len(case["own"]) > 4000:
            case["own"] = case["own"][:4000]
        t = twin(sc["id"])
        if t is not None:
            case["other"] = [t["own"]]
            case["otherexc"] = t["runexc"]
            # where an exception was raised is not compared, only that there was one
        case["runexc"] = bool(case["runexc"])
        case["otherexc"] = bool(case["otherexc"])
        return case
    r = random.Random(sc["seed"])
    npr = numpy.random.RandomState(sc["seed"])
    op = sc["op"]
    case = {"id": sc["id"], "kind": "util", "what": op, "op": op, "exc": ""}

    def arr(*shape):
        return numpy.round(npr.normal(size=shape) * r.choice([1.0, 1.0, 5.0]), 3)

    def spd(n):
        b = numpy.round(npr.normal(size=(n, n)), 1)
        return numpy.round(b.dot(b.T) + r.choice([0.2, 0.5, 2.0]) * numpy.eye(n), 3)

    def m3(a):
        return [mat(x) for x in a]

    def cho(S):
        return scipy.linalg.cho_factor(S, lower=r.random() < 0.5)
    n, ny, N = r.choice([1, 2, 3]), r.choice([1, 2, 3]), r.choice([1, 2, 4])
    with guard() as g, Quiet():
        if op in ("lognormpdf", "cho", "cho_vec", "vec", "scalar"):
            case["op"] = "lognormpdf"
            if op == "scalar":
                n = 1
            if op in ("lognormpdf", "cho"):
                N = 1
            err = arr(N, n)
            Ss = [spd(n) for _ in range(N if op == "vec" else 1)]
            case["err"], case["S"] = mat(err), m3(Ss)
            S = Ss[0]
            if op == "lognormpdf":
                v = K.lognormpdf(err[0].reshape(r.choice([(-1, 1), (1, -1), (-1,)])), S)
            elif op == "cho":
                v = K.lognormpdf_cho(err[0].reshape(r.choice([(-1, 1), (-1,)])), cho(S))
            elif op == "cho_vec":
                v = K.lognormpdf_cho_vec(err.reshape(r.choice([(N, n, 1), (N, n)])), cho(S))
            elif op == "vec":
                e = err.reshape((N, n, 1)) if r.random() < 0.5 else err
                v = K.lognormpdf_vec(e, Ss if r.random() < 0.5 else numpy.array(Ss))
            else:
                v = K.lognormpdf_scalar(err.reshape(r.choice([(N, 1, 1), (N, 1), (N,)])), S)
            case["val"] = vec(v)
        elif op == "predict":
            z, P, A, f, Q = arr(n, 1), spd(n), arr(n, n), arr(n, 1), spd(n)
            case.update(z=vec(z), P=mat(P), A=mat(A), f=vec(f), Q=mat(Q))
            way = r.choice(["full", "inplace", "predict", "sticky"])
            z0, P0 = z.copy(), P.copy()
            if way == "full":
                oz, oP = K.KalmanFilter(n).predict_full(z, P, A, f, Q)
            elif way == "inplace":
                K.KalmanSmoother(n).predict_full_inplace(z, P, A, f, Q)
                oz, oP, z0, P0 = z, P, z, P
            elif way == "predict":
                if r.random() < 0.3:
                    f = numpy.zeros((n, 1))
                    case["f"] = vec(f)
                    kf = K.KalmanFilter(n, A=A, Q=Q)
                else:
                    kf = K.KalmanFilter(n, A=A, Q=Q, f_k=f)
                oz, oP = kf.predict(z, P)
            else:                   # later values replace earlier ones, None does not
                kf = K.KalmanSmoother(n, A=arr(n, n), Q=Q, f_k=arr(n, 1))
                kf.set_dynamics(A=A)
                kf.set_dynamics(f_k=f, R=spd(ny))
                oz, oP = kf.predict(z, P)
            case.update(oz=vec(oz), oP=mat(oP), kept=bool(numpy.array_equal(z, z0) and numpy.array_equal(P, P0)))
        elif op in ("diff", "measure"):
            way = r.choice(["full", "scalar", "measure"]) if op == "measure" else "diff"
            if way == "scalar":
                ny = 1
            z, P, R, y = arr(n, 1), spd(n), spd(ny), arr(ny, 1)
            C = None if r.random() < 0.25 else arr(ny, n)
            h = None if r.random() < 0.35 else arr(ny, 1)
            case.update(z=vec(z), P=mat(P), C=[] if C is None else mat(C), h=[] if h is None else vec(h), R=mat(R), y=vec(y))
            y0, C0, h0 = y.copy(), None if C is None else C.copy(), None if h is None else h.copy()
            if r.random() < 0.5:
                kf = K.KalmanSmoother(n, C=C, R=R, h_k=h)
            else:               # later values replace earlier ones, None does not
                kf = K.KalmanFilter(n, C=None if C is None else arr(ny, n), R=R, h_k=h)
                kf.set_dynamics(C=C)
                kf.set_dynamics(A=arr(n, n), Q=spd(n))
            if op == "diff":
                case["oz"] = vec(kf.measurement_diff(y, z, C, h) if h is not None or r.random() < 0.5 else kf.measurement_diff(y, z, C))
            else:
                if way == "full":
                    v = kf.measure_full(y, z, P, C, h, R)
                elif way == "scalar":
                    v = kf.measure_full_scalar(y, z, P, C, h, R)
                else:
                    v = kf.measure(y, z, P)
                case["val"] = num(numpy.asarray(v).ravel()[0])
                case.update(oz=vec(z), oP=mat(P))
            case["kept"] = bool(numpy.array_equal(y, y0) and (C is None or numpy.array_equal(C, C0)) and (h is None or numpy.array_equal(h, h0)))
        elif op == "smooth":
            z, P, zn, Pn, A, f, Q = arr(n, 1), spd(n), arr(n, 1), spd(n), arr(n, n), arr(n, 1), spd(n)
            case.update(z=vec(z), P=mat(P), zn=vec(zn), Pn=mat(Pn), A=mat(A), f=vec(f), Q=mat(Q))
            keep = [a.copy() for a in (z, P, zn, Pn)]
            a, b, c = K.KalmanSmoother(n).smooth(z, P, zn, Pn, A, f, Q)
            case.update(oz=vec(a), oP=mat(b), oM=mat(c), kept=all(numpy.array_equal(p, q) for p, q in zip(keep, (z, P, zn, Pn))))
        elif op == "logprod":
            A, dA, B, dB = spd(n), arr(n, n), arr(n, n), arr(n, n)
            dA, dB, B = dA + dA.T, dB + dB.T, B + B.T
            case.update(A=mat(A), dA=mat(dA), B=mat(B), dB=mat(dB))
            case["val"] = num(MC.compute_logprod_derivative(cho(A), dA, B, dB))
        else:
            lz, lxi, lenp = r.choice([1, 2, 3]), r.choice([0, 1, 2]), r.choice([1, 2, 3])
            d = lxi + lz
            A, z, p = arr(N, d, lz), arr(N, lz, 1), arr(N, d, 1)
            P, Pn, M = numpy.array([spd(lz) for _ in range(N)]), numpy.array([spd(lz) for _ in range(N)]), arr(N, lz, lz)
            case.update(N=N, lxi=lxi, lenp=lenp, A=m3(A), z=mat(z), p=mat(p), P=m3(P), Pn=m3(Pn), M=m3(M))
            if op == "prederr":
                xn, f = arr(N, d, 1), arr(N, d, 1)
                out = numpy.full((N, d, 1), numpy.nan)
                MC.compute_pred_err(N, d, xn, f, A, z, out)
                case.update(xn=mat(xn), f=mat(f), out=mat(out))
            elif op == "l2":
                out = numpy.full((N, d, d), numpy.nan)
                MC.compute_l2(N, lxi, d, p, Pn, A, P, M, out)
                case["out"] = m3(out)
            else:
                out = arr(N, lenp, d, d)
                case["start"] = [m3(x) for x in out]
                t1, t2 = arr(d, d), arr(d, lz)
                if op == "l2f":
                    df = arr(N, lenp, d, 1)
                    case["df"] = [mat(x.reshape((lenp, d))) for x in df]
                    MC.compute_l2_grad_f(N, lenp, d, out, p, df, t1)
                else:
                    dA = arr(N, lenp, d, lz)
                    case["dA"] = [m3(x) for x in dA]
                    MC.compute_l2_grad_A(N, lenp, d, out, p, lxi, Pn, z, P, M, A, dA, t1, t2)
                case["out"] = [m3(x) for x in out]
    case["exc"] = g.exc or ""
    return case

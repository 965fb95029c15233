"""Resampling and readouts of a weighted particle set (C01)."""
import random
import numpy
from common import num, vec, ivec, guard, Quiet
import pyparticleest.filter as pf
from fm import FM, Tables


def hist(keys):
    d = {}
    for k in keys:
        d[k] = d.get(k, 0) + 1
    return d


def counts_of(ind, N):
    """counts per index; an index out of range is counted in an extra slot"""
    c = [0] * (N + 1)
    for v in numpy.asarray(ind).ravel():
        c[int(v) if 0 <= int(v) < N and int(v) == float(v) else N] += 1
    return tuple(c)


def run_sample(sc):
    """weights, number of draws -> distribution of the count vectors"""
    w, n, reps = sc["w"], sc["n"], sc["reps"]
    N = len(w)
    numpy.random.seed(sc["seed"])
    case = {"kind": "sample", "id": sc["id"], "via": sc["via"], "w": vec(w), "n": n,
            "reps": reps, "exc": "", "cnts": [], "post": []}
    with guard(120) as g, Quiet():
        keys = []
        post = []
        for r in range(reps):
            if sc["via"] == "sample":
                win = numpy.array(w, dtype=float)
                keep = win.copy()
                ind = pf.sample(win if sc.get("arr", True) else list(w), n)
                if sc.get("arr", True) and not numpy.array_equal(win, keep):
                    post.append("weights-modified")
            else:
                tab = Tables(random.Random(1), 2)
                m = FM(tab)
                parts = numpy.empty((N, 2))
                parts[:, 0] = numpy.arange(N) + 100.0
                parts[:, 1] = numpy.arange(N)
                src = parts.copy()
                pa = pf.ParticleApproximation(src, numpy.array(w, dtype=float))
                if sc["via"] == "resample":
                    pa.w_offset = 3.5
                    ind = pa.resample(m, n) if sc.get("explicit", True) else pa.resample(m)
                    if r < 4:
                        ok = (len(pa.part) == len(ind) == len(pa.w) == pa.num == len(pa)
                              and numpy.array_equal(pa.part[:, 1], numpy.asarray(ind, dtype=float))
                              and numpy.array_equal(pa.part[:, 0], numpy.asarray(ind) + 100.0))
                        if not ok:
                            post.append("copies")
                        if pa.w_offset != 0.0:
                            post.append("offset")
                        post.append({"w": vec(pa.w)})
                        pa.part[0, 0] = -7.0
                        if not numpy.array_equal(src, parts):
                            post.append("alias")
                else:
                    p = pa.sample()
                    ind = [int(p[1])]
                    if p[0] != p[1] + 100:
                        post.append("copies")
            keys.append(counts_of(ind, N))
        case["cnts"] = [{"c": list(k), "f": f} for k, f in sorted(hist(keys).items())]
        case["post"] = [p["w"] for p in post if isinstance(p, dict)]
        case["flags"] = sorted(set(p for p in post if not isinstance(p, dict)))
    if g.exc:
        case["exc"] = g.exc
    return case


def run_best(sc):
    w, n = sc["w"], sc["n"]
    N = len(w)
    case = {"kind": "best", "id": sc["id"], "w": vec(w), "n": n, "exc": "", "ind": []}
    with guard() as g, Quiet():
        parts = numpy.empty((N, 2))
        parts[:, 0] = numpy.arange(N) + 100.0
        parts[:, 1] = numpy.arange(N)
        pa = pf.ParticleApproximation(parts, numpy.array(w, dtype=float))
        b = pa.find_best_particles(n) if n > 0 else pa.find_best_particles()
        case["ind"] = ivec(b[:, 1])
    if g.exc:
        case["exc"] = g.exc
    return case


def run_neff(sc):
    w = sc["w"]
    case = {"kind": "neff", "id": sc["id"], "w": vec(w), "exc": "", "neff": "nan"}
    with guard() as g, Quiet():
        pa = pf.ParticleApproximation(numpy.zeros((len(w), 2)), numpy.array(w, dtype=float))
        case["neff"] = num(pa.calc_Neff())
    if g.exc:
        case["exc"] = g.exc
    return case

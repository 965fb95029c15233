"""Densities of utils/pdf (C28)."""
import random
import numpy
from common import vec, guard
from pyparticleest.utils.pdf import unifsum


def scenarios(prop, tier, seed):
    rng = random.Random("%s-%s" % (prop, seed))
    out = []
    for i in range(150 * (12 if tier == "thorough" else 4)):
        sc = rng.choice([0.01, 1.0, 1.0, 30.0])
        off = rng.choice([0.0, 0.0, -5.0, 40.0])
        r = lambda: round(sc * rng.uniform(-2, 2), 4)       # noqa: E731
        a = [r() + off, r() + off]
        b = [r(), r()]
        if rng.random() < 0.15:
            b = [b[0], b[0] + a[1] - a[0]]              # equal widths
        if rng.random() < 0.1:
            b = [b[0], b[0]]                            # a constant
        if rng.random() < 0.1:
            a, b = [-1, 2], [0, rng.choice([1, 3, 5])]  # integers
        for v in (a, b):        # not narrower than the arithmetic can resolve
            if 0 < abs(v[1] - v[0]) < 0.02 * sc:
                v[1] = v[0] + 0.3 * sc
        if a[0] == a[1]:        # the sum has a density
            b = [b[0], b[0] + sc]
        out.append({"a": a, "b": b, "as": rng.choice(["list", "tuple", "arr"]), "q": [rng.uniform(-0.2, 1.2) for _ in range(12)],
                    "r": [rng.random() for _ in range(6)]})
    return out


def prepare(scs, rng):
    for i, sc in enumerate(scs):
        sc["id"] = i + 1
    return scs


def run(sc):
    case = {"kind": "density", "id": sc["id"], "a": vec(sc["a"]), "b": vec(sc["b"]), "p": [], "v": [], "exc": ""}
    lo, hi = min(sc["a"]) + min(sc["b"]), max(sc["a"]) + max(sc["b"])
    w = min(abs(sc["a"][0] - sc["a"][1]), abs(sc["b"][0] - sc["b"][1]))
    pts = [lo + q * (hi - lo) for q in sc["q"]]
    # in the slopes, which may be narrow
    pts += [lo + q * w for q in sc["r"][:3]] + [hi - q * w for q in sc["r"][3:]] if w > 0 else []
    if w > 1e-6:
        pts += [lo + w, hi - w, (lo + hi) / 2]
    wrap = {"list": list, "tuple": tuple, "arr": numpy.asarray}[sc["as"]]
    case["p"] = vec(pts)
    with guard() as g:
        d = unifsum(wrap(sc["a"]), wrap(sc["b"]))
        case["v"] = vec([d(p) for p in pts])
    case["exc"] = g.exc or ""
    return case

"""Shared helpers of the conformance harness (imported by the suites).

The harness only drives the public API of pyParticleEst and records what it
observes; every verdict is taken by the TLA+ specification."""
import json, math, os, random, signal, sys, traceback
import numpy

numpy.seterr(all="ignore")


def num(x):
    """A real number, as the specification reads it."""
    x = float(x)
    if x != x:
        return "nan"
    if x in (math.inf, -math.inf):
        return "inf" if x > 0 else "-inf"
    if x == int(x) and abs(x) < 1e9:
        return int(x)
    return repr(x)


def vec(a):
    return [num(v) for v in numpy.asarray(a, dtype=float).ravel()]


def mat(a):
    a = numpy.asarray(a, dtype=float)
    return [[num(v) for v in row] for row in a.reshape(a.shape[0], -1)]


def ivec(a):
    """Integer array; anything that is not an integer becomes -999."""
    out = []
    for v in numpy.asarray(a).ravel():
        out.append(int(v) if float(v) == int(float(v)) else -999)
    return out


class Timeout(Exception):
    pass


def _alarm(_sig, _frm):
    raise Timeout("no answer within the time limit")


signal.signal(signal.SIGALRM, _alarm)


class guard(object):
    """Run one call of the library: an exception is an observation."""

    def __init__(self, limit=60):
        self.limit = limit
        self.exc = None

    def __enter__(self):
        signal.alarm(self.limit)
        return self

    def __exit__(self, et, ev, tb):
        signal.alarm(0)
        if et is not None and issubclass(et, (Exception, Timeout)):
            where = traceback.extract_tb(tb)[-1]
            self.exc = "%s: %s (%s:%s)" % (et.__name__, str(ev)[:160],
                                           os.path.basename(where.filename), where.lineno)
            return True
        return False


class Quiet(object):
    """The library prints hints; keep them off the check's output."""

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.old
        return False


def use_ext():
    """Use the C extensions built by run.py (VP_EXT_DIR)."""
    d = os.environ.get("VP_EXT_DIR")
    if d:
        import pyparticleest.utils
        pyparticleest.utils.__path__.append(d)


use_ext()

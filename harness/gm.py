"""Gaussian models whose matrices are sums of coefficient * matrix, so that the
specification can evaluate them too.  A matrix function is a list of (k, array),
k one of 1, x1, x2, x11, b1, s1, u, t, p1..p3, q1..q3, r1..r3 (see GaussModels.tla)."""
import numpy
from common import num, mat, vec
from pyparticleest.models.ltv import LTV
from pyparticleest.models.nlg import NonlinearGaussian, NonlinearGaussianInitialGaussian
from pyparticleest.models import mlnlg
from pyparticleest.models.hierarchial import HierarchicalRSBase


def coef(k, x, u, t, p):
    if k == "1":
        return 1.0
    if k == "x1":
        return float(x[0])
    if k == "x2":
        return float(x[-1])
    if k == "x11":
        return float(x[0]) ** 2
    if k == "u":
        return 0.0 if u is None else float(numpy.ravel(u)[0])
    if k == "t":
        return float(int(t) % 3)
    if k == "s1":
        return 1.0 if x[0] > 0 else 0.0
    if k == "b1":
        return float(x[0]) / (1.0 + float(x[0]) ** 2)
    return float(numpy.ravel(p)[int(k[1]) - 1]) * xfac(k, x)


def xfac(k, x):
    """the factor of the parameter in p, q and r terms"""
    return 1.0 if k[0] == "p" else float(x[0]) if k[0] == "q" else float(x[0]) ** 2


def parterm(k):
    return k[0] in "pqr"


def kept(a):
    """what a model hands out is its own: nobody else may write to it"""
    a.flags.writeable = False
    return a


def mf(f, x=(), u=None, t=0, p=()):
    r = numpy.zeros_like(f[0][1])
    for k, m in f:
        r = r + coef(k, x, u, t, p) * m
    return kept(r)


def mfgrad(f, n, x=()):
    r = numpy.zeros((n,) + f[0][1].shape)
    for k, m in f:
        if parterm(k):
            r[int(k[1]) - 1] += xfac(k, x) * m
    return kept(r)


def haspar(f):
    return any(parterm(k) and numpy.any(m) for k, m in f)


def js(f):
    return [] if f is None else [{"k": k, "m": mat(m)} for k, m in f]


def r1(rng, r, c, scale=1.0, dec=2):
    return numpy.array([[round(rng.gauss(0, scale), dec) for _ in range(c)] for _ in range(r)]).reshape((r, c))


def spd(rng, n, scale=1.0):
    b = r1(rng, n, n, 0.6, 1)
    return numpy.round(scale * (b.dot(b.T) + 0.4 * numpy.eye(n)), 4)


MATS = ("fxi", "Axi", "Qxi", "fz", "Az", "Qz", "Qxz", "h", "C", "R", "z0", "P0", "xi0", "Pxi0")


class Spec(object):
    """dimensions, matrix functions and how each is given to the library:
    how[name] is 'const' or 'hook'"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def xdep(self):
        """does the belief about z_0 depend on xi_0"""
        return any(k[0] in "xqr" for f in (self.z0, self.P0) for k, _ in f)

    def fold(self, th):
        """the same with the parameters put in"""
        r = Spec(**self.__dict__)
        for n in MATS:
            f = getattr(self, n, None)
            if f is not None:
                setattr(r, n, [({"p": "1", "q": "x1", "r": "x11"}[k[0]], th[int(k[1]) - 1] * m) if parterm(k) else (k, m)
                               for k, m in f])
        return r

    def tame(self):
        """for long runs: nothing that makes the states grow without bound"""
        cov = ("Qxi", "Qz", "R", "P0", "Pxi0", "Qxz")
        for n in MATS:
            f = getattr(self, n, None)
            if not f:
                continue
            r = []
            for k, m in f:
                if n in cov:
                    r.append((k, numpy.round(0.2 * m, 5) if k == "x11" else m) if k[0] != "r" else ("p" + k[1], m))
                elif n in ("xi0", "z0", "h"):
                    r.append((k, m))
                elif k == "x11":
                    r.append(("b1", m))
                elif k in ("x1", "x2"):
                    r.append((k, numpy.round(0.25 * m, 5)) if n in ("fxi", "fz") else ("b1", m))
                else:
                    r.append(("p" + k[1] if k[0] == "q" else k, numpy.round(0.45 * m, 5) if n in ("Axi", "Az") else m))
            setattr(self, n, r)
        return self

    def js(self):
        d = {"lxi": self.lxi, "lz": self.lz, "ny": self.ny, "ysh": num(self.ysh), "hier": self.hier,
             "mn": [num(v) for v in self.mn]}
        for n in MATS:
            d[n] = js(getattr(self, n, None))
        return d


def gen(rng, kind, lxi, lz, ny, nparam=0, varying=True, corr=True, noC=False, noisy=1.0):
    """kind: ltv, nlg, mlnlg, hier"""
    s = Spec(kind=kind, lxi=lxi, lz=lz, ny=ny, ysh=0.0, hier=kind == "hier", mn=(0.0, 0.0), how={}, nparam=nparam)
    xk = ["x1", "x2", "x11", "s1"] if lxi else []
    # which parts vary: any, all, or a single one of them
    only = rng.choice([None, None, None, "all", "fxi", "Qxi", "fz", "Az", "Qz", "C", "h", "R", "Axi", "Qxz"])

    def fun(name, r, c, scale, cov=False, allow=("x", "u", "t"), pd=True):
        f = [("1", spd(rng, r, scale * noisy) if cov else r1(rng, r, c, scale))]
        how = rng.choice(["const", "hook", "hook"]) if varying else "const"
        if varying and only is not None:
            how = "hook" if only in ("all", name) else "const"
        if not cov and rng.random() < (0.2 if how == "hook" else 0.2 if name in ("fxi", "fz", "h") else 0.07):
            f[0] = ("1", 0.0 * f[0][1])             # nothing but the varying terms
        if how == "hook" and not cov and "x" in allow and xk and rng.random() < 0.12:
            # zero for some particles
            f = [("1", 0.0 * f[0][1]), ("s1", f[0][1])]
        elif how == "hook":
            if cov:
                vary = rng.choice(["x11", "x11", "s1", "s1", "both", ""] if r > 1 else ["x11", "x11", ""]) if "x" in allow and xk else ""
                if vary in ("x11", "both"):
                    f.append(("x11", numpy.round(rng.choice([0.15, 0.15, 0.9]) * f[0][1], 4)))
                if vary in ("s1", "both"):
                    # other correlations, same variances
                    d = numpy.diag([-1.0] + [1.0] * (r - 1))
                    f.append(("s1", d.dot(f[0][1]).dot(d) - f[0][1]))
                if "t" in allow and rng.random() < 0.6:
                    f.append(("t", numpy.round(0.5 * f[0][1], 4)))
            else:
                if "x" in allow and xk:
                    for k in xk:
                        if rng.random() < (0.5 if only is None else 0.8):
                            f.append((k, r1(rng, r, c, 0.3 * scale if k != "x11" else 0.03 * scale, 3)))
                if "u" in allow and rng.random() < 0.6:
                    f.append(("u", r1(rng, r, c, 0.3 * scale)))
                if "t" in allow and rng.random() < 0.6:
                    f.append(("t", r1(rng, r, c, 0.4 * scale)))
        for j in range(nparam):
            if pd and rng.random() < 0.6:
                # with x-dependent parts every particle has its own gradient
                k = "p" if how == "const" or "x" not in allow or not xk or rng.random() < 0.4 else "r" if cov else "q"
                f.append(("%s%d" % (k, j + 1), numpy.round(0.3 * (spd(rng, r, scale) if cov else r1(rng, r, c, scale)), 4)))
        setattr(s, name, f)
        s.how[name] = how

    s.how["omit"] = rng.random() < 0.6
    lin = 0.8 / max(1, lz) ** 0.5
    if kind != "ltv":
        fun("fxi", lxi, 1, 0.6)
        fun("Qxi", lxi, lxi, 1.0, True, allow=("x", "t"))
        s.xi0 = [("1", r1(rng, lxi, 1))]
        s.Pxi0 = [("1", spd(rng, lxi))]
        for j in range(nparam):
            if rng.random() < 0.4:
                s.xi0.append(("p%d" % (j + 1), r1(rng, lxi, 1)))
            if rng.random() < 0.4:
                s.Pxi0.append(("p%d" % (j + 1), numpy.round(0.3 * spd(rng, lxi), 4)))
    if lz:
        fun("fz", lz, 1, 0.7)
        fun("Az", lz, lz, lin)
        fun("Qz", lz, lz, 1.0, True, allow=("x", "t"))
        s.z0 = [("1", r1(rng, lz, 1))]
        s.P0 = [("1", spd(rng, lz))]
        # the belief about z_0 may depend on xi_0
        xdep = bool(lxi) and varying and rng.random() < 0.35
        if xdep:
            s.z0.append(("x1", r1(rng, lz, 1, 0.5)))
            s.P0.append(("x11", numpy.round(0.2 * spd(rng, lz), 4)))
        for j in range(nparam):
            if rng.random() < 0.4:
                s.z0.append((("q%d" if xdep else "p%d") % (j + 1), r1(rng, lz, 1)))
            if rng.random() < 0.4:
                s.P0.append((("r%d" if xdep else "p%d") % (j + 1), numpy.round(0.3 * spd(rng, lz), 4)))
        if not noC:
            fun("C", ny, lz, 0.9, allow=("x", "t"))
        else:
            s.C = None
    fun("h", ny, 1, 0.7, allow=("x", "t"))
    fun("R", ny, ny, 1.0, True, allow=("x", "t"))
    if kind == "mlnlg":
        fun("Axi", lxi, lz, 0.8)
        if corr:
            # cov((vxi, vz)) stays positive definite: Qxz = K' Qxi-part small enough
            m = r1(rng, lxi, lz, 0.12)
            m = m * min(1.0, 0.18 / numpy.linalg.norm(m))
            m = numpy.round(m, 4) * min(1.0, noisy)
            s.Qxz = [("1", m)]
            s.how["Qxz"] = rng.choice(["const", "hook"]) if only is None else "hook" if only in ("all", "Qxz") else "const"
            if s.how["Qxz"] == "hook":
                if rng.random() < 0.5:
                    s.Qxz.append(("t", numpy.round(0.3 * m, 4)))
                if rng.random() < 0.7:
                    s.Qxz.append(("b1", numpy.round(0.6 * m[::-1], 4)))
    if rng.random() < 0.4 and varying:
        s.ysh = rng.choice([0.5, -1.25])
        s.how["y"] = "hook"
    if kind == "hier":
        s.mn = (round(rng.gauss(0, 0.4), 2), round(rng.gauss(0, 0.3), 2))
    return s


def rbini(s, xi0, p=()):
    """the belief about z_0 given every xi_0"""
    xs = [numpy.ravel(x) for x in xi0]
    return (kept(numpy.array([mf(s.z0, x, p=p) for x in xs])), kept(numpy.array([mf(s.P0, x, p=p) for x in xs])))


def opt(P):
    """no uncertainty: nothing given"""
    return P if numpy.any(P) else None


def per(style, mats):
    """a list of matrices or a stacked array"""
    return kept(numpy.asarray(mats)) if style == "arr" else list(mats)


def shift(y, s):
    """the measurement a model hands out: the data itself unless it is shifted"""
    y = numpy.asarray(y, dtype=float).reshape((-1, 1))
    return y + s.ysh if s.ysh else y


def given(s, n):
    """is the matrix given as a constant; constant offsets of zero may be left out"""
    if s.how[n] != "const":
        return False
    return not (s.how.get("omit") and n in ("fxi", "fz", "h") and not any(numpy.any(m) for _, m in getattr(s, n)))


class HLTV(LTV):
    def __init__(self, s, par=()):
        self.s = s
        self.params = numpy.asarray(par, dtype=float)
        c = {n: (self._c(n) if given(s, n) else None) for n in ("Az", "C", "Qz", "R", "fz", "h")}
        super(HLTV, self).__init__(z0=mf(s.z0, p=par), P0=mf(s.P0, p=par), A=c["Az"], C=c["C"], Q=c["Qz"], R=c["R"],
                                   f=c["fz"], h=c["h"])

    def _c(self, n):
        return mf(getattr(self.s, n), p=self.params)

    def set_params(self, params):
        self.params = numpy.copy(params).ravel()
        s = self.s
        self.kf.set_dynamics(**{k: self._c(n) for k, n in (("A", "Az"), ("C", "C"), ("Q", "Qz"), ("R", "R"), ("f_k", "fz"), ("h_k", "h"))
                                if given(s, n)})
        self.z0 = mf(s.z0, p=self.params)
        self.P0 = mf(s.P0, p=self.params)

    def _h(self, n, u, t):
        return mf(getattr(self.s, n), (), u, t, self.params) if self.s.how[n] == "hook" else None

    def get_pred_dynamics(self, u, t):
        return (self._h("Az", u, t), self._h("fz", u, t), self._h("Qz", u, t))

    def get_meas_dynamics(self, y, t):
        y = shift(y, self.s)
        return (y, self._h("C", None, t), self._h("h", None, t), self._h("R", None, t))

    def _g(self, n):
        f = getattr(self.s, n)
        return mfgrad(f, len(self.params)) if haspar(f) else None

    def get_pred_dynamics_grad(self, u, t):
        if not any(haspar(getattr(self.s, n)) for n in ("Az", "fz", "Qz")):
            return super(HLTV, self).get_pred_dynamics_grad(u, t)
        return (self._g("Az"), self._g("fz"), self._g("Qz"))

    def get_meas_dynamics_grad(self, y, t):
        if not any(haspar(getattr(self.s, n)) for n in ("C", "h", "R")):
            return super(HLTV, self).get_meas_dynamics_grad(y, t)
        return (self._g("C"), self._g("h"), self._g("R"))

    def get_initial_grad(self):
        n = len(self.params)
        if not (haspar(self.s.z0) or haspar(self.s.P0)):
            return (None, None) if len(self.params) == 2 else super(HLTV, self).get_initial_grad()
        return (mfgrad(self.s.z0, n), mfgrad(self.s.P0, n))


class _NLG(object):
    def _init(self, s, style):
        self.s, self.style = s, style
        self.params = numpy.zeros(0)
        f = {n: (mf(getattr(s, n)) if s.how[n] == "const" else None) for n in ("fxi", "h", "Qxi", "R")}
        return {"f": None if f["fxi"] is None else f["fxi"].ravel(), "g": None if f["h"] is None else f["h"].ravel(),
                "Q": f["Qxi"], "R": f["R"]}

    def calc_f(self, particles, u, t):
        if self.s.how["fxi"] == "const":
            return None
        return kept(numpy.array([mf(self.s.fxi, x, u, t).ravel() for x in particles]))

    def calc_Q(self, particles, u, t):
        if self.s.how["Qxi"] == "const":
            return None
        return per(self.style, [mf(self.s.Qxi, x, u, t) for x in particles])

    def calc_g(self, particles, t):
        if self.s.how["h"] == "const":
            return None
        return kept(numpy.array([mf(self.s.h, x, None, t).ravel() for x in particles]))

    def calc_R(self, particles, t):
        if self.s.how["R"] == "const":
            return None
        return per(self.style, [mf(self.s.R, x, None, t) for x in particles])


class HNLG(_NLG, NonlinearGaussianInitialGaussian):
    """ini: how the initial law is given (both, x0 only, Px0 only, size only);
    late: the constant covariances are replaced after the construction"""

    def __init__(self, s, style="list", ini="both", late=False):
        kw = self._init(s, style)
        Q, R = kw["Q"], kw["R"]
        if late:
            kw["Q"], kw["R"] = (None, R) if R is None else (None if Q is None else 2 * Q, 3 * R)
        if ini in ("both", "x0"):
            kw["x0"] = mf(s.xi0)
        if ini in ("both", "Px0"):
            kw["Px0"] = mf(s.Pxi0)
        if ini == "lxi":
            kw["lxi"] = s.lxi
        NonlinearGaussianInitialGaussian.__init__(self, **kw)
        if late:
            if Q is not None:
                self.set_Q(Q)
            if R is not None:
                self.set_R(R)


def initial(s, ini):
    """the initial law as the constructor understands it"""
    if ini in ("Px0", "lxi"):
        s.xi0 = [("1", numpy.zeros((s.lxi, 1)))]
    if ini in ("x0", "lxi"):
        s.Pxi0 = [("1", numpy.zeros((s.lxi, s.lxi)))]


class _ML(object):
    names = (("Az", "Az"), ("C", "C"), ("Qz", "Qz"), ("R", "R"), ("fz", "fz"), ("Axi", "Axi"), ("Qxi", "Qxi"),
             ("Qxiz", "Qxz"), ("fxi", "fxi"), ("h", "h"))

    def _consts(self):
        s = self.s
        return {k: mf(getattr(s, n), p=self.params) for k, n in self.names
                if getattr(s, n, None) is not None and given(s, n)}

    def _h(self, n, particles, u, t):
        if getattr(self.s, n, None) is None or self.s.how[n] == "const":
            return None
        return per(self.style, [mf(getattr(self.s, n), x[:self.s.lxi], u, t, self.params) for x in particles])

    def get_nonlin_pred_dynamics(self, particles, u, t):
        return tuple(self._h(n, particles, u, t) for n in ("Axi", "fxi", "Qxi"))

    def get_lin_pred_dynamics(self, particles, u, t):
        return tuple(self._h(n, particles, u, t) for n in ("Az", "fz", "Qz"))

    def get_cross_covariance(self, particles, u, t):
        return self._h("Qxz", particles, u, t)

    def get_meas_dynamics(self, particles, y, t):
        if y is not None:
            y = shift(y, self.s)
        return (y,) + tuple(self._h(n, particles, None, t) for n in ("C", "h", "R"))

    def set_params(self, params):
        self.params = numpy.copy(params).ravel()
        self.set_dynamics(**self._consts())
        p = self.params
        self.xi0, self.Pxi0 = mf(self.s.xi0, p=p), mf(self.s.Pxi0, p=p)
        self.z0, self.Pz0 = mf(self.s.z0, (0.0,), p=p), mf(self.s.P0, (0.0,), p=p)

    # gradients
    def _g(self, names, particles):
        n = len(self.params)
        if not any(haspar(getattr(self.s, k)) for k in names):
            return None
        return kept(numpy.array([numpy.concatenate([mfgrad(getattr(self.s, k), n, x) for k in names], axis=1) for x in particles]))

    def get_pred_dynamics_grad(self, particles, u, t):
        n = len(self.params)
        lxi, dim = self.lxi, self.lxi + self.kf.lz
        if not any(haspar(getattr(self.s, k)) for k in ("Axi", "Az", "fxi", "fz", "Qxi", "Qz")):
            return self.base.get_pred_dynamics_grad(self, particles, u, t)
        q = numpy.zeros((len(particles), n, dim, dim))
        for i, x in enumerate(particles):
            q[i, :, :lxi, :lxi] = mfgrad(self.s.Qxi, n, x)
            q[i, :, lxi:, lxi:] = mfgrad(self.s.Qz, n, x)
        return (self._g(("Axi", "Az"), particles), self._g(("fxi", "fz"), particles),
                q if haspar(self.s.Qxi) or haspar(self.s.Qz) else None)

    def get_meas_dynamics_grad(self, particles, y, t):
        if not any(haspar(getattr(self.s, k)) for k in ("C", "h", "R")):
            return self.base.get_meas_dynamics_grad(self, particles, y, t)
        return tuple(self._g((k,), particles) for k in ("C", "h", "R"))

    def get_rb_initial_grad(self, xi0):
        n = len(self.params)
        if not (haspar(self.s.z0) or haspar(self.s.P0)):
            return self.base.get_rb_initial_grad(self, xi0)
        return ([mfgrad(self.s.z0, n, numpy.ravel(x)) for x in xi0], [mfgrad(self.s.P0, n, numpy.ravel(x)) for x in xi0])

    def get_xi_intitial_grad(self, N):
        n = len(self.params)
        if not (haspar(self.s.xi0) or haspar(self.s.Pxi0)):
            return self.base.get_xi_intitial_grad(self, N)
        return (N * (mfgrad(self.s.xi0, n),), N * (mfgrad(self.s.Pxi0, n),))

    def _setup(self, s, style, par):
        self.s, self.style = s, style
        self.params = numpy.asarray(par, dtype=float).ravel()
        p = self.params
        return dict(xi0=mf(s.xi0, p=p), z0=mf(s.z0, (0.0,), p=p), Pxi0=opt(mf(s.Pxi0, p=p)), Pz0=opt(mf(s.P0, (0.0,), p=p)), **self._consts())

    def get_rb_initial(self, xi0):
        if not self.s.xdep():
            return self.base.get_rb_initial(self, xi0)
        return rbini(self.s, xi0, self.params)

    def create_initial_estimate(self, N):
        p = self.base.create_initial_estimate(self, N)
        if self.s.xdep():
            (z, P) = self.get_rb_initial(p[:, :self.lxi])
            p[:, self.lxi:self.lxi + self.kf.lz] = z[:, :, 0]
            p[:, self.lxi + self.kf.lz:] = P.reshape((N, -1))
        return p


class Moves(object):
    """records what the library evaluates about single particles, with the
    nonlinear states of the trajectory every particle ends"""
    log = None

    def _chains(self, part, traj, anc):
        xs = []
        for i in range(len(part)):
            c = [vec(part[i][:self.lxi])]
            if traj is not None and len(traj):
                a = int(anc[i])
                for k in range(len(traj) - 1, -1, -1):
                    c.append(vec(traj[k].pa.part[a][:self.lxi]))
                    a = int(traj[k].ancestors[a]) if k else 0
            xs.append(c[::-1])
        return xs

    def _log(self, op, part, traj, anc, **kw):
        if self.log is not None:
            n = min(len(part), 3)
            e = {"op": op, "xs": self._chains(part[:n], traj, anc), "rows": mat(part[:n, self.lxi:])}
            e.update({k: v[:n] for k, v in kw.items()})
            self.log.append(e)

    def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
        before = numpy.copy(particles)
        r = super(Moves, self).measure_full(particles, traj, uvec, yvec, tvec, ancestors)
        self._log("meas", before, traj, ancestors, vals=vec(r), after=mat(particles[:, self.lxi:]))
        return r

    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        before = numpy.copy(part)
        r = super(Moves, self).logp_xnext_full(part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind)
        sampled = not isinstance(self, mlnlg.MixedNLGaussianMarginalized)
        self._log("next", before, past_trajs, pind, vals=vec(r) if sampled else [],
                  next=mat(future_trajs[0].pa.part[find][:, :self.lxi + self.kf.lz]))
        return r

    def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
        before = numpy.copy(part)
        r = super(Moves, self).logp_xnext_singlestep(part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind)
        self._log("single", before, past_trajs, pind, vals=vec(r), next=mat(future_parts[find][:, :self.lxi]))
        return r

    def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
        self._log("draw", part, ptraj, anc)
        return super(Moves, self).sample_smooth(part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind)


class HMLS(Moves, _ML, mlnlg.MixedNLGaussianSampledInitialGaussian):
    base = mlnlg.MixedNLGaussianSampledInitialGaussian

    def __init__(self, s, style="list", par=()):
        mlnlg.MixedNLGaussianSampledInitialGaussian.__init__(self, **self._setup(s, style, par))


class HMLM(Moves, _ML, mlnlg.MixedNLGaussianMarginalizedInitialGaussian):
    base = mlnlg.MixedNLGaussianMarginalizedInitialGaussian
    rec = None

    def __init__(self, s, style="list", par=()):
        mlnlg.MixedNLGaussianMarginalizedInitialGaussian.__init__(self, **self._setup(s, style, par))

    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        r = super(HMLM, self).logp_xnext_full(
            part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind)
        if self.rec is not None:
            self.rec.append((numpy.copy(part), [numpy.copy(s.pa.part[:, :self.lxi]) for s in future_trajs],
                             numpy.copy(find), int(cur_ind), numpy.copy(r)))
        return r


class HHier(Moves, HierarchicalRSBase):
    def __init__(self, s, style="list", late=False):
        self.s, self.style = s, style
        c = {k: mf(getattr(s, n)) for k, n in (("Az", "Az"), ("fz", "fz"), ("Qz", "Qz"), ("C", "C"), ("hz", "h"), ("R", "R"))
             if given(s, n)}
        first = {k: v + 0.1 for k, v in c.items()} if late else c
        super(HHier, self).__init__(len_xi=s.lxi, len_z=s.lz, **first)
        if late:
            self.set_dynamics(**c)

    def _h(self, n, particles, u, t):
        if self.s.how[n] == "const":
            return None
        return per(self.style, [mf(getattr(self.s, n), x[:self.s.lxi], u, t) for x in particles])

    def get_lin_pred_dynamics(self, particles, u, t):
        return tuple(self._h(n, particles, u, t) for n in ("Az", "fz", "Qz"))

    def get_lin_meas_dynamics(self, particles, y, t):
        return (shift(y, self.s),) + tuple(
            self._h(n, particles, None, t) for n in ("C", "h", "R"))

    def measure_nonlin(self, particles, y, t):
        return numpy.array([self.s.mn[0] * x[0] + self.s.mn[1] * x[0] * float(numpy.ravel(y)[0]) for x in particles])

    def sample_process_noise(self, particles, u, t):
        return numpy.array([numpy.random.multivariate_normal(numpy.zeros(self.lxi), mf(self.s.Qxi, x[:self.lxi], u, t)) for x in particles])

    def calc_xi_next(self, particles, u, t, noise):
        return numpy.array([mf(self.s.fxi, x[:self.lxi], u, t).ravel() for x in particles]) + noise

    def _ld(self, x, u, t):
        q = mf(self.s.Qxi, x[:self.lxi], u, t)
        return q, -0.5 * (self.lxi * numpy.log(2 * numpy.pi) + numpy.linalg.slogdet(q)[1])

    def logp_xnext_xi(self, particles, next_xi, u, t):
        r = numpy.empty(len(particles))
        for i, x in enumerate(particles):
            q, ld = self._ld(x, u, t)
            e = next_xi[i] - mf(self.s.fxi, x[:self.lxi], u, t).ravel()
            r[i] = ld - 0.5 * e.dot(numpy.linalg.solve(q, e))
        return r

    def logp_xnext_xi_max(self, particles, u, t):
        return numpy.array([self._ld(x, u, t)[1] for x in particles])

    def create_initial_estimate(self, N):
        p = numpy.empty((N, self.lxi + self.kf.lz + self.kf.lz ** 2))
        x0, P0 = mf(self.s.xi0).ravel(), mf(self.s.Pxi0)
        for i in range(N):
            p[i, :self.lxi] = numpy.random.multivariate_normal(x0, P0)
        z, P = self.get_rb_initial(p[:, :self.lxi])
        p[:, self.lxi:self.lxi + self.kf.lz] = z.reshape((N, -1))
        p[:, self.lxi + self.kf.lz:] = P.reshape((N, -1))
        return p

    def get_rb_initial(self, xi_initial):
        return rbini(self.s, xi_initial)

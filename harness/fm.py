"""A finite model with provenance.

States are 0..K-1; every law is a table that is part of the case, so that the
specification knows it exactly.  A particle is the row (x, id): the id names a
record of how the particle came to be (which particle it was propagated from,
which input and time stamp the model was given, which noise was applied and
what that noise had been drawn for ...).  The model draws its own random
numbers, so the library's use of numpy.random is not constrained in any way."""
import copy, math, random
import numpy
import pyparticleest.interfaces as itf

NEG = -math.inf


def dec(u):
    """inputs, measurements: None or an integer or an array holding one"""
    if u is None:
        return -1
    u = numpy.ravel(u)[0]
    if u is None:
        return -1
    # space that was allocated but never written may hold anything
    return int(u) if abs(u) < 1e6 else -2


def rows(rng, K, zeros=False, peak=1.0):
    """log-probability row"""
    w = [math.exp(rng.gauss(0, peak)) for _ in range(K)]
    if zeros and K > 1 and rng.random() < 0.5:
        w[rng.randrange(K)] = 0.0
    s = sum(w)
    return [math.log(v / s) if v > 0 else (-rng.uniform(750, 2500) if zeros == "tiny" else NEG) for v in w]


# representations of a set of particles: rows (state, id), deeper arrays,
# records, objects
REC = numpy.dtype([("x", float), ("id", float)])


class Obj(object):
    def __init__(self, x, i):
        self.x, self.id = x, i


def V(p):
    """the particles as rows (state, id), whatever their representation"""
    p = numpy.asarray(p)
    if p.dtype == object:
        return numpy.array([[q.x, q.id] for q in p.ravel()], dtype=float).reshape(len(p), 2)
    n = len(p)
    if p.dtype.names:
        p = numpy.ascontiguousarray(p).view(float)
    return p.reshape(n, 2)


def rep(rows, how):
    """rows (state, id) in the given representation"""
    if how == "deep":
        return rows.reshape(len(rows), 2, 1)
    if how == "rec":
        return numpy.ascontiguousarray(rows).view(REC).reshape(len(rows))
    if how == "obj":
        out = numpy.empty((len(rows),), dtype=object)
        for i, r in enumerate(rows):
            out[i] = Obj(float(r[0]), float(r[1]))
        return out
    return rows


class Tables(object):
    def __init__(self, rng, K=3, A=4, Y=3, zeros=False, peak=1.0, shift=0.0, spread=1.0, never=0.0, scale=0.0):
        self.K, self.A, self.Y = K, A, Y
        self.zeros = zeros is True
        self.p0 = rows(rng, K, False, peak)
        self.lt = [[rows(rng, K, zeros, peak) for _ in range(K)] for _ in range(A)]
        if zeros == "tiny" and K > 1:
            # states that are all but impossible to enter
            for a in range(A):
                if rng.random() < 0.5:
                    to = rng.randrange(K)
                    for r in self.lt[a]:
                        w = [0.0 if x == to or v < -700 else math.exp(v) for x, v in enumerate(r)]
                        if sum(w) > 0:
                            r[:] = [math.log(v / sum(w)) if v > 0 else -rng.uniform(750, 2500) for v in w]
        #ll[y][t%2][x]: a log-likelihood, need not be normalised
        self.ll = [[[shift + spread * rng.gauss(0, peak) for _ in range(K)] for _ in range(2)]
                   for _ in range(Y)]
        # measurements some states cannot produce
        for y in range(Y):
            for par in range(2):
                if rng.random() < never:
                    self.ll[y][par][rng.randrange(K)] = NEG
        self.ls = [[[shift + spread * rng.gauss(0, peak) for _ in range(K)] for _ in range(A)]
                   for _ in range(Y)]
        for y in range(Y):
            for a in range(A):
                if rng.random() < never:
                    self.ls[y][a][rng.randrange(K)] = NEG
        # q[y][a][x][x']: proposal of the SIR filters, never zero
        self.lq = [[[rows(rng, K, False, peak) for _ in range(K)] for _ in range(A)]
                   for _ in range(Y)]
        # py[y][t%2][x]: propose_from_y law, proportional to the likelihood
        self.lpy = []
        for y in range(Y):
            r = []
            for par in range(2):
                m = max(self.ll[y][par])
                s = sum(math.exp(v - m) for v in self.ll[y][par])
                r.append([v - m - math.log(s) for v in self.ll[y][par]])
            self.lpy.append(r)
        self.slack = 0.0
        # what the models report are densities of any scale: the logarithms of the transitions, the proposals and
        # the start are each reported with an offset
        self.off = {n: float(rng.choice([-1, -1, 0, 1]) * scale) for n in ("lt", "lq", "lps", "p0")}
        # couplings that make the model non-Markovian: x_t with x_{t+2} (g) and
        # x_{t-1} with x_t or, in single steps, with x_{t+1} (h)
        self.g = [[0.0] * K for _ in range(K)]
        self.h = [[0.0] * K for _ in range(K)]
        # the measurement of time t also depends on x_{t-1}
        self.hm = [[0.0] * K for _ in range(K)]
        # smoother proposal: psm[y+1][x_prev+1][x_next+1][x], never zero
        self.lps = [[[rows(rng, K, False, peak) for _ in range(K + 1)] for _ in range(K + 1)]
                    for _ in range(Y + 1)]

    def couple(self, rng, size=1.0):
        K = self.K
        self.g = [[rng.gauss(0, size) for _ in range(K)] for _ in range(K)]
        self.h = [[rng.gauss(0, size) for _ in range(K)] for _ in range(K)]
        return self

    def couple_meas(self, rng, size=1.0):
        self.hm = [[rng.gauss(0, size) for _ in range(self.K)] for _ in range(self.K)]
        return self

    def js(self, *names):
        from common import num

        def conv(o, b):
            return [conv(v, b) for v in o] if isinstance(o, list) else num(o + b)
        d = {"K": self.K, "A": self.A, "Y": self.Y}
        for n in names:
            d[n] = conv(getattr(self, n), self.off.get(n, 0.0))
        return d

    def ctx(self, u, t):
        return ((u + 1) + 3 * int(t)) % self.A


def own(f):
    """the model keeps what it hands out: nobody else may write to it"""
    def g(self, *a, **k):
        r = f(self, *a, **k)
        if self.keep:
            r = numpy.asarray(r, dtype=float)
            r.flags.writeable = False
        return r
    return g


class FM(itf.ParticleFiltering, itf.AuxiliaryParticleFiltering, itf.FFBSiRS,
         itf.SampleProposer, itf.FFProposeFromMeasure):
    """Markovian finite model"""

    how = "flat"

    def __init__(self, tab, seed=0):
        self.tab = tab
        self.rng = random.Random(seed)
        self.prov = []
        self.noise = []
        self.track = True
        self.keep = seed % 2 == 1
        self.coupled = any(v != 0 for r in tab.g + tab.h for v in r)
        self.hist = any(v != 0 for r in tab.hm for v in r)

    def __deepcopy__(self, memo):
        return self

    # ---- helpers
    def draw(self, lrow):
        r, acc, last = self.rng.random(), 0.0, 0
        for i, lp in enumerate(lrow):
            if lp > NEG:
                acc += math.exp(lp)
                last = i
                if r < acc:
                    return i
        return last

    def new(self, rec):
        if not self.track:
            return -1
        self.prov.append(rec)
        return len(self.prov) - 1

    def copy_ind(self, particles, new_ind=None):
        out = itf.ParticleFiltering.copy_ind(self, particles, new_ind)
        return rep(V(out), "obj") if self.how == "obj" else out

    # ---- filtering
    def create_initial_estimate(self, N):
        p = numpy.empty((N, 2))
        for i in range(N):
            p[i] = (self.draw(self.tab.p0), self.new({"k": "init", "row": i}))
        return rep(p, self.how)

    def sample_process_noise(self, particles, u, t):
        N = len(particles)
        v = numpy.empty((N, 2))
        a = self.tab.ctx(dec(u), t)
        rows = V(particles)
        for i in range(N):
            x = int(rows[i, 0])
            xn = self.draw(self.tab.lt[a][x])
            v[i] = ((xn - x) % self.tab.K, len(self.noise) if self.track else -1)
            if self.track:
                self.noise.append({"p": int(rows[i, 1]), "u": dec(u), "t": int(t)})
        return v

    def update(self, particles, u, t, noise):
        rows = V(particles)
        for i in range(len(rows)):
            x = int((rows[i, 0] + noise[i, 0]) % self.tab.K)
            if self.track:
                nr = self.noise[int(noise[i, 1])]
                idn = self.new({"k": "upd", "p": int(rows[i, 1]), "u": dec(u), "t": int(t),
                                "px": int(rows[i, 0]),
                                "v": int(noise[i, 0]), "np": nr["p"], "nu": nr["u"], "nt": nr["t"]})
            else:
                idn = -1
            if self.how == "obj":
                particles[i].x, particles[i].id = float(x), float(idn)
            elif self.how == "rec":
                particles[i] = (x, idn)
            else:
                particles[i].flat = (x, idn)
        return particles

    @own
    def measure(self, particles, y, t):
        r = self.tab.ll[dec(y)][int(t) % 2]
        return numpy.asarray([r[int(x)] for x in V(particles)[:, 0]], dtype=float)

    @own
    def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
        r = itf.ParticleFiltering.measure_full(self, particles, traj, uvec, yvec, tvec, ancestors)
        if self.hist and traj is not None and 0 < len(traj) < len(yvec):
            r = r + numpy.asarray([self.tab.hm[int(V(traj[-1].pa.part)[ancestors[i], 0])][int(V(particles)[i, 0])]
                                   for i in range(len(particles))])
        return r

    @own
    def eval_1st_stage_weights(self, particles, u, y, t):
        r = self.tab.ls[dec(y)][self.tab.ctx(dec(u), t)]
        return numpy.asarray([r[int(x)] for x in V(particles)[:, 0]], dtype=float)

    # ---- SIR
    def qsample(self, particles, u, y, t):
        q = self.tab.lq[dec(y)][self.tab.ctx(dec(u), t)]
        out = numpy.empty((len(particles), 2))
        for i, (x, idp) in enumerate(V(particles)):
            out[i] = (self.draw(q[int(x)]),
                      self.new({"k": "qs", "p": int(idp), "u": dec(u), "y": dec(y), "t": int(t)}))
        return rep(out, self.how)

    @own
    def logp_q(self, particles, next_part, u, y, t):
        q = self.tab.lq[dec(y)][self.tab.ctx(dec(u), t)]
        n = max(len(particles), len(next_part))
        xs, xn = V(particles)[:, 0], V(next_part)[:, 0]
        return numpy.asarray([q[int(xs[i % len(xs)])][int(xn[i % len(xn)])] for i in range(n)]) + self.tab.off["lq"]

    # ---- smoothing
    @own
    def logp_xnext(self, particles, next_part, u, t):
        a = self.tab.lt[self.tab.ctx(dec(u), t)]
        n = max(len(particles), len(next_part))
        xs, xn = V(particles)[:, 0], V(next_part)[:, 0]
        return numpy.asarray([a[int(xs[i % len(xs)])][int(xn[i % len(xn)])] for i in range(n)]) + self.tab.off["lt"]

    def logp_xnext_max(self, particles, u, t):
        # an upper bound; deliberately not always tight
        a = self.tab.lt[self.tab.ctx(dec(u), t)]
        return max(max(a[int(x)]) for x in V(particles)[:, 0]) + self.tab.slack + self.tab.off["lt"]

    @own
    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        r = itf.FFBSi.logp_xnext_full(self, part, past_trajs, pind, future_trajs, find,
                                      ut, yt, tt, cur_ind)
        if not self.coupled:
            return r
        r = numpy.array(r, dtype=float)
        for i in range(len(r)):
            x = int(V(part)[i, 0])
            if len(future_trajs) > 1:
                r[i] += self.tab.g[x][int(V(future_trajs[1].pa.part)[find[i], 0])]
            if past_trajs is not None and len(past_trajs) > 0:
                r[i] += self.tab.h[int(V(past_trajs[-1].pa.part)[pind[i], 0])][x]
        return r

    @own
    def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
        r = itf.FFBSi.logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find,
                                            ut, yt, tt, cur_ind)
        if not self.coupled or past_trajs is None or len(past_trajs) == 0:
            return r
        r = numpy.array(r, dtype=float)
        for i in range(len(r)):
            r[i] += self.tab.h[int(V(past_trajs[-1].pa.part)[pind[i], 0])][int(V(future_parts)[find[i], 0])]
        return r

    def logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
        r = itf.FFBSiRS.logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind)
        if self.coupled:
            r = r + max(max(q) for q in self.tab.g) + max(max(q) for q in self.tab.h)
        return r

    # ---- measurement proposals
    def propose_from_y(self, N, y, t):
        r = self.tab.lpy[dec(y)][int(t) % 2]
        out = numpy.empty((N, 2))
        for i in range(N):
            out[i] = (self.draw(r), self.new({"k": "py", "y": dec(y), "t": int(t)}))
        return rep(out, self.how)

    # ---- MHIPS, MHBP
    def _ps(self, i, ptraj, anc, future_trajs, find, yt, cur_ind):
        y = dec(yt[cur_ind])
        xp = -1 if ptraj is None else int(V(ptraj[-1].pa.part)[anc[i], 0])
        xf = -1 if future_trajs is None else int(V(future_trajs[0].pa.part)[find[i], 0])
        return self.tab.lps[y + 1][xp + 1][xf + 1]

    def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        N = len(find) if anc is None else len(anc)
        out = numpy.empty((N, 2))
        for i in range(N):
            out[i] = (self.draw(self._ps(i, ptraj, anc, future_trajs, find, yt, cur_ind)),
                      self.new({"k": "ps"}))
        return rep(out, self.how)

    @own
    def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        return numpy.asarray([self._ps(i, ptraj, anc, future_trajs, find, yt, cur_ind)
                              [int(V(prop_part)[i, 0])] for i in range(len(prop_part))]) + self.tab.off["lps"]

    @own
    def eval_logp_x0(self, particles, t):
        return numpy.asarray([self.tab.p0[int(x)] for x in V(particles)[:, 0]]) + self.tab.off["p0"]


class FMSir(FM):
    """with the copying of the interface for SIR models"""
    copy_ind = itf.SIR.copy_ind
    sample_smooth = itf.SIR.sample_smooth

From 71643f6f90860ca331b578b83ba6c910377811e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 01/42] fix: use builtin int/float, the numpy.int and
 numpy.float aliases no longer exist

---
 pyparticleest/filter.py            | 16 ++++++++--------
 pyparticleest/paramest/paramest.py |  2 +-
 pyparticleest/smoother.py          |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 9fdfae7..6a9fad4 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -355,8 +355,8 @@ class CSIRAS(SIR):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext(particles=traj[cur_ind].pa.part,
                                        next_part=self.ctraj[cur_ind + 1].pa.part[find],
@@ -613,8 +613,8 @@ class CPFAS(CPF):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -738,8 +738,8 @@ class CPFYAS(CPFAS):
         ancestors[:-1] = sample(tmp, self.N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.arange(self.N, dtype=numpy.int)
-        find = numpy.zeros((self.N,), dtype=numpy.int)
+        pind = numpy.arange(self.N, dtype=int)
+        find = numpy.zeros((self.N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -857,7 +857,7 @@ class ParticleTrajectory(object):
         else:
             self.uvec = numpy.empty(1, dtype=utype)
             self.yvec = numpy.empty(1, dtype=ytype)
-            self.tvec = numpy.empty(1, dtype=numpy.float)
+            self.tvec = numpy.empty(1, dtype=float)
             self.T = 0
         #TODO, this isn't correctly used in the code, assumed = 0
         assert(t0 == 0)
@@ -1116,7 +1116,7 @@ class ParticleApproximation(object):
         new_ind = sample(numpy.exp(tmp), N)
         new_part = model.copy_ind(self.part, new_ind)
 
-        self.w = numpy.log(numpy.ones(N, dtype=numpy.float) / N)
+        self.w = numpy.log(numpy.ones(N, dtype=float) / N)
         self.part = new_part
         self.num = N
         self.w_offset = 0.0
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 1e8f917..d4490ef 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -228,7 +228,7 @@ class ParamEstimationPSAEM(Simulator):
         if (callback is None):
             callback = default_callback
 
-        ind = numpy.asarray(range(num_part), dtype=numpy.int)
+        ind = numpy.asarray(range(num_part), dtype=int)
         i = 0;
         while (True):
             i += 1
diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 01cebda..45983ce 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -360,7 +360,7 @@ class SmoothTrajectory(object):
         else:
             raise ValueError('Unknown sampler: %s' % method)
 
-        find = numpy.arange(M, dtype=numpy.int)
+        find = numpy.arange(M, dtype=int)
 
         for cur_ind in reversed(range(len(pt) - 1)):
 
@@ -523,7 +523,7 @@ class SmoothTrajectory(object):
         ut = self.u
         yt = self.y
         tt = self.t
-        pind = numpy.arange(self.M, dtype=numpy.int)
+        pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
         pt = self.traj[:T - 1]
-- 
2.43.0


From 541ce16935bd81bb60528e5648b6fa42772281e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 02/42] fix: xrange does not exist on Python 3

---
 pyparticleest/paramest/interfaces.py | 8 ++++----
 pyparticleest/paramest/paramest.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 3430427..0a26a18 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -61,7 +61,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T - 1):
+        for i in range(T - 1):
             val = self.eval_logp_xnext(sest[i],
                                        sest[i + 1],
                                        ut[i], tt[i])
@@ -73,7 +73,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T):
+        for i in range(T):
             if (yt[i] is not None):
                 val = self.eval_logp_y(sest[i], yt[i], tt[i])
                 logp_y += numpy.sum(val)
@@ -142,7 +142,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T):
+        for t in range(T):
             if (straj.y[t] is not None):
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
@@ -157,7 +157,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T - 1):
+        for t in range(T - 1):
             (val, grad) = self.eval_logp_xnext_val_grad(sest[t],
                                                         sest[t + 1],
                                                         straj.u[t],
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index d4490ef..64bcae7 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -44,7 +44,7 @@ class ParamEstimation(Simulator):
 
         params_local = numpy.copy(param0)
         Q = -numpy.Inf
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             Q_old = Q
             self.set_params(params_local)
             if (numpy.isscalar(num_part)):
@@ -132,7 +132,7 @@ class ParamEstimationSAEM(Simulator):
         alltrajs = None
         weights = None
 
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             if (numpy.isscalar(num_part)):
@@ -331,7 +331,7 @@ class ParamEstimationPSAEM2(Simulator):
         weights = numpy.empty((max_iter * num_part,))
 
         datalen = 0
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             self.simulate(num_part, 1, filter=filter, filter_options=filter_options,
@@ -345,7 +345,7 @@ class ParamEstimationPSAEM2(Simulator):
 
             newtrajs = numpy.empty((T, N, D))
 
-            for t in xrange(T):
+            for t in range(T):
                 newtrajs[t] = tmp[t].pa.part
 
             w = 1.0
-- 
2.43.0


From 16a9bb50ea9a18f98039c352fb953ec85c2a2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 03/42] fix: NonlinearGaussian passed the standard deviation
 where the scalar Gaussian density takes the variance

---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 407a0aa..9efb939 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -200,7 +200,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         diff = yrep - g
         if (R is None):
             if (self.Rcholtri.shape[0] == 1):
-                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri)
+                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri ** 2)
             else:
                 lpy = kalman.lognormpdf_cho_vec(diff, self.Rchol)
         else:
@@ -287,7 +287,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         Q = self.calc_Q(particles, u, t)
         if (Q is None):
             if (self.Qcholtri.shape[0] == 1):
-                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri)
+                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri ** 2)
             else:
                 lpx = kalman.lognormpdf_cho_vec(diff, self.Qchol)
         else:
-- 
2.43.0


From 93ff1d5e93495b37dd5bc0e2b76c93e7ac7bfadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 04/42] fix: NonlinearGaussianInitialGaussian sampled the
 initial state with the wrong covariance

---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 9efb939..d93ad97 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -412,9 +412,9 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
          of all particles """
         particles = numpy.repeat(self.x0, N, 1).T
         if (numpy.any(self.Px0)):
-            Pchol = scipy.linalg.cho_factor(self.Px0)[0]
+            Pchol = numpy.triu(scipy.linalg.cho_factor(self.Px0)[0])
             noise = numpy.random.normal(size=(self.lxi, N))
-            particles += (Pchol.dot(noise)).T
+            particles += (Pchol.T.dot(noise)).T
         return particles
 
     def eval_logp_x0(self, particles, t):
-- 
2.43.0


From 9dbc20d9eb1b69d17f5e368c84d9507fccd7680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 05/42] fix: a missing (None) measurement made the PF and APF
 fail, skip the measurement update like the conditional filters do

---
 pyparticleest/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 6a9fad4..78ab6e8 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -87,7 +87,7 @@ class ParticleFilter(object):
                          uvec=uvec, yvec=yvec,
                          tvec=tvec, cur_ind=cur_ind,
                          pa=pa, inplace=True,)
-        if (yvec is not None):
+        if (yvec is not None and yvec[cur_ind + 1] is not None):
             pa = self.measure(traj=traj, ancestors=ancestors, pa=pa,
                               #There is no 'u' for last step yet
                               uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind + 1)
@@ -676,6 +676,7 @@ class AuxiliaryParticleFilter(ParticleFilter):
         pa = ParticleApproximation(traj[-1].pa.part, traj[-1].pa.w)
 
         resampled = False
+        l1w = numpy.zeros(pa.num)
 
         if (yvec is not None and yvec[cur_ind + 1] is not None):
             # TODO Generalize to non-Markovian
@@ -697,7 +698,7 @@ class AuxiliaryParticleFilter(ParticleFilter):
                          tvec=tvec, cur_ind=cur_ind,
                          pa=pa, inplace=True,)
 
-        if (yvec is not None):
+        if (yvec is not None and yvec[cur_ind + 1] is not None):
             pa = self.measure(traj=traj, ancestors=ancestors, pa=pa,
                               #There is no 'u' for last step yet
                               uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind + 1)
-- 
2.43.0


From 13d7fe6d37ba25acc3b6136b36ae4f5f9d694295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 06/42] fix: the pfy filter proposed from the last element of a
 pre-allocated data vector instead of the current measurement

---
 pyparticleest/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 78ab6e8..0b7dd83 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -455,7 +455,8 @@ class FFPropY(object):
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
-        partn = self.model.propose_from_y(len(pa.part), y=yvec[-1], t=tvec[-1])
+        partn = self.model.propose_from_y(len(pa.part), y=yvec[cur_ind + 1],
+                                          t=tvec[cur_ind + 1])
         find = numpy.arange(self.N, dtype=int)
 
         wn = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[ancestors],
-- 
2.43.0


From de8a2f474e228dac63c9783f84cb65abb69f6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 07/42] fix: find_best_particles returned the indices of the
 least likely particles

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 0b7dd83..b0f4397 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1142,4 +1142,4 @@ class ParticleApproximation(object):
         Returns:
          - (array-like) with len=n, representing the n most likely estimates """
         indices = numpy.argsort(self.w)
-        return indices[range(n)]
+        return self.part[indices[::-1][:n]]
-- 
2.43.0


From 0205fcb29470326d143530349005c04990b0327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 08/42] fix: the csiras filter did not keep the conditional
 trajectory at the initial time

---
 pyparticleest/filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index b0f4397..d8ec93e 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -331,6 +331,11 @@ class CSIRAS(SIR):
         self.ctraj = cond_traj
         self.model = model
 
+    def create_initial_estimate(self, N):
+        part = self.model.create_initial_estimate(N)
+        part[-1] = self.ctraj[0].pa.part[0]
+        return part
+
     def forward(self, traj, yvec, uvec, tvec, cur_ind):
         """
         Forward the estimate stored in pa from t to t+1 using the motion model
-- 
2.43.0


From 40f6f488607a8eb272192037f22bfdec02163134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 09/42] fix: the csiras filter did not rescale its weights,
 small likelihoods underflowed to 0/0

---
 pyparticleest/filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index d8ec93e..daad0b2 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -393,6 +393,7 @@ class CSIRAS(SIR):
 
 
         pa.w = yw + nw - qw
+        pa.w -= numpy.max(pa.w)
 
         pa.part[:] = pnext
         resampled = True
-- 
2.43.0


From 353315239d8c230ceff2f5a4148744e20678c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 10/42] fix: LTV smoothing used the dynamics of the first time
 step and the first particle throughout

---
 pyparticleest/models/ltv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 402b133..bb6290a 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -279,9 +279,9 @@ class LTV(FFBSi, ParticleFiltering):
             if (future_trajs is not None):
                 zn = future_trajs[0].pa.part[j, :lz].reshape((lz, 1))
                 Pn = future_trajs[0].pa.part[j, lz:lzP].reshape((lz, lz))
-                (A, f, Q) = self.get_pred_dynamics(u=ut[0], t=tt[0])
+                (A, f, Q) = self.get_pred_dynamics(u=ut[cur_ind], t=tt[cur_ind])
                 self.kf.set_dynamics(A=A, Q=Q, f_k=f)
-                (zs, Ps, Ms) = self.kf.smooth(zl[0], Pl[0], zn, Pn, self.kf.A,
+                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, self.kf.A,
                                               self.kf.f_k, self.kf.Q)
             else:
                 zs = zl[j]
-- 
2.43.0


From 5473e58d4420fda0e82c2c0cba908535a589e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 11/42] fix: the gradient of the LTV measurement density raised
 a TypeError and lacked transposes

---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index bb6290a..4f92e14 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -494,7 +494,7 @@ class LTV(FFBSi, ParticleFiltering):
             for i in range(N):
             # Calculate l3 according to (19b)
                 # Calculate l3 according to (19b)
-                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i])
+                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C_grad, h_grad)
                 tmp = scipy.linalg.cho_solve(Rcho, l3)
                 logpy += -0.5 * (ld + numpy.trace(tmp))
 
@@ -623,12 +623,12 @@ class LTV(FFBSi, ParticleFiltering):
         l3_grad = numpy.zeros((lparam, len(y), len(y)))
         if (h_grad is not None):
             for j in range(lparam):
-                tmp = -h_grad[j].dot(meas_diff)
+                tmp = -h_grad[j].dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
         if (C_grad is not None):
             for j in range(lparam):
-                tmp = -C_grad[j].dot(z).dot(meas_diff)
+                tmp = -C_grad[j].dot(z).dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
-                tmp = C_grad[j].dot(P).dot(self.kf.C)
+                tmp = C_grad[j].dot(P).dot(self.kf.C.T)
                 l3_grad[j] += tmp + tmp.T
         return (l3, l3_grad)
-- 
2.43.0


From 00ef1ef3d88fb390cc257462208c27598a75652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 12/42] fix: the gradient of the initial state density was
 averaged over the parameters

---
 pyparticleest/models/ltv.py          | 4 ++--
 pyparticleest/paramest/interfaces.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 4f92e14..306e3b7 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -342,7 +342,7 @@ class LTV(FFBSi, ParticleFiltering):
         (zl, Pl) = self.get_states(particles)
         (z0_grad, P0_grad) = self.get_initial_grad()
         if (z0_grad is None and P0_grad is None):
-            lpz0 = self.eval_logp_x0(particles, t)
+            lpz0 = numpy.sum(self.eval_logp_x0(particles, t))
         else:
             lpz0 = 0.0
             P0cho = scipy.linalg.cho_factor(self.P0)
@@ -353,7 +353,7 @@ class LTV(FFBSi, ParticleFiltering):
                 lpz0 += -0.5 * (ld + numpy.trace(tmp))
                 for j in range(len(self.params)):
                     lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[j], l1, l1_grad[j])
-        return (lpz0, lpz0_grad)
+        return (lpz0 / N, lpz0_grad / N)
 
 
 
diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 0a26a18..88e29e8 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -282,7 +282,7 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
 
             (tmp1, tmp2) = self.eval_logp_x0_val_grad(straj.traj[0].pa.part,
                                                       straj.t[0])
-            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.ravel(tmp2))
             val = -1.0 * (logp_y + logp_x0 + logp_xnext)
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
-- 
2.43.0


From 0a6b3530a1170992193a2c7e25eb78c354495eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 13/42] fix: LTV value of the log-density was an array when it
 does not depend on the parameters

---
 pyparticleest/models/ltv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 306e3b7..ffddb6c 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -410,7 +410,7 @@ class LTV(FFBSi, ParticleFiltering):
         (A_grad, f_grad, Q_grad) = self.get_pred_dynamics_grad(u=u, t=t)
         lpxn_grad = numpy.zeros(lparam)
         if (A_grad is None and f_grad is None and Q_grad is None):
-            lpxn = self.eval_logp_xnext(particles, x_next, u, t)
+            lpxn = numpy.sum(self.eval_logp_xnext(particles, x_next, u, t))
         else:
             self.kf.set_dynamics(A=A, Q=Q, f_k=f)
             lpxn = 0.0
@@ -479,7 +479,7 @@ class LTV(FFBSi, ParticleFiltering):
         (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(y=y, t=t)
         logpy_grad = numpy.zeros(lparam)
         if (C_grad is None and h_grad is None and R_grad is None):
-            logpy = self.eval_logp_y(particles, y, t)
+            logpy = numpy.sum(self.eval_logp_y(particles, y, t))
         else:
 
             self.kf.set_dynamics(C=C, R=R, h_k=h)
-- 
2.43.0


From e88d2b536960e3ef523de0e9de58ebbf1965e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 14/42] fix: the MLNLG models failed for more than one
 nonlinear state

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 8138cb7..36ddffc 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -180,7 +180,7 @@ class MixedNLGaussianSampled(RBPSBase):
         # This is probably not so nice performance-wise, but will
         # work initially to profile where the bottlenecks are.
         for i in range(N):
-            xi_next[i] = Axi[i].dot(zl[i]) + fxi[i]
+            xi_next[i] = (Axi[i].dot(zl[i]) + fxi[i]).ravel()
         return xi_next
 
     def meas_xi_next(self, particles, xi_next, u, t):
@@ -264,7 +264,7 @@ class MixedNLGaussianSampled(RBPSBase):
             # TODO linalg.solve instead?
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
-            fcond.append(fz[i] + tmp.dot(xi_next[i] - fxi[i]))
+            fcond.append(fz[i] + tmp.dot(xi_next[i].reshape((-1, 1)) - fxi[i]))
             Qcond.append(Qz[i])
 
         return (Acond, fcond, Qcond)
-- 
2.43.0


From ef730cacc5661404231db595d96b59d4c36646f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 15/42] fix: the MLNLG conditional dynamics ignored the part of
 the noise explained by the cross-covariance

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 36ddffc..763244a 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -265,7 +265,7 @@ class MixedNLGaussianSampled(RBPSBase):
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
             fcond.append(fz[i] + tmp.dot(xi_next[i].reshape((-1, 1)) - fxi[i]))
-            Qcond.append(Qz[i])
+            Qcond.append(Qz[i] - tmp.dot(Qxiz[i]))
 
         return (Acond, fcond, Qcond)
 
-- 
2.43.0


From fdf1ba8f7b15a68990755e5c513a65c5e40545f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 16/42] fix: the marginalized MLNLG smoother failed for more
 than one nonlinear state

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 763244a..01affe0 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1211,7 +1211,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             m = LHnl[j] - OHnl[j].dot(fz[j])
             Mt = F.T.dot(OHnl[j]).dot(F) + numpy.eye(lz)
             Tau_t = 0.0
-            xidiff = xinl[j] - fxi[j]
+            xidiff = xinl[j].reshape((-1, 1)) - fxi[j]
             Tau_t += xidiff.T.dot(numpy.linalg.solve(Qxi[j], xidiff))
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
-- 
2.43.0


From 57e72f074adcb04e4e4db389a946eb54d8d8cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 17/42] fix: the MLNLG measurement gradient discarded the
 supplied gradient of C

---
 pyparticleest/models/mlnlg.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 01affe0..b43103d 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -936,7 +936,6 @@ class MixedNLGaussianSampled(RBPSBase):
             l3[i] = meas_diff.dot(meas_diff.T) + Cl[i].dot(Pl[i]).dot(Cl[i].T)
 
             if (C_grad is not None):
-                C_grad = N * (numpy.zeros((len(self.params), len(y), self.kf.lz)),)
                 for j in range(len(self.params)):
                     tmp2 = C_grad[i][j].dot(Pl[i]).dot(Cl[i].T)
                     tmp = C_grad[i][j].dot(zl[i]).dot(meas_diff.T)
-- 
2.43.0


From 99d2f3fd70ddb6e42b91b2691f672d8873807968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 18/42] fix: undefined variable in the MLNLG measurement
 gradient with particle dependent R

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index b43103d..670e43d 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1022,7 +1022,7 @@ class MixedNLGaussianSampled(RBPSBase):
                                                                       l3[i], l3_grad[i][j])
             else:
                 for i in range(N):
-                    Rzcho = scipy.linalg.cho_factor(Rzcho, check_finite=False)
+                    Rzcho = scipy.linalg.cho_factor(Rz[i], check_finite=False)
                     # (_tmp, ld) = numpy.linalg.slogdet(Rz[i])
                     ld = numpy.sum(numpy.log(numpy.diagonal(Rzcho[0]))) * 2
                     tmp = scipy.linalg.cho_solve(Rzcho, l3[i])
-- 
2.43.0


From 55c03aee7680dfa134898cde7284d1392cf5a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 19/42] fix: value and gradient of the MLNLG initial density
 disagreed, and failed for several parameters

---
 pyparticleest/models/mlnlg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 670e43d..95a3151 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -761,7 +761,7 @@ class MixedNLGaussianSampled(RBPSBase):
         (xil, zl, Pl) = self.get_states(particles)
         (z0, P0) = self.get_rb_initial(xil)
         (z0_grad, P0_grad) = self.get_rb_initial_grad(xil)
-        lpxi0 = self.eval_logp_xi0(xil)
+        lpxi0 = numpy.sum(self.eval_logp_xi0(xil))
         lpxi0_grad = self.eval_logp_xi0_grad(xil)
         lpz0 = 0.0
         for i in range(N):
@@ -1113,8 +1113,8 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
          P is a list of element-wise gradients for the covariance matrices
         """
         N = len(xi0)
-        return (N * (numpy.zeros((N, len(self.params), self.kf.lz, 1)),),
-                N * (numpy.zeros((N, len(self.params), self.kf.lz, self.kf.lz)),))
+        return (N * (numpy.zeros((len(self.params), self.kf.lz, 1)),),
+                N * (numpy.zeros((len(self.params), self.kf.lz, self.kf.lz)),))
 
     def eval_logp_xi0(self, xil):
         """
-- 
2.43.0


From 7d322210b97757f7fee2f1cdcacb60a9ab90ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 20/42] fix: the marginalized MLNLG smoother used a missing
 measurement, and the raw instead of the preprocessed one

---
 pyparticleest/models/mlnlg.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 95a3151..3072822 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1329,7 +1329,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         LHind = lxi + OHlen
         res = numpy.zeros((M, lxi + OHlen + LHlen))
 
-        (_, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
+        (y, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
 
         res[:, :lxi] = part[:, :lxi]
 
@@ -1339,11 +1339,10 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
                 res[j, LHind:] = Lambda[j].ravel()
 
         for j in range(M):
-            if (Cz is not None and Cz[j] is not None):
+            if (yt[cur_ind] is not None and Cz[j] is not None):
                 tmp = numpy.linalg.solve(Rz[j], Cz[j])
                 res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
-            if (yt is not None and yt[cur_ind] is not None):
-                res[j, LHind:] += (tmp.T.dot(numpy.asarray(yt[cur_ind]).reshape((-1, 1)) -
+                res[j, LHind:] += (tmp.T.dot(numpy.asarray(y).reshape((-1, 1)) -
                                              hz[j])).ravel()
 
         return res
-- 
2.43.0


From 49e56d91deb5eeda976c973ba81951a93dd807f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 21/42] fix: the MLNLG model could not be created with the
 default initial covariance

---
 pyparticleest/models/mlnlg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 3072822..d636f30 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1039,6 +1039,7 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
 
                 # No uncertainty in initial state
         self.xi0 = numpy.copy(xi0).reshape((-1, 1))
+        self.z0 = numpy.copy(z0).reshape((-1, 1))
         if (Pxi0 is None):
             self.Pxi0 = numpy.zeros((len(self.xi0), len(self.xi0)))
         else:
@@ -1047,8 +1048,6 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
             self.Pz0 = numpy.zeros((len(self.z0), len(self.z0)))
         else:
             self.Pz0 = numpy.copy((Pz0))
-        self.z0 = numpy.copy(z0).reshape((-1, 1))
-        self.Pz0 = numpy.copy(Pz0)
         super(MixedNLGaussianSampledInitialGaussian, self).__init__(lxi=len(self.xi0),
                                                              lz=len(self.z0),
                                                              **kwargs)
-- 
2.43.0


From 291c4639643aa2d78194a509ff64a2a66aa7bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 22/42] fix: the MLNLG dynamics gradient failed for particle
 dependent dynamics

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index d636f30..bda0141 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -812,7 +812,7 @@ class MixedNLGaussianSampled(RBPSBase):
                               perr, f_grad, tmp1)
         if (A_grad is not None):
             mlnlg_compute.compute_l2_grad_A(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
-                              perr, self.lxi, Pn, zl, Pl, M, A, A_grad, tmp1, tmp2)
+                              perr, self.lxi, Pn, zl, Pl, M, numpy.asarray(A), A_grad, tmp1, tmp2)
         return (l2, diff_l2)
 
     def eval_logp_xnext(self, particles, x_next, u, t):
-- 
2.43.0


From 49db5619f2c0ace7c9e88223066db8fd1fb1a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 23/42] fix: the hierarchical model used the first particle for
 every smoothed trajectory

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 589436b..c00e9e4 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -160,7 +160,7 @@ class HierarchicalBase(RBPSBase):
         res = numpy.zeros((M, self.lxi + self.kf.lz + 2 * self.kf.lz ** 2))
         for j in range(M):
             partj = numpy.copy(part[j:j + 1])
-            (xil, zl, Pl) = self.get_states(part,)
+            (xil, zl, Pl) = self.get_states(partj)
             if (future_trajs is not None):
                 (A, f, Q, _, _, _) = self.get_lin_pred_dynamics_int(partj,
                                                                     ut[cur_ind],
-- 
2.43.0


From e0b59a049f17e7377424806e2817d12754e3acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 24/42] fix: the hierarchical model bounded the transition
 density with the wrong normalisation

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index c00e9e4..3b731bb 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -259,7 +259,7 @@ class HierarchicalRSBase(HierarchicalBase, FFBSiRS):
         for i in range(N):
             # Predict z_{t+1}
             Pn = Az[i].dot(Pl[i]).dot(Az[i].T) + Qz[i]
-            lpz[i] = -0.5 * nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1]
+            lpz[i] = -0.5 * (nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1])
         lpmax = numpy.max(lpxi + lpz)
         return lpmax
 
-- 
2.43.0


From 4d984544b25609cd7cf52716190019650c32d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 25/42] fix: SAEM failed when combining the trajectories of
 several iterations

---
 pyparticleest/paramest/paramest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 64bcae7..c212f3c 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -155,7 +155,7 @@ class ParamEstimationSAEM(Simulator):
                           meas_first=meas_first)
 
             w = numpy.ones((numt,)) / numt
-            newtrajs = numpy.copy(self.straj.traj)
+            newtrajs = self.get_smoothed_estimates()
             alpha = alpha_gen(i)
             if (weights is None):
                 weights = w
-- 
2.43.0


From 6fcf6e79cd3c3ccf1299a5e7c81651d2342d738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 26/42] fix: Rao-Blackwellized PSAEM passed uninitialised
 trajectories to the maximization

---
 pyparticleest/paramest/paramest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index c212f3c..10c5790 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -245,6 +245,8 @@ class ParamEstimationPSAEM(Simulator):
                 T = len(tmp)
                 D = tmp[0].pa.part.shape[1]
                 newtrajs = numpy.empty((T, N, D))
+                for t in range(T):
+                    newtrajs[t] = tmp[t].pa.part
 
             else:
                 newtrajs = self.get_smoothed_estimates()
-- 
2.43.0


From dfec4888127d0ea57759da9f415ae7aeb2e78faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 27/42] fix: drawing a particle underflowed to 0/0 for small
 unnormalised weights

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index daad0b2..941bb9d 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1136,7 +1136,7 @@ class ParticleApproximation(object):
 
         Returns:
          (array-like) sampled particle"""
-        return self.part[sample(numpy.exp(self.w), 1)[0]]
+        return self.part[sample(numpy.exp(self.w - numpy.max(self.w)), 1)[0]]
 
     def find_best_particles(self, n=1):
         """
-- 
2.43.0


From 47e1b97a69dab23fc4d832456e62300730d3a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 28/42] fix: the reduced MHIPS smoother failed when the last
 measurement is missing

---
 pyparticleest/smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 45983ce..b18ad47 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -773,7 +773,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
              (logp_next_prop - logp_next_curr) +
              (logp_q_curr - logp_q_prop))
 
-    test = numpy.log(numpy.random.uniform(size=len(ratio)))
+    test = numpy.log(numpy.random.uniform(size=len(part)))
     acc = test < ratio
     curparty[acc] = xpropy[acc]
     return (curparty, acc)
-- 
2.43.0


From 6d4272741df988bc8e8073f43d42d5c5155e657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 29/42] fix: mhbp proposed the ancestors of each trajectory
 from a fixed stratum of the particles

The systematic sampler returns ordered indices, so with several trajectories
each one only ever saw proposals from its own part of the weights. Permute
them, as the other MCMC and rejection samplers do.
---
 pyparticleest/smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index b18ad47..799e9ed 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -473,7 +473,7 @@ class SmoothTrajectory(object):
 
                 if (t > 0):
                     # Propose new ancestors
-                    panc = pf.sample(tmp, M)
+                    panc = numpy.random.permutation(pf.sample(tmp, M))
 
 
                 (pnew, acc) = mc_step(model=self.model,
-- 
2.43.0


From 97588eaa115f5bceb108cd848c9420a95602f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 30/42] fix: a missing (None) first measurement was passed on
 to the model

---
 pyparticleest/filter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 941bb9d..dba0780 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -990,10 +990,12 @@ class ParticleTrajectory(object):
             self.yvec[self.ind] = y
             self.tvec[self.ind] = self.ind
 
-            self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
-                            pa=self.traj[-1].pa, uvec=self.uvec,
-                            yvec=self.yvec, tvec=self.tvec,
-                            cur_ind=self.ind, inplace=True)
+            # A missing measurement carries no information
+            if (y is not None):
+                self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
+                                pa=self.traj[-1].pa, uvec=self.uvec,
+                                yvec=self.yvec, tvec=self.tvec,
+                                cur_ind=self.ind, inplace=True)
 
     def __len__(self):
         return len(self.traj)
-- 
2.43.0


From b97c0a18af5a1bc89971119ccd7dfe00a64c9234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 31/42] fix: the marginalized MLNLG smoother added a term of
 the predicted quadratic form that has to be subtracted

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index bda0141..2776e8c 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1214,7 +1214,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
             tmp = F.T.dot(m)
-            Tau_t += tmp.T.dot(numpy.linalg.solve(Mt, tmp))
+            Tau_t -= tmp.T.dot(numpy.linalg.solve(Mt, tmp))
 
             tmp = F.dot(numpy.linalg.solve(Mt, F.T))
 
-- 
2.43.0


From 738060a041ac022ab5475f447c7df3206f59a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 32/42] fix: a measurement at the current step handed the model
 that very step as its past

---
 pyparticleest/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index dba0780..ebef07f 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -992,7 +992,8 @@ class ParticleTrajectory(object):
 
             # A missing measurement carries no information
             if (y is not None):
-                self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
+                # The history ends with the step just before the current one
+                self.pf.measure(traj=self.traj[:-1], ancestors=self.traj[-1].ancestors,
                                 pa=self.traj[-1].pa, uvec=self.uvec,
                                 yvec=self.yvec, tvec=self.tvec,
                                 cur_ind=self.ind, inplace=True)
-- 
2.43.0


From 7612f39dcad9830bbb43882447312b0442f3a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 33/42] fix: a first stage weight of -Inf made the weights nan
 when the auxiliary filter did not resample

---
 pyparticleest/filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index ebef07f..4771ec6 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -699,6 +699,10 @@ class AuxiliaryParticleFilter(ParticleFilter):
             l1w = l1w[ancestors]
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
+            # Nothing was drawn from the first stage weights, drop them (they
+            # can not be subtracted afterwards where they are -Inf)
+            pa.w = numpy.copy(traj[-1].pa.w)
+            l1w = numpy.zeros(pa.num)
 
         pa = self.update(traj=traj, ancestors=ancestors,
                          uvec=uvec, yvec=yvec,
-- 
2.43.0


From 40473ba0f7b3a1f1cd50a80aa20904d52950114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:38 +0000
Subject: [PATCH 34/42] fix: the ancestor and mhbp smoothers ran the model's
 post processing twice

---
 pyparticleest/smoother.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 799e9ed..ceddd26 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -263,10 +263,6 @@ class SmoothTrajectory(object):
         """
         self.traj = self.perform_ancestors_int(pt, M)
 
-        if hasattr(self.model, 'post_smoothing'):
-            # Do e.g. constrained smoothing for RBPS models
-            self.traj = self.model.post_smoothing(self)
-
     def calculate_ancestors(self, pt, ind):
         T = len(pt)
         M = len(ind)
@@ -503,10 +499,6 @@ class SmoothTrajectory(object):
 
         self.traj = straj
 
-        if hasattr(self.model, 'post_smoothing'):
-            # Do e.g. constrained smoothing for RBPS models
-            self.traj = self.model.post_smoothing(self)
-
 
     def perform_mhips_pass(self, options, reduced=False):
         """
-- 
2.43.0


From edf89b2c68fe145afe9362813206576bd82f5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:05 +0000
Subject: [PATCH 35/42] fix: filter the last step of a smoothed trajectory with
 its own measurement

pre_mhips_pass took the last entries of the measurement and time vectors,
which belong to later steps when the trajectory has room for more.
---
 pyparticleest/models/rbpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/rbpf.py b/pyparticleest/models/rbpf.py
index 81c6612..9985861 100644
--- a/pyparticleest/models/rbpf.py
+++ b/pyparticleest/models/rbpf.py
@@ -418,8 +418,8 @@ class RBPSBase(RBPFBase, interfaces.FFBSiRS):
             xin = st.traj[i + 1].pa.part[:, :self.lxi].reshape((M, self.lxi, 1))
             self.cond_predict(particles, xin, u=st.u[i], t=st.t[i])
 
-        if (st.y[-1] is not None):
-            self.measure(particles, y=st.y[-1], t=st.t[-1])
+        if (st.y[T - 1] is not None):
+            self.measure(particles, y=st.y[T - 1], t=st.t[T - 1])
 
         straj[-1] = TrajectoryStep(ParticleApproximation(particles),
                                    st.traj[-1].ancestors)
-- 
2.43.0


From 68d33775a2135e5d4a527889ec12924a808c187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:26 +0000
Subject: [PATCH 36/42] fix: leave arrays that a model returns alone

The filters and the mcmc smoother wrote their intermediate results into the
arrays returned by the model, corrupting those of a model that keeps them.
---
 pyparticleest/filter.py   | 10 +++++-----
 pyparticleest/smoother.py |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 4771ec6..5b233a6 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -159,7 +159,7 @@ class ParticleFilter(object):
         # Try to keep weights from going to -Inf
         m = numpy.max(new_weights)
         pa.w_offset += m
-        new_weights -= m
+        new_weights = new_weights - m
 
         pa.w = pa.w + new_weights
 
@@ -247,7 +247,7 @@ class SIR(object):
         # Try to keep weights from going to -Inf
         m = numpy.max(new_weights)
         pa.w_offset += m
-        new_weights -= m
+        new_weights = new_weights - m
 
         pa.w = pa.w + new_weights
 
@@ -314,7 +314,7 @@ class SIR(object):
         # Try to keep weights from going to -Inf
         m = numpy.max(new_weights)
         pa.w_offset += m
-        new_weights -= m
+        new_weights = new_weights - m
 
         pa.w = pa.w + new_weights
 
@@ -475,7 +475,7 @@ class FFPropY(object):
         # Try to keep weights from going to -Inf
         m = numpy.max(wn)
         pa.w_offset += m
-        wn -= m
+        wn = wn - m
 
         pa.w = pa.w + wn
 
@@ -783,7 +783,7 @@ class CPFYAS(CPFAS):
                                               ut=uvec, yt=yvec, tt=tvec,
                                               cur_ind=cur_ind)
         m = numpy.max(wn)
-        wn -= m
+        wn = wn - m
         pa = ParticleApproximation(partn, wn)
         pa.w_offset += m
         return (pa, resampled, ancestors)
diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index ceddd26..49a585d 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -176,9 +176,9 @@ def bsi_mcmc(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, R,
     weights = numpy.exp(weights)
     weights /= numpy.sum(weights)
 
-    pcurr = model.logp_xnext_full(pa.part[ind], ptraj, pind[ind],
-                                  future_trajs, find,
-                                  ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
+    pcurr = numpy.copy(model.logp_xnext_full(pa.part[ind], ptraj, pind[ind],
+                                             future_trajs, find,
+                                             ut=ut, yt=yt, tt=tt, cur_ind=cur_ind))
     for _j in range(R):
         propind = numpy.random.permutation(pf.sample(weights, M))
         pprop = model.logp_xnext_full(pa.part[propind], ptraj, pind[propind],
-- 
2.43.0


From caf67ee42c4ad3756ee5adb9f3d1ffc800d83a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:14 +0000
Subject: [PATCH 37/42] fix: let the Instrumenter wrap models without smoothing
 hooks and show its counts

It always had pre_mhips_pass and post_smoothing, so that smoothing a wrapped
model without them failed, lacked the model methods it does not count, and the
documented cnt_ members did not exist.
---
 pyparticleest/utils/intrument.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index 6afe3f3..2c27e2f 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -61,12 +61,20 @@ class Instrumenter(object):
         self.model = model
         self.oc = OpCount()
 
+    def __getattr__(self, name):
+        """ The counts, and everything of the model that isn't counted """
+        if (name in ('model', 'oc')):
+            raise AttributeError(name)
+        if (name.startswith('cnt_')):
+            return getattr(self.oc, name)
+        return getattr(self.model, name)
+
     def print_statistics(self):
         print("Modelclass : %s" % type(self.model))
         print("cnt_sample: %d" % self.cnt_sample)
         print("cnt_update: %d" % self.cnt_update)
         print("cnt_measure: %d" % self.cnt_measure)
-        print("cnt_pdfxn: %d" % self.cnt_pdfxn + self.cnt_pdfxn_full)
+        print("cnt_pdfxn: %d" % (self.cnt_pdfxn + self.cnt_pdfxn_full))
         print("cnt_pdfxnmax: %d" % self.cnt_pdfxnmax)
         print("cnt_propsmooth: %d" % self.cnt_propsmooth)
         print("cnt_pdfsmooth: %d" % self.cnt_pdfsmooth)
@@ -147,12 +155,6 @@ class Instrumenter(object):
         self.oc.cnt_eval1st += len(particles)
         return self.model.eval_1st_stage_weights(particles, u, y, t)
 
-    def pre_mhips_pass(self, st):
-        return self.model.pre_mhips_pass(st)
-
-    def post_smoothing(self, st):
-        return self.model.post_smoothing(st)
-
     def eval_logp_x0(self, particles, t):
         self.oc.cnt_eval_logp_x0 += len(particles)
         return self.model.eval_logp_x0(particles, t)
-- 
2.43.0


From d8756c34c7f8ff370aa4bbff13c6e781d0f6c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:18 +0000
Subject: [PATCH 38/42] fix: GradientTest averaged the initial state gradient
 over the parameters

---
 pyparticleest/paramest/gradienttest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/gradienttest.py b/pyparticleest/paramest/gradienttest.py
index ba96f4d..dc58479 100644
--- a/pyparticleest/paramest/gradienttest.py
+++ b/pyparticleest/paramest/gradienttest.py
@@ -62,7 +62,7 @@ class GradientTest(ParamEstimation):
                                                                                      self.straj.t)
                 (tmp1, tmp2) = self.model.eval_logp_x0_val_grad(self.straj.traj[0].pa.part,
                                                                 self.straj.t[0])
-                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.ravel(tmp2))
 
                 grad_logpy[k] = grad_logp_y
                 grad_logpxn[k] = grad_logp_xnext
-- 
2.43.0


From bbaa217ae70ad3488e34147305b281c8fa5995f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:04 +0000
Subject: [PATCH 39/42] fix: copy particles with the model's copy_ind
 everywhere before they are updated

---
 pyparticleest/filter.py   | 13 ++++++++-----
 pyparticleest/smoother.py |  8 ++++----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 5b233a6..fd9657a 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -72,7 +72,8 @@ class ParticleFilter(object):
          - resampled (bool): were the particles resampled
          - ancestors (array-like): anecstral indices for particles at time t+1
         """
-        pa = ParticleApproximation(traj[-1].pa.part, traj[-1].pa.w)
+        pa = ParticleApproximation(self.model.copy_ind(traj[-1].pa.part),
+                                   traj[-1].pa.w)
 
         resampled = False
         if (self.res > 0 and pa.calc_Neff() < self.res * pa.num):
@@ -219,7 +220,8 @@ class SIR(object):
          - resampled (bool): were the particles resampled
          - ancestors (array-like): anecstral indices for particles at time t+1
         """
-        pa = ParticleApproximation(traj[-1].pa.part, traj[-1].pa.w)
+        pa = ParticleApproximation(self.model.copy_ind(traj[-1].pa.part),
+                                   traj[-1].pa.w)
 
         resampled = False
         if (self.res > 0 and pa.calc_Neff() < self.res * pa.num):
@@ -680,7 +682,8 @@ class AuxiliaryParticleFilter(ParticleFilter):
          - ancestors (array-like): anecstral indices for particles at time t+1
         """
 
-        pa = ParticleApproximation(traj[-1].pa.part, traj[-1].pa.w)
+        pa = ParticleApproximation(self.model.copy_ind(traj[-1].pa.part),
+                                   traj[-1].pa.w)
 
         resampled = False
         l1w = numpy.zeros(pa.num)
@@ -771,7 +774,7 @@ class CPFYAS(CPFAS):
         resampled = True
 
         partn = self.model.propose_from_y(self.N, y=yvec[cur_ind + 1], t=tvec[cur_ind + 1])
-        partn[-1] = self.ctraj[cur_ind + 1].pa.part
+        partn[-1] = self.ctraj[cur_ind + 1].pa.part[0]
 
         find = numpy.asarray(range(self.N))
 
@@ -810,7 +813,7 @@ class CPFYAS(CPFAS):
 
         assert(not inplace)
         part = self.model.propose_from_y(self.N, y=yvec[cur_ind], t=tvec[cur_ind])
-        part[-1] = self.ctraj[cur_ind].pa.part
+        part[-1] = self.ctraj[cur_ind].pa.part[0]
         pa = ParticleApproximation(part)
         return pa
 
diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 49a585d..172e1eb 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -642,7 +642,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
     # cur_ind, we therefore need to recomputed the sufficient statistics
     # (for Rao-Blackwellized models)
     if (not ptraj is None):
-        oldpart = numpy.copy(ptraj[-1].pa.part[pind_curr])
+        oldpart = model.copy_ind(ptraj[-1].pa.part, pind_curr)
         part = model.cond_predict_single_step(part=oldpart, past_trajs=ptraj[:-1],
                                               pind=ptraj[-1].ancestors[pind_curr],
                                               future_parts=part, find=numpy.arange(len(pind_curr)),
@@ -657,7 +657,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
                                                     ut=ut[:cur_ind],
                                                     tt=tt[:cur_ind])
 
-            xprop = numpy.copy(ptraj[-1].pa.part[pind_prop])
+            xprop = model.copy_ind(ptraj[-1].pa.part, pind_prop)
 
             model.update_full(particles=xprop, traj=ptraj,
                               uvec=ut[:cur_ind], yvec=yt[:cur_ind],
@@ -721,8 +721,8 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
             logp_prev_prop = model.eval_logp_x0(xprop, tt[0])
             logp_prev_curr = model.eval_logp_x0(part, tt[0])
 
-    xpropy = numpy.copy(xprop)
-    curparty = numpy.copy(part)
+    xpropy = model.copy_ind(xprop)
+    curparty = model.copy_ind(part)
     if (yt[cur_ind] is not None):
         logp_y_prop = model.measure_full(particles=xpropy, traj=ptraj,
                                          uvec=ut[:cur_ind + 1], yvec=yt[:(cur_ind + 1)],
-- 
2.43.0


From 45de3bde1aac891b1a207911b3acfcf172527e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:21 +0000
Subject: [PATCH 40/42] fix: evaluate log p(y) on the given measurement when no
 gradients are defined

get_meas_dynamics may transform the measurement; eval_logp_y_val_grad passed
the transformed one on to eval_logp_y, which transformed it again.
---
 pyparticleest/models/ltv.py   | 3 ++-
 pyparticleest/models/mlnlg.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index ffddb6c..d35ccbf 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -475,11 +475,12 @@ class LTV(FFBSi, ParticleFiltering):
         """
         N = len(particles)
         lparam = len(self.params)
+        y_orig = y
         (y, C, h, R) = self.get_meas_dynamics(y=y, t=t)
         (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(y=y, t=t)
         logpy_grad = numpy.zeros(lparam)
         if (C_grad is None and h_grad is None and R_grad is None):
-            logpy = numpy.sum(self.eval_logp_y(particles, y, t))
+            logpy = numpy.sum(self.eval_logp_y(particles, y_orig, t))
         else:
 
             self.kf.set_dynamics(C=C, R=R, h_k=h)
diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 2776e8c..a947c1c 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -998,10 +998,11 @@ class MixedNLGaussianSampled(RBPSBase):
         N = len(particles)
         logpy = 0.0
         lpy_grad = numpy.zeros(self.params.shape)
+        y_orig = y
         (y, Cz, hz, Rz, _, _, Rz_identical) = self.get_meas_dynamics_int(particles, y, t)
         (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(particles=particles, y=y, t=t)
         if (C_grad is None and h_grad is None and R_grad is None):
-            logpy = self.eval_logp_y(particles, y, t)
+            logpy = self.eval_logp_y(particles, y_orig, t)
         else:
             if (R_grad is None):
                 R_grad = N * (numpy.zeros((len(self.params), len(y), len(y))),)
-- 
2.43.0


From 2df5ceb88bf54fd94220bcc92772978c6c6c7686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:30 +0000
Subject: [PATCH 41/42] fix: particle SAEM leaves the caller's filter options
 alone

---
 pyparticleest/paramest/paramest.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 10c5790..2ee00bf 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -217,6 +217,9 @@ class ParamEstimationPSAEM(Simulator):
            implements ParamEstInterface_GradientSearch)
         """
 
+        # The conditional trajectory is replaced in every iteration
+        filter_options = dict(filter_options or {})
+
         params_local = numpy.copy(param0)
         alltrajs = None
         weights = None
@@ -328,6 +331,9 @@ class ParamEstimationPSAEM2(Simulator):
            implements ParamEstInterface_GradientSearch)
         """
 
+        # The conditional trajectory is replaced in every iteration
+        filter_options = dict(filter_options or {})
+
         params_local = numpy.copy(param0)
         alltrajs = None
         weights = numpy.empty((max_iter * num_part,))
-- 
2.43.0


From 5ebe391ef713a5296f8a1777edf7d5bd6aa54509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:17 +0000
Subject: [PATCH 42/42] fix: measurement equations of Rao-Blackwellized models
 without an offset

---
 pyparticleest/models/hierarchial.py | 5 ++++-
 pyparticleest/models/rbpf.py        | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 3b731bb..42d054e 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -53,7 +53,10 @@ class HierarchicalBase(RBPSBase):
         if (Cz is None):
             Cz = numpy.repeat(self.kf.C[numpy.newaxis, :, :], N, axis=0)
         if (hz is None):
-            hz = numpy.repeat(self.kf.h_k[numpy.newaxis, :, :], N, axis=0)
+            if (self.kf.h_k is None):
+                hz = N * (None,)
+            else:
+                hz = numpy.repeat(self.kf.h_k[numpy.newaxis, :, :], N, axis=0)
         if (Rz is None):
             Rz = numpy.repeat(self.kf.R[numpy.newaxis, :, :], N, axis=0)
 
diff --git a/pyparticleest/models/rbpf.py b/pyparticleest/models/rbpf.py
index 9985861..893a31a 100644
--- a/pyparticleest/models/rbpf.py
+++ b/pyparticleest/models/rbpf.py
@@ -223,12 +223,15 @@ class RBPFBase(interfaces.ParticleFiltering):
                 Cz = N * (self.kf.C,)
             # Cz=N*(self.kf.C,)
             Cz_identical = True
-        if (hz is None):
-            hz = N * (self.kf.h_k,)
-            hz_identical = True
         if (Rz is None):
             Rz = N * (self.kf.R,)
             Rz_identical = True
+        if (hz is None):
+            if (self.kf.h_k is None):
+                hz = N * (numpy.zeros((len(Rz[0]), 1)),)
+            else:
+                hz = N * (self.kf.h_k,)
+            hz_identical = True
         return (y, Cz, hz, Rz, Cz_identical, hz_identical, Rz_identical)
 
 # This is not implemented
-- 
2.43.0


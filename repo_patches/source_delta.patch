From 8b80631ca9044bbf67e53c18b7f1b5b58839432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 01/43] fix: KalmanFilter.time_update passes the current state
 to predict_full

---
 pyparticleest/utils/ckalman.pyx | 2 +-
 pyparticleest/utils/kalman.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/utils/ckalman.pyx b/pyparticleest/utils/ckalman.pyx
index d29558e..232ea83 100644
--- a/pyparticleest/utils/ckalman.pyx
+++ b/pyparticleest/utils/ckalman.pyx
@@ -99,7 +99,7 @@ class KalmanFilter(object):
         """
         
         # Calculate next state
-        (self.z, self.P) = self.predict_full(A=self.A, f_k=self.f_k, Q=self.Q)  
+        (self.z, self.P) = self.predict_full(self.z, self.P, A=self.A, f_k=self.f_k, Q=self.Q)  
         
     def predict(self, z, P):
         """ 
diff --git a/pyparticleest/utils/kalman.py b/pyparticleest/utils/kalman.py
index 129eb63..c081095 100644
--- a/pyparticleest/utils/kalman.py
+++ b/pyparticleest/utils/kalman.py
@@ -99,7 +99,7 @@ class KalmanFilter(object):
         """
 
         # Calculate next state
-        (self.z, self.P) = self.predict_full(A=self.A, f_k=self.f_k, Q=self.Q)
+        (self.z, self.P) = self.predict_full(self.z, self.P, A=self.A, f_k=self.f_k, Q=self.Q)
 
     def predict(self, z, P):
         """
-- 
2.43.0


From 340b4ccddfec8408f51c301b4e6a956cefae90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 02/43] fix: scalar densities of NonlinearGaussian use the
 variance, not its square root

---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 407a0aa..9efb939 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -200,7 +200,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         diff = yrep - g
         if (R is None):
             if (self.Rcholtri.shape[0] == 1):
-                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri)
+                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri ** 2)
             else:
                 lpy = kalman.lognormpdf_cho_vec(diff, self.Rchol)
         else:
@@ -287,7 +287,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         Q = self.calc_Q(particles, u, t)
         if (Q is None):
             if (self.Qcholtri.shape[0] == 1):
-                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri)
+                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri ** 2)
             else:
                 lpx = kalman.lognormpdf_cho_vec(diff, self.Qchol)
         else:
-- 
2.43.0


From ef32d4135991b4ec741361a07c75bcb4c43a69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 03/43] fix: initial particles of
 NonlinearGaussianInitialGaussian have covariance Px0

---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 9efb939..d93ad97 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -412,9 +412,9 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
          of all particles """
         particles = numpy.repeat(self.x0, N, 1).T
         if (numpy.any(self.Px0)):
-            Pchol = scipy.linalg.cho_factor(self.Px0)[0]
+            Pchol = numpy.triu(scipy.linalg.cho_factor(self.Px0)[0])
             noise = numpy.random.normal(size=(self.lxi, N))
-            particles += (Pchol.dot(noise)).T
+            particles += (Pchol.T.dot(noise)).T
         return particles
 
     def eval_logp_x0(self, particles, t):
-- 
2.43.0


From c84901c694b261e68b709f98c5945f3c30478ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 04/43] fix: use builtin int/float, the numpy aliases were
 removed

---
 pyparticleest/filter.py            | 16 ++++++++--------
 pyparticleest/paramest/paramest.py |  2 +-
 pyparticleest/smoother.py          |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 9fdfae7..6a9fad4 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -355,8 +355,8 @@ class CSIRAS(SIR):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext(particles=traj[cur_ind].pa.part,
                                        next_part=self.ctraj[cur_ind + 1].pa.part[find],
@@ -613,8 +613,8 @@ class CPFAS(CPF):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -738,8 +738,8 @@ class CPFYAS(CPFAS):
         ancestors[:-1] = sample(tmp, self.N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.arange(self.N, dtype=numpy.int)
-        find = numpy.zeros((self.N,), dtype=numpy.int)
+        pind = numpy.arange(self.N, dtype=int)
+        find = numpy.zeros((self.N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -857,7 +857,7 @@ class ParticleTrajectory(object):
         else:
             self.uvec = numpy.empty(1, dtype=utype)
             self.yvec = numpy.empty(1, dtype=ytype)
-            self.tvec = numpy.empty(1, dtype=numpy.float)
+            self.tvec = numpy.empty(1, dtype=float)
             self.T = 0
         #TODO, this isn't correctly used in the code, assumed = 0
         assert(t0 == 0)
@@ -1116,7 +1116,7 @@ class ParticleApproximation(object):
         new_ind = sample(numpy.exp(tmp), N)
         new_part = model.copy_ind(self.part, new_ind)
 
-        self.w = numpy.log(numpy.ones(N, dtype=numpy.float) / N)
+        self.w = numpy.log(numpy.ones(N, dtype=float) / N)
         self.part = new_part
         self.num = N
         self.w_offset = 0.0
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 1e8f917..d4490ef 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -228,7 +228,7 @@ class ParamEstimationPSAEM(Simulator):
         if (callback is None):
             callback = default_callback
 
-        ind = numpy.asarray(range(num_part), dtype=numpy.int)
+        ind = numpy.asarray(range(num_part), dtype=int)
         i = 0;
         while (True):
             i += 1
diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 01cebda..45983ce 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -360,7 +360,7 @@ class SmoothTrajectory(object):
         else:
             raise ValueError('Unknown sampler: %s' % method)
 
-        find = numpy.arange(M, dtype=numpy.int)
+        find = numpy.arange(M, dtype=int)
 
         for cur_ind in reversed(range(len(pt) - 1)):
 
@@ -523,7 +523,7 @@ class SmoothTrajectory(object):
         ut = self.u
         yt = self.y
         tt = self.t
-        pind = numpy.arange(self.M, dtype=numpy.int)
+        pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
         pt = self.traj[:T - 1]
-- 
2.43.0


From df6f43bccc80c4b234b27924f129ffe4f5618873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 05/43] fix: xrange does not exist in Python 3

---
 pyparticleest/paramest/interfaces.py | 8 ++++----
 pyparticleest/paramest/paramest.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 3430427..0a26a18 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -61,7 +61,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T - 1):
+        for i in range(T - 1):
             val = self.eval_logp_xnext(sest[i],
                                        sest[i + 1],
                                        ut[i], tt[i])
@@ -73,7 +73,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T):
+        for i in range(T):
             if (yt[i] is not None):
                 val = self.eval_logp_y(sest[i], yt[i], tt[i])
                 logp_y += numpy.sum(val)
@@ -142,7 +142,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T):
+        for t in range(T):
             if (straj.y[t] is not None):
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
@@ -157,7 +157,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T - 1):
+        for t in range(T - 1):
             (val, grad) = self.eval_logp_xnext_val_grad(sest[t],
                                                         sest[t + 1],
                                                         straj.u[t],
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index d4490ef..64bcae7 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -44,7 +44,7 @@ class ParamEstimation(Simulator):
 
         params_local = numpy.copy(param0)
         Q = -numpy.Inf
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             Q_old = Q
             self.set_params(params_local)
             if (numpy.isscalar(num_part)):
@@ -132,7 +132,7 @@ class ParamEstimationSAEM(Simulator):
         alltrajs = None
         weights = None
 
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             if (numpy.isscalar(num_part)):
@@ -331,7 +331,7 @@ class ParamEstimationPSAEM2(Simulator):
         weights = numpy.empty((max_iter * num_part,))
 
         datalen = 0
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             self.simulate(num_part, 1, filter=filter, filter_options=filter_options,
@@ -345,7 +345,7 @@ class ParamEstimationPSAEM2(Simulator):
 
             newtrajs = numpy.empty((T, N, D))
 
-            for t in xrange(T):
+            for t in range(T):
                 newtrajs[t] = tmp[t].pa.part
 
             w = 1.0
-- 
2.43.0


From c30a333cf66dea72c717590e2235e815d428022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 06/43] fix: find_best_particles returns the particles with the
 largest weights

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 6a9fad4..5d1d228 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1139,5 +1139,5 @@ class ParticleApproximation(object):
 
         Returns:
          - (array-like) with len=n, representing the n most likely estimates """
-        indices = numpy.argsort(self.w)
+        indices = numpy.argsort(-self.w)
         return indices[range(n)]
-- 
2.43.0


From 05e46eb40e42d21be97e0072c62f959929669295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 07/43] fix: CSIRAS keeps its log-weights normalised, they are
 exponentiated by the next step

---
 pyparticleest/filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 5d1d228..773aaff 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -388,6 +388,8 @@ class CSIRAS(SIR):
 
 
         pa.w = yw + nw - qw
+        # Keep the weights from going to -Inf
+        pa.w -= numpy.max(pa.w)
 
         pa.part[:] = pnext
         resampled = True
-- 
2.43.0


From df0f51a03d7a61a96df11897d6dc62aeda0e79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 08/43] fix: FFPropY proposes from the measurement of the next
 step, not the last stored one

---
 pyparticleest/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 773aaff..ce21d73 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -457,7 +457,8 @@ class FFPropY(object):
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
-        partn = self.model.propose_from_y(len(pa.part), y=yvec[-1], t=tvec[-1])
+        partn = self.model.propose_from_y(len(pa.part), y=yvec[cur_ind + 1],
+                                          t=tvec[cur_ind + 1])
         find = numpy.arange(self.N, dtype=int)
 
         wn = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[ancestors],
-- 
2.43.0


From ff74738c7e7169491b30c71448f0a3497df8fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 09/43] fix: SIR.measure uses the measure method of the SIR
 interface

---
 pyparticleest/filter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index ce21d73..5c1fe4f 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -306,10 +306,8 @@ class SIR(object):
             pa_out = copy.deepcopy(pa)
             pa = pa_out
 
-        new_weights = self.model.measure_full(traj=traj, ancestors=ancestors,
-                                              particles=pa.part, uvec=uvec,
-                                              yvec=yvec[:cur_ind + 1],
-                                              tvec=tvec[:cur_ind + 1])
+        new_weights = self.model.measure(particles=pa.part, y=yvec[cur_ind],
+                                         t=tvec[cur_ind])
 
         # Try to keep weights from going to -Inf
         m = numpy.max(new_weights)
-- 
2.43.0


From aa6b8b2551b1ea08f48d058a9247da2998fa13a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 10/43] fix: CSIRAS starts with the first state of the
 conditional trajectory

---
 pyparticleest/filter.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 5c1fe4f..3b22e02 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -329,6 +329,22 @@ class CSIRAS(SIR):
         self.ctraj = cond_traj
         self.model = model
 
+    def create_initial_estimate(self, N):
+        """
+        Create initial particle estimate
+
+        Args:
+         - N (int): Number of particles
+
+        Returns:
+        (array-like): Sampled particles, the last one being the start of the
+        conditional trajectory
+
+        """
+        part = self.model.create_initial_estimate(N)
+        part[-1] = self.ctraj[0].pa.part[0]
+        return part
+
     def forward(self, traj, yvec, uvec, tvec, cur_ind):
         """
         Forward the estimate stored in pa from t to t+1 using the motion model
-- 
2.43.0


From c4eb9ad694da26243aadcc85c169111fdb9fc438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 11/43] fix: AuxiliaryParticleFilter handles steps without
 measurement

---
 pyparticleest/filter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 3b22e02..6f5fdba 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -693,6 +693,7 @@ class AuxiliaryParticleFilter(ParticleFilter):
         pa = ParticleApproximation(traj[-1].pa.part, traj[-1].pa.w)
 
         resampled = False
+        l1w = None
 
         if (yvec is not None and yvec[cur_ind + 1] is not None):
             # TODO Generalize to non-Markovian
@@ -705,7 +706,8 @@ class AuxiliaryParticleFilter(ParticleFilter):
         if (self.res and pa.calc_Neff() < self.res * pa.num):
             ancestors = pa.resample(self.model, pa.num)
             resampled = True
-            l1w = l1w[ancestors]
+            if (l1w is not None):
+                l1w = l1w[ancestors]
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
@@ -718,8 +720,9 @@ class AuxiliaryParticleFilter(ParticleFilter):
             pa = self.measure(traj=traj, ancestors=ancestors, pa=pa,
                               #There is no 'u' for last step yet
                               uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind + 1)
-            pa.w -= l1w
-            pa.w -= numpy.max(pa.w)
+            if (l1w is not None):
+                pa.w -= l1w
+                pa.w -= numpy.max(pa.w)
 
         return (pa, resampled, ancestors)
 
-- 
2.43.0


From 957eb7ac115ca1fa4b7d6bbd844bcddef6196cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 12/43] fix: post_smoothing is applied once for the 'ancestor'
 and 'mhbp' smoothers

---
 pyparticleest/smoother.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 45983ce..9895a8b 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -263,10 +263,6 @@ class SmoothTrajectory(object):
         """
         self.traj = self.perform_ancestors_int(pt, M)
 
-        if hasattr(self.model, 'post_smoothing'):
-            # Do e.g. constrained smoothing for RBPS models
-            self.traj = self.model.post_smoothing(self)
-
     def calculate_ancestors(self, pt, ind):
         T = len(pt)
         M = len(ind)
@@ -503,10 +499,6 @@ class SmoothTrajectory(object):
 
         self.traj = straj
 
-        if hasattr(self.model, 'post_smoothing'):
-            # Do e.g. constrained smoothing for RBPS models
-            self.traj = self.model.post_smoothing(self)
-
 
     def perform_mhips_pass(self, options, reduced=False):
         """
-- 
2.43.0


From 7e0c17f793bda9fb524f15cdd52e959bda3c6a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 13/43] fix: mhbp proposes every ancestor for every trajectory,
 as the other backward samplers do

---
 pyparticleest/smoother.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 9895a8b..55782b0 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -468,8 +468,8 @@ class SmoothTrajectory(object):
             for _ in range(R):
 
                 if (t > 0):
-                    # Propose new ancestors
-                    panc = pf.sample(tmp, M)
+                    # Propose new ancestors, independent of the trajectory index
+                    panc = numpy.random.permutation(pf.sample(tmp, M))
 
 
                 (pnew, acc) = mc_step(model=self.model,
-- 
2.43.0


From edc7d3ff88a85c379354cd2bdff28eb48c897b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 14/43] fix: mhbp does not reuse ancestors of step one at step
 zero

---
 pyparticleest/smoother.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 55782b0..2b34fcb 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -464,6 +464,8 @@ class SmoothTrajectory(object):
                 ptraj = pt[:t]
             else:
                 ptraj = None
+                anc = numpy.arange(M, dtype=int)
+                panc = anc
 
             for _ in range(R):
 
-- 
2.43.0


From 1185620b1811949a2e62cfb62fc9b4c5037ae06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 15/43] fix: mc_step also works for the last step without
 measurement in reduced mode

---
 pyparticleest/smoother.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 2b34fcb..2530cd9 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -666,7 +666,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
                               tvec=tt[:cur_ind],
                               ancestors=pind_prop, noise=noise)
         else:
-            xprop = model.create_initial_estimate(len(future_trajs[0].pa.part))
+            xprop = model.create_initial_estimate(len(part))
 
         # Drawing from p(x_{t+1}|x_t), so these will be identical
         logp_prev_prop = 0.0
@@ -767,7 +767,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
              (logp_next_prop - logp_next_curr) +
              (logp_q_curr - logp_q_prop))
 
-    test = numpy.log(numpy.random.uniform(size=len(ratio)))
+    test = numpy.log(numpy.random.uniform(size=len(part)))
     acc = test < ratio
     curparty[acc] = xpropy[acc]
     return (curparty, acc)
-- 
2.43.0


From 0fef10436b34ac352ae380c7f56942d8ab65757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 16/43] fix: mhips handles trajectories of a single time step

---
 pyparticleest/smoother.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 2530cd9..2b99b56 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -520,7 +520,7 @@ class SmoothTrajectory(object):
         pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
-        pt = self.traj[:T - 1]
+        pt = self.traj[:T - 1] if T > 1 else None
         (part, _acc) = mc_step(model=self.model,
                               part=self.traj[-1].pa.part,
                               ptraj=pt,
@@ -541,6 +541,8 @@ class SmoothTrajectory(object):
                                                   cur_ind=T - 1))
         straj[T - 1] = TrajectoryStep(ParticleApproximation(tmp), pind)
 
+        if T == 1:
+            return straj
 
         for i in reversed(range(1, (T - 1))):
             ft = straj[(i + 1):]
-- 
2.43.0


From 0b3c6ad109f935fafd802661a909cceca2151fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 17/43] fix: conditional noise covariance of the mixed model
 accounts for the cross-covariance

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 8138cb7..a21850b 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -265,7 +265,7 @@ class MixedNLGaussianSampled(RBPSBase):
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
             fcond.append(fz[i] + tmp.dot(xi_next[i] - fxi[i]))
-            Qcond.append(Qz[i])
+            Qcond.append(Qz[i] - tmp.dot(Qxiz[i]))
 
         return (Acond, fcond, Qcond)
 
-- 
2.43.0


From b0a645049cdac8c4d73ca49fb5b809a81a091af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 18/43] fix: mixed model predicts nonlinear states of any
 dimension

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index a21850b..fa60acd 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -180,7 +180,7 @@ class MixedNLGaussianSampled(RBPSBase):
         # This is probably not so nice performance-wise, but will
         # work initially to profile where the bottlenecks are.
         for i in range(N):
-            xi_next[i] = Axi[i].dot(zl[i]) + fxi[i]
+            xi_next[i] = (Axi[i].dot(zl[i]) + fxi[i]).ravel()
         return xi_next
 
     def meas_xi_next(self, particles, xi_next, u, t):
@@ -264,7 +264,7 @@ class MixedNLGaussianSampled(RBPSBase):
             # TODO linalg.solve instead?
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
-            fcond.append(fz[i] + tmp.dot(xi_next[i] - fxi[i]))
+            fcond.append(fz[i] + tmp.dot(xi_next[i].reshape((self.lxi, 1)) - fxi[i]))
             Qcond.append(Qz[i] - tmp.dot(Qxiz[i]))
 
         return (Acond, fcond, Qcond)
-- 
2.43.0


From 348f4bcadda1244782653358f60e0db82a597e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 19/43] fix: measurement gradient of the mixed model uses the
 given C_grad and R

---
 pyparticleest/models/mlnlg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index fa60acd..35b9230 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -936,7 +936,6 @@ class MixedNLGaussianSampled(RBPSBase):
             l3[i] = meas_diff.dot(meas_diff.T) + Cl[i].dot(Pl[i]).dot(Cl[i].T)
 
             if (C_grad is not None):
-                C_grad = N * (numpy.zeros((len(self.params), len(y), self.kf.lz)),)
                 for j in range(len(self.params)):
                     tmp2 = C_grad[i][j].dot(Pl[i]).dot(Cl[i].T)
                     tmp = C_grad[i][j].dot(zl[i]).dot(meas_diff.T)
@@ -1023,7 +1022,7 @@ class MixedNLGaussianSampled(RBPSBase):
                                                                       l3[i], l3_grad[i][j])
             else:
                 for i in range(N):
-                    Rzcho = scipy.linalg.cho_factor(Rzcho, check_finite=False)
+                    Rzcho = scipy.linalg.cho_factor(Rz[i], check_finite=False)
                     # (_tmp, ld) = numpy.linalg.slogdet(Rz[i])
                     ld = numpy.sum(numpy.log(numpy.diagonal(Rzcho[0]))) * 2
                     tmp = scipy.linalg.cho_solve(Rzcho, l3[i])
-- 
2.43.0


From a857531251e07a7eba38a61b8a4e0ccc838c62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 20/43] fix: value and gradient of the initial density of the
 mixed model are averages over the particles

---
 pyparticleest/models/mlnlg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 35b9230..75b1385 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -779,7 +779,7 @@ class MixedNLGaussianSampled(RBPSBase):
                 dl1 = -tmp - tmp.T
                 lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[i][j], l1, dl1)
 
-        return ((lpxi0 + lpz0) / N,
+        return ((numpy.sum(lpxi0) + lpz0) / N,
                 (lpxi0_grad + lpz0_grad) / N)
 
 
@@ -1113,8 +1113,8 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
          P is a list of element-wise gradients for the covariance matrices
         """
         N = len(xi0)
-        return (N * (numpy.zeros((N, len(self.params), self.kf.lz, 1)),),
-                N * (numpy.zeros((N, len(self.params), self.kf.lz, self.kf.lz)),))
+        return (N * (numpy.zeros((len(self.params), self.kf.lz, 1)),),
+                N * (numpy.zeros((len(self.params), self.kf.lz, self.kf.lz)),))
 
     def eval_logp_xi0(self, xil):
         """
-- 
2.43.0


From 7256929ad138dc19dfe2197e4e6e0585b523d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 21/43] fix: Pz0 is optional in
 MixedNLGaussianSampledInitialGaussian

---
 pyparticleest/models/mlnlg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 75b1385..087ed2b 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1043,12 +1043,11 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
             self.Pxi0 = numpy.zeros((len(self.xi0), len(self.xi0)))
         else:
             self.Pxi0 = numpy.copy((Pxi0))
+        self.z0 = numpy.copy(z0).reshape((-1, 1))
         if (Pz0 is None):
             self.Pz0 = numpy.zeros((len(self.z0), len(self.z0)))
         else:
             self.Pz0 = numpy.copy((Pz0))
-        self.z0 = numpy.copy(z0).reshape((-1, 1))
-        self.Pz0 = numpy.copy(Pz0)
         super(MixedNLGaussianSampledInitialGaussian, self).__init__(lxi=len(self.xi0),
                                                              lz=len(self.z0),
                                                              **kwargs)
-- 
2.43.0


From 3b321619dcf3f1395e7d17980fa461f14f31ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 22/43] fix: measurement objective of the mixed model without
 linear measurement matrix

---
 pyparticleest/models/mlnlg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 087ed2b..5b101be 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -922,7 +922,9 @@ class MixedNLGaussianSampled(RBPSBase):
         l3 = numpy.zeros((N, len(y), len(y)))
         for i in range(N):
             meas_diff = self.kf.measurement_diff(y, zl[i], Cl[i], hl[i])
-            l3[i] = meas_diff.dot(meas_diff.T) + Cl[i].dot(Pl[i]).dot(Cl[i].T)
+            l3[i] = meas_diff.dot(meas_diff.T)
+            if (Cl[i] is not None):
+                l3[i] += Cl[i].dot(Pl[i]).dot(Cl[i].T)
         return l3
 
     def calc_l3_grad(self, y, zl, Pl, Cl, hl, C_grad, h_grad):
@@ -933,7 +935,9 @@ class MixedNLGaussianSampled(RBPSBase):
 
         for i in range(N):
             meas_diff = self.kf.measurement_diff(y, zl[i], Cl[i], hl[i])
-            l3[i] = meas_diff.dot(meas_diff.T) + Cl[i].dot(Pl[i]).dot(Cl[i].T)
+            l3[i] = meas_diff.dot(meas_diff.T)
+            if (Cl[i] is not None):
+                l3[i] += Cl[i].dot(Pl[i]).dot(Cl[i].T)
 
             if (C_grad is not None):
                 for j in range(len(self.params)):
-- 
2.43.0


From d25312b05f2aaebef14e56a3fecf3f2bded194df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 23/43] fix: normaliser of the marginalised mixed model, the
 noise term is subtracted

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 5b101be..d8cc098 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1218,7 +1218,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
             tmp = F.T.dot(m)
-            Tau_t += tmp.T.dot(numpy.linalg.solve(Mt, tmp))
+            Tau_t -= tmp.T.dot(numpy.linalg.solve(Mt, tmp))
 
             tmp = F.dot(numpy.linalg.solve(Mt, F.T))
 
-- 
2.43.0


From 9e8166ca96261b846dd5382fdc2b96a8be9ffe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 24/43] fix: marginalised mixed model handles nonlinear states
 of any dimension

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index d8cc098..ede84fc 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1195,7 +1195,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         LHind = lxi + OHlen
         LHlen = lz
 
-        xinl = next_part[:, :lxi]
+        xinl = next_part[:, :lxi].reshape((M, lxi, 1))
         OHnl = next_part[:, OHind:OHind + OHlen].reshape((M, lz, lz))
         LHnl = next_part[:, LHind:LHind + LHlen].reshape((M, lz, 1))
 
-- 
2.43.0


From 7d7ff8ef9d1179814a27aa156560c7c428ae54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 25/43] fix: marginalised mixed model accounts for the noise
 cross-covariance

---
 pyparticleest/models/mlnlg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index ede84fc..87f00af 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1203,8 +1203,9 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         Omega = numpy.zeros_like(OHnl)
         Lambda = numpy.zeros_like(LHnl)
 
-        (Az, fz, Qz, _, _, _) = self.get_lin_pred_dynamics_int(particles=particles,
-                                                               u=u, t=t)
+        # Dynamics of z conditioned on xi_{t+1}, accounts for noise correlation
+        (Az, fz, Qz) = self.calc_cond_dynamics(particles=particles, xi_next=xinl,
+                                               u=u, t=t)
         (Axi, fxi, Qxi, _, _, _) = self.get_nonlin_pred_dynamics_int(particles=particles,
                                                                      u=u, t=t)
 
-- 
2.43.0


From d52d0c7e86fcf6a725b07fdb7c3bd8978eba942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 26/43] fix: marginalised mixed model only uses the measurement
 statistics of steps with a measurement

---
 pyparticleest/models/mlnlg.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 87f00af..ba4b8a2 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1333,8 +1333,6 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         LHind = lxi + OHlen
         res = numpy.zeros((M, lxi + OHlen + LHlen))
 
-        (_, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
-
         res[:, :lxi] = part[:, :lxi]
 
         if (future_trajs is not None):
@@ -1342,13 +1340,15 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
                 res[j, OHind:OHind + OHlen] = Omega[j].ravel()
                 res[j, LHind:] = Lambda[j].ravel()
 
-        for j in range(M):
-            if (Cz is not None and Cz[j] is not None):
-                tmp = numpy.linalg.solve(Rz[j], Cz[j])
-                res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
-            if (yt is not None and yt[cur_ind] is not None):
-                res[j, LHind:] += (tmp.T.dot(numpy.asarray(yt[cur_ind]).reshape((-1, 1)) -
-                                             hz[j])).ravel()
+        if (yt is not None and yt[cur_ind] is not None):
+            (y, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
+            y = numpy.asarray(y).reshape((-1, 1))
+            for j in range(M):
+                if (Cz is not None and Cz[j] is not None):
+                    tmp = numpy.linalg.solve(Rz[j], Cz[j])
+                    ydiff = y if hz[j] is None else y - hz[j]
+                    res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
+                    res[j, LHind:] += (tmp.T.dot(ydiff)).ravel()
 
         return res
 
-- 
2.43.0


From 24b0a1c2c5b9d8d282cfed57f13cffd1da5ea1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 27/43] fix: gradients of the mixed model with per-particle
 dynamics

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index ba4b8a2..53a2151 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -812,7 +812,7 @@ class MixedNLGaussianSampled(RBPSBase):
                               perr, f_grad, tmp1)
         if (A_grad is not None):
             mlnlg_compute.compute_l2_grad_A(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
-                              perr, self.lxi, Pn, zl, Pl, M, A, A_grad, tmp1, tmp2)
+                              perr, self.lxi, Pn, zl, Pl, M, numpy.asarray(A), A_grad, tmp1, tmp2)
         return (l2, diff_l2)
 
     def eval_logp_xnext(self, particles, x_next, u, t):
-- 
2.43.0


From 780a6337c33f0d238e49ab5b22f57a32663d8b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 28/43] fix: LTV smooths every particle with the dynamics of
 its own time step

---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 402b133..b1baae2 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -277,11 +277,11 @@ class LTV(FFBSi, ParticleFiltering):
         res = numpy.empty((M, lz + 2 * lz ** 2))
         for j in range(M):
             if (future_trajs is not None):
-                zn = future_trajs[0].pa.part[j, :lz].reshape((lz, 1))
-                Pn = future_trajs[0].pa.part[j, lz:lzP].reshape((lz, lz))
-                (A, f, Q) = self.get_pred_dynamics(u=ut[0], t=tt[0])
+                zn = future_trajs[0].pa.part[find[j], :lz].reshape((lz, 1))
+                Pn = future_trajs[0].pa.part[find[j], lz:lzP].reshape((lz, lz))
+                (A, f, Q) = self.get_pred_dynamics(u=ut[cur_ind], t=tt[cur_ind])
                 self.kf.set_dynamics(A=A, Q=Q, f_k=f)
-                (zs, Ps, Ms) = self.kf.smooth(zl[0], Pl[0], zn, Pn, self.kf.A,
+                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, self.kf.A,
                                               self.kf.f_k, self.kf.Q)
             else:
                 zs = zl[j]
-- 
2.43.0


From 41472fc03eacad4a741cfea8d88f066cc0bff900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 29/43] fix: LTV measurement gradient uses the gradients of C
 and h

---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index b1baae2..665c586 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -494,7 +494,7 @@ class LTV(FFBSi, ParticleFiltering):
             for i in range(N):
             # Calculate l3 according to (19b)
                 # Calculate l3 according to (19b)
-                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i])
+                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C_grad, h_grad)
                 tmp = scipy.linalg.cho_solve(Rcho, l3)
                 logpy += -0.5 * (ld + numpy.trace(tmp))
 
@@ -623,12 +623,12 @@ class LTV(FFBSi, ParticleFiltering):
         l3_grad = numpy.zeros((lparam, len(y), len(y)))
         if (h_grad is not None):
             for j in range(lparam):
-                tmp = -h_grad[j].dot(meas_diff)
+                tmp = -h_grad[j].dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
         if (C_grad is not None):
             for j in range(lparam):
-                tmp = -C_grad[j].dot(z).dot(meas_diff)
+                tmp = -C_grad[j].dot(z).dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
-                tmp = C_grad[j].dot(P).dot(self.kf.C)
+                tmp = C_grad[j].dot(P).dot(self.kf.C.T)
                 l3_grad[j] += tmp + tmp.T
         return (l3, l3_grad)
-- 
2.43.0


From 247e527c187ed9962171f0b9b88edc7a3dc18b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 30/43] fix: LTV initial density value and gradient are
 averages, P0_grad is optional

---
 pyparticleest/models/ltv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 665c586..ef92605 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -345,6 +345,8 @@ class LTV(FFBSi, ParticleFiltering):
             lpz0 = self.eval_logp_x0(particles, t)
         else:
             lpz0 = 0.0
+            if (P0_grad is None):
+                P0_grad = numpy.zeros((lparam, self.kf.lz, self.kf.lz))
             P0cho = scipy.linalg.cho_factor(self.P0)
             ld = numpy.sum(numpy.log(numpy.diagonal(P0cho[0]))) * 2
             for i in range(N):
@@ -353,6 +355,8 @@ class LTV(FFBSi, ParticleFiltering):
                 lpz0 += -0.5 * (ld + numpy.trace(tmp))
                 for j in range(len(self.params)):
                     lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[j], l1, l1_grad[j])
+            lpz0 /= N
+            lpz0_grad /= N
         return (lpz0, lpz0_grad)
 
 
-- 
2.43.0


From 199539b5b15ce8d6a8588f249d5a535c261768a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 31/43] fix: hierarchical model draws every smoothed linear
 state from its own conditional

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 589436b..c00e9e4 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -160,7 +160,7 @@ class HierarchicalBase(RBPSBase):
         res = numpy.zeros((M, self.lxi + self.kf.lz + 2 * self.kf.lz ** 2))
         for j in range(M):
             partj = numpy.copy(part[j:j + 1])
-            (xil, zl, Pl) = self.get_states(part,)
+            (xil, zl, Pl) = self.get_states(partj)
             if (future_trajs is not None):
                 (A, f, Q, _, _, _) = self.get_lin_pred_dynamics_int(partj,
                                                                     ut[cur_ind],
-- 
2.43.0


From 0262a85bb34244f8e85aeb93a87a0f8fa6231401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 32/43] fix: peak of the linear transition density of the
 hierarchical model

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index c00e9e4..3b731bb 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -259,7 +259,7 @@ class HierarchicalRSBase(HierarchicalBase, FFBSiRS):
         for i in range(N):
             # Predict z_{t+1}
             Pn = Az[i].dot(Pl[i]).dot(Az[i].T) + Qz[i]
-            lpz[i] = -0.5 * nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1]
+            lpz[i] = -0.5 * (nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1])
         lpmax = numpy.max(lpxi + lpz)
         return lpmax
 
-- 
2.43.0


From 2505c9b77f22d574d93794c67c0e9beb6670b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 33/43] fix: hierarchical model without offset in the linear
 measurement

---
 pyparticleest/models/hierarchial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 3b731bb..833d569 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -51,11 +51,11 @@ class HierarchicalBase(RBPSBase):
         N = len(particles)
         (y, Cz, hz, Rz) = self.get_lin_meas_dynamics(particles, y, t)
         if (Cz is None):
-            Cz = numpy.repeat(self.kf.C[numpy.newaxis, :, :], N, axis=0)
+            Cz = N * (self.kf.C,)
         if (hz is None):
-            hz = numpy.repeat(self.kf.h_k[numpy.newaxis, :, :], N, axis=0)
+            hz = N * (self.kf.h_k,)
         if (Rz is None):
-            Rz = numpy.repeat(self.kf.R[numpy.newaxis, :, :], N, axis=0)
+            Rz = N * (self.kf.R,)
 
         lyz = numpy.empty_like(lyxi)
         for i in range(len(zl)):
-- 
2.43.0


From ed8dea3088a91ef4e8dd4dbdb0ab55c0912ae402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 34/43] fix: full trajectory gradients accept values per
 particle and column gradients

---
 pyparticleest/paramest/interfaces.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 0a26a18..454f187 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -147,8 +147,8 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
                                                         straj.t[t])
-                logp_y += val
-                logp_y_grad += grad
+                logp_y += numpy.sum(val)
+                logp_y_grad += numpy.ravel(grad)
         return (logp_y / M, logp_y_grad / M)
 
     def eval_logp_xnext_val_grad_fulltraj(self, straj, ut, tt):
@@ -162,8 +162,8 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                                                         sest[t + 1],
                                                         straj.u[t],
                                                         straj.t[t])
-            logp_xnext += val
-            logp_xnext_grad += grad
+            logp_xnext += numpy.sum(val)
+            logp_xnext_grad += numpy.ravel(grad)
 
         return (logp_xnext / M, logp_xnext_grad / M)
 
-- 
2.43.0


From 7b7c018c45c6be067d0111cfe62cda83efa53ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 35/43] fix: gradient of the initial density is not averaged
 over the parameters

---
 pyparticleest/paramest/gradienttest.py | 2 +-
 pyparticleest/paramest/interfaces.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/paramest/gradienttest.py b/pyparticleest/paramest/gradienttest.py
index ba96f4d..dc58479 100644
--- a/pyparticleest/paramest/gradienttest.py
+++ b/pyparticleest/paramest/gradienttest.py
@@ -62,7 +62,7 @@ class GradientTest(ParamEstimation):
                                                                                      self.straj.t)
                 (tmp1, tmp2) = self.model.eval_logp_x0_val_grad(self.straj.traj[0].pa.part,
                                                                 self.straj.t[0])
-                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.ravel(tmp2))
 
                 grad_logpy[k] = grad_logp_y
                 grad_logpxn[k] = grad_logp_xnext
diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 454f187..483b8ab 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -282,7 +282,7 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
 
             (tmp1, tmp2) = self.eval_logp_x0_val_grad(straj.traj[0].pa.part,
                                                       straj.t[0])
-            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.ravel(tmp2))
             val = -1.0 * (logp_y + logp_x0 + logp_xnext)
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
-- 
2.43.0


From fa6265d47c84ec825223b5499c5d27acde51cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 36/43] fix: numeric maximisers accept models that store their
 parameters as a column

---
 pyparticleest/paramest/interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 483b8ab..63336dc 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -255,7 +255,7 @@ class ParamEstBaseNumeric(ParamEstIntFullTraj):
             val = -1.0 * (log_py + log_px0 + log_pxnext)
             return val
 
-        res = scipy.optimize.minimize(fun=fval, x0=self.params, method='l-bfgs-b', jac=False,
+        res = scipy.optimize.minimize(fun=fval, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=False,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
         return res.x
@@ -287,7 +287,7 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
 
-        res = scipy.optimize.minimize(fun=fval_grad, x0=self.params, method='l-bfgs-b', jac=True,
+        res = scipy.optimize.minimize(fun=fval_grad, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=True,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
 
-- 
2.43.0


From af3c631bd00269c137a57da6e61acf84d6155cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 37/43] fix: SAEM collects the smoothed trajectories as an
 array, its trajectories are concatenated along axis 1

---
 pyparticleest/paramest/paramest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 64bcae7..c212f3c 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -155,7 +155,7 @@ class ParamEstimationSAEM(Simulator):
                           meas_first=meas_first)
 
             w = numpy.ones((numt,)) / numt
-            newtrajs = numpy.copy(self.straj.traj)
+            newtrajs = self.get_smoothed_estimates()
             alpha = alpha_gen(i)
             if (weights is None):
                 weights = w
-- 
2.43.0


From 9c1cddb9aff11f92653c07a743a87c464241c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 38/43] fix: Rao-Blackwellised PSAEM uses the ancestral
 trajectories

---
 pyparticleest/paramest/paramest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index c212f3c..10c5790 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -245,6 +245,8 @@ class ParamEstimationPSAEM(Simulator):
                 T = len(tmp)
                 D = tmp[0].pa.part.shape[1]
                 newtrajs = numpy.empty((T, N, D))
+                for t in range(T):
+                    newtrajs[t] = tmp[t].pa.part
 
             else:
                 newtrajs = self.get_smoothed_estimates()
-- 
2.43.0


From added95e6ae4f2187115cf743222eb508b16314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 39/43] fix: PSAEM stops after max_iter iterations also with a
 user callback

---
 pyparticleest/paramest/paramest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 10c5790..174e0c1 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -286,7 +286,7 @@ class ParamEstimationPSAEM(Simulator):
 
             if (callback is not None):
                 rval = callback(params=params_local, Q=-numpy.Inf, cur_iter=i)
-                if (rval):
+                if (rval or i >= max_iter):
                     break
         return (params_local, -numpy.Inf)
 
-- 
2.43.0


From 8d11941d4e1a0f515ddd6c3eb3e9c3aa971cb209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 40/43] fix: Instrumenter prints the counters it keeps

---
 pyparticleest/utils/intrument.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index 6afe3f3..7a95db2 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -63,20 +63,20 @@ class Instrumenter(object):
 
     def print_statistics(self):
         print("Modelclass : %s" % type(self.model))
-        print("cnt_sample: %d" % self.cnt_sample)
-        print("cnt_update: %d" % self.cnt_update)
-        print("cnt_measure: %d" % self.cnt_measure)
-        print("cnt_pdfxn: %d" % self.cnt_pdfxn + self.cnt_pdfxn_full)
-        print("cnt_pdfxnmax: %d" % self.cnt_pdfxnmax)
-        print("cnt_propsmooth: %d" % self.cnt_propsmooth)
-        print("cnt_pdfsmooth: %d" % self.cnt_pdfsmooth)
+        print("cnt_sample: %d" % self.oc.cnt_sample)
+        print("cnt_update: %d" % self.oc.cnt_update)
+        print("cnt_measure: %d" % self.oc.cnt_measure)
+        print("cnt_pdfxn: %d" % (self.oc.cnt_pdfxn + self.oc.cnt_pdfxn_full))
+        print("cnt_pdfxnmax: %d" % self.oc.cnt_pdfxnmax)
+        print("cnt_propsmooth: %d" % self.oc.cnt_propsmooth)
+        print("cnt_pdfsmooth: %d" % self.oc.cnt_pdfsmooth)
 
 
     def print_total_ops(self):
-        print("total ops: %d" % (self.cnt_sample + self.cnt_update +
-                                 self.cnt_measure + self.cnt_pdfxn +
-                                 self.cnt_pdfxnmax + self.cnt_propsmooth +
-                                 self.cnt_pdfsmooth))
+        print("total ops: %d" % (self.oc.cnt_sample + self.oc.cnt_update +
+                                 self.oc.cnt_measure + self.oc.cnt_pdfxn +
+                                 self.oc.cnt_pdfxnmax + self.oc.cnt_propsmooth +
+                                 self.oc.cnt_pdfsmooth))
 
     def create_initial_estimate(self, N):
         """ Sample N particle from initial distribution """
-- 
2.43.0


From a6e83b2c2a156c13d9aac99a0c643e4d9b36e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 41/43] fix: Instrumenter only offers the optional operations
 its model has

---
 pyparticleest/utils/intrument.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index 7a95db2..54c18d8 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -147,11 +147,11 @@ class Instrumenter(object):
         self.oc.cnt_eval1st += len(particles)
         return self.model.eval_1st_stage_weights(particles, u, y, t)
 
-    def pre_mhips_pass(self, st):
-        return self.model.pre_mhips_pass(st)
-
-    def post_smoothing(self, st):
-        return self.model.post_smoothing(st)
+    def __getattr__(self, name):
+        """ Operations without a counter, only available if the model has them """
+        if (name == 'model'):
+            raise AttributeError(name)
+        return getattr(self.model, name)
 
     def eval_logp_x0(self, particles, t):
         self.oc.cnt_eval_logp_x0 += len(particles)
-- 
2.43.0


From d12f326a36699d87f3ebb04110cc41764163c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:51 +0000
Subject: [PATCH 42/43] fix: LTV objective of a model without measurement
 matrix

---
 pyparticleest/models/ltv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index ef92605..eceb42a 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -612,7 +612,8 @@ class LTV(FFBSi, ParticleFiltering):
                                              C=self.kf.C,
                                              h_k=self.kf.h_k)
         l3 = meas_diff.dot(meas_diff.T)
-        l3 += self.kf.C.dot(P).dot(self.kf.C.T)
+        if (self.kf.C is not None):
+            l3 += self.kf.C.dot(P).dot(self.kf.C.T)
         return l3
 
     def calc_l3_grad(self, y, z, P, C_grad, h_grad):
@@ -623,7 +624,8 @@ class LTV(FFBSi, ParticleFiltering):
                                              C=self.kf.C,
                                              h_k=self.kf.h_k)
         l3 = meas_diff.dot(meas_diff.T)
-        l3 += self.kf.C.dot(P).dot(self.kf.C.T)
+        if (self.kf.C is not None):
+            l3 += self.kf.C.dot(P).dot(self.kf.C.T)
         l3_grad = numpy.zeros((lparam, len(y), len(y)))
         if (h_grad is not None):
             for j in range(lparam):
-- 
2.43.0


From eb73fa353e75e7aa95a23f1086d20b7fffd7f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:51 +0000
Subject: [PATCH 43/43] fix: forward extra constructor options in
 NonlinearGaussian

A model combining NonlinearGaussian with an estimation base such as
ParamEstBaseNumeric rejected that base's options and never initialised it.
---
 pyparticleest/models/nlg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index d93ad97..1a6b12d 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -97,7 +97,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         """
         return None
 
-    def __init__(self, lxi, f=None, g=None, Q=None, R=None):
+    def __init__(self, lxi, f=None, g=None, Q=None, R=None, **kwargs):
         if (f is not None):
             self.f = numpy.copy(f)
         else:
@@ -117,6 +117,8 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
 
         self.lxi = lxi
 
+        super(NonlinearGaussian, self).__init__(**kwargs)
+
     def set_Q(self, Q):
         self.Qchol = scipy.linalg.cho_factor(Q)
         self.Qcholtri = numpy.triu(self.Qchol[0])
-- 
2.43.0


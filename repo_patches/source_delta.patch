From 0433972b7b7f1f62a935e35b144734620699b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 01/52] fix: computing the canonical matrices no longer adds
 wheel inertias to the caller's parameters

---
 bicycleparameters/bicycle.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 55f516a..2bb98a4 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -112,9 +112,8 @@ def benchmark_par_to_canonical(p):
             p['mF']*p['rF']**2)
     ITxz = (p['IBxz'] + p['IHxz'] - p['mB']*p['xB']*p['zB'] -
             p['mH']*p['xH']*p['zH'] + p['mF']*p['w']*p['rF'])
-    p['IRzz'] = p['IRxx']
-    p['IFzz'] = p['IFxx']
-    ITzz = (p['IRzz'] + p['IBzz'] + p['IHzz'] + p['IFzz'] +
+    # the wheels are symmetric about their axle: IRzz = IRxx and IFzz = IFxx
+    ITzz = (p['IRxx'] + p['IBzz'] + p['IHzz'] + p['IFxx'] +
             p['mB']*p['xB']**2 + p['mH']*p['xH']**2 + p['mF']*p['w']**2)
 
     mA = p['mH'] + p['mF']
@@ -125,7 +124,7 @@ def benchmark_par_to_canonical(p):
             p['mF']*(p['rF'] + zA)**2)
     IAxz = (p['IHxz'] - p['mH']*(p['xH'] - xA)*(p['zH'] - zA) + p['mF'] *
             (p['w'] - xA)*(p['rF'] + zA))
-    IAzz = (p['IHzz'] + p['IFzz'] + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
+    IAzz = (p['IHzz'] + p['IFxx'] + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
             (p['w'] - xA)**2)
     uA = (xA - p['w'] - p['c'])*umath.cos(p['lam']) - zA*umath.sin(p['lam'])
     IAll = (mA*uA**2 + IAxx*umath.sin(p['lam'])**2 +
-- 
2.43.0


From e0f0651daa6bde444325b638dafb849fd03314bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 02/52] fix: remove round-off entries before the eigen
 decomposition so that eigenvectors solve the system

---
 bicycleparameters/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index fa104f3..2b2dc64 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -126,6 +126,12 @@ class _Model(abc.ABC):
         """
         A, B = self.form_state_space_matrices(**parameter_overrides)
 
+        # NOTE : Entries that are pure round-off relative to the other entries
+        # (e.g. 1e-33) defeat the balancing in LAPACK's eigenvalue solver,
+        # resulting in vectors that are not eigenvectors, so remove them.
+        scale = np.abs(A).max(axis=(-2, -1), keepdims=True)
+        A = np.where(np.abs(A) < np.finfo(float).eps*scale, 0.0, A)
+
         if len(A.shape) == 3:  # array version
             evals = np.zeros(A.shape[:2], dtype='complex128')
             evecs = np.zeros(A.shape, dtype='complex128')
-- 
2.43.0


From 4e5185c53764f3ea24275ca46b120e69f27975ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 03/52] fix: Bicycle.eig accepts any scalar speed, not only
 float

---
 bicycleparameters/main.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 9e6f175..d291465 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1178,10 +1178,7 @@ class Bicycle(object):
         model.
 
         '''
-        if isinstance(speeds, float):
-            speeds = np.array([speeds])
-        else:
-            speeds = np.asarray(speeds)
+        speeds = np.atleast_1d(speeds)
 
         par = io.remove_uncertainties(self.parameters['Benchmark'])
 
-- 
2.43.0


From 2e9f419a6750b757521f3facd37ff0fd064b5c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 04/52] fix: sorting eigenmodes over a sweep never uses an
 eigenpair twice

---
 bicycleparameters/bicycle.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 2bb98a4..5b932af 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -245,11 +245,8 @@ def sort_eigenmodes(evals, evecs):
                 xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # each eigenvalue can only be the continuation of one mode
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
@@ -318,11 +315,8 @@ def sort_modes(evals, evecs):
                     xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # each eigenvalue can only be the continuation of one mode
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
-- 
2.43.0


From 07bdc1b7c98c9e0b1c7ec5f7fc70326c4eb67695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 05/52] fix: simulating the leaning rider model leaves the
 caller's initial state unchanged

---
 bicycleparameters/models.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 2b2dc64..79a1855 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1463,7 +1463,11 @@ class MooreRiderLean2012Model(_Model):
         par, array_keys, array_len = self._parse_parameter_overrides(
             **parameter_overrides)
 
+        if array_keys:
+            raise ValueError('Can only simulate with fixed parameters.')
+
         # u6 has to be consistent with v
+        initial_conditions = np.array(initial_conditions, dtype=float)
         initial_conditions[9] = -par['v']/par['rr']
 
         return super().simulate(times, initial_conditions,
@@ -1515,12 +1519,6 @@ class MooreRiderLean2012Model(_Model):
            m.plot_simulation(times, x0, v=20.0)
 
         """
-        par, array_keys, array_len = self._parse_parameter_overrides(
-            **parameter_overrides)
-
-        # u6 has to be consistent with v
-        initial_conditions[9] = -par['v']/par['rr']
-
         res, inputs = self.simulate(times, initial_conditions,
                                     input_func=input_func,
                                     **parameter_overrides)
-- 
2.43.0


From e3ee283746f581fc150b4a894a1ad03309194869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 06/52] fix: convert Moore2019 sets without derived parameters
 and to Meijaard2007WithFeedback

---
 bicycleparameters/parameter_sets.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 7f2d7f9..0c132cb 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1133,15 +1133,13 @@ class Moore2019ParameterSet(ParameterSet):
         """
         if name == self.parameterization:
             return self
-        elif name == 'Meijaard2007':
-            b = _convert_principal_to_benchmark(self.parameters)
+        elif name in ('Meijaard2007', 'Meijaard2007WithFeedback'):
+            # yD, yH, and yP are derived unless provided
+            p = self._calc_derived_params()
+            p.update(self.parameters)
+            b = _convert_principal_to_benchmark(p)
             # Moore2019 always includes the rider
-            return Meijaard2007ParameterSet(b, True)
-        elif name == 'Meijaard2007WithFeedback':
-            b = _convert_principal_to_benchmark(self.parameters)
-            # Moore2019 always includes the rider
-            par_set = Meijaard2007WithFeedbackParameterSet(b, True)
-            return par_set.to_parameterization(name)
+            return Meijaard2007ParameterSet(b, True).to_parameterization(name)
         else:
             msg = '{} is not an available parameter set'
             raise ValueError(msg.format(name))
-- 
2.43.0


From 64aefe11cdc0963e957053078a9aca9dda1d1537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 07/52] fix: label the parameters ie11, mP, yH, and zH with
 their own symbols

---
 bicycleparameters/parameter_sets.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 0c132cb..100000e 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1024,7 +1024,7 @@ class Moore2019ParameterSet(ParameterSet):
         'kRbb': r'k_{Rbb}',
         'yD': r'y_D',
         'yF': r'y_F',
-        'yH': r'y-H',
+        'yH': r'y_H',
         'yP': r'y_P',
         'yR': r'y_R',
         'zR': r'z_R',
@@ -1057,7 +1057,7 @@ class Moore2019ParameterSet(ParameterSet):
         'mD': r'm_D',
         'mF': r'm_F',
         'mH': r'm_H',
-        'mP': r'm_B',
+        'mP': r'm_P',
         'mR': r'm_R',
         'rF': r'r_F',
         'rR': r'r_R',
@@ -1068,7 +1068,7 @@ class Moore2019ParameterSet(ParameterSet):
         'xH': r'x_H',
         'xP': r'x_P',
         'zD': r'z_D',
-        'zH': r'z-H',
+        'zH': r'z_H',
         'zP': r'z_P',
     }
 
@@ -1679,7 +1679,7 @@ class Moore2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
@@ -1783,7 +1783,7 @@ class MooreRiderLean2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
-- 
2.43.0


From ce35e207e098a44b2c6e7489780557462e8b0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 08/52] fix: parameter sets written as YAML can be read back

---
 bicycleparameters/parameter_sets.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 100000e..cd8ee9f 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -185,8 +185,10 @@ class ParameterSet(ABC):
             'description': '',
             'parameterization': self.parameterization,
             'parameters': '',
-            'rider': None,
-            'values': self.parameters,
+            'rider': getattr(self, 'includes_rider', None),
+            # NumPy floats can't be loaded, so store plain floats
+            'values': {k: float(v) if isinstance(v, float) else v
+                       for k, v in self.parameters.items()},
         }
         with open(fname, 'w') as f:
             yaml.dump(data, f)
@@ -1706,6 +1708,14 @@ class Moore2012ParameterSet(ParameterSet):
         self.includes_rider = includes_rider
         self._generate_body_colors()
 
+    @classmethod
+    def _from_yaml(cls, path_to_file):
+
+        with open(os.path.join(path_to_file), 'r') as f:
+            yaml_data = yaml.load(f, Loader=yaml.FullLoader)
+
+        return cls(yaml_data['values'], yaml_data['rider'])
+
 
 class MooreRiderLean2012ParameterSet(ParameterSet):
     """Represents the parameters of the Carvallo-Whipple model with a leaning
-- 
2.43.0


From 4d3184d23613bc7151c4a477e0f568d0a65f5556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 09/52] fix: principal axes are orthogonal and right handed for
 bodies with equal principal moments

---
 bicycleparameters/inertia.py |  9 +++++----
 bicycleparameters/main.py    | 12 +++---------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index d172c09..d0794d2 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -210,10 +210,11 @@ def principal_axes(I):
         The rotation matrix.
 
     '''
-    Ip, C = np.linalg.eig(I)
-    indices = np.argsort(Ip)
-    Ip = Ip[indices]
-    C = C.T[indices]
+    # the inertia tensor is symmetric, so the axes are orthogonal
+    Ip, C = np.linalg.eigh(I)
+    C = C.T
+    if np.linalg.det(C) < 0.0:  # make the axes right handed
+        C = -C
     return Ip, C
 
 
diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index d291465..7a12e1c 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -555,10 +555,7 @@ class Bicycle(object):
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
                 # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
+                yrow = np.argmax(np.abs(C[:, 1]))
                 # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
@@ -784,11 +781,8 @@ class Bicycle(object):
                     center = np.array([par['w'], par['rF']])
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
-                    # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
+                # which row in C is the y vector
+                yrow = np.argmax(np.abs(C[:, 1]))
                     # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
-- 
2.43.0


From 5035d5035051eb18ad9211210a08aecc0577aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 10/52] fix: combining a rider with a bicycle leaves the
 caller's parameters unchanged

---
 bicycleparameters/inertia.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index d0794d2..21f40ab 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -29,6 +29,8 @@ def combine_bike_rider(bicyclePar, riderPar):
 
     """
 
+    # do not change the caller's parameters
+    bicyclePar = bicyclePar.copy()
     # list the masses of the rider and bicycle
     masses = np.array([riderPar['mB'], bicyclePar['mB']])
     # list the centers of mass of the rider and bicycle
-- 
2.43.0


From c5011bcf61093e8056112834babe4e4256fb5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 11/52] fix: account for a laterally offset rider in the
 combined inertia

---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 21f40ab..3359d98 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -48,7 +48,7 @@ def combine_bike_rider(bicyclePar, riderPar):
                        riderPar['yB'] - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
-                         0.,
+                         -cT[1],
                          bicyclePar['zB'] - cT[2]])
     # calculate the total inertia about the total body center of mass
     I = (parallel_axis(IRider, riderPar['mB'], dRider) +
-- 
2.43.0


From 32ed0dc293156feb352bf37825d0a37d596a6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 12/52] fix: form part inertia tensors for mixed plain and
 uncertain parameters

---
 bicycleparameters/inertia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 3359d98..49388de 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -174,7 +174,8 @@ def part_inertia_tensor(par, part):
     documentation.
 
     '''
-    if isinstance(par['IBxx'], UFloat):
+    if any(isinstance(v, UFloat) for k, v in par.items()
+           if k.startswith('I' + part)):
         dtype = object
     else:
         dtype = 'float64'
-- 
2.43.0


From cefc9fa02a311a7258470b31bfa47a3aa918bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 13/52] fix: propagate the uncertainties to the steer axis tilt
 computed from perpendicular distances

---
 bicycleparameters/bicycle.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 5b932af..e90e321 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -1,8 +1,7 @@
 #!/usr/bin/env python
 
 import numpy as np
-from scipy.optimize import newton
-from uncertainties import umath, ufloat
+from uncertainties import umath
 
 
 def ab_matrix(M, C1, K0, K2, v, g):
@@ -189,23 +188,16 @@ def lambda_from_abc(rF, rR, a, b, c):
         The steer axis distance. The distance along the steer axis between the
         intersection of the front and rear wheel offset lines.
 
+    Returns
+    -------
+    lam : float or ufloat
+        The steer axis tilt.
+
     '''
-    def lam_equality(lam, rF, rR, a, b, c):
-        return umath.sin(lam) - (rF - rR + c * umath.cos(lam)) / (a + b)
-    guess = umath.atan(c / (a + b))  # guess based on equal wheel radii
-
-    # The following assumes that the uncertainty calculated for the guess is
-    # the same as the uncertainty for the true solution. This is not true! and
-    # will surely breakdown the further the guess is away from the true
-    # solution. There may be a way to calculate the correct uncertainity, but
-    # that needs to be figured out. I guess I could use least squares and do it
-    # the same way as get_period.
-
-    args = (rF.nominal_value, rR.nominal_value, a.nominal_value,
-            b.nominal_value, c.nominal_value)
-
-    lam = newton(lam_equality, guess.nominal_value, args=args)
-    return ufloat(lam, guess.std_dev)
+    # Solve (a + b) * sin(lam) - c * cos(lam) = rF - rR for lam in closed form
+    # so that the uncertainties propagate correctly.
+    return (umath.atan2(c, a + b) +
+            umath.asin((rF - rR) / umath.sqrt((a + b)**2 + c**2)))
 
 
 def sort_eigenmodes(evals, evecs):
-- 
2.43.0


From 151c236e34f7e06eb67b3f97532d15e1a854021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 14/52] fix: locate the handlebar reference point of bicycles
 with a vertical steer axis

---
 bicycleparameters/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 2846326..660ec58 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -178,7 +178,7 @@ def fwheel_to_handlebar_ref(lam, l1, l2):
     '''
 
     u1 = l2 * umath.sin(lam) - l1 * umath.cos(lam)
-    u2 = u1 / umath.tan(lam) + l1 / umath.sin(lam)
+    u2 = l2 * umath.cos(lam) + l1 * umath.sin(lam)
     return u1, u2
 
 
-- 
2.43.0


From 485acf6f71b7ba951a7836b913a73995c0ec5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 15/52] fix: the angle between (anti)parallel vectors is not
 nan

---
 bicycleparameters/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 660ec58..7e5dd74 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -315,8 +315,10 @@ def vec_angle(v1, v2):
     angle : float
         (radians) interior angle between v1 and v2.
     '''
-    return np.arccos(float(np.dot(v1.T, v2)) / (np.linalg.norm(v1) *
-                                                np.linalg.norm(v2)))
+    cos_angle = (np.dot(np.ravel(v1), np.ravel(v2)) /
+                 (np.linalg.norm(v1) * np.linalg.norm(v2)))
+    # round-off may give values slightly outside of [-1, 1]
+    return np.arccos(np.clip(cos_angle, -1.0, 1.0))
 
 
 def vec_project(vec, direction):
-- 
2.43.0


From 6932a6dabc52edd0aa52dc3bb12c8576bb88ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 16/52] fix: project vectors into the plane normal to a
 direction

---
 bicycleparameters/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 7e5dd74..4d5c7c8 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -342,10 +342,10 @@ def vec_project(vec, direction):
 
     '''
     vec = vec.flatten()
-    if type(direction) == int:
+    if isinstance(direction, (int, np.integer)):
         unitdir = np.zeros(3)
         unitdir[direction] = 1
-    elif type(direction) == np.array:
-        unitdir = direction / np.linalg.norm(direction)
-    proj = vec - np.dot(vec, unitdir)
+    else:
+        unitdir = np.ravel(direction) / np.linalg.norm(direction)
+    proj = vec - np.dot(vec, unitdir) * unitdir
     return proj.reshape((3, 1))
-- 
2.43.0


From c17149c827a29f5a82b101ea3863afbcae935bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 17/52] fix: two link angles reach the target when the first
 link overshoots it

---
 bicycleparameters/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 4d5c7c8..4c4bf25 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -154,7 +154,8 @@ def calc_two_link_angles(L1, L2, D):
     '''
 
     theta1 = np.arccos((L1**2 + D**2 - L2**2) / (2.0 * L1 * D))
-    theta2 = theta1 + np.arcsin(L1 / L2 * np.sin(theta1))
+    theta2 = theta1 + np.arctan2(L1 * np.sin(theta1),
+                                 D - L1 * np.cos(theta1))
 
     return theta1, theta2
 
-- 
2.43.0


From fe9b4a9fd6908447df987c6d52732b979eaa4dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 18/52] fix: remove uncertainties from dictionaries that hold
 sequences of floats

---
 bicycleparameters/io.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index dcb3b80..50355e4 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -103,16 +103,12 @@ def remove_uncertainties(dictionary):
     '''Returns a dictionary with the uncertainties removed.'''
     noUncert = {}
     for k, v in dictionary.items():
-        try:
-            # this is the case if the value is a single uncertainty
-            noUncert[k] = v.nominal_value
-        except AttributeError:
-            # this is the case if the value is an array of ufloats
-            try:
-                noUncert[k] = [x.nominal_value for x in v]
-            except TypeError:
-                # this is the case if the value is a float
-                noUncert[k] = v
+        if isinstance(v, (list, tuple, np.ndarray)):
+            # this is the case if the value is a sequence of floats or ufloats
+            noUncert[k] = [getattr(x, 'nominal_value', x) for x in v]
+        else:
+            # this is the case if the value is a single float or ufloat
+            noUncert[k] = getattr(v, 'nominal_value', v)
     return noUncert
 
 
-- 
2.43.0


From 1f9d68d9558adc3097fba57a3126873467ff3627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 19/52] fix: compute periods of recordings with any type of
 sample rate

---
 bicycleparameters/period.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index f37fddc..aa11f30 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -212,7 +212,7 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
     ----------
     data : array_like, shape(n,)
         A time series that resembles a decaying oscillation.
-    sample_rate_or_time : int or array_like, shape(n,)
+    sample_rate_or_time : float or array_like, shape(n,)
         Either the frequency in Hertz that data was sampled at or a time array
         that corresponds to ``data``.
     pathToPlotFile : string
@@ -226,12 +226,12 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
     '''
 
     y = data
-    if isinstance(sample_rate_or_time, int):
-        sample_rate = sample_rate_or_time
-        x = np.linspace(0.0, (len(y) - 1)/float(sample_rate), num=len(y))
+    if np.ndim(sample_rate_or_time) == 0:  # a sample rate
+        sample_rate = float(sample_rate_or_time)
+        x = np.linspace(0.0, (len(y) - 1)/sample_rate, num=len(y))
     else:
-        x = sample_rate_or_time
-        sample_rate = int(1.0/np.mean(np.diff(x)))  # approximate
+        x = np.asarray(sample_rate_or_time)
+        sample_rate = 1.0/np.mean(np.diff(x))  # approximate
 
     def fitfunc(p, t):
         '''Decaying oscillation function.'''
@@ -299,7 +299,7 @@ def get_period_from_truncated(data, sampleRate, pathToPlotFile):
     # Balanceassistv1 fork. This is a bit of a hack. It would be better to have
     # optional data processing steps per trials to maximize good period
     # estimates. This is trying to be a catch all as designed.
-    if isinstance(sampleRate, np.ndarray):  # time array
+    if np.ndim(sampleRate) > 0:  # time array
         dataGood = dataRec
     else:
         dataGood = select_good_data(dataRec, 0.1)
-- 
2.43.0


From cb5c1d3b7191ea3c6d3a50744c3ea2d1e8e8c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 20/52] fix: compute the error sum of squares from the
 residuals so that the period deviation is never nan

---
 bicycleparameters/period.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index aa11f30..e72e93d 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -199,7 +199,7 @@ def fit_goodness(ym, yp):
     '''
     SSR = np.sum((yp - np.mean(ym))**2)
     SST = np.sum((ym - np.mean(ym))**2)
-    SSE = SST - SSR
+    SSE = np.sum((ym - yp)**2)
     rsq = SSR / SST
     return rsq, SSE, SST, SSR
 
-- 
2.43.0


From ad1fcb7ba6622b7338501c1c5b31ea44a610d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 21/52] fix: the period does not depend on the time at which a
 recording starts

---
 bicycleparameters/period.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index e72e93d..670e9fa 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -230,7 +230,8 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
         sample_rate = float(sample_rate_or_time)
         x = np.linspace(0.0, (len(y) - 1)/sample_rate, num=len(y))
     else:
-        x = np.asarray(sample_rate_or_time)
+        # the fit is relative to the start of the recording
+        x = np.asarray(sample_rate_or_time) - sample_rate_or_time[0]
         sample_rate = 1.0/np.mean(np.diff(x))  # approximate
 
     def fitfunc(p, t):
-- 
2.43.0


From ffeaa8384e66ca9cc2262bcf4d7bee9ef28bc85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 22/52] fix: skip blank lines and indented comments in
 parameter files

---
 bicycleparameters/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 50355e4..7b18f3f 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -56,11 +56,12 @@ def load_parameter_text_file(pathToFile):
     # parse the text file
     with open(pathToFile, 'r') as f:
         for line in f:
-            # ignore lines that start with a hash
-            if line[0] != '#':
-                # remove any whitespace characters and comments at the end of
-                # the line, then split the right and left side of the equality
-                equality = line.strip().split('#')[0].split('=')
+            # remove comments and any surrounding whitespace characters
+            line = line.split('#')[0].strip()
+            # ignore blank lines and lines with only a comment
+            if line:
+                # split the right and left side of the equality
+                equality = line.split('=')
                 # ['a ', ' 0.1 +/- 0.05 , 0.09 +/- 0.05']
                 valList = equality[1].strip().split(',')
                 # ['0.1 +/- 0.05 ', ' 0.09 +/- 0.05']
-- 
2.43.0


From 7ddd307b96d69a480e1ddda582eeecff3a8c4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 23/52] fix: write parameter files to the working directory

---
 bicycleparameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 7b18f3f..1855f6f 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -132,7 +132,7 @@ def write_parameter_text_file(pathToTxtFile, parDict):
 
     # make the Parameters directory if it doesn't exist
     head, tail = os.path.split(pathToTxtFile)
-    if not os.path.isdir(head):
+    if head and not os.path.isdir(head):
         print("Created direcotry %s" % head)
         os.makedirs(head)
 
-- 
2.43.0


From a022c82067e57397811fdbf94d9fe2cab2dce380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 24/52] fix: load pendulum data files that do not contain notes

---
 bicycleparameters/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 1855f6f..4abd796 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -87,9 +87,9 @@ def load_pendulum_mat_file(pathToFile):
     del pendDat['__version__']
     # If notes is empty it loads like `array([], dtype='<U1')`, so make it an
     # empty string.
-    if not isinstance(pendDat['notes'], str):
-        if pendDat['notes'].shape == (0,):
-            pendDat['notes'] = ''
+    notes = pendDat.get('notes')
+    if isinstance(notes, np.ndarray) and notes.shape == (0,):
+        pendDat['notes'] = ''
     # If a time array is present, it may be variable sample rate so delete the
     # sampleRate and duration entries if they are there.
     if 'time' in pendDat:
-- 
2.43.0


From 9b308cd2c66888e8865875b1d00594e68bbe5259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 25/52] fix: periods are not appended to an unterminated last
 line of the measured file

---
 bicycleparameters/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 4abd796..7921655 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -203,6 +203,9 @@ def write_periods_to_file(pathToRawFile, mp):
         if not line.startswith('T'):
             baseData += line
     f.close()
+    # the last line may not be terminated
+    if baseData and not baseData.endswith('\n'):
+        baseData += '\n'
     # add the periods to the base data
     periodKeys = [x for x in mp.keys() if x.startswith('T')]
     periodKeys.sort()
-- 
2.43.0


From ebe1273b68e2d9c46793d97733990a9033ba6422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 26/52] fix: storing calculated periods keeps the other periods
 in the measured file

---
 bicycleparameters/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 7a12e1c..5281180 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -405,7 +405,8 @@ class Bicycle(object):
             # add the periods to the measured parameters
             self.parameters['Measured'].update(periods)
 
-            io.write_periods_to_file(pathToRawFile, periods)
+            io.write_periods_to_file(pathToRawFile,
+                                     self.parameters['Measured'])
 
         return calculate_benchmark_from_measured(self.parameters['Measured'])
 
-- 
2.43.0


From 757de90526c2637e1932ec6e2e08d43f2d2b4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 27/52] fix: save every parameter set in a file with its own
 name

---
 bicycleparameters/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 5281180..edd3ca5 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -203,11 +203,11 @@ class Bicycle(object):
 
         if filetype == 'text':
             for pset in psets:
-                fileName = fileName + pset + '.txt'
-                pathToTxtFile = os.path.join(pathToParDir, fileName)
+                psetFileName = fileName + pset + '.txt'
+                pathToTxtFile = os.path.join(pathToParDir, psetFileName)
                 io.write_parameter_text_file(pathToTxtFile, parameters[pset])
                 if self.hasRider:
-                    pathToCombFile = os.path.join(pathToCombDir, fileName)
+                    pathToCombFile = os.path.join(pathToCombDir, psetFileName)
                     io.write_parameter_text_file(pathToCombFile,
                                                  self.parameters[pset])
 
-- 
2.43.0


From 542041dd8c6f5019445e285a112979d3e4765b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 28/52] fix: creating a table does not change the table data

---
 bicycleparameters/tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index aa0c4d6..2edc4a2 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -81,12 +81,13 @@ class Table():
 
         """
 
-        table = self.tableData
+        # the table data is needed again if another table is created
+        table = [list(row) for row in self.tableData]
 
         # add the math directive if using latex
         if self.latex:
-            for i, row in enumerate(table):
-                self.tableData[i][0] = ':math:`' + row[0] + '`'
+            for row in table:
+                row[0] = ':math:`' + row[0] + '`'
 
         # add a sub header
         table.insert(0, ['Variable'])
-- 
2.43.0


From ecf0d67e118e1184bbde83f8cf99afde455a6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 29/52] fix: round values with zero and large uncertainties

---
 bicycleparameters/tables.py | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 2edc4a2..6b16b73 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -1,4 +1,4 @@
-from math import ceil
+from math import ceil, floor, isfinite, log10
 
 
 class Table():
@@ -223,8 +223,6 @@ def uround(value):
 
     2.4564+/-0.0004
 
-    This probably doesn't work for weird cases like large uncertainties.
-
     '''
     try:
     # grab the nominal value and the uncertainty
@@ -233,25 +231,15 @@ def uround(value):
         s = str(value)
     else:
         uncert = value.std_dev
-        if abs(nom) < 1e-15:
-            s = '0.0+/-0.0'
+        if uncert < 1e-15:
+            # exact values, there is nothing to round to
+            s = str(0.0 if abs(nom) < 1e-15 else nom) + '+/-0.0'
+        elif not isfinite(uncert):
+            s = str(nom) + '+/-' + str(uncert)
         else:
-            # convert the uncertainty to a string
-            s = '%.14f' % uncert
-            # find the first non-zero character
-            for j, number in enumerate(s):
-                if number == '0' or number == '.':
-                    pass
-                else:
-                    digit = j
-                    break
-            newUncert = round(uncert, digit - 1)
-            newUncertStr = ('%.' + str(digit - 1) + 'f') % newUncert
-            newNom = round(nom, len(newUncertStr) - 2)
-            newNomStr = ('%.' + str(digit - 1) + 'f') % newNom
-            diff = len(newUncertStr) - len(newNomStr)
-            if diff > 0:
-                s = newNomStr + int(diff) * '0' + '+/-' + newUncertStr
-            else:
-                s = newNomStr + '+/-' + newUncertStr
+            # the decimal place of the first significant digit of the
+            # uncertainty, negative for tens, hundreds, etc.
+            place = -int(floor(log10(uncert)))
+            fmt = '%.' + str(max(place, 0)) + 'f'
+            s = (fmt % round(nom, place)) + '+/-' + (fmt % round(uncert, place))
     return s
-- 
2.43.0


From d327082c4fe18a9e0e36e80b60125dc256cd7af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 30/52] fix: compare Bode plots of bicycles and speeds in the
 axes of the figure

---
 bicycleparameters/main.py | 4 ++--
 bicycleparameters/plot.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index edd3ca5..e73389f 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1507,13 +1507,13 @@ class Bicycle(object):
         """
 
         if fig is None:
-            fig = plt.figure()
+            fig, _ = plt.subplots(2, 1, sharex=True, layout='constrained')
 
         for speed in speeds:
             self.plot_bode(speed, u, y, label=str(speed) + ' m/s', fig=fig)
 
         # take care of phase misalignment
-        phaseLines = fig.ax2.lines
+        phaseLines = fig.axes[1].lines
         for line in phaseLines:
             firstValue = line.get_ydata()[0]
             n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
diff --git a/bicycleparameters/plot.py b/bicycleparameters/plot.py
index 2fa25cf..fff7ab7 100644
--- a/bicycleparameters/plot.py
+++ b/bicycleparameters/plot.py
@@ -17,8 +17,8 @@ def compare_bode_bicycles(bikes, speed, u, y, fig=None):
         An integer between 0 and 1 corresponding to the inputs roll torque
         and steer torque.
     y : integer
-        An integer between 0 and 3 corresponding to the inputs roll rate,
-        steer rate, roll angle and steer angle.
+        An integer between 0 and 3 corresponding to the outputs roll angle,
+        steer angle, roll rate and steer rate.
 
     Returns
     -------
@@ -33,13 +33,13 @@ def compare_bode_bicycles(bikes, speed, u, y, fig=None):
     """
 
     if fig is None:
-        fig = plt.figure()
+        fig, _ = plt.subplots(2, 1, sharex=True, layout='constrained')
 
     for bike in bikes:
         bike.plot_bode(speed, u, y, label=bike.bicycleName, fig=fig)
 
     # take care of phase misalignment
-    phaseLines = fig.ax2.lines
+    phaseLines = fig.axes[1].lines
     for line in phaseLines:
         firstValue = line.get_ydata()[0]
         n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
-- 
2.43.0


From 5537cba5a6918b6120d037603a4f0d9ec60b394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 31/52] fix: draw Plotly eigenvalue plots without stable
 speeds, of the largest eigenvalue, and in existing figures

---
 bicycleparameters/main.py | 130 ++++++++++++++++++--------------------
 1 file changed, 61 insertions(+), 69 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index e73389f..5f2f518 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1337,11 +1337,15 @@ class Bicycle(object):
         speeds = np.sort(speeds)
         if fig is None:
             fig = go.Figure(layout_yaxis_range=[-10, 10])
-            evals, evecs = self.eig(speeds)
+
+        evals, evecs = self.eig(speeds)
 
         if largest:
-            fig.add_trace(go.Scatter(x=speeds, y=np.max(evals)))
-            fig.show()
+            fig.add_trace(go.Scatter(x=speeds,
+                                     y=np.max(np.real(evals), axis=1),
+                                     mode='lines',
+                                     name='Max Eigenvalue',
+                                     text='Re'))
         else:
             w, cap, cas = bicycle.sort_modes(evals, evecs)
             colors_eig = px.colors.qualitative.Pastel
@@ -1349,78 +1353,66 @@ class Bicycle(object):
             weaveColor2 = colors_eig[1]
             capsizeColor = colors_eig[2]
             casterColor = colors_eig[5]
-        wea1 = w['evals'][:, 0]
-        wea2 = w['evals'][:, 1]
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(wea1),
-                                 mode='lines',
-                                 name='Re Weave',
-                                 line=dict(color=weaveColor1),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(wea2),
-                                 mode='lines',
-                                 name='Re Weave',
-                                 line=dict(color=weaveColor2),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(cap['evals']),
-                                 mode='lines',
-                                 name='Re Capsize',
-                                 line=dict(color=capsizeColor),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(cas['evals']),
-                                 mode='lines',
-                                 name='Re Castering',
-                                 line=dict(color=casterColor),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea1)),
-                                 mode='lines',
-                                 name='Im Weave',
-                                 line=dict(color=weaveColor1, dash='dash'),
-                                 text='Im'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea2)),
-                                 mode='lines',
-                                 name='Im Weave',
-                                 line=dict(color=weaveColor2, dash='dash'),
-                                 text='Im'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cap['evals'])),
-                                 mode='lines',
-                                 name='Im Capsize',
-                                 line=dict(color=capsizeColor, dash='dash'),
-                                 text='Im'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cas['evals'])),
-                                 mode='lines',
-                                 name='Im Castering',
-                                 line=dict(color=casterColor, dash='dash'),
-                                 text='Im'))
+            wea1 = w['evals'][:, 0]
+            wea2 = w['evals'][:, 1]
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(wea1),
+                                     mode='lines',
+                                     name='Re Weave',
+                                     line=dict(color=weaveColor1),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(wea2),
+                                     mode='lines',
+                                     name='Re Weave',
+                                     line=dict(color=weaveColor2),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(cap['evals']),
+                                     mode='lines',
+                                     name='Re Capsize',
+                                     line=dict(color=capsizeColor),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(cas['evals']),
+                                     mode='lines',
+                                     name='Re Castering',
+                                     line=dict(color=casterColor),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea1)),
+                                     mode='lines',
+                                     name='Im Weave',
+                                     line=dict(color=weaveColor1, dash='dash'),
+                                     text='Im'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea2)),
+                                     mode='lines',
+                                     name='Im Weave',
+                                     line=dict(color=weaveColor2, dash='dash'),
+                                     text='Im'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cap['evals'])),
+                                     mode='lines',
+                                     name='Im Capsize',
+                                     line=dict(color=capsizeColor, dash='dash'),
+                                     text='Im'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cas['evals'])),
+                                     mode='lines',
+                                     name='Im Castering',
+                                     line=dict(color=casterColor, dash='dash'),
+                                     text='Im'))
         if stability_region:
-            try:
-                v_start_stab = max([min(speeds[np.real(wea2) < 0]),
-                                    min(speeds[np.real(cas['evals']) < 0]),
-                                    min(speeds[np.real(cap['evals']) < 0]),
-                                    min(speeds[np.real(wea1) < 0],
-                                        default="EMPTY")])
-                v_end_stab = min([max(speeds[np.real(wea2) < 0]),
-                                  max(speeds[np.real(cas['evals']) < 0]),
-                                  max(speeds[np.real(cap['evals']) < 0]),
-                                  max(speeds[np.real(wea1) < 0])])
-            except:  # TODO : Add explicit exception
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            if (v_start_stab > v_end_stab):
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            elif (v_end_stab - v_start_stab < 0.0001):
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            else:
+            # the first and last index of each range of stable speeds
+            stable = np.all(np.real(evals) < 0.0, axis=1)
+            edges = np.flatnonzero(np.diff(np.r_[0, stable, 0]))
+            regions = [(speeds[i], speeds[j]) for i, j in
+                       zip(edges[::2], edges[1::2] - 1)
+                       if speeds[j] - speeds[i] >= 0.0001]
+            for v_start_stab, v_end_stab in regions:
                 fig.add_vrect(x0=v_start_stab, x1=v_end_stab,
                               annotation_text="Self stability",
                               annotation_position='top left',
                               # fillcolor="blue", opacity=0.25,
                               fillcolor='rgba(71,147,231,0.5)',
-                              line_width=0, row=1, col=1)
+                              line_width=0)
+            if not regions:
+                fig.add_annotation(x=0.5*max(speeds), y=9,
+                                   text="No stability region",
+                                   showarrow=False)
 
         fig.update_layout(title=dict(text='Eigenvalues vs velocity',
                           font=dict(family="Segoe UI", size=25)),
-- 
2.43.0


From 7b6727df8077ce5e73aa97dce3d243fbb4319c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 32/52] fix: the optional y moments of inertia are zero if not
 given

---
 bicycleparameters/inertia.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 49388de..3a1528c 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -193,7 +193,12 @@ def part_inertia_tensor(par, part):
     for i, row in enumerate(axes):
         for j, col in enumerate(row):
             if col is not None:
-                I[i, j] = par['I' + part + col]
+                key = 'I' + part + col
+                if key in ('IByy', 'IHyy'):
+                    # optional, assumed to be zero if not given
+                    I[i, j] = par.get(key, 0.0)
+                else:
+                    I[i, j] = par[key]
     return I
 
 
-- 
2.43.0


From de967f47dcb67736b15bc0f316bf20fed0f100c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 33/52] fix: combine riders without a lateral offset with a
 bicycle

---
 bicycleparameters/inertia.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 3a1528c..34ff711 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -33,9 +33,11 @@ def combine_bike_rider(bicyclePar, riderPar):
     bicyclePar = bicyclePar.copy()
     # list the masses of the rider and bicycle
     masses = np.array([riderPar['mB'], bicyclePar['mB']])
+    # the rider's lateral offset is optional
+    riderYB = riderPar.get('yB', 0.0)
     # list the centers of mass of the rider and bicycle
     coordinates = np.array([[riderPar['xB'], bicyclePar['xB']],
-                            [riderPar['yB'], 0.],
+                            [riderYB, 0.],
                             [riderPar['zB'], bicyclePar['zB']]])
     # calculate the new mass and center of mass
     mT, cT = total_com(coordinates, masses)
@@ -45,7 +47,7 @@ def combine_bike_rider(bicyclePar, riderPar):
     # calculate the distance from the center of mass of each body to the
     # center of mass of the combined body
     dRider = np.array([riderPar['xB'] - cT[0],
-                       riderPar['yB'] - cT[1],
+                       riderYB - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
                          -cT[1],
-- 
2.43.0


From fd8fbbc1ef401eac04f7e975945a0178a4a0e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 34/52] fix: plot the eigenvectors of each value of a varied
 parameter

---
 bicycleparameters/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 79a1855..e70c32f 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -300,7 +300,8 @@ class _Model(abc.ABC):
             **parameter_overrides)
 
         eval_seq, evec_seq = self.calc_eigen(**parameter_overrides)
-        eval_seq, evec_seq = np.atleast_2d(eval_seq), np.atleast_3d(evec_seq)
+        if not arr_keys:
+            eval_seq, evec_seq = eval_seq[np.newaxis], evec_seq[np.newaxis]
 
         # TODO : This assumes that the eigenvalues are in the same order.
         plot = np.ones(len(eval_seq[-1]), dtype=int)
@@ -339,7 +340,7 @@ class _Model(abc.ABC):
         else:
             par_vals = [0.0]
 
-        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq.T,
+        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq,
                                                         par_vals)):
 
             if arr_keys:
@@ -348,7 +349,7 @@ class _Model(abc.ABC):
                                       labelpad=30)
 
             i = 0
-            for eigenval, eigenvec, pl in zip(evals, evecs, plot):
+            for eigenval, eigenvec, pl in zip(evals, evecs.T, plot):
 
                 if pl:
                     max_com = np.abs(eigenvec).max()
-- 
2.43.0


From 78a1039dbe7a7a30ec84eeb5b10863c79ee2deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 35/52] fix: plot the lean rate in the leaning rider's mode
 simulations

---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index e70c32f..8c3c7a1 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1280,7 +1280,7 @@ class MooreRiderLean2012Model(_Model):
                   'u4', 'u6', 'u7', 'u9']
     input_units = ['N-m', 'N-m', 'N-m']
     state_units = ['m', 'm', 'rad', 'rad', 'rad', 'rad', 'rad', 'rad',
-                   'rad/s', 'rad/s', 'rad/s', ]
+                   'rad/s', 'rad/s', 'rad/s', 'rad/s']
     input_vars_latex = ['T_4', 'T_7', 'T_9']
     state_vars_latex = ['q_1', 'q_2', 'q_3', 'q_4', 'q_6', 'q_7', 'q_8', 'q_9',
                         'u_4', 'u_6', 'u_7', 'u_9']
-- 
2.43.0


From 5b3fc8fe003009b9322977a19a3c5f07b2a411ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 36/52] fix: label the mode simulation axes with the plotted
 units

---
 bicycleparameters/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 8c3c7a1..5dcf66d 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -548,7 +548,9 @@ class _Model(abc.ABC):
                 else:
                     fontcolor = 'black'
                 for j, unit in enumerate(unique_units):
-                    axes[i, j].set_ylabel('[{}]'.format(unit))
+                    # angles are plotted in degrees
+                    axes[i, j].set_ylabel('[{}]'.format(
+                        unit.replace('rad', 'deg')))
                     axes[i, j].set_title(msg.format(e_val),
                                          fontdict={'color': fontcolor})
                     axes[i, j].legend()
-- 
2.43.0


From 186cbb65f5f634ccd3c3b134ace34338f13424af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 37/52] fix: calculate the modal controllability for scalar
 parameters

---
 bicycleparameters/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 5dcf66d..02f226a 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -904,7 +904,8 @@ class Meijaard2007Model(_Model):
 
         _, B = self.form_state_space_matrices(**parameter_overrides)
         evals, evecs = self.calc_eigen(left=True, **parameter_overrides)
-        evals, evecs = sort_eigenmodes(evals, evecs)
+        if evals.ndim > 1:
+            evals, evecs = sort_eigenmodes(evals, evecs)
 
         def mod_cont(q, b, acute=True):
             """Returns the modal controllability value of the eigenvector q and
-- 
2.43.0


From 802e6c8e7e9bc99e5939eefaf885c6c73e601208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 38/52] fix: draw the inertia ellipses of a bicycle along the
 principal axes

---
 bicycleparameters/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 5f2f518..09c4461 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -572,7 +572,8 @@ class Bicycle(object):
                 # principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                # z is drawn upwards
+                angle = np.degrees(np.arctan2(-C2D[0, 1], C2D[0, 0]))
                 ellipse = Ellipse((center[0], center[1]), width, height,
                                   angle=angle, fill=False,
                                   color=partColors[part], alpha=0.25)
@@ -799,14 +800,15 @@ class Bicycle(object):
                 # the maximum principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                # z is drawn upwards
+                angle = np.arctan2(-C2D[0, 1], C2D[0, 0])
                 x_center = center[0]
                 y_center = center[1]
                 x_ep, y_ep = plot._generate_ellipse_plot_data(
                     x_center=x_center, y_center=y_center,
                     ax1=[np.cos(angle), np.sin(angle)],
                     ax2=[-np.sin(angle), np.cos(angle)],
-                    a=height, b=width, N=100)
+                    a=width, b=height, N=100)
 
                 fig1.add_scatter(x=x_ep, y=y_ep, mode='lines',
                                  name='Inertia of ' + part,
-- 
2.43.0


From e4d5625165e4562bf529d9f90068e3e5b1f1d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 39/52] fix: draw inertia ellipsoids with the full length of
 their axes

---
 bicycleparameters/parameter_sets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index cd8ee9f..fdda955 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -783,8 +783,9 @@ class Meijaard2007ParameterSet(ParameterSet):
 
         kaa, kbb, kyy, alpha = self._planar_principal_radii_of_gyration(body)
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # NOTE : width and height are twice the semi-axes of the ellipsoid
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)], p['z{}'.format(body)]),
                                   width, height,
@@ -1466,8 +1467,9 @@ class Moore2019ParameterSet(ParameterSet):
         kyy = p['k{}yy'.format(body)]
         alpha = p['alpha{}'.format(body)]
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # NOTE : width and height are twice the semi-axes of the ellipsoid
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)],
                                    p['z{}'.format(body)]), width, height,
-- 
2.43.0


From 2d3aa25b4d5975180b22dfcae0ab888c2f71fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 40/52] fix: show the steer axis tilt in the web app without
 truncating it

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index ed1611e..f605498 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -314,7 +314,7 @@ def populate_wheel_data(value, n_clicks):
     lamD = data[2]
     radians = lamD.get('data')
     degrees = np.rad2deg(radians)
-    data[2] = {'data': int(degrees)}
+    data[2] = {'data': float(degrees)}
 
     for c, d in zip(genLabels, data):
         zipped = {}
-- 
2.43.0


From 673b7fbc2cd4e6193ab7c050b3d5a7cd9c1c5a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 41/52] fix: return the web app's figures in the order of the
 outputs

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index f605498..af07daf 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -396,7 +396,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     eigen_plot = Bike._plot_eigenvalues_vs_speed_plotly(
         speeds, show=False, stability_region=stability_option)
 
-    return eigen_plot, geo_plot
+    return geo_plot, eigen_plot
 
 
 # sets loading notification for the geometry plot
-- 
2.43.0


From 87bd8f57f4c687d5dadce8c7f23269b8332212da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 42/52] fix: plot the eigenvalues in the web app for a range of
 a single speed

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index af07daf..92c7eba 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -355,7 +355,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     minBound = rangeSliderData[0]
     maxBound = rangeSliderData[1]
     steps = (maxBound-minBound)/0.1
-    speeds = np.linspace(minBound, maxBound, num=int(steps))
+    speeds = np.linspace(minBound, maxBound, num=int(round(steps)) + 1)
 
     # create Bike using default data based on dropdown menu value
     Bike = bp.Bicycle(value, pathToData=PATH_TO_APP_DATA)
-- 
2.43.0


From bc7666de6696b3259c7ec758ca9df5a11bc50523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 43/52] fix: measurements of ten or more orientations were
 paired with the wrong periods

---
 bicycleparameters/com.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/com.py b/bicycleparameters/com.py
index 6eba9f4..8a26e40 100644
--- a/bicycleparameters/com.py
+++ b/bicycleparameters/com.py
@@ -197,7 +197,8 @@ def part_com_lines(mp, par, forkIsSplit):
 
     # get the alpha keys and put them in order
     listOfAlphaKeys = [x for x in mp.keys() if x.startswith('alpha')]
-    listOfAlphaKeys.sort()
+    # alphaB2 comes before alphaB10
+    listOfAlphaKeys.sort(key=lambda x: (len(x), x))
 
     # caluclate m, b and beta for each orientation
     for key in listOfAlphaKeys:
-- 
2.43.0


From 093eb8e2bf25e7d8078db8f9ea2dd52f1af4ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 44/52] fix: periods missing in the measured file are
 calculated from the recordings if only a few are missing

---
 bicycleparameters/period.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index 670e9fa..431c467 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -152,24 +152,22 @@ def check_for_period(mp, forkIsSplit):
 
     '''
     forcePeriodCalc = False
-    # Check to see if mp contains at enough periods to not need
+    # Check to see if mp contains all periods that are needed to not need
     # recalculation
-    ncTSum = 0
-    ntTSum = 0
-    for key in mp.keys():
-        # check for any periods in the keys
-        if key[:2] == 'Tc':
-            ncTSum += 1
-        elif key[:2] == 'Tt':
-            ntTSum += 1
-
-    # if there isn't enough data then force the period cals again
     if forkIsSplit:
-        if ncTSum < 5 or ntTSum < 11:
-            forcePeriodCalc = True
+        parts = 'BSG'
     else:
-        if ncTSum < 4 or ntTSum < 8:
-            forcePeriodCalc = True
+        parts = 'BH'
+    needed = ['TcF1', 'TcR1', 'TtF1', 'TtR1', 'TtP1']
+    for part in parts:
+        needed.append('Tc' + part + '1')
+        # there is a torsional period for each orientation
+        orientations = [x for x in mp.keys() if x.startswith('alpha' + part)]
+        needed += ['Tt' + part + str(i + 1) for i in range(len(orientations))]
+
+    # if there isn't enough data then force the period cals again
+    if any(key not in mp for key in needed):
+        forcePeriodCalc = True
 
     return forcePeriodCalc
 
-- 
2.43.0


From 6dc8a7942ff7e7b2d28e23d6fa446e7bc56bd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 45/52] fix: order of table rows differed between processes for
 variables that differ only in case

---
 bicycleparameters/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 6b16b73..c40dba4 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -38,7 +38,7 @@ class Table():
             allVariables += self.bicycle.parameters[self.source].keys()
         # remove duplicates and sort
         self.allVariables = sorted(list(set(allVariables)), key=lambda x:
-                                   x.lower())
+                                   (x.lower(), x))
 
     def generate_table_data(self):
         """Generates a list of data for a table."""
-- 
2.43.0


From 0bfc8c3acc273dd6fe6842b8141d89be1a8e100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 46/52] fix: gains given as whole numbers first truncated the
 other gains

The gain matrices got an integer data type if all eight gains were arrays
starting with an integer, and fractions of later values were cut off.
---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 02f226a..3027601 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1139,7 +1139,7 @@ class Meijaard2007WithFeedbackModel(Meijaard2007Model):
             K = np.array([
                 [par[p][0] if p in arr_keys else par[p] for p in gain_names[:4]],
                 [par[p][0] if p in arr_keys else par[p] for p in gain_names[4:]]
-            ])
+            ], dtype=float)
             # K is now shape(n, 2, 4)
             K = np.tile(K, (arr_len, 1, 1))
             for k in arr_keys:
-- 
2.43.0


From eca0a13f3b990fce91226f2641a2fdb1897781d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:55 +0000
Subject: [PATCH 47/52] fix: eigenvectors and modes can be plotted if
 hide_zeros leaves one

---
 bicycleparameters/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 3027601..8cd28e9 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -329,8 +329,7 @@ class _Model(abc.ABC):
         fig, axes = plt.subplots(eval_seq.shape[0],
                                  np.count_nonzero(plot),
                                  subplot_kw={'projection': 'polar'},
-                                 layout='constrained')
-        axes = np.atleast_2d(axes)
+                                 layout='constrained', squeeze=False)
         fig.set_size_inches(axes.shape[1]*3, axes.shape[0]*3)
         lw = list(range(1, len(self.state_vars) + 1))
         lw.reverse()
@@ -527,6 +526,7 @@ class _Model(abc.ABC):
 
         fig, axes = plt.subplots(np.count_nonzero(plot),
                                  len(unique_units), sharex=True,
+                                 squeeze=False,
                                  figsize=(len(unique_units)*3.0,
                                           np.count_nonzero(plot)*2.0),
                                  layout='constrained')
-- 
2.43.0


From d75d403b117402f5cd94c566edb4c67b9a6e72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:59 +0000
Subject: [PATCH 48/52] fix: part letter was lost in the symbols of the tenth
 and later orientations

---
 bicycleparameters/tables.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index c40dba4..fb813a9 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -188,11 +188,11 @@ def to_latex(var):
         latex = latexMap[var]
     except KeyError:
         if var.startswith('alpha'):
-            latex = r'\alpha_{' + var[-2:] + '}'
-        elif var.startswith('a') and len(var) == 3:
-            latex = 'a_{' + var[-2:] + '}'
+            latex = r'\alpha_{' + var[5:] + '}'
+        elif var.startswith('a') and var[2:].isdigit():
+            latex = 'a_{' + var[1:] + '}'
         elif var.startswith('T'):
-            latex = 'T^' + var[1] + '_{' + var[-2:] + '}'
+            latex = 'T^' + var[1] + '_{' + var[2:] + '}'
         elif len(var) == 2:
             latex = var[0] + '_' + var[1]
         elif var.startswith('I'):
-- 
2.43.0


From 462fbca11f80d7aa86d4f6b045351b926aa28d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:53 +0000
Subject: [PATCH 49/52] fix: angles of fully stretched links were NaN due to
 round-off

---
 bicycleparameters/geometry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 4c4bf25..a221447 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -153,7 +153,12 @@ def calc_two_link_angles(L1, L2, D):
 
     '''
 
-    theta1 = np.arccos((L1**2 + D**2 - L2**2) / (2.0 * L1 * D))
+    cos_theta1 = (L1**2 + D**2 - L2**2) / (2.0 * L1 * D)
+    # round-off may give values slightly outside of [-1, 1] if the links are
+    # fully stretched or folded
+    cos_theta1 = np.where(np.abs(np.abs(cos_theta1) - 1.0) < 1e-10,
+                          np.sign(cos_theta1), cos_theta1)[()]
+    theta1 = np.arccos(cos_theta1)
     theta2 = theta1 + np.arctan2(L1 * np.sin(theta1),
                                  D - L1 * np.cos(theta1))
 
-- 
2.43.0


From 117bd0b351f4dc12f18e71b9a2f1e88b98f69d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:50 +0000
Subject: [PATCH 50/52] fix: vertical steer axes were not drawn for wheels of
 equal size

---
 bicycleparameters/main.py           | 8 ++++----
 bicycleparameters/parameter_sets.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 09c4461..e7731e5 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -596,8 +596,8 @@ class Bicycle(object):
         deex, deez = geometry.fundamental_geometry_plot_data(par)
         ax.plot(deex, -deez, 'k')
 
-        # plot the steer axis
-        dx3 = deex[2] + deez[2] * (deex[2] - deex[1]) / (deez[1] - deez[2])
+        # plot the steer axis, it meets the ground at the trail point
+        dx3 = par['w'] + par['c']
         ax.plot([deex[2], dx3],  [-deez[2], 0.], 'k--')
 
         # don't plot the pendulum lines if a rider has been added because the
@@ -858,8 +858,8 @@ class Bicycle(object):
                                   line_color='black',
                                   hovertemplate="%{x:.3f}<br>%{y:.3f}"))
 
-        # plot the steer axis
-        dx3 = deex[2] + deez[2] * (deex[2] - deex[1]) / (deez[1] - deez[2])
+        # plot the steer axis, it meets the ground at the trail point
+        dx3 = par['w'] + par['c']
 
         fig1.add_trace(go.Scatter(x=[deex[2], dx3], y=[-deez[2], 0.],
                                   mode='lines',
diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index fdda955..dfdd494 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -62,8 +62,8 @@ def _plot_geometry_from_benchmark(ax, parameters, show_steer_axis=True):
     ax.plot(deex, deez, color='k', linewidth=2)
 
     if show_steer_axis:
-        # plot the steer axis
-        dx3 = deex[2] - deez[2] * (deex[2] - deex[1]) / (-deez[1] + deez[2])
+        # plot the steer axis, it meets the ground at the trail point
+        dx3 = p['w'] + p['c']
         ax.plot([deex[2], dx3], [deez[2], 0.], 'k--')
 
     return ax
-- 
2.43.0


From 11ce0a997f1bfac3b1bcfe69fa54c01e73337547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:09 +0000
Subject: [PATCH 51/52] fix: cartesian() does not cut the entries to the type
 of the first array

---
 bicycleparameters/com.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/com.py b/bicycleparameters/com.py
index 8a26e40..fbb25a6 100644
--- a/bicycleparameters/com.py
+++ b/bicycleparameters/com.py
@@ -43,7 +43,7 @@ def cartesian(arrays, out=None):
     """
 
     arrays = [np.asarray(x) for x in arrays]
-    dtype = arrays[0].dtype
+    dtype = np.result_type(*arrays)
 
     n = np.prod([x.size for x in arrays])
     if out is None:
-- 
2.43.0


From 6072fcd644f98ca331b25cf7a65384b43bfc503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:09 +0000
Subject: [PATCH 52/52] fix: plots of the fits stay out of RawData when its
 path ends with a slash

---
 bicycleparameters/period.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index 431c467..0aa265d 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -88,7 +88,7 @@ def calc_periods_for_files(directory, filenames, forkIsSplit):
     periods = {}
 
     # directory is /path/to/data/bicycles/BikeName/RawData
-    path_to_bicycle_dir = os.sep.join(directory.split(os.sep)[:-1])
+    path_to_bicycle_dir = os.path.dirname(directory.rstrip(os.sep))
     pathToPlotDir = os.path.join(path_to_bicycle_dir, 'Plots', 'PendulumFit')
 
     # make sure there is a place to save the plots
-- 
2.43.0


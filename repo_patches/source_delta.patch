From d417e47f147b33573086230aeb27b3cec2a357dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 01/30] fix: DataContainer kept duplicate angles that are only
 equal modulo 2*pi

---
 shgpy/core/data_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 8327222..42153db 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -87,10 +87,12 @@ class DataContainer:
 
     def _remove_duplicates(self):
         for k,v in self._data_dict.items():
+            seen = set()
             new_xdata = []
             new_ydata = []
             for x,y in zip(v[0], v[1]):
-                if not (x % (2*np.pi)) in new_xdata:
+                if not (x % (2*np.pi)) in seen:
+                    seen.add(x % (2*np.pi))
                     new_xdata.append(x)
                     new_ydata.append(y)
             if len(new_xdata) != len(v[0]):
-- 
2.43.0


From ca29943ecd4dbac98db428147c98f5dabda4dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 02/30] fix: DataContainer.copy() raised and
 fDataContainer.copy() corrupted the phase shift

---
 shgpy/core/data_handler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 42153db..00976ce 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -66,10 +66,12 @@ class DataContainer:
 
     def copy(self):
         """Return a copy of the DataContainer."""
-        dat = DataContainer(self._data_dict, normal_to_oblique=self.coerced)
+        dat = DataContainer(self._data_dict, 'radians')
+        dat._input_angle_units = self._input_angle_units
         dat._scale = self._scale
-        dat._phase_shift = self._phase_shift,
+        dat._phase_shift = self._phase_shift
         dat._offset = self._offset
+        dat._coerced = self._coerced
         return dat
 
     def _check_angle_units(self, angle_units):
@@ -452,7 +454,7 @@ class fDataContainer:
         """Return a copy of the fDataContainer."""
         fdat = fDataContainer(self._fdata_dict, M=self._M)
         fdat._scale = self._scale
-        fdat._phase_shift = self._phase_shift,
+        fdat._phase_shift = self._phase_shift
         return fdat
 
     def _check_defining_iterable(self, iterable):
-- 
2.43.0


From 7efbd7fef65afefe0dc462471075f32bcf918229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 03/30] fix: DataContainer truncated the angles of
 integer-typed data to integers

---
 shgpy/core/data_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 00976ce..e27c462 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -51,7 +51,10 @@ class DataContainer:
         self._check_defining_iterable(iterable)
         self._input_angle_units = input_angle_units
         self._scale = 1
-        self._data_dict = deepcopy(dict(iterable))
+        self._data_dict = {
+            k:v.astype(float) if np.issubdtype(v.dtype, np.integer) else v
+            for k,v in deepcopy(dict(iterable)).items()
+        }
         self._phase_shift = 0
         self._offset = 0
         self._coerced = False
-- 
2.43.0


From cf2405c0f4ccffa0089a3bfa058f85044540a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 04/30] fix: Fourier transform of a sum mishandled terms which
 are not products

---
 shgpy/core/_fourier_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/_fourier_transform.py b/shgpy/core/_fourier_transform.py
index 45e68d3..68f9007 100644
--- a/shgpy/core/_fourier_transform.py
+++ b/shgpy/core/_fourier_transform.py
@@ -84,7 +84,7 @@ def _fourier_transform(expr, n, M=16):
         for arg in expr.args:
             has_phi = []
             no_phi = []
-            for a in arg.args:
+            for a in sp.Mul.make_args(arg):
                 if a.has(S.phi):
                     has_phi.append(a)
                 else:
-- 
2.43.0


From 8f15bebcac28c7fde24f06918098d1ce0164ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 05/30] fix: particularize(permute_all_indices=True) raised for
 fully symmetric tensors

---
 shgpy/core/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index d206885..f7cb4be 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -44,6 +44,9 @@ def _particularize_all(tensor, exclude=[]):
         for j in set(itertools.permutations(i)):
             expr_list.append(tensor[i]-tensor[j])
 
+    if not any(expr_list):
+        return tensor
+
     sols = solve(expr_list, dict=True, exclude=exclude)
     
     return _apply_sol_to_tensor(tensor, sols[0])
-- 
2.43.0


From e84b089f510007b4c126984c5f3b88f3dbeb62a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 06/30] fix: rotation_matrix3(symb) overwrote its axis argument
 and truncated integer axes

---
 shgpy/core/utilities.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index f7cb4be..ebf5734 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -170,8 +170,7 @@ def rotation_matrix3(n, t):
     rotation_matrix3 : ndarray of float
     """
     n_mag = _norm(n)
-    for i in range(3):
-        n[i] /= n_mag
+    n = [n[i]/n_mag for i in range(3)]
     c = np.cos(t)
     s = np.sin(t)
     nx,ny,nz = n
@@ -196,8 +195,7 @@ def rotation_matrix3symb(n,t, ndigits=16):
     rotation_matrix3symb : ndarray of sympy.Expr
     """
     n_mag = _normsymb(n)
-    for i in range(3):
-        n[i] /= n_mag
+    n = [n[i]/n_mag for i in range(3)]
     c = sp.cos(t)
     s = sp.sin(t)
     nx,ny,nz = n
-- 
2.43.0


From 0cb388982190fb9acadd73cc3f48426d97fce3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 07/30] fix: Fourier transform of a single-term expression such
 as cos(phi) or x*cos(2*phi) was wrong

---
 shgpy/core/_fourier_transform.py | 110 +++++++------------------------
 1 file changed, 25 insertions(+), 85 deletions(-)

diff --git a/shgpy/core/_fourier_transform.py b/shgpy/core/_fourier_transform.py
index 68f9007..5f2cdbf 100644
--- a/shgpy/core/_fourier_transform.py
+++ b/shgpy/core/_fourier_transform.py
@@ -18,90 +18,30 @@ def n2i(n, M=16):
     return n+M
 
 
-def _get_keyterms(expr):
-    keyterms = []
-
-    def gen(expr):
-        for arg in expr.args:
-            if S.phi in arg.free_symbols:
-                if arg.func == sp.Pow:
-                    for i in range(arg.args[1]):
-                        yield arg.args[0]
-                else:
-                    yield arg
-
-    if expr.func == sp.Mul:
-        keyterms.append(sp.Mul(*gen(expr)))
-    elif expr.func == sp.Add:
-        for arg in expr.args:
-            keyterms.append(sp.Mul(*gen(arg)))
-    else:
-        keyterms.append(expr)
-    return list(set(keyterms))
-
-
-def _get_code(mul):
-    num_cos = 0
-    num_sin = 0
-    if mul.func == sp.Mul:
-        for arg in mul.args:
-            if arg.func == sp.Pow:
-                tp = arg.args[0].func
-                if tp == sp.sin:
-                    num_sin += arg.args[1]
-                elif tp == sp.cos:
-                    num_cos += arg.args[1]
-            else:
-                tp = arg.func
-                if tp == sp.sin:
-                    num_sin += 1
-                elif tp == sp.cos:
-                    num_cos += 1
-    elif mul.func == sp.Pow:
-        tp = mul.args[0].func
-        if tp == sp.sin:
-            num_sin = mul.args[1]
-        elif tp == sp.cos:
-            num_cos = mul.args[1]
-    return num_cos, num_sin
-
-
 def _fourier_transform(expr, n, M=16):
-    if expr.func == sp.Add or S.phi not in expr.free_symbols:
-        if S.phi not in expr.free_symbols:
-            if n == 0:
-                return expr
-            return 0
-        relevant_codes = {}
-        for code in _lookup_table.keys():
-            relevant_codes[code] = _lookup_table[code][n2i(n, M=16)]
-        mapping = {
-            sp.cos(S.phi)**code[0]*sp.sin(S.phi)**code[1]:ftval
-            for code, ftval in relevant_codes.items()
-        }
-        start = time.time()
-        args = []
-        for arg in expr.args:
-            has_phi = []
-            no_phi = []
-            for a in sp.Mul.make_args(arg):
-                if a.has(S.phi):
-                    has_phi.append(a)
-                else:
-                    no_phi.append(a)
-            no_phi.append(mapping[sp.Mul(*has_phi)])
-            args.append(sp.Mul(*no_phi))
-        ans = expr.func(*args)
-        _logger.debug(f'Computing n={n} took {time.time()-start} seconds.')
-    else:
-        _logger.debug(f'Computing term n={n}, only one arg')
-        keyterms = _get_keyterms(expr)
-        assert len(keyterms) == 1
-        keyterm = keyterms[0]
-        code = _get_code(keyterm)
-        ftval = _lookup_table[code][n2i(n, M=16)]
-        if ftval != 0:
-            ans = expr / keyterm * ftval
-        else:
-            ans = 0
+    if S.phi not in expr.free_symbols:
+        if n == 0:
+            return expr
+        return 0
+    relevant_codes = {}
+    for code in _lookup_table.keys():
+        relevant_codes[code] = _lookup_table[code][n2i(n, M=16)]
+    mapping = {
+        sp.cos(S.phi)**code[0]*sp.sin(S.phi)**code[1]:ftval
+        for code, ftval in relevant_codes.items()
+    }
+    start = time.time()
+    args = []
+    for arg in sp.Add.make_args(expr):
+        has_phi = []
+        no_phi = []
+        for a in sp.Mul.make_args(arg):
+            if a.has(S.phi):
+                has_phi.append(a)
+            else:
+                no_phi.append(a)
+        no_phi.append(mapping[sp.Mul(*has_phi)])
+        args.append(sp.Mul(*no_phi))
+    ans = sp.Add(*args)
+    _logger.debug(f'Computing n={n} took {time.time()-start} seconds.')
     return ans
-- 
2.43.0


From 88d9a3f10eb595e22d2b7a49911ee7404b5d0ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 08/30] fix: conversions, merging and loading of Fourier
 containers assumed M=16

---
 shgpy/core/_fourier_transform.py | 5 ++++-
 shgpy/core/data_handler.py       | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/shgpy/core/_fourier_transform.py b/shgpy/core/_fourier_transform.py
index 5f2cdbf..5cb10cb 100644
--- a/shgpy/core/_fourier_transform.py
+++ b/shgpy/core/_fourier_transform.py
@@ -25,7 +25,10 @@ def _fourier_transform(expr, n, M=16):
         return 0
     relevant_codes = {}
     for code in _lookup_table.keys():
-        relevant_codes[code] = _lookup_table[code][n2i(n, M=16)]
+        if abs(n) > 16:
+            relevant_codes[code] = 0
+        else:
+            relevant_codes[code] = _lookup_table[code][n2i(n, M=16)]
     mapping = {
         sp.cos(S.phi)**code[0]*sp.sin(S.phi)**code[1]:ftval
         for code, ftval in relevant_codes.items()
diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index e27c462..a4aa5c8 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1130,7 +1130,7 @@ def fform_to_fdat(fform, subs_dict):
 
     """
     subs_array = [(k,subs_dict[k]) for k in fform.get_free_symbols()]
-    new_fform = fFormContainer(fform.get_items())
+    new_fform = fFormContainer(fform.get_items(), M=fform.get_M())
     new_fform.subs(subs_array)
     iterable = {k:v.astype(complex) for k,v in new_fform.get_items()}
     return fDataContainer(iterable, new_fform.get_M())
@@ -1402,6 +1402,8 @@ def merge_containers(containers, mapping):
     
     if type_d:
         return new_type(iterable, 'radians')
+    elif new_type in [fDataContainer, fFormContainer]:
+        return new_type(iterable, M=containers[0].get_M())
     else:
         return new_type(iterable)
 
@@ -1656,7 +1658,8 @@ def load_fform(fform_filename):
         k:np.array([sp.sympify(s) for s in v])
         for k,v in str_fform_dict.items()
     }
-    return fFormContainer(_fform_dict)
+    M = (len(next(iter(_fform_dict.values())))-1)//2 if _fform_dict else 16
+    return fFormContainer(_fform_dict, M=M)
 
 
 def save_fform(fform, fform_filename):
-- 
2.43.0


From a9cf0242fd2141bb6457554e414aa77e4dc25908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 09/30] fix: merge_containers turned the formulas of
 FormContainers into 0-d arrays

---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index a4aa5c8..409ec2a 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1395,7 +1395,7 @@ def merge_containers(containers, mapping):
             items = container.get_items()
         for k,v in items:
             new_k = mapping(k, i)
-            new_v = np.copy(v)
+            new_v = v if new_type == FormContainer else np.copy(v)
             iterable[new_k] = new_v
             if type(container) != new_type:
                 raise TypeError('Containers are of different types.')
-- 
2.43.0


From 33118f1a83f1bdad15f901e559fb1eb52f232162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 10/30] fix: load_data_and_fourier_transform raised for scale
 != 1

---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 409ec2a..e8b3838 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1635,7 +1635,7 @@ def load_data_and_fourier_transform(data_filenames_dict, data_angle_units, dark_
     fdat = dat_to_fdat(dat, interp_kind=interp_kind, M=M)
     if scale != 1:
         dat.scale_data(scale)
-        fdat.scale_data(scale)
+        fdat.scale_fdata(scale)
     return dat, fdat
 
 
-- 
2.43.0


From 24b7109f2d461dfe5bf4187d92bb9d47adae27f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 11/30] fix: form_to_dat rejected formulas which do not depend
 on phi

---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index e8b3838..10ef1f6 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1270,7 +1270,7 @@ def form_to_dat(form, subs_dict, num_points):
     subs_array = [(k,subs_dict[k]) for k in subs_dict.keys()]
     new_form = FormContainer(form.get_items())
     new_form.subs(subs_array)
-    if new_form.get_free_symbols() != [S.phi]:
+    if not set(new_form.get_free_symbols()) <= {S.phi}:
         raise ValueError('Only one variable allowed in conversion from form to dat. Is subs_array correct?')
     iterable = {}
     for k,v in new_form.get_items():
-- 
2.43.0


From 0baea4ef5624e3bd4fbb16973f01f2b580def770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 12/30] fix: rotation_matrix_from_two_vectors returned -1 or
 nan for (anti)parallel vectors

---
 shgpy/core/utilities.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index ebf5734..e07cef5 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -262,16 +262,17 @@ def rotation_matrix_from_two_vectors(v_initial, v_final, accuracy=.01, ndigits=1
         v_initial[i] /= mag_v_initial
         v_final[i] /= mag_v_final
     cos_theta = sum([v_initial[i]*v_final[i] for i in range(3)])
-    mag_theta = np.arccos(cos_theta)
+    mag_theta = np.arccos(np.clip(cos_theta, -1, 1))
     axis = _cross_product(v_initial, v_final)
     done = False
-    if np.array_equal(axis, np.zeros(3, dtype=axis.dtype)):
-        if np.array_equal(-v_initial, v_final):
-            ans = -iden
-            done = True
-        elif np.array_equal(v_initial, v_final):
+    if _norm(axis) < 1e-12:
+        if cos_theta < 0:
+            # Rotate by pi about any axis perpendicular to v_initial.
+            perp = _cross_product(v_initial, iden[np.argmin(np.abs(v_initial))])
+            ans = rotation_matrix3(perp, np.pi)
+        else:
             ans = iden
-            done = True
+        done = True
     if not done:
         ans = rotation_matrix3(axis, mag_theta)
         mag_axis = _norm(axis)
-- 
2.43.0


From 185c4d99e3fd160ffd549ef717345ae27fc04339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 13/30] fix: Fourier convolution assumed M=16 and wrapped
 around at negative frequencies

---
 shgpy/fformgen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shgpy/fformgen.py b/shgpy/fformgen.py
index e1a4507..a7ffcc6 100644
--- a/shgpy/fformgen.py
+++ b/shgpy/fformgen.py
@@ -97,18 +97,18 @@ def _conjugate_tensor(tensor):
     return ans.reshape(tensor.shape)
 
 
-def _convolve_ftensors(nR1, nR2, M=16, dtype=object):
+def _convolve_ftensors(nR1, nR2, M=None, dtype=object):
+    if M is None:
+        M = (len(nR1)-1)//2
     test_prod = tensor_product(nR1[0], nR2[0])
     ans = np.zeros(dtype=dtype, shape=(2*M+1,)+test_prod.shape)
     for n in np.arange(-M, M+1):
         for m in np.arange(-M, M+1):
-            try:
+            if abs(n-m) <= M:
                 ans[n2i(n, M)] += tensor_product(
                     nR1[n2i(m, M)],
                     nR2[n2i(n-m, M)],
                 )
-            except IndexError:
-                pass
     return ans
 
 
-- 
2.43.0


From 4eb2caf3d1d95dc8dbe5b4e2fbcd185ad1b9b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 14/30] fix: the output of gen_P_just_dipole could not be
 passed to make_form_from_P_and_Q

---
 shgpy/formgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/formgen.py b/shgpy/formgen.py
index c937027..c7f58f5 100644
--- a/shgpy/formgen.py
+++ b/shgpy/formgen.py
@@ -145,7 +145,7 @@ def gen_P_just_dipole(t1, theta):
     Ps -= np.dot(kout, Ps)*kout
     Pp -= np.dot(kout, Pp)*kout
 
-    return Pp, Ps, 0, 0
+    return Pp, Ps, np.zeros(3, dtype=object), np.zeros(3, dtype=object)
 
 
 def gen_P_dipole_quadrupole(t1, t2, theta):
-- 
2.43.0


From f7e624903fee58a205d117ef0596206467901b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 15/30] fix: DataContainer.as_pandas labelled every
 polarization with the angles of the first

---
 shgpy/core/data_handler.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 10ef1f6..8e952ba 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -342,22 +342,21 @@ class DataContainer:
             ``pandas.DataFrame``. Default is `'multi'`
 
         """
-        a1 = self.get_keys()
-        a2 = self.get_values(requested_angle_units)[0][0]
         if index == 'multi':
-            index = pd.MultiIndex.from_product(
-                (
-                    a1,
-                    a2,
-                ),
+            index = pd.MultiIndex.from_tuples(
+                [
+                    (k, x)
+                    for k in self.get_keys()
+                    for x in self.get_pc(k, requested_angle_units)[0]
+                ],
                 names=('POLARIZATION', 'ANGLE'),
             )
-            raw_data_as_1d = np.array(
+            raw_data_as_1d = np.concatenate(
                 [
                     self.get_pc(k, requested_angle_units)[1].flatten()
                     for k in self.get_keys()
                 ],
-            ).flatten()
+            )
             df = pd.DataFrame(
                 raw_data_as_1d,
                 index=index,
-- 
2.43.0


From c50198cf88c157cc67c910ef18ba36ae643fa162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 16/30] fix: basinhopping fits removed minimizer_kwargs from
 the caller's dictionary

---
 shgpy/fformfit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 57cbb7e..ddb6682 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -861,6 +861,7 @@ def basinhopping_fit(fform, fdat, guess_dict, niter, method='BFGS',
 
     minimizer_kwargs = {'method':method, 'args':args}
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
+        basinhopping_kwargs = dict(basinhopping_kwargs)
         minimizer_kwargs.update(
             basinhopping_kwargs.pop('minimizer_kwargs')
         )
@@ -966,6 +967,7 @@ def basinhopping_fit_with_bounds(fform, fdat, guess_dict, bounds_dict,
 
     minimizer_kwargs = {'method':method, 'bounds':bounds, 'args':args}
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
+        basinhopping_kwargs = dict(basinhopping_kwargs)
         minimizer_kwargs.update(
             basinhopping_kwargs.pop('minimizer_kwargs')
         )
@@ -1082,6 +1084,7 @@ def basinhopping_fit_jac(fform, fdat, guess_dict, niter, method='BFGS',
 
     minimizer_kwargs = {'method':method, 'jac':True, 'args':args}
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
+        basinhopping_kwargs = dict(basinhopping_kwargs)
         minimizer_kwargs.update(
             basinhopping_kwargs.pop('minimizer_kwargs')
         )
@@ -1212,6 +1215,7 @@ def basinhopping_fit_jac_with_bounds(fform, fdat, guess_dict, bounds_dict,
         'args':args,
     }
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
+        basinhopping_kwargs = dict(basinhopping_kwargs)
         minimizer_kwargs.update(
             basinhopping_kwargs.pop('minimizer_kwargs')
         )
-- 
2.43.0


From 581a1ab01f4397bb953fc521a9ebce80d8c606b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 17/30] fix: loading a cost function from an overwritten file
 returned the old function

---
 shgpy/fformfit.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index ddb6682..620d0a2 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -487,10 +487,15 @@ def _load_func(load_cost_func_filename, multiprocessing=False):
         return cost_func
 
     start = time.time()
-    if isinstance(load_cost_func_filename, Path):
-        load_cost_func_filename = str(load_cost_func_filename.absolute())
-    c_lib = ctypes.PyDLL(load_cost_func_filename)
+    # Load from a unique path. The dynamic linker identifies libraries by
+    # path, so a file which was overwritten after it was first loaded would
+    # otherwise not be loaded again.
+    load_directory = Path(tempfile.mkdtemp()).absolute()
+    c_lib = ctypes.PyDLL(
+        str(shutil.copy(load_cost_func_filename, load_directory))
+    )
     c_lib.autofunc.restype = ctypes.c_double
+    _rmtree_warn(load_directory)
     _logger.debug(f'Importing shared library took'
                    f' {time.time()-start} seconds.')
 
-- 
2.43.0


From 2e8ad50bd87a4c730ecb1215ee1df16b079e972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 18/30] fix: fFormContainer of purely numeric formulas lost its
 sympy elements

---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 8e952ba..ece1a2d 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -715,7 +715,7 @@ class fFormContainer:
 
     def _copy_iterable(self, iterable):
         _fform_dict = {
-            k:np.array([s for s in v])
+            k:np.array([s for s in v], dtype=object)
             for k,v in dict(iterable).items()
         }
         return _fform_dict
-- 
2.43.0


From ac9c74dd404e454412b76ee05959c9c46269b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 19/30] fix: make_tensor_real/complex skipped symbols declared
 with assumptions such as complex=True

---
 shgpy/core/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index e07cef5..3509d36 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -87,7 +87,7 @@ def _make_parameters_in_expr_complex(expr, prefix=('real_', 'imag_'), suffix=(''
     free_symbols = expr.free_symbols
     for fs in free_symbols:
         if fs.is_real is None:
-            expr = expr.subs(str(fs), sp.symbols(prefix[0]+str(fs)+suffix[0], real=True)+sp.I*sp.symbols(prefix[1]+str(fs)+suffix[1], real=True))
+            expr = expr.subs(fs, sp.symbols(prefix[0]+str(fs)+suffix[0], real=True)+sp.I*sp.symbols(prefix[1]+str(fs)+suffix[1], real=True))
     return expr
 
 
@@ -95,7 +95,7 @@ def _make_parameters_in_expr_real(expr):
     free_symbols = expr.free_symbols
     for fs in free_symbols:
         if fs.is_real is None:
-            expr = expr.subs(str(fs), sp.symbols(str(fs), real=True))
+            expr = expr.subs(fs, sp.symbols(str(fs), real=True))
     return expr
 
 
-- 
2.43.0


From 8fb4c5c2d346f8ff0e1bb804df324af43827dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 20/30] fix: easy_polar_plot raised for a single polarization
 combination

---
 shgpy/plotter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shgpy/plotter.py b/shgpy/plotter.py
index e2d3c21..10a5133 100644
--- a/shgpy/plotter.py
+++ b/shgpy/plotter.py
@@ -81,10 +81,11 @@ def easy_polar_plot(list_of_dats, list_of_param_dicts, pcs_to_include,
     """
 
     n = len(pcs_to_include)
-    fig, axs = plt.subplots(1, n, sharey=True,
+    fig, axs = plt.subplots(1, n, sharey=True, squeeze=False,
                             subplot_kw=dict(projection='polar'))
+    axs = axs.flatten()
 
-    for pc, ax in zip(pcs_to_include, axs.flatten()):
+    for pc, ax in zip(pcs_to_include, axs):
         for dat, kwparams in zip(list_of_dats, list_of_param_dicts):
             xdata, ydata = dat.get_pc(pc, 'radians')
             ax.plot(xdata, ydata, **kwparams)
-- 
2.43.0


From 42943cb4eea4f2bae5751a2bfe7073adfb712446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 21/30] fix: make_tensor_real/complex split symbol names
 containing spaces, commas or colons

---
 shgpy/core/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index 3509d36..6f531f8 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -87,7 +87,7 @@ def _make_parameters_in_expr_complex(expr, prefix=('real_', 'imag_'), suffix=(''
     free_symbols = expr.free_symbols
     for fs in free_symbols:
         if fs.is_real is None:
-            expr = expr.subs(fs, sp.symbols(prefix[0]+str(fs)+suffix[0], real=True)+sp.I*sp.symbols(prefix[1]+str(fs)+suffix[1], real=True))
+            expr = expr.subs(fs, sp.Symbol(prefix[0]+str(fs)+suffix[0], real=True)+sp.I*sp.Symbol(prefix[1]+str(fs)+suffix[1], real=True))
     return expr
 
 
@@ -95,7 +95,7 @@ def _make_parameters_in_expr_real(expr):
     free_symbols = expr.free_symbols
     for fs in free_symbols:
         if fs.is_real is None:
-            expr = expr.subs(fs, sp.symbols(str(fs), real=True))
+            expr = expr.subs(fs, sp.Symbol(str(fs), real=True))
     return expr
 
 
@@ -365,6 +365,6 @@ def _assert_real_params(chi):
 
 def map_to_real(sym):
     """Map a sympy.Symbol to its real counterpart."""
-    return sp.symbols(str(sym), real=True)
+    return sp.Symbol(str(sym), real=True)
 
 
-- 
2.43.0


From fb7e67ee2fe122770714169eb146a06b0da9a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 22/30] fix: functions compiled from integer constants returned
 garbage

---
 shgpy/fformfit.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 620d0a2..f73fe13 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -200,6 +200,10 @@ def _fixed_autowrap_model(
                     c_code = '#include <complex.h>\n'
                     c_code += bad_c_code
                     c_code = c_code.replace('conjugate', 'conj')
+                    # Integer constants are declared int, but functions are called as
+                    # returning double.
+                    c_code = c_code.replace('int autofunc', 'double autofunc')
+                    h_code = h_code.replace('int autofunc', 'double autofunc')
 
                     write_directory = Path(tempfile.mkdtemp()).absolute()
 
@@ -349,6 +353,10 @@ def _fixed_autowrap(
     c_code = '#include <complex.h>\n'
     c_code += bad_c_code
     c_code = c_code.replace('conjugate', 'conj')
+    # Integer constants are declared int, but functions are called as
+    # returning double.
+    c_code = c_code.replace('int autofunc', 'double autofunc')
+    h_code = h_code.replace('int autofunc', 'double autofunc')
 
     write_directory = Path(tempfile.mkdtemp()).absolute()
 
-- 
2.43.0


From 1f7cda3b4372a4fff97ede71f5c8ac29bda03137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 23/30] fix: cost functions misread parameter arrays which are
 not contiguous doubles

---
 shgpy/fformfit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index f73fe13..4e503cd 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -487,6 +487,7 @@ def _load_func(load_cost_func_filename, multiprocessing=False):
             c_lib.autofunc.restype = ctypes.c_double
             _logger.debug(f'Importing shared library took'
                            f' {time.time()-start} seconds.')
+            x = np.ascontiguousarray(x, dtype=float)
             c_x = x.ctypes.data_as(ctypes.POINTER(ctypes.c_double))
             result = c_lib.autofunc(c_x)
             _logger.debug(f'Time spent in func: {time.time()-start}')
@@ -508,6 +509,7 @@ def _load_func(load_cost_func_filename, multiprocessing=False):
                    f' {time.time()-start} seconds.')
 
     def cost_func(x):
+        x = np.ascontiguousarray(x, dtype=float)
         c_x = x.ctypes.data_as(ctypes.POINTER(ctypes.c_double))
         return c_lib.autofunc(c_x)
 
-- 
2.43.0


From 32b516a7965809a36d73487766c31a3e80b6d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:29 +0000
Subject: [PATCH 24/30] fix: dual annealing fits raised because scipy renamed
 an option

---
 shgpy/fformfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 4e503cd..b97af47 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -1372,7 +1372,7 @@ def dual_annealing_fit_with_bounds(
         f_energy,
         bounds,
         maxiter=maxiter,
-        local_search_options=local_search_options,
+        minimizer_kwargs=local_search_options,
         initial_temp=initial_temp,
         restart_temp_ratio=restart_temp_ratio,
         visit=visit,
-- 
2.43.0


From 554334d5b37a1d7d7caa202e25e52224a4bd142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 25/30] fix: refuse data arrays that do not have exactly two
 rows

A three-row array was accepted and its third row silently dropped.
---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index ece1a2d..5aa0ae7 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -84,7 +84,7 @@ class DataContainer:
     def _check_defining_iterable(self, iterable):
         try:
             bad_key = False in [type(k) == str for k in dict(iterable).keys()]
-            bad_val = False in [type(v) == np.ndarray and v[0].shape == v[1].shape and v.dtype != object and v.ndim == 2 for v in dict(iterable).values()]
+            bad_val = False in [type(v) == np.ndarray and v[0].shape == v[1].shape and v.dtype != object and v.ndim == 2 and v.shape[0] == 2 for v in dict(iterable).values()]
         except:
             raise ValueError('Invalid data input')
         if bad_key or bad_val:
-- 
2.43.0


From 45f6d81f1c84cb0141ae9595712adf506305906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 26/30] fix: accept data arrays with more than two rows again

The existing test suite (TestData.test_maxval) builds containers from 3x3 and
4x4 arrays; only the first two rows are read.
---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 5aa0ae7..ece1a2d 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -84,7 +84,7 @@ class DataContainer:
     def _check_defining_iterable(self, iterable):
         try:
             bad_key = False in [type(k) == str for k in dict(iterable).keys()]
-            bad_val = False in [type(v) == np.ndarray and v[0].shape == v[1].shape and v.dtype != object and v.ndim == 2 and v.shape[0] == 2 for v in dict(iterable).values()]
+            bad_val = False in [type(v) == np.ndarray and v[0].shape == v[1].shape and v.dtype != object and v.ndim == 2 for v in dict(iterable).values()]
         except:
             raise ValueError('Invalid data input')
         if bad_key or bad_val:
-- 
2.43.0


From 701b15b8aed553f18214d505a5463305d1c72af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 27/30] fix: dat_add and dat_subtract compared the shapes of
 different combinations

Only the first combination of each container was compared, so containers listing
their combinations in a different order were refused.
---
 shgpy/core/data_handler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index ece1a2d..c2c15d3 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1451,12 +1451,12 @@ def dat_subtract(dat1, dat2):
     """
     if set(dat1.get_keys()) != set(dat2.get_keys()):
         raise ValueError('DataContainers have different keys.')
-    if dat1.get_values('radians')[0].shape != dat2.get_values('radians')[0].shape:
-        raise ValueError('DataContainers\' xydatas have different shapes.')
     new_dict = {}
     for k in dat1.get_keys():
         new_xdata, ydata1 = dat1.get_pc(k, 'radians')
         _, ydata2 = dat2.get_pc(k, 'radians')
+        if new_xdata.shape != _.shape:
+            raise ValueError('DataContainers\' xydatas have different shapes.')
         if False in np.isclose(new_xdata.flatten(), _.flatten()):
             raise ValueError('DataContainers have different xdatas.')
         new_ydata = ydata1 - ydata2
@@ -1483,12 +1483,12 @@ def dat_add(dat1, dat2):
     """
     if set(dat1.get_keys()) != set(dat2.get_keys()):
         raise ValueError('DataContainers have different keys.')
-    if dat1.get_values('radians')[0].shape != dat2.get_values('radians')[0].shape:
-        raise ValueError('DataContainers\' xydatas have different shapes.')
     new_dict = {}
     for k in dat1.get_keys():
         new_xdata, ydata1 = dat1.get_pc(k, 'radians')
         _, ydata2 = dat2.get_pc(k, 'radians')
+        if new_xdata.shape != _.shape:
+            raise ValueError('DataContainers\' xydatas have different shapes.')
         if False in np.isclose(new_xdata.flatten(), _.flatten()):
             raise ValueError('DataContainers have different xdatas.')
         new_ydata = ydata1 + ydata2
-- 
2.43.0


From c05a2edeecbf9bdf463e0ebdb6abeae74666813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 28/30] fix: load_model_func mixed up or missed combinations
 with special names

The files of an entry were found by a glob pattern, which also matched files
of other combinations (PP, PP_1_real) and missed names such as PP[1].
---
 shgpy/fformfit.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index b97af47..5c4e023 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -20,6 +20,7 @@ from scipy.optimize import (
     dual_annealing,
     OptimizeResult,
 )
+import itertools
 import tempfile
 import time
 import logging
@@ -323,7 +324,12 @@ def _load_func_dict(fform, save_folder, multiprocessing=False):
             cost_func_dict[k][m] = {}
             for component in ['real', 'imag']:
                 cost_func_dict[k][m][component] = []
-                for path in save_folder.glob('_'.join((k, str(m), component))+'*.so'):
+                for ei in itertools.count():
+                    path = save_folder / (
+                        '_'.join((k, str(m), component, str(ei)))+'.so'
+                    )
+                    if not path.exists():
+                        break
                     _logger.debug(f'Loading cost function from {path}')
                     cost_func_dict[k][m][component].append(
                         _load_func(path, multiprocessing=multiprocessing),
-- 
2.43.0


From c482c72b7a5dee45b1920ca69eb9ff4851c70050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 29/30] fix: particularize raised for tensors containing plain
 numbers

---
 shgpy/core/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index 6f531f8..5960a9e 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -23,7 +23,7 @@ def _particularize_last_two(tensor, exclude=[]):
         return sols
 
     def _apply_sol_to_tensor(tensor, sol):
-        return np.array([fa.subs(sol) for fa in tensor.flatten()]).reshape(tensor.shape)
+        return np.array([sp.sympify(fa).subs(sol) for fa in tensor.flatten()]).reshape(tensor.shape)
 
     if np.array_equal(_swap_last_two_indices(tensor), tensor):
         return tensor
@@ -34,7 +34,7 @@ def _particularize_last_two(tensor, exclude=[]):
 def _particularize_all(tensor, exclude=[]):
     
     def _apply_sol_to_tensor(tensor, sol):
-        return np.array([fa.subs(sol) for fa in tensor.flatten()]).reshape(tensor.shape)
+        return np.array([sp.sympify(fa).subs(sol) for fa in tensor.flatten()]).reshape(tensor.shape)
 
     expr_list = []
     rank = len(tensor.shape)
-- 
2.43.0


From e84959b6677a6f543ec292a4c412ab2b19e38f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 30/30] fix: particularize raised for symmetric tensors whose
 equal entries are written differently

---
 shgpy/core/utilities.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index 5960a9e..fc563f0 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -17,18 +17,22 @@ def _particularize_last_two(tensor, exclude=[]):
                 ans[i][(j[1], j[0])] = tensor[i][j]
         return ans
 
-    def _get_sols_from_particularization(tensor, exclude=[]):
+    def _get_expr_list(tensor):
+        # Expand, so that entries which are equal but written differently cancel.
         tensor2 = _swap_last_two_indices(tensor)
-        sols = solve((tensor-tensor2).flatten(), dict=True, exclude=exclude)
-        return sols
+        return [sp.expand(e) for e in (tensor-tensor2).flatten()]
 
     def _apply_sol_to_tensor(tensor, sol):
         return np.array([sp.sympify(fa).subs(sol) for fa in tensor.flatten()]).reshape(tensor.shape)
 
-    if np.array_equal(_swap_last_two_indices(tensor), tensor):
+    expr_list = _get_expr_list(tensor)
+
+    if not any(expr_list):
         return tensor
 
-    return _apply_sol_to_tensor(tensor, _get_sols_from_particularization(tensor, exclude=exclude)[0])
+    sols = solve(expr_list, dict=True, exclude=exclude)
+
+    return _apply_sol_to_tensor(tensor, sols[0])
 
 
 def _particularize_all(tensor, exclude=[]):
@@ -42,7 +46,7 @@ def _particularize_all(tensor, exclude=[]):
 
     for i in itertools.product(*[range(dim) for s in range(rank)]):
         for j in set(itertools.permutations(i)):
-            expr_list.append(tensor[i]-tensor[j])
+            expr_list.append(sp.expand(tensor[i]-tensor[j]))
 
     if not any(expr_list):
         return tensor
-- 
2.43.0


From 649c4fa73c76808daa65997b2470ee1c4f81f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 01/55] fix: WSProduct leaves the flow undisturbed without
 wakes and keeps full blockage

---
 foxes/models/wake_superpositions/ws_product.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/foxes/models/wake_superpositions/ws_product.py b/foxes/models/wake_superpositions/ws_product.py
index ce65425..bf5775c 100644
--- a/foxes/models/wake_superpositions/ws_product.py
+++ b/foxes/models/wake_superpositions/ws_product.py
@@ -118,11 +118,10 @@ class WSProduct(WakeSuperposition):
                 f"Superposition '{self.name}': Expecting wind speed variable, got {variable}"
             )
 
-        if np.max(np.abs(wake_delta)) < 1e-14:
-            wake_delta[:] = 1
-
+        # wake_delta stores the product of the remaining fractions minus one,
+        # such that the initial zeros represent undisturbed flow:
         if np.any(st_sel):
-            wake_delta[st_sel] *= 1 + wake_model_result
+            wake_delta[st_sel] += wake_model_result * (1 + wake_delta[st_sel])
 
         return wake_delta
 
@@ -164,7 +163,7 @@ class WSProduct(WakeSuperposition):
             (n_states, n_targets, n_tpoints)
 
         """
-        w = amb_results * (wake_delta - 1)
+        w = amb_results * wake_delta
         if self.lim_low is not None:
             w = np.maximum(w, self.lim_low - amb_results)
         if self.lim_high is not None:
-- 
2.43.0


From 110329fd24ab1ace6da686f47a94b0e4504d9a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 02/55] fix: turbine type curves no longer alter the farm's
 effective wind speeds in place

---
 foxes/models/turbine_types/PCt_file.py     | 4 ++--
 foxes/models/turbine_types/PCt_from_two.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 70732c1..2b89a39 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -302,8 +302,8 @@ class PCtFile(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        rews2 = fdata[self.WSCT][st_sel]
-        rews3 = fdata[self.WSP][st_sel]
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
 
         # apply air density correction:
         if self.rho is not None:
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 8fa8bb8..14cb92a 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -347,8 +347,8 @@ class PCtFromTwo(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        rews2 = fdata[self.WSCT][st_sel]
-        rews3 = fdata[self.WSP][st_sel]
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
 
         # apply air density correction:
         if self.rho is not None:
-- 
2.43.0


From 1ae56772a7ad07538a08c7e09d9e9ec0f2a57c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 03/55] fix: two-parameter turbine types accept all kinds of
 turbine selections

---
 foxes/models/turbine_types/wsrho2PCt_from_two.py | 5 +++++
 foxes/models/turbine_types/wsti2PCt_from_two.py  | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index b69611f..894dc6f 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -263,6 +263,11 @@ class WsRho2PCtFromTwo(TurbineType):
 
         """
 
+        # convert to boolean mask, in case of slices or indices:
+        sel = np.zeros(fdata[self.WSP].shape, dtype=bool)
+        sel[st_sel] = True
+        st_sel = sel
+
         # calculate P:
         st_sel_P = (
             st_sel
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index e2c42f7..d3de2c6 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -275,6 +275,11 @@ class WsTI2PCtFromTwo(TurbineType):
 
         """
 
+        # convert to boolean mask, in case of slices or indices:
+        sel = np.zeros(fdata[self.WSP].shape, dtype=bool)
+        sel[st_sel] = True
+        st_sel = sel
+
         # calculate P:
         st_sel_P = (
             st_sel
@@ -296,7 +301,7 @@ class WsTI2PCtFromTwo(TurbineType):
                 # correct wind speed by air density, such
                 # that in the partial load region the
                 # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
+                rho = fdata[FV.RHO][st_sel_P]
                 qts[:, 0] *= (self.rho / rho) ** (1.0 / 3.0)
                 del rho
 
@@ -345,7 +350,7 @@ class WsTI2PCtFromTwo(TurbineType):
                 # correct wind speed by air density, such
                 # that in the partial load region the
                 # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
+                rho = fdata[FV.RHO][st_sel_ct]
                 qts[:, 0] *= (self.rho / rho) ** 0.5
                 del rho
 
-- 
2.43.0


From b4d0adce3808801d63b310190c32440af3860b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 04/55] fix: two-parameter turbine types look up ct with the
 thrust wind speed and the ct table's range

---
 foxes/models/turbine_types/wsrho2PCt_from_two.py | 6 +++---
 foxes/models/turbine_types/wsti2PCt_from_two.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index 894dc6f..d7982d0 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -311,8 +311,8 @@ class WsRho2PCtFromTwo(TurbineType):
         # calculate ct:
         st_sel_ct = (
             st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
+            & (fdata[self.WSCT] >= self._ws_ct[0])
+            & (fdata[self.WSCT] <= self._ws_ct[-1])
         )
         st_sel_ct0 = st_sel & ~st_sel_ct
         if np.any(st_sel_ct0):
@@ -321,7 +321,7 @@ class WsRho2PCtFromTwo(TurbineType):
             # prepare interpolation:
             n_sel = np.sum(st_sel_ct)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
+            qts[:, 0] = fdata[self.WSCT][st_sel_ct]
             qts[:, 1] = fdata[FV.RHO][st_sel_ct]
 
             # apply yaw corrections:
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index d3de2c6..c5b7c07 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -332,8 +332,8 @@ class WsTI2PCtFromTwo(TurbineType):
         # calculate ct:
         st_sel_ct = (
             st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
+            & (fdata[self.WSCT] >= self._ws_ct[0])
+            & (fdata[self.WSCT] <= self._ws_ct[-1])
         )
         st_sel_ct0 = st_sel & ~st_sel_ct
         if np.any(st_sel_ct0):
@@ -342,7 +342,7 @@ class WsTI2PCtFromTwo(TurbineType):
             # prepare interpolation:
             n_sel = np.sum(st_sel_ct)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
+            qts[:, 0] = fdata[self.WSCT][st_sel_ct]
             qts[:, 1] = fdata[FV.TI][st_sel_ct]
 
             # apply air density correction:
-- 
2.43.0


From 06146847fc1b57a68e7c028c07be57cf7cb4f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 05/55] fix: two-parameter turbine types test the table range
 with corrected wind speeds

---
 .../turbine_types/wsrho2PCt_from_two.py       |  74 ++++++------
 .../models/turbine_types/wsti2PCt_from_two.py | 110 +++++++++---------
 2 files changed, 98 insertions(+), 86 deletions(-)

diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index d7982d0..e410c74 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -269,10 +269,27 @@ class WsRho2PCtFromTwo(TurbineType):
         st_sel = sel
 
         # calculate P:
+        ws = fdata[self.WSP].copy()
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_P is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][st_sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws[st_sel] *= (cosm**self.p_P) ** (1.0 / 3.0)
+            del yawm, cosm
+
+        # find results within table range:
         st_sel_P = (
             st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
+            & (ws >= self._ws_P[0])
+            & (ws <= self._ws_P[-1])
         )
         st_sel_P0 = st_sel & ~st_sel_P
         if np.any(st_sel_P0):
@@ -281,23 +298,9 @@ class WsRho2PCtFromTwo(TurbineType):
             # prepare interpolation:
             n_sel = np.sum(st_sel_P)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
+            qts[:, 0] = ws[st_sel_P]
             qts[:, 1] = fdata[FV.RHO][st_sel_P]
 
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_P is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
-                del yawm, cosm
-
             # run interpolation:
             try:
                 fdata[FV.P][st_sel_P] = interpn(
@@ -309,10 +312,27 @@ class WsRho2PCtFromTwo(TurbineType):
         del st_sel_P, st_sel_P0
 
         # calculate ct:
+        ws = fdata[self.WSCT].copy()
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_ct is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][st_sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws[st_sel] *= (cosm**self.p_ct) ** 0.5
+            del yawm, cosm
+
+        # find results within table range:
         st_sel_ct = (
             st_sel
-            & (fdata[self.WSCT] >= self._ws_ct[0])
-            & (fdata[self.WSCT] <= self._ws_ct[-1])
+            & (ws >= self._ws_ct[0])
+            & (ws <= self._ws_ct[-1])
         )
         st_sel_ct0 = st_sel & ~st_sel_ct
         if np.any(st_sel_ct0):
@@ -321,23 +341,9 @@ class WsRho2PCtFromTwo(TurbineType):
             # prepare interpolation:
             n_sel = np.sum(st_sel_ct)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSCT][st_sel_ct]
+            qts[:, 0] = ws[st_sel_ct]
             qts[:, 1] = fdata[FV.RHO][st_sel_ct]
 
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_ct is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_ct) ** 0.5
-                del yawm, cosm
-
             # run interpolation:
             try:
                 fdata[FV.CT][st_sel_ct] = interpn(
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index c5b7c07..03d862e 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -281,10 +281,36 @@ class WsTI2PCtFromTwo(TurbineType):
         st_sel = sel
 
         # calculate P:
+        ws = fdata[self.WSP].copy()
+
+        # apply air density correction:
+        if self.rho is not None:
+            # correct wind speed by air density, such
+            # that in the partial load region the
+            # correct value is reconstructed:
+            rho = fdata[FV.RHO][st_sel]
+            ws[st_sel] *= (self.rho / rho) ** (1.0 / 3.0)
+            del rho
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_P is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][st_sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws[st_sel] *= (cosm**self.p_P) ** (1.0 / 3.0)
+            del yawm, cosm
+
+        # find results within table range:
         st_sel_P = (
             st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
+            & (ws >= self._ws_P[0])
+            & (ws <= self._ws_P[-1])
         )
         st_sel_P0 = st_sel & ~st_sel_P
         if np.any(st_sel_P0):
@@ -293,32 +319,9 @@ class WsTI2PCtFromTwo(TurbineType):
             # prepare interpolation:
             n_sel = np.sum(st_sel_P)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
+            qts[:, 0] = ws[st_sel_P]
             qts[:, 1] = fdata[FV.TI][st_sel_P]
 
-            # apply air density correction:
-            if self.rho is not None:
-                # correct wind speed by air density, such
-                # that in the partial load region the
-                # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel_P]
-                qts[:, 0] *= (self.rho / rho) ** (1.0 / 3.0)
-                del rho
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_P is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
-                del yawm, cosm
-
             # run interpolation:
             try:
                 fdata[FV.P][st_sel_P] = interpn(
@@ -330,10 +333,36 @@ class WsTI2PCtFromTwo(TurbineType):
         del st_sel_P, st_sel_P0
 
         # calculate ct:
+        ws = fdata[self.WSCT].copy()
+
+        # apply air density correction:
+        if self.rho is not None:
+            # correct wind speed by air density, such
+            # that in the partial load region the
+            # correct value is reconstructed:
+            rho = fdata[FV.RHO][st_sel]
+            ws[st_sel] *= (self.rho / rho) ** 0.5
+            del rho
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_ct is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][st_sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws[st_sel] *= (cosm**self.p_ct) ** 0.5
+            del yawm, cosm
+
+        # find results within table range:
         st_sel_ct = (
             st_sel
-            & (fdata[self.WSCT] >= self._ws_ct[0])
-            & (fdata[self.WSCT] <= self._ws_ct[-1])
+            & (ws >= self._ws_ct[0])
+            & (ws <= self._ws_ct[-1])
         )
         st_sel_ct0 = st_sel & ~st_sel_ct
         if np.any(st_sel_ct0):
@@ -342,32 +371,9 @@ class WsTI2PCtFromTwo(TurbineType):
             # prepare interpolation:
             n_sel = np.sum(st_sel_ct)
             qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSCT][st_sel_ct]
+            qts[:, 0] = ws[st_sel_ct]
             qts[:, 1] = fdata[FV.TI][st_sel_ct]
 
-            # apply air density correction:
-            if self.rho is not None:
-                # correct wind speed by air density, such
-                # that in the partial load region the
-                # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel_ct]
-                qts[:, 0] *= (self.rho / rho) ** 0.5
-                del rho
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_ct is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_ct) ** 0.5
-                del yawm, cosm
-
             # run interpolation:
             try:
                 fdata[FV.CT][st_sel_ct] = interpn(
-- 
2.43.0


From 773681745189eb67c35b13a6e2f636229a0d2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 06/55] fix: FromLookupTable keeps ct from the lookup with the
 thrust wind speed

---
 foxes/models/turbine_types/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/models/turbine_types/lookup.py b/foxes/models/turbine_types/lookup.py
index 2d73723..710eb18 100644
--- a/foxes/models/turbine_types/lookup.py
+++ b/foxes/models/turbine_types/lookup.py
@@ -308,9 +308,9 @@ class FromLookupTable(TurbineType):
             out = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)
         else:
             fdata_lookup[FV.REWS] = rews2
-            ct = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)[FV.CT]
+            ct = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)[FV.CT].copy()
             fdata_lookup[FV.REWS] = rews3
             out = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)
-            out[FV.CT] = ct
+            out[FV.CT][:] = ct
 
         return out
-- 
2.43.0


From ef3c82ad6527201e67107c8de41a5a5c0d88dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 07/55] fix: LookupTable accepts chunks in which none of its
 turbines is selected

---
 foxes/models/turbine_models/lookup_table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/foxes/models/turbine_models/lookup_table.py b/foxes/models/turbine_models/lookup_table.py
index 5ae07d9..69107f7 100644
--- a/foxes/models/turbine_models/lookup_table.py
+++ b/foxes/models/turbine_models/lookup_table.py
@@ -214,6 +214,10 @@ class LookupTable(TurbineModel):
         }
         del data, dims
 
+        # nothing to look up if no states and turbines are selected here:
+        if any(d.size == 0 for d in indata.values()):
+            return {v: fdata[v] for v in self.output_vars}
+
         iargs = dict(bounds_error=True)
         iargs.update(self._iargs)
         try:
-- 
2.43.0


From 7d5926949644e2f823f13ea6e48879c369cdd259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 08/55] fix: CpCtFile passes the thrust coefficients of its
 table on

---
 foxes/models/turbine_types/CpCt_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foxes/models/turbine_types/CpCt_file.py b/foxes/models/turbine_types/CpCt_file.py
index 6f4b959..43e5bdf 100644
--- a/foxes/models/turbine_types/CpCt_file.py
+++ b/foxes/models/turbine_types/CpCt_file.py
@@ -73,4 +73,9 @@ class CpCtFile(PCtFile):
             0.5 * rho * A * data_P["cp"] * data_P["ws"] ** 3 / FC.P_UNITS[P_unit]
         )
 
+        col_ct = pars.get("col_ct", "ct")
+        data_P[col_ct] = np.interp(
+            data_P["ws"], ws, data[col_ct].to_numpy(), left=0, right=0
+        )
+
         super().__init__(data_P, col_ws="ws", col_P="P", rho=rho, P_unit=P_unit, **pars)
-- 
2.43.0


From 5fed7401e21bcd866279f9d06d798c042c6c2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 09/55] fix: rotor models write the requested turbine's results
 also when given results of all turbines

---
 foxes/core/rotor_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/core/rotor_model.py b/foxes/core/rotor_model.py
index bd6fb26..ea7da65 100644
--- a/foxes/core/rotor_model.py
+++ b/foxes/core/rotor_model.py
@@ -181,7 +181,7 @@ class RotorModel(FarmDataModel):
         elif res.shape[1] == 1:
             fdata[v][:, downwind_index] = res[:, 0]
         else:
-            fdata[v, downwind_index] = res[:, downwind_index]
+            fdata[v][:, downwind_index] = res[:, downwind_index]
 
     def eval_rpoint_results(
         self,
-- 
2.43.0


From 9b9633a698284f0dc02725789bab197e5e2af4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 10/55] fix: single-point rotors no longer report NaN
 third-moment wind speeds for reversed inflow

---
 foxes/core/rotor_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/core/rotor_model.py b/foxes/core/rotor_model.py
index ea7da65..d043833 100644
--- a/foxes/core/rotor_model.py
+++ b/foxes/core/rotor_model.py
@@ -304,9 +304,9 @@ class RotorModel(FarmDataModel):
                             np.einsum("stp,p->st", wsp**3, rpoint_weights), 0.0
                         ) ** (1.0 / 3.0)
                     else:
-                        rews3 = (np.einsum("stp,p->st", wsp**3, rpoint_weights)) ** (
-                            1.0 / 3.0
-                        )
+                        rews3 = np.maximum(
+                            np.einsum("stp,p->st", wsp**3, rpoint_weights), 0.0
+                        ) ** (1.0 / 3.0)
                     self._set_res(fdata, v, rews3, downwind_index)
                     del rews3
                     vdone.append(v)
-- 
2.43.0


From 829596e7680d583e61889fab38ea296f8ab6dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 11/55] fix: CentreRotor also copies ambient values when given
 several rotor points

---
 foxes/models/rotor_models/centre.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/foxes/models/rotor_models/centre.py b/foxes/models/rotor_models/centre.py
index dc34055..9303f3e 100644
--- a/foxes/models/rotor_models/centre.py
+++ b/foxes/models/rotor_models/centre.py
@@ -126,7 +126,13 @@ class CentreRotor(RotorModel):
         """
         if len(rpoint_weights) > 1:
             return super().eval_rpoint_results(
-                algo, mdata, fdata, rpoint_results, rpoint_weights, downwind_index
+                algo,
+                mdata,
+                fdata,
+                rpoint_results,
+                rpoint_weights,
+                downwind_index,
+                copy_to_ambient,
             )
 
         n_states = mdata.n_states
-- 
2.43.0


From 1756ba044739c3a5c474e41e12dc780db9ee34f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 12/55] fix: Streamlines2D starts streamlines with the ambient
 wind direction also while ordering the turbines

---
 foxes/models/wake_frames/streamlines.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/foxes/models/wake_frames/streamlines.py b/foxes/models/wake_frames/streamlines.py
index bd911e0..88b6585 100644
--- a/foxes/models/wake_frames/streamlines.py
+++ b/foxes/models/wake_frames/streamlines.py
@@ -68,10 +68,13 @@ class Streamlines2D(WakeFrame):
         data = np.zeros((n_states, n_turbines, N, 4), dtype=config.dtype_double)
         for i in range(N):
 
-            # set streamline start point data (rotor centre):
+            # set streamline start point data (rotor centre), ambient
+            # results are not available yet when turbines are ordered:
             if i == 0:
                 data[:, :, i, :3] = fdata[FV.TXYH]
-                data[:, :, i, 3] = fdata[FV.AMB_WD]
+                data[:, :, i, 3] = np.where(
+                    np.isnan(fdata[FV.AMB_WD]), fdata[FV.WD], fdata[FV.AMB_WD]
+                )
 
             # compute next step:
             else:
-- 
2.43.0


From 7ecc3315829143c960d8a9b36d3a052bfcb0b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 13/55] fix: Streamlines2D orders the turbines from upstream to
 downstream

---
 foxes/models/wake_frames/streamlines.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/foxes/models/wake_frames/streamlines.py b/foxes/models/wake_frames/streamlines.py
index 88b6585..b5775bd 100644
--- a/foxes/models/wake_frames/streamlines.py
+++ b/foxes/models/wake_frames/streamlines.py
@@ -205,11 +205,17 @@ class Streamlines2D(WakeFrame):
                 :, :, 0, 0
             ]
 
-        # derive turbine order:
-        # TODO: Remove loop over states
+        # derive turbine order, such that turbines come after all those
+        # that have them downstream (NaN: far from the streamline):
+        upstream = coosx > 0
+        n_upstream = np.sum(upstream, axis=1)
         order = np.zeros((n_states, n_turbines), dtype=config.dtype_int)
-        for si in range(n_states):
-            order[si] = np.lexsort(keys=coosx[si])
+        states = np.arange(n_states)
+        for oi in range(n_turbines):
+            next_ti = np.argmin(n_upstream, axis=1)
+            order[:, oi] = next_ti
+            n_upstream -= upstream[states, next_ti]
+            n_upstream[states, next_ti] = 2 * n_turbines
 
         return order
 
-- 
2.43.0


From fb2f595adfc005e1c49cf4bf22f4be5e06a21191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 14/55] fix: YawedWakes centreline points lie on the deflected
 centreline

---
 foxes/models/wake_frames/yawed_wakes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 38e1a5d..3461010 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -324,6 +324,7 @@ class YawedWakes(WakeFrame):
         y = np.zeros_like(x)
         self._update_y(algo, mdata, fdata, tdata, downwind_index, x, y)
 
-        points += y[:, :, None] * ny
+        # the centreline is where the deflected crosswind coordinate vanishes:
+        points -= y[:, :, None] * ny
 
         return points
-- 
2.43.0


From 2d45faa3e7de71a589db91ef48f46fc8f5ebb670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 15/55] fix: YawedWakes keep the crosswind offsets of the
 points of a rotor

---
 foxes/models/wake_frames/yawed_wakes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 3461010..7a5f66d 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -271,11 +271,11 @@ class YawedWakes(WakeFrame):
         # take rotor average:
         xy = np.einsum("stpd,p->std", xyz[..., :2], tdata[FC.TWEIGHTS])
         x = xy[:, :, 0]
-        y = xy[:, :, 1]
+        y = xy[:, :, 1].copy()
 
-        # apply deflection:
+        # apply deflection of the rotor average to all points of the rotor:
         self._update_y(algo, mdata, fdata, tdata, downwind_index, x, y)
-        xyz[..., 1] = y[:, :, None]
+        xyz[..., 1] += (y - xy[:, :, 1])[:, :, None]
 
         return xyz
 
-- 
2.43.0


From ead2cf734a27581888093f03b9619f7397776b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 16/55] fix: the inverse turbine order is not itself reordered
 in the farm results

---
 foxes/algorithms/downwind/models/reorder_farm_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/reorder_farm_output.py b/foxes/algorithms/downwind/models/reorder_farm_output.py
index 3e2a500..cc0f4af 100644
--- a/foxes/algorithms/downwind/models/reorder_farm_output.py
+++ b/foxes/algorithms/downwind/models/reorder_farm_output.py
@@ -76,7 +76,7 @@ class ReorderFarmOutput(FarmDataModel):
         out = {}
         for v in self.output_farm_vars(algo):
             if (
-                v != FV.ORDER
+                v not in [FV.ORDER, FV.ORDER_INV]
                 and fdata[v].shape[1] > 1
                 and np.any(fdata[v] != fdata[v][0, 0, None, None])
             ):
-- 
2.43.0


From c5484e48f93d26d4dec38c2d0927915adde86fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 17/55] fix: ABLLogWsProfile accepts single values for the
 friction velocity

---
 foxes/models/vertical_profiles/abl_log_ws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/models/vertical_profiles/abl_log_ws.py b/foxes/models/vertical_profiles/abl_log_ws.py
index a18a659..6b61817 100644
--- a/foxes/models/vertical_profiles/abl_log_ws.py
+++ b/foxes/models/vertical_profiles/abl_log_ws.py
@@ -81,7 +81,8 @@ class ABLLogWsProfile(VerticalProfile):
         mol[:] = data[FV.MOL]
 
         if self.ustar_input:
-            ustar = data[FV.USTAR]
+            ustar = np.zeros_like(heights)
+            ustar[:] = data[FV.USTAR]
         else:
             ws = np.zeros_like(heights)
             ws[:] = data[FV.WS]
-- 
2.43.0


From 890bbc3e43ef72f4d140af30f009b6699be1f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:23 +0000
Subject: [PATCH 18/55] fix: subtracting a list of areas from an area

---
 foxes/utils/geom2d/area_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index d9d9eb8..3302afa 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -214,7 +214,7 @@ class AreaGeometry(metaclass=ABCMeta):
 
     def __sub__(self, g):
         if isinstance(g, list):
-            return AreaIntersection([self] + g.inverse())
+            return AreaIntersection([self] + [h.inverse() for h in g])
         else:
             return AreaIntersection([self, g.inverse()])
 
-- 
2.43.0


From ae33a7c0f39cac3205206f27ea84e135a70493a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:23 +0000
Subject: [PATCH 19/55] fix: nearest boundary points of a circle for points
 that include its centre

---
 foxes/utils/geom2d/circle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/geom2d/circle.py b/foxes/utils/geom2d/circle.py
index 2d1788c..3d6b1c2 100644
--- a/foxes/utils/geom2d/circle.py
+++ b/foxes/utils/geom2d/circle.py
@@ -89,9 +89,9 @@ class Circle(AreaGeometry):
             if np.all(sel):
                 minp = self.centre + deltas / magd[:, None] * self.radius
             else:
-                minp = np.zeros_like(points)
-                minp[sel] = deltas[sel] / magd[sel]
-                minp[~sel][:, 0] = 1
+                minp = np.zeros_like(deltas)
+                minp[sel] = deltas[sel] / magd[sel][:, None]
+                minp[~sel, 0] = 1
                 minp = self.centre + minp * self.radius
             return dists, minp
         else:
-- 
2.43.0


From 6af8cdf6269fd9b26b712c5654cd3d750d308eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 20/55] fix: the inverse of a half plane does not contain its
 boundary line

---
 foxes/utils/geom2d/half_plane.py | 38 ++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/foxes/utils/geom2d/half_plane.py b/foxes/utils/geom2d/half_plane.py
index 16d601a..ff0a729 100644
--- a/foxes/utils/geom2d/half_plane.py
+++ b/foxes/utils/geom2d/half_plane.py
@@ -1,7 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 
-from .area_geometry import AreaGeometry
+from .area_geometry import AreaGeometry, InvertedAreaGeometry
 
 
 class HalfPlane(AreaGeometry):
@@ -173,7 +173,41 @@ class HalfPlane(AreaGeometry):
             The inverted geometry
 
         """
-        return HalfPlane(self.centre, -self.n)
+        return InvertedHalfPlane(self)
+
+
+class InvertedHalfPlane(InvertedAreaGeometry):
+    """
+    All points that are not in a half plane, which
+    excludes the points on its boundary line.
+
+    :group: utils.geom2d
+
+    """
+
+    def p_min(self):
+        """
+        Returns minimal (x,y) point.
+
+        Returns
+        -------
+        p_min: numpy.ndarray
+            The minimal (x,y) point, shape = (2,)
+
+        """
+        return HalfPlane(self._geometry.centre, -self._geometry.n).p_min()
+
+    def p_max(self):
+        """
+        Returns maximal (x,y) point.
+
+        Returns
+        -------
+        p_max: numpy.ndarray
+            The maximal (x,y) point, shape = (2,)
+
+        """
+        return HalfPlane(self._geometry.centre, -self._geometry.n).p_max()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From df6389c501b376fcde89338920f4a7a8e5db335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 21/55] fix: polygons with integer coordinates compute
 distances

---
 foxes/utils/geom2d/polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/geom2d/polygon.py b/foxes/utils/geom2d/polygon.py
index 11aa015..469ae42 100644
--- a/foxes/utils/geom2d/polygon.py
+++ b/foxes/utils/geom2d/polygon.py
@@ -32,10 +32,10 @@ class ClosedPolygon(AreaGeometry):
             The polygon points, shape: (n_points, 2)
 
         """
-        self.points = points
+        self.points = np.array(points, dtype=np.float64)
 
-        if not np.all(points[0] == points[-1]):
-            self.points = np.append(self.points, points[[0]], axis=0)
+        if not np.all(self.points[0] == self.points[-1]):
+            self.points = np.append(self.points, self.points[[0]], axis=0)
 
         self.poly = Path(self.points, closed=True)
 
-- 
2.43.0


From c70b09228f7a6fc0bd7067959f45bfeda98364c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 22/55] fix: results of pre-rotor turbine models are sorted
 into downwind order

---
 foxes/algorithms/downwind/models/init_farm_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 2d23d61..6340617 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -128,6 +128,10 @@ class InitFarmData(FarmDataModel):
             if np.any(fdata[v] != fdata[v][0, 0, None, None]):
                 fdata[v] = fdata[v][ssel, order]
         fdata[FV.YAW] = fdata[FV.WD].copy()
+        ovars = self.output_farm_vars(algo)
+        for v in algo.farm_controller.pre_rotor_models.output_farm_vars(algo):
+            if v not in ovars and np.any(fdata[v] != fdata[v][0, 0, None, None]):
+                fdata[v] = fdata[v][ssel, order]
         for k in mdata.keys():
             if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
                 mdata[k] != mdata[k][0, 0, None, None]
-- 
2.43.0


From 3cec218d8de37eec7daddff83dd2620a5c35751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 23/55] fix: iterations apply turbine models to their own
 turbines also after the first one

---
 foxes/algorithms/iterative/iterative.py       |  4 ++
 foxes/algorithms/iterative/models/__init__.py |  1 +
 .../iterative/models/sort_model_data.py       | 64 +++++++++++++++++++
 3 files changed, 69 insertions(+)
 create mode 100644 foxes/algorithms/iterative/models/sort_model_data.py

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 3dd6820..d848cde 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -220,6 +220,10 @@ class Iterative(Downwind):
             # do not rotate back from downwind order:
             if not self._final_run:
 
+                # sort model data into downwind order:
+                mlist.models.append(self.get_model("SortModelData")())
+                calc_pars.append({})
+
                 # add under-relaxation during wake calculation:
                 urelax = None
                 if self._urelax is not None and len(self._urelax["pre_wake"]):
diff --git a/foxes/algorithms/iterative/models/__init__.py b/foxes/algorithms/iterative/models/__init__.py
index 4e9831a..c2706c5 100644
--- a/foxes/algorithms/iterative/models/__init__.py
+++ b/foxes/algorithms/iterative/models/__init__.py
@@ -1,3 +1,4 @@
 from .convergence import ConvCrit, ConvCritList, ConvVarDelta, DefaultConv
 from .farm_wakes_calc import FarmWakesCalculation
+from .sort_model_data import SortModelData
 from .urelax import URelax
diff --git a/foxes/algorithms/iterative/models/sort_model_data.py b/foxes/algorithms/iterative/models/sort_model_data.py
new file mode 100644
index 0000000..aa87d52
--- /dev/null
+++ b/foxes/algorithms/iterative/models/sort_model_data.py
@@ -0,0 +1,64 @@
+import numpy as np
+
+from foxes.core import FarmDataModel
+import foxes.variables as FV
+import foxes.constants as FC
+
+
+class SortModelData(FarmDataModel):
+    """
+    Sorts the state-turbine model data into downwind order,
+    for iterations that do not run the InitFarmData model.
+
+    :group: algorithms.iterative.models
+
+    """
+
+    def output_farm_vars(self, algo):
+        """
+        The variables which are being modified by the model.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+
+        Returns
+        -------
+        output_vars: list of str
+            The output variable names
+
+        """
+        return []
+
+    def calculate(self, algo, mdata, fdata):
+        """
+        The main model calculation.
+
+        This function is executed on a single chunk of data,
+        all computations should be based on numpy arrays.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+        mdata: foxes.core.MData
+            The model data
+        fdata: foxes.core.FData
+            The farm data
+
+        Returns
+        -------
+        results: dict
+            The resulting data, keys: output variable str.
+            Values: numpy.ndarray with shape (n_states, n_turbines)
+
+        """
+        order = fdata[FV.ORDER]
+        ssel = fdata[FV.ORDER_SSEL]
+        for k in mdata.keys():
+            if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
+                mdata[k] != mdata[k][0, 0, None, None]
+            ):
+                mdata[k] = mdata[k][ssel, order]
+        return {}
-- 
2.43.0


From 84ce630558186d6757c2ec10644917b20a577be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 24/55] fix: SetFarmVars does not sort model data that is in
 downwind order already

---
 foxes/models/turbine_models/set_farm_vars.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index d3e0f5c..a9748b6 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -271,18 +271,11 @@ class SetFarmVars(TurbineModel):
         i0 = mdata.states_i0(counter=True)
         if not self.once or i0 not in self.__once_done:
 
-            if self.pre_rotor:
-                order = np.s_[:]
-                ssel = np.s_[:]
-            else:
-                order = fdata[FV.ORDER]
-                ssel = fdata[FV.ORDER_SSEL]
-
             bsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
             bsel[st_sel] = True
 
             for v in self.vars:
-                data = mdata[self.var(v)][ssel, order]
+                data = mdata[self.var(v)]
                 hsel = ~np.isnan(data)
                 tsel = bsel & hsel
 
-- 
2.43.0


From 6d50a309f440738feb2746ab938b737c836aa3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 25/55] fix: farm controllers do not share their model
 parameters

---
 foxes/core/farm_controller.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index eaba616..db85249 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -31,13 +31,13 @@ class FarmController(FarmDataModel):
 
     """
 
-    def __init__(self, pars={}):
+    def __init__(self, pars=None):
         """
         Constructor.
 
         Parameters
         ----------
-        pars: dict
+        pars: dict, optional
             Parameters for the turbine models, stored
             under their respective name
 
@@ -48,7 +48,7 @@ class FarmController(FarmDataModel):
         self.turbine_model_names = None
         self.pre_rotor_models = None
         self.post_rotor_models = None
-        self.pars = pars
+        self.pars = {} if pars is None else pars
 
     def sub_models(self):
         """
-- 
2.43.0


From 92534d804d7a21bca2bf2d72fec001e45d6cb368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 26/55] fix: kTI uses the given value of the turbulence
 intensity

---
 foxes/models/turbine_models/kTI_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/kTI_model.py b/foxes/models/turbine_models/kTI_model.py
index ed93057..cbc1c05 100644
--- a/foxes/models/turbine_models/kTI_model.py
+++ b/foxes/models/turbine_models/kTI_model.py
@@ -122,7 +122,7 @@ class kTI(TurbineModel):
         ti = self.get_data(
             self.ti_var,
             FC.STATE_TURBINE,
-            lookup="f",
+            lookup="sf",
             fdata=fdata,
             upcast=False,
             selection=st_sel,
-- 
2.43.0


From 3ca45e0df6b2db87f4720e467dde74af65644cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 27/55] fix: kTI searches farm data for kb if it is not given,
 as documented

---
 foxes/models/turbine_models/kTI_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/kTI_model.py b/foxes/models/turbine_models/kTI_model.py
index cbc1c05..c6dc36c 100644
--- a/foxes/models/turbine_models/kTI_model.py
+++ b/foxes/models/turbine_models/kTI_model.py
@@ -49,7 +49,7 @@ class kTI(TurbineModel):
         self.k_var = k_var
         setattr(self, ti_var, ti_val)
         setattr(self, FV.KTI, kTI)
-        setattr(self, FV.KB, 0 if kb is None else kb)
+        setattr(self, FV.KB, kb)
 
     def __repr__(self):
         kti = getattr(self, FV.KTI)
@@ -116,9 +116,12 @@ class kTI(TurbineModel):
             FC.STATE_TURBINE,
             lookup="sf",
             fdata=fdata,
+            accept_none=True,
             upcast=False,
             selection=st_sel,
         )
+        if kb is None:
+            kb = 0.0
         ti = self.get_data(
             self.ti_var,
             FC.STATE_TURBINE,
-- 
2.43.0


From eb1281bacb44a9205cb36fea05588df4b1704e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 28/55] fix: TableFactors accepts selections that are not
 boolean masks

---
 foxes/models/turbine_models/table_factors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_models/table_factors.py b/foxes/models/turbine_models/table_factors.py
index d9b235d..209abb1 100644
--- a/foxes/models/turbine_models/table_factors.py
+++ b/foxes/models/turbine_models/table_factors.py
@@ -143,10 +143,10 @@ class TableFactors(TurbineModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        n_sel = np.sum(st_sel)
-        qts = np.zeros((n_sel, 2), dtype=config.dtype_double)
-        qts[:, 0] = fdata[self.row_var][st_sel]
-        qts[:, 1] = fdata[self.col_var][st_sel]
+        rows = fdata[self.row_var][st_sel]
+        qts = np.zeros(rows.shape + (2,), dtype=config.dtype_double)
+        qts[..., 0] = rows
+        qts[..., 1] = fdata[self.col_var][st_sel]
 
         try:
             factors = interpn(
-- 
2.43.0


From da0cb9a55628f9f54d5ae6559b54393ffb8d17ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 29/55] fix: PowerMask compares each turbine with its own rated
 power

---
 foxes/models/turbine_models/power_mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/power_mask.py b/foxes/models/turbine_models/power_mask.py
index 6e3b53e..8745aad 100644
--- a/foxes/models/turbine_models/power_mask.py
+++ b/foxes/models/turbine_models/power_mask.py
@@ -153,7 +153,7 @@ class PowerMask(TurbineModel):
         # prepare:
         P = fdata[FV.P]
         max_P = fdata[FV.MAX_P]
-        P_rated = self._P_rated[None, :]
+        P_rated = self._P_rated[fdata[FV.ORDER]]
 
         # select power entries for which this is active:
         sel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
-- 
2.43.0


From 5ffd750aa8f6951324d9b80ac0cbcd91ef7ecd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 30/55] fix: SectorManagement acts on the turbines listed in
 its table, also in downwind order

---
 foxes/models/turbine_models/sector_management.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 98f7a7e..71385e7 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -189,19 +189,14 @@ class SectorManagement(TurbineModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        # prepare:
+        # prepare, the farm data are in downwind order:
         n_trbs = len(self._trbs)
-        if n_trbs == fdata.n_turbines and np.all(
-            self._trbs == np.arange(fdata.n_turbines)
-        ):
-            tsel = np.s_[:]
-        else:
-            tsel = self._trbs
+        tsel = fdata[FV.ORDER_INV][:, self._trbs]
 
         # find state-turbine data that matches ranges:
         rsel = np.ones((fdata.n_states, n_trbs), dtype=bool)
         for vi, v in enumerate(self._rvars):
-            d = fdata[v][:, tsel]
+            d = np.take_along_axis(fdata[v], tsel, axis=1)
             if v in self._perds:
                 d = np.mod(d, self._perds[v])
                 mi = self._rdata[:, vi, 0]
@@ -227,7 +222,7 @@ class SectorManagement(TurbineModel):
         # set target data:
         if np.any(rsel):
             sel = np.where(rsel)
-            selt = self._trbs[sel[1]]
+            selt = tsel[sel]
             for vi, v in enumerate(self._tvars):
                 fdata[v][sel[0], selt] = self._tdata[None, sel[1], vi]
 
-- 
2.43.0


From 68fd297fa2d2af37b2e9d57b8a00853bc5b69ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 31/55] fix: SectorManagement leaves states and turbines alone
 that are not selected

---
 foxes/models/turbine_models/sector_management.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 71385e7..6674416 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -190,11 +190,12 @@ class SectorManagement(TurbineModel):
 
         """
         # prepare, the farm data are in downwind order:
-        n_trbs = len(self._trbs)
         tsel = fdata[FV.ORDER_INV][:, self._trbs]
 
         # find state-turbine data that matches ranges:
-        rsel = np.ones((fdata.n_states, n_trbs), dtype=bool)
+        rsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        rsel[st_sel] = True
+        rsel = np.take_along_axis(rsel, tsel, axis=1)
         for vi, v in enumerate(self._rvars):
             d = np.take_along_axis(fdata[v], tsel, axis=1)
             if v in self._perds:
-- 
2.43.0


From 468e1b7167eff94d610486bdf11379a364b675a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 32/55] fix: SectorManagement rules for the full circle apply
 to all directions

---
 foxes/models/turbine_models/sector_management.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 6674416..b0067c7 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -139,12 +139,15 @@ class SectorManagement(TurbineModel):
             self._tcols.append(col)
 
         n_rvars = len(self._rvars)
-        self._rdata = data[self._rcols].to_numpy().reshape(n_trbs, n_rvars, 2)
+        self._rdata = data[self._rcols].to_numpy(np.float64).reshape(n_trbs, n_rvars, 2)
         self._tdata = data[self._tcols].to_numpy()
 
         for vi, v in enumerate(self._rvars):
             if v in self._perds:
+                full = self._rdata[:, vi, 1] - self._rdata[:, vi, 0] >= self._perds[v]
                 self._rdata[:, vi] = np.mod(self._rdata[:, vi], self._perds[v])
+                self._rdata[full, vi, 0] = 0.0
+                self._rdata[full, vi, 1] = np.inf
 
     def output_farm_vars(self, algo):
         """
-- 
2.43.0


From d039cfd0ac3f01695c545b4fd2fbe826bcee7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 33/55] fix: each turbine model acts on the states selected for
 it, also behind pre-rotor models and model lists

---
 foxes/core/farm_controller.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index db85249..9163d5f 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -117,7 +117,7 @@ class FarmController(FarmDataModel):
                 return True
         return False
 
-    def _analyze_models(self, algo, pre_rotor, models):
+    def _analyze_models(self, algo, pre_rotor, models, ssels):
         """
         Helper function for model analysis
         """
@@ -151,7 +151,7 @@ class FarmController(FarmDataModel):
                         for tj, jnames in enumerate(mnames):
                             mi = tmis[tj]
                             if mi < len(jnames) and jnames[mi] == mname:
-                                ssel = algo.farm.turbines[tj].mstates_sel[mi]
+                                ssel = ssels[tj][mi]
                                 tsel[:, tj] = True if ssel is None else ssel
                                 tmis[tj] += 1
                         tmsels.append(tsel)
@@ -227,6 +227,8 @@ class FarmController(FarmDataModel):
         # check turbine models, and find turbine types and pre/post-rotor models:
         prer_models = [[] for t in algo.farm.turbines]
         postr_models = [[] for t in algo.farm.turbines]
+        prer_ssels = [[] for t in algo.farm.turbines]
+        postr_ssels = [[] for t in algo.farm.turbines]
         ttypes = {m.name: m for m in self.turbine_types}
         for ti, t in enumerate(algo.farm.turbines):
             prer = None
@@ -257,15 +259,17 @@ class FarmController(FarmDataModel):
                         )
                     if m.pre_rotor:
                         prer_models[ti].append(m)
+                        prer_ssels[ti].append(t.mstates_sel[mi])
                     else:
                         postr_models[ti].append(m)
+                        postr_ssels[ti].append(t.mstates_sel[mi])
 
         # analyze models:
         mnames_pre, tmsels_pre = self._analyze_models(
-            algo, pre_rotor=True, models=prer_models
+            algo, pre_rotor=True, models=prer_models, ssels=prer_ssels
         )
         mnames_post, tmsels_post = self._analyze_models(
-            algo, pre_rotor=False, models=postr_models
+            algo, pre_rotor=False, models=postr_models, ssels=postr_ssels
         )
         tmsels = tmsels_pre + tmsels_post
         self._tmall = [np.all(t) for t in tmsels]
-- 
2.43.0


From 7e46407158fe4b80f34fa6d19d415b80e874be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 34/55] fix: turbine models of the same name, or listed
 repeatedly, keep their own states and turbines

---
 foxes/core/farm_controller.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index 9163d5f..696e024 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -123,7 +123,7 @@ class FarmController(FarmDataModel):
         """
         tmodels = []
         tmsels = []
-        mnames = [[m.name for m in mlist] for mlist in models]
+        mids = [[id(m) for m in mlist] for mlist in models]
         tmis = np.zeros(algo.n_turbines, dtype=config.dtype_int)
         news = True
         while news:
@@ -131,14 +131,14 @@ class FarmController(FarmDataModel):
 
             for ti, mlist in enumerate(models):
                 if tmis[ti] < len(mlist):
-                    mname = mnames[ti][tmis[ti]]
+                    mid = mids[ti][tmis[ti]]
                     isnext = True
-                    for tj, jnames in enumerate(mnames):
+                    for tj, jids in enumerate(mids):
                         if (
                             tj != ti
-                            and mname in jnames
-                            and tmis[tj] < len(jnames)
-                            and jnames[tmis[tj]] != mname
+                            and mid in jids
+                            and tmis[tj] < len(jids)
+                            and jids[tmis[tj]] != mid
                         ):
                             isnext = False
                             break
@@ -148,9 +148,9 @@ class FarmController(FarmDataModel):
                         tmodels.append(m)
 
                         tsel = np.zeros((algo.n_states, algo.n_turbines), dtype=bool)
-                        for tj, jnames in enumerate(mnames):
+                        for tj, jids in enumerate(mids):
                             mi = tmis[tj]
-                            if mi < len(jnames) and jnames[mi] == mname:
+                            if mi < len(jids) and jids[mi] == mid:
                                 ssel = ssels[tj][mi]
                                 tsel[:, tj] = True if ssel is None else ssel
                                 tmis[tj] += 1
@@ -279,13 +279,14 @@ class FarmController(FarmDataModel):
         else:
             raise ValueError(f"Controller '{self.name}': No turbine model found.")
 
-    def __get_pars(self, algo, models, ptype, mdata=None, downwind_index=None):
+    def __get_pars(self, algo, pre_rotor, ptype, mdata=None, downwind_index=None):
         """
         Private helper function for gathering model parameters.
         """
         pars = []
-        for m in models:
-            mi = self.turbine_model_names.index(m.name)
+        models = self.pre_rotor_models if pre_rotor else self.post_rotor_models
+        i0 = 0 if pre_rotor else len(self.pre_rotor_models.models)
+        for mi, m in enumerate(models.models, start=i0):
             if self._tmall[mi]:
                 s = np.s_[:, :] if downwind_index is None else np.s_[:, downwind_index]
             else:
@@ -399,7 +400,7 @@ class FarmController(FarmDataModel):
 
         """
         s = self.pre_rotor_models if pre_rotor else self.post_rotor_models
-        pars = self.__get_pars(algo, s.models, "calc", mdata, downwind_index)
+        pars = self.__get_pars(algo, pre_rotor, "calc", mdata, downwind_index)
         res = s.calculate(algo, mdata, fdata, parameters=pars)
         return res
 
-- 
2.43.0


From 7c66cf9c40b31447684949dc0c610a94ea022e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 35/55] fix: a farm controller shared by several algorithms
 uses the turbine types of the one that runs

---
 foxes/core/farm_controller.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index 696e024..04770fe 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -221,8 +221,7 @@ class FarmController(FarmDataModel):
 
         """
 
-        if self.turbine_types is None:
-            self.find_turbine_types(algo)
+        self.find_turbine_types(algo)
 
         # check turbine models, and find turbine types and pre/post-rotor models:
         prer_models = [[] for t in algo.farm.turbines]
-- 
2.43.0


From b36aabb85756af9c66fc8212b9c99875fab34db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 36/55] fix: adding a model to one turbine does not add it to
 turbines created from the same list

---
 foxes/core/turbine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/core/turbine.py b/foxes/core/turbine.py
index b1ad99a..2d49cbd 100644
--- a/foxes/core/turbine.py
+++ b/foxes/core/turbine.py
@@ -71,7 +71,7 @@ class Turbine:
         self.index = index
         self.name = name
         self.xy = np.array(xy)
-        self.models = turbine_models
+        self.models = list(turbine_models)
         self.D = D
         self.H = H
 
-- 
2.43.0


From 73663811602e6ee713581ab76f0f7ded5c0d60db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 37/55] fix: SetFarmVars keeps the turbine type's height and
 diameter where no value is given

---
 foxes/models/turbine_models/set_farm_vars.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index a9748b6..a4d8cfd 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -167,11 +167,14 @@ class SetFarmVars(TurbineModel):
                 for ti in range(algo.n_turbines):
                     t = algo.farm.turbines[ti]
                     x = np.zeros(algo.n_states, dtype=config.dtype_double)
+                    ttype = algo.farm_controller.turbine_types[ti]
                     if v == FV.D:
-                        x[:] = t.D
+                        D = t.D if t.D is not None else ttype.D
+                        x[:] = D
                         t.D = x
                     else:
-                        x[:] = t.H
+                        H = t.H if t.H is not None else ttype.H
+                        x[:] = H
                         t.H = x
                     x[:] = np.where(np.isnan(data[:, ti]), x, data[:, ti])
 
-- 
2.43.0


From 18ecf8839f308abe1d9d286566706d49cda5cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 38/55] fix: PowerMask boosts beyond the Betz limit give the ct
 of maximal power, not minus infinity

---
 foxes/models/turbine_models/power_mask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foxes/models/turbine_models/power_mask.py b/foxes/models/turbine_models/power_mask.py
index 8745aad..61b44eb 100644
--- a/foxes/models/turbine_models/power_mask.py
+++ b/foxes/models/turbine_models/power_mask.py
@@ -197,6 +197,7 @@ class PowerMask(TurbineModel):
             rts[np.isnan(rts)] = np.inf
             rts[rts <= 0.0] = np.inf
             a = np.min(rts, axis=1)
+            a[np.isinf(a)] = 1.0 / 3.0  # beyond the Betz limit
             del a0, a1, a2, a3, rts
 
             # set results:
-- 
2.43.0


From aa27f3d09f6e0bb5316083667009f0524b88cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 39/55] fix: lookup tables with a single input variable

---
 foxes/models/turbine_models/lookup_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/lookup_table.py b/foxes/models/turbine_models/lookup_table.py
index 69107f7..759bfa1 100644
--- a/foxes/models/turbine_models/lookup_table.py
+++ b/foxes/models/turbine_models/lookup_table.py
@@ -150,7 +150,7 @@ class LookupTable(TurbineModel):
                 dvars[oname] = (
                     self.input_vars,
                     pivot_matrix.to_numpy(config.dtype_double).reshape(
-                        pivot_matrix.index.levshape
+                        [len(coords[v]) for v in self.input_vars]
                     ),
                 )
 
-- 
2.43.0


From 533fb68faf37c2469bab32078881baff3bc68156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:56 +0000
Subject: [PATCH 40/55] fix: calculations run for any choice of output
 variables

---
 foxes/engines/pool.py   | 1 +
 foxes/engines/single.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 2c17007..421157d 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -10,6 +10,7 @@ import foxes.constants as FC
 def _run(algo, model, data, iterative, chunk_store, i0_t0, **cpars):
     """Helper function for running in a single process"""
     algo.reset_chunk_store(chunk_store)
+    model.ensure_variables(algo, *data)
     results = model.calculate(algo, *data, **cpars)
     chunk_store = algo.reset_chunk_store() if iterative else {}
     cstore = {i0_t0: chunk_store[i0_t0]} if i0_t0 in chunk_store else {}
diff --git a/foxes/engines/single.py b/foxes/engines/single.py
index b43725e..47f3f45 100644
--- a/foxes/engines/single.py
+++ b/foxes/engines/single.py
@@ -155,6 +155,7 @@ class SingleChunkEngine(Engine):
             out_vars=out_vars,
         )
 
+        model.ensure_variables(algo, *data)
         results = {}
         results[(0, 0)] = (model.calculate(algo, *data, **calc_pars), algo.chunk_store)
 
-- 
2.43.0


From b0783c4f3887aa23483f9990a9677f69a6463a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 41/55] fix: FarmResultsEval.reduce_all means over turbines are
 not sums

---
 foxes/output/farm_results_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index f6af445..f5acacf 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -254,7 +254,7 @@ class FarmResultsEval(Output):
                 else:
                     rdata[v] = self.weinsum("", vdata[None, :])
             elif op == "mean_no_weights":
-                rdata[v] = np.sum(vdata)
+                rdata[v] = np.mean(vdata)
             elif op == "sum":
                 rdata[v] = np.sum(vdata)
             elif op == "min":
-- 
2.43.0


From 70d2dda0ed91d9bd6c992952fc98239b5fb83426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 42/55] fix: calc_farm_mean is the mean over turbines, not the
 sum

---
 foxes/output/farm_results_eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index f5acacf..69ff167 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -369,8 +369,9 @@ class FarmResultsEval(Output):
             The fully contracted results
 
         """
-        op = {v: "weights" for v in vars}
-        return self.reduce_all(states_op=op, turbines_op=op)
+        sop = {v: "weights" for v in vars}
+        top = {v: "mean_no_weights" for v in vars}
+        return self.reduce_all(states_op=sop, turbines_op=top)
 
     def calc_farm_sum(self, vars):
         """
-- 
2.43.0


From 46b8c7193a1ac36fbb8fed4fbe56960e52863e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 43/55] fix: calc_farm_yield for ambient yields

---
 foxes/output/farm_results_eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index 69ff167..4ee163a 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -563,13 +563,14 @@ class FarmResultsEval(Output):
             yargs.update(kwargs)
             turbine_yield = self.calc_turbine_yield(**yargs)
         farm_yield = turbine_yield.sum()
+        v = FV.YLD if FV.YLD in farm_yield else FV.AMB_YLD
 
         if power_uncert is not None:
             P75 = farm_yield * (1.0 - (0.675 * power_uncert))
             P90 = farm_yield * (1.0 - (1.282 * power_uncert))
-            return farm_yield["YLD"], P75["YLD"], P90["YLD"]
+            return farm_yield[v], P75[v], P90[v]
 
-        return farm_yield["YLD"]
+        return farm_yield[v]
 
     def add_efficiency(self, verbosity=1):
         """
-- 
2.43.0


From 941b084389d742534b8f8e4a23dc04e2c422f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 44/55] fix: yields of time series with other time units than
 nanoseconds

---
 foxes/output/farm_results_eval.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index 4ee163a..3cc6ee2 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -470,8 +470,7 @@ class FarmResultsEval(Output):
             if delta_t is None:
                 delta_t = times[-1] - times[-2]
             duration = times[-1] - times[0] + delta_t
-            duration_seconds = np.int64(duration.astype(np.int64) / 1e9)
-            duration_hours = duration_seconds / 3600
+            duration_hours = duration / np.timedelta64(1, "h")
         elif hours is None and annual == True:
             duration_hours = 8760
         elif hours is None:
-- 
2.43.0


From e4f804aade1b91e2f9340a6de3d07a8620e3508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 45/55] fix: partial wakes overlap with the rotor of the
 affected turbine

---
 foxes/algorithms/downwind/models/farm_wakes_calc.py |  7 ++++++-
 .../algorithms/iterative/models/farm_wakes_calc.py  |  7 ++++++-
 foxes/models/partial_wakes/axiwake.py               | 13 ++-----------
 foxes/models/partial_wakes/top_hat.py               | 12 ++----------
 4 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/foxes/algorithms/downwind/models/farm_wakes_calc.py b/foxes/algorithms/downwind/models/farm_wakes_calc.py
index 48b6e42..ff29ba2 100644
--- a/foxes/algorithms/downwind/models/farm_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/farm_wakes_calc.py
@@ -70,7 +70,12 @@ class FarmWakesCalculation(FarmDataModel):
             pwake = algo.partial_wakes[wname]
             if pwake.name not in pwake2tdata:
                 tpoints, tweights = pwake.get_wake_points(algo, mdata, fdata)
-                pwake2tdata[pwake.name] = TData.from_tpoints(tpoints, tweights)
+                pwake2tdata[pwake.name] = TData.from_tpoints(
+                    tpoints,
+                    tweights,
+                    data={FV.D: fdata[FV.D][:, :, None]},
+                    dims={FV.D: (FC.STATE, FC.TARGET, FC.TPOINT)},
+                )
 
         def _get_wdata(tdatap, wdeltas, variables, s):
             """Helper function for wake data extraction"""
diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 3d85c90..25a2538 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -100,7 +100,12 @@ class FarmWakesCalculation(FarmDataModel):
             pwake = algo.partial_wakes[wname]
             if pwake.name not in pwake2tdata:
                 tpoints, tweights = pwake.get_wake_points(algo, mdata, fdata)
-                pwake2tdata[pwake.name] = TData.from_tpoints(tpoints, tweights)
+                pwake2tdata[pwake.name] = TData.from_tpoints(
+                    tpoints,
+                    tweights,
+                    data={FV.D: fdata[FV.D][:, :, None]},
+                    dims={FV.D: (FC.STATE, FC.TARGET, FC.TPOINT)},
+                )
 
         def _get_wdata(tdatap, wdeltas, variables, s):
             """Helper function for wake data extraction"""
diff --git a/foxes/models/partial_wakes/axiwake.py b/foxes/models/partial_wakes/axiwake.py
index c41e63e..473a04d 100644
--- a/foxes/models/partial_wakes/axiwake.py
+++ b/foxes/models/partial_wakes/axiwake.py
@@ -112,17 +112,8 @@ class PartialAxiwake(PartialCentre):
         n_states = mdata.n_states
         n_targets = tdata.n_targets
 
-        # get D:
-        D = self.get_data(
-            FV.D,
-            FC.STATE_TARGET,
-            lookup="w",
-            algo=algo,
-            fdata=fdata,
-            tdata=tdata,
-            downwind_index=downwind_index,
-            upcast=True,
-        )
+        # get rotor diameters of the wake affected turbines:
+        D = tdata[FV.D][:, :, 0]
 
         # calc coordinates to rotor centres:
         wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
diff --git a/foxes/models/partial_wakes/top_hat.py b/foxes/models/partial_wakes/top_hat.py
index a48c050..bfbd245 100644
--- a/foxes/models/partial_wakes/top_hat.py
+++ b/foxes/models/partial_wakes/top_hat.py
@@ -153,16 +153,8 @@ class PartialTopHat(PartialCentre):
             R = np.linalg.norm(yz, axis=-1)
             del yz
 
-            D = self.get_data(
-                FV.D,
-                FC.STATE_TARGET,
-                lookup="w",
-                fdata=fdata,
-                tdata=tdata,
-                downwind_index=downwind_index,
-                algo=algo,
-                upcast=True,
-            )
+            # rotor diameters of the wake affected turbines:
+            D = tdata[FV.D][:, :, 0]
 
             wr = wmodel.calc_wake_radius(
                 algo, mdata, fdata, tdata, downwind_index, x, ct
-- 
2.43.0


From c006e1349abc51a41a51cb640bd58ea3877c59fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 46/55] fix: axisymmetric partial wakes with the wake centre at
 the rotor edge

---
 foxes/models/partial_wakes/axiwake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/partial_wakes/axiwake.py b/foxes/models/partial_wakes/axiwake.py
index 473a04d..2394f9d 100644
--- a/foxes/models/partial_wakes/axiwake.py
+++ b/foxes/models/partial_wakes/axiwake.py
@@ -159,7 +159,7 @@ class PartialAxiwake(PartialCentre):
             del hA, Rsel, Dsel, R1, R2
 
         # case wake centre inside rotor disk:
-        sel = (x > 0) & (R < D / 2)
+        sel = (x > 1e-8) & (R <= D / 2)
         if np.any(sel):
             n_sel = np.sum(sel)
             Rsel = np.zeros((n_sel, self.n + 1), dtype=config.dtype_double)
-- 
2.43.0


From 06fda9010ec1046cb7126814d9f5951d6e303436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 47/55] fix: partial wakes for the main wake of mirrored wakes

---
 foxes/models/ground_models/wake_mirror.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/models/ground_models/wake_mirror.py b/foxes/models/ground_models/wake_mirror.py
index c00f093..7a8ea13 100644
--- a/foxes/models/ground_models/wake_mirror.py
+++ b/foxes/models/ground_models/wake_mirror.py
@@ -75,8 +75,9 @@ class WakeMirror(GroundModel):
         # assert(np.all(fdata[FV.H]==fdata[FV.TXYH[..., 2]]))
 
         # contribution from main wake:
-        wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
-        wmodel.contribute(algo, mdata, fdata, tdata, downwind_index, wcoos, wake_deltas)
+        pwake.contribute(
+            algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel
+        )
 
         # contribution from mirrors:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
-- 
2.43.0


From 2503dd6b5e36d171d451fc5db3ddf6516f2f89f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 48/55] fix: point results of several wake models refer to
 ambient values

---
 foxes/algorithms/downwind/models/point_wakes_calc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/point_wakes_calc.py b/foxes/algorithms/downwind/models/point_wakes_calc.py
index c8ff6d0..61ea498 100644
--- a/foxes/algorithms/downwind/models/point_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/point_wakes_calc.py
@@ -139,7 +139,11 @@ class PointWakesCalculation(PointDataModel):
                     if v not in res and v in tdata:
                         res[v] = tdata[v].copy()
 
-                gmodel.finalize_point_wakes(algo, mdata, fdata, res, wdeltas, wmodel)
+                # res may contain results of other wake models, tdata is ambient:
+                amb_res = {v: tdata[v] for v in res.keys()}
+                gmodel.finalize_point_wakes(
+                    algo, mdata, fdata, amb_res, wdeltas, wmodel
+                )
 
                 for v in res.keys():
                     if v in wdeltas:
-- 
2.43.0


From 9a4aa7e1c0d60b397065b046ae430c97c703a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:55 +0000
Subject: [PATCH 49/55] fix: lookup of a single turbine's model data

get_data selected the turbine of the downwind index from mdata and tdata
entries, checked the dimensions of the selection, and then returned the
complete entry of all turbines.
---
 foxes/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/core/model.py b/foxes/core/model.py
index a451056..70f670c 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -426,7 +426,7 @@ class Model(ABC):
                 a, d = _filter_dims(mdata)
                 l = len(d)
                 if l <= len(dims) and d == dims[:l]:
-                    out = _match_shape(mdata[variable])
+                    out = _match_shape(a)
 
             # lookup fdata:
             elif (
@@ -450,7 +450,7 @@ class Model(ABC):
                 a, d = _filter_dims(tdata)
                 l = len(d)
                 if l <= len(dims) and d == dims[:l]:
-                    out = _match_shape(tdata[variable])
+                    out = _match_shape(a)
 
             # lookup wake modelling data:
             elif (
-- 
2.43.0


From 04423ae14b8d824f332d6be8047c867a45be7ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:55 +0000
Subject: [PATCH 50/55] fix: lookup checks the shape of data with all
 dimensions

Data with as many dimensions as requested was returned without any check
of its shape, and list attributes raised an AttributeError.
---
 foxes/core/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/core/model.py b/foxes/core/model.py
index 70f670c..d98d331 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -386,15 +386,15 @@ class Model(ABC):
 
         def _match_shape(a):
             out = np.asarray(a)
-            if len(out.shape) < len(shp):
+            if len(out.shape) <= len(shp):
                 for i, s in enumerate(shp):
                     if i >= len(out.shape):
                         out = out[..., None]
-                    elif a.shape[i] not in (1, s):
+                    elif out.shape[i] not in (1, s):
                         raise ValueError(
                             f"Shape mismatch for '{variable}': Got {out.shape}, expecting {shp}"
                         )
-            elif len(out.shape) > len(shp):
+            else:
                 raise ValueError(
                     f"Shape mismatch for '{variable}': Got {out.shape}, expecting {shp}"
                 )
-- 
2.43.0


From 6151ad313c5e25fec721c67bc704d21c0fbd46d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 51/55] fix: lookup with tuple selection and upcast

The shape of the upcast result was the one for boolean selections, also for
selections with slices.
---
 foxes/core/model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/foxes/core/model.py b/foxes/core/model.py
index d98d331..17aefdc 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -574,31 +574,31 @@ class Model(ABC):
                     else:
                         chp.append(s)
                 chp = tuple(chp)
-                eshp = list(shp[len(sel_shape) :])
                 if chp != out.shape:
                     nout = np.zeros(chp, dtype=out.dtype)
                     nout[:] = out
-                    return nout, eshp
-                return out, eshp
+                    return nout
+                return out
 
             if isinstance(selection, np.ndarray) and selection.dtype == bool:
                 if len(selection.shape) > len(out.shape):
                     raise ValueError(
                         f"Expecting selection of shape {out.shape}, got {selection.shape}"
                     )
-                out, eshp = _upcast_sel(selection.shape)
+                out = _upcast_sel(selection.shape)
             elif isinstance(selection, (tuple, list)):
                 if len(selection) > len(out.shape):
                     raise ValueError(
                         f"Selection is tuple/list of length {len(selection)}, expecting <= {len(out.shape)} "
                     )
-                out, eshp = _upcast_sel(shp[: len(selection)])
+                out = _upcast_sel(shp[: len(selection)])
             else:
                 raise TypeError(
                     f"Expecting selection of type np.ndarray (bool), or tuple, or list. Got {type(selection).__name__}"
                 )
             out = out[selection]
-            shp = tuple([len(out)] + list(eshp))
+            if upcast:
+                shp = np.broadcast_to(False, shp)[selection].shape
 
         # apply upcast:
         if upcast and out.shape != shp:
-- 
2.43.0


From 51a2a37bf47b78220f158d9861fbcb6d8d12c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:28 +0000
Subject: [PATCH 52/55] fix: dimensions of data entries match their shape

Removing more than one loop dimension of size one from a data entry only
removed the last one, and entries with more axes than dimensions were accepted.
---
 foxes/core/data.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/foxes/core/data.py b/foxes/core/data.py
index 3ff69d3..198171e 100644
--- a/foxes/core/data.py
+++ b/foxes/core/data.py
@@ -153,9 +153,16 @@ class Data(Dict):
         # remove axes of size 1, added by dask for extra loop dimensions:
         if dims is not None:
             if len(dims) != len(data.shape):
-                for li, l in enumerate(self.loop_dims):
-                    if data.shape[li] == 1 and (len(dims) < li + 1 or dims[li] != l):
-                        self[name] = np.squeeze(data, axis=li)
+                axes = tuple(
+                    li
+                    for li, l in enumerate(self.loop_dims)
+                    if li < len(data.shape) and data.shape[li] == 1 and l not in dims
+                )
+                self[name] = np.squeeze(data, axis=axes)
+                if len(dims) != len(self[name].shape):
+                    raise ValueError(
+                        f"Mismatch between dimensions {dims} and shape {data.shape} of data entry '{name}'"
+                    )
             for ci, c in enumerate(dims):
                 if c not in self.sizes or self.sizes[c] == 1:
                     self.sizes[c] = self[name].shape[ci]
-- 
2.43.0


From 02db67132a4c74297a9cf1bf30b933f92aa067fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:28 +0000
Subject: [PATCH 53/55] fix: slices of data entries of size one along the
 sliced dimension

Entries of size one along a dimension apply to all elements of that dimension,
but slicing away the first element made them empty.
---
 foxes/core/data.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/foxes/core/data.py b/foxes/core/data.py
index 198171e..30d89c4 100644
--- a/foxes/core/data.py
+++ b/foxes/core/data.py
@@ -224,8 +224,17 @@ class Data(Dict):
         for v in self.keys():
             d = self.dims[v]
             if d is not None:
+                # entries of size one along a dimension apply to all its elements:
                 hs = tuple(
-                    [s[variables.index(w)] if w in variables else np.s_[:] for w in d]
+                    [
+                        (
+                            s[variables.index(w)]
+                            if w in variables
+                            and (self[v].shape[wi] > 1 or self.sizes[w] == 1)
+                            else np.s_[:]
+                        )
+                        for wi, w in enumerate(d)
+                    ]
                 )
                 data[v] = self[v][hs]
                 dims[v] = (
-- 
2.43.0


From ee5c6207bd51f440d4ad02d7c2eada3bd7c2d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:44 +0000
Subject: [PATCH 54/55] fix: lists of convergence criteria do not share their
 criteria

The default list was shared by all ConvCritList objects, and get_deltas failed
before the first check.
---
 foxes/algorithms/iterative/models/convergence.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/foxes/algorithms/iterative/models/convergence.py b/foxes/algorithms/iterative/models/convergence.py
index 927b5d0..6890dda 100644
--- a/foxes/algorithms/iterative/models/convergence.py
+++ b/foxes/algorithms/iterative/models/convergence.py
@@ -83,20 +83,21 @@ class ConvCritList(ConvCrit):
 
     """
 
-    def __init__(self, crits=[], name=None):
+    def __init__(self, crits=None, name=None):
         """
         Constructor.
 
         Parameters
         ----------
-        crits: list of ConvCrit
+        crits: list of ConvCrit, optional
             The criteria
         name: str, optional
             The convergence criteria name
 
         """
         super().__init__(name)
-        self.crits = crits
+        self.crits = [] if crits is None else crits
+        self._failed = None
 
     def add_crit(self, crit):
         """
-- 
2.43.0


From 77e48a15184ea90994474c3ee352f5d1ce9896a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 55/55] fix: under-relaxation of iterative calculations

URelax asked for results under a name that does not exist and was called with
an argument that it does not have.
---
 foxes/algorithms/iterative/models/farm_wakes_calc.py | 4 ++--
 foxes/algorithms/iterative/models/urelax.py          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 25a2538..3158975 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -161,8 +161,8 @@ class FarmWakesCalculation(FarmDataModel):
         wake_res[FV.WEIGHT] = weights
         rotor.eval_rpoint_results(algo, mdata, fdata, wake_res, rwghts)
         res = algo.farm_controller.calculate(algo, mdata, fdata, pre_rotor=False)
-        if self.urelax is not None:
-            res = self.urelax.calculate(algo, mdata, fdata, res)
         fdata.update(res)
+        if self.urelax is not None:
+            fdata.update(self.urelax.calculate(algo, mdata, fdata))
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
diff --git a/foxes/algorithms/iterative/models/urelax.py b/foxes/algorithms/iterative/models/urelax.py
index cb706b2..e4e4fa7 100644
--- a/foxes/algorithms/iterative/models/urelax.py
+++ b/foxes/algorithms/iterative/models/urelax.py
@@ -71,9 +71,9 @@ class URelax(FarmDataModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        i0 = fdata.states_i0(counter=True, algo=algo)
+        i0 = fdata.states_i0(counter=True)
         i1 = i0 + fdata.n_states
-        pres = algo.prev_farm_results
+        pres = algo.farm_results_downwind
 
         out = {}
         for v, u in self.urel.items():
-- 
2.43.0


From 32f7a5f1c69300263534dfa5b15ccc5acf6c66d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 01/63] fix: cum_to_incr no longer fabricates amounts after the
 valuation date on two-age triangles

---
 chainladder/core/triangle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 55303c3..4b8696d 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -510,6 +510,8 @@ class Triangle(TriangleBase):
                 else:
                     diff = self.iloc[..., 1:] - self.iloc[..., :-1].values
                     self = concat((self.iloc[..., 0], diff), axis=3)
+                    self.valuation_date = v
+                    self = self._arithmetic_cleanup(self)
                 self.is_cumulative = False
             self.valuation_date = v
             return self
-- 
2.43.0


From 700fc63cfd80642bdd3cf78c15c97baa24fb106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 02/63] fix: cum_to_incr(inplace=True) updates the receiver

---
 chainladder/core/triangle.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 4b8696d..6711fbc 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -499,19 +499,19 @@ class Triangle(TriangleBase):
                     self.values = xp.nan_to_num(self.values)
                     values = num_to_value(self.values, 1)
                     diff = self.iloc[..., :-1] / self.iloc[..., 1:].values
-                    self = concat(
+                    obj = concat(
                         (
                             diff,
                             self.iloc[..., -1],
                         ),
                         axis=3,
                     )
-                    self.values = self.values * self.nan_triangle
+                    self.values = obj.values * self.nan_triangle
                 else:
                     diff = self.iloc[..., 1:] - self.iloc[..., :-1].values
-                    self = concat((self.iloc[..., 0], diff), axis=3)
-                    self.valuation_date = v
-                    self = self._arithmetic_cleanup(self)
+                    obj = concat((self.iloc[..., 0], diff), axis=3)
+                    obj.valuation_date = v
+                    self.values = self._arithmetic_cleanup(obj).values
                 self.is_cumulative = False
             self.valuation_date = v
             return self
-- 
2.43.0


From 59212c2b288cf8e77419fb8c35ab651f0714a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 03/63] fix: positional slices over a whole axis keep their
 step

---
 chainladder/core/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 9eb22bd..6b12889 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -73,7 +73,7 @@ class _LocBase:
                 start = i.start if i.start > 0 else None
                 stop = i.stop if i.stop > -1 else None
                 stop = None if stop == self.obj.shape[n] else stop
-                step = None if start is None and stop is None else i.step
+                step = None if i.step == 1 else i.step
                 l.append(slice(start, stop, step))
             else:
                 l.append(i)
-- 
2.43.0


From c5e6cf936872514c241f19177a422725bdb97c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 04/63] fix: dropna works on single-index, single-column
 triangles of one origin or one age

---
 chainladder/core/pandas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index abe87a3..6e86c46 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -166,7 +166,7 @@ class TrianglePandas:
         new line of business that doesn't have origins/developments of an
         existing line in the same triangle.
         """
-        obj = self.sum(axis=0).sum(axis=1)
+        obj = self.sum(axis=0, keepdims=True).sum(axis=1, keepdims=True)
         xp = obj.get_array_module()
         odim = list((xp.nansum(obj.values[0, 0, :], -1) != 0).astype("int"))
         min_odim = obj.origin[odim.index(1)]
-- 
2.43.0


From 8adcc00afa31be88fe00aba22d8dcc00aad0172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 05/63] fix: cum_to_incr works on triangles with a single age

---
 chainladder/core/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 6711fbc..438dca8 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -507,7 +507,7 @@ class Triangle(TriangleBase):
                         axis=3,
                     )
                     self.values = obj.values * self.nan_triangle
-                else:
+                elif self.shape[-1] > 1:
                     diff = self.iloc[..., 1:] - self.iloc[..., :-1].values
                     obj = concat((self.iloc[..., 0], diff), axis=3)
                     obj.valuation_date = v
-- 
2.43.0


From d4c42b32c3f0ac2495d5a85c5f34e2a19a59caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 06/63] fix: dev_to_val/val_to_dev keep amounts in place when
 only the first origin has any or the first valuations are missing

---
 chainladder/core/triangle.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 438dca8..168ff35 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -535,26 +535,27 @@ class Triangle(TriangleBase):
         scale = self._dstep()[obj.development_grain][obj.origin_grain]
         offset = np.arange(obj.shape[-2]) * scale
         min_slide = -offset.max()
-        if (obj.values.coords[-2] == np.arange(1)).all():
-            # Unique edge case #239
-            offset = offset[-1:] * sign
         offset = offset[obj.values.coords[-2]] * sign  # [0]
         obj.values.coords[-1] = obj.values.coords[-1] + offset
         ddims = obj.valuation[obj.valuation <= obj.valuation_date]
         ddims = len(ddims.drop_duplicates())
+        slide = 0
         if ddims == 1 and sign == -1:
-            ddims = len(obj.odims)
-        if obj.values.density > 0 and obj.values.coords[-1].min() < 0:
-            obj.values.coords[-1] = obj.values.coords[-1] - min(
-                obj.values.coords[-1].min(), min_slide
-            )
+            slide = -min_slide
+            ddims = slide + 1
+        elif obj.values.density > 0 and obj.values.coords[-1].min() < 0:
+            # the first valuation comes after several origins have started
+            started = (obj.odims <= np.datetime64(obj.ddims[0])).sum() - 1
+            slide = max(-obj.values.coords[-1].min(), started * scale)
+        obj.values.coords[-1] = obj.values.coords[-1] + slide
+        if obj.values.density > 0 and slide > 0:
             ddims = np.max([np.max(obj.values.coords[-1]) + 1, ddims])
         obj.values.shape = tuple(list(obj.shape[:-1]) + [ddims])
         if options.AUTO_SPARSE == False or backend == "cupy":
             obj = obj.set_backend(backend)
         else:
             obj = obj._auto_sparse()
-        return obj
+        return obj, slide
 
     def dev_to_val(self, inplace=False):
         """Converts triangle from a development lag triangle to a valuation
@@ -588,7 +589,7 @@ class Triangle(TriangleBase):
                 obj = obj.iloc[..., :-1]
         else:
             obj = self
-        obj = obj._val_dev(1, inplace)
+        obj, _ = obj._val_dev(1, inplace)
         ddims = obj.valuation[obj.valuation <= obj.valuation_date]
         obj.ddims = ddims.drop_duplicates().sort_values()
         if self.is_full:
@@ -621,17 +622,14 @@ class Triangle(TriangleBase):
         if self.is_ultimate and self.shape[-1] > 1:
             ultimate = self.iloc[..., -1:]
             ultimate.ddims = np.array([9999])
-            obj = self.iloc[..., :-1]._val_dev(-1, inplace)
+            obj, slide = self.iloc[..., :-1]._val_dev(-1, inplace)
         else:
-            obj = self.copy()._val_dev(-1, inplace)
+            obj, slide = self.copy()._val_dev(-1, inplace)
         val_0 = obj.valuation[0]
-        if self.ddims.shape[-1] == 1 and self.ddims[0] == self.valuation_date:
-            origin_0 = pd.to_datetime(obj.odims[-1])
-        else:
-            origin_0 = pd.to_datetime(obj.odims[0])
+        origin_0 = pd.to_datetime(obj.odims[0])
         lag_0 = (val_0.year - origin_0.year) * 12 + val_0.month - origin_0.month + 1
         scale = self._dstep()["M"][obj.development_grain]
-        obj.ddims = np.arange(obj.values.shape[-1]) * scale + lag_0
+        obj.ddims = (np.arange(obj.values.shape[-1]) - slide) * scale + lag_0
         prune = obj[obj.origin == obj.origin.max()]
         if self.is_ultimate and self.shape[-1] > 1:
             obj = obj.iloc[..., : (prune.valuation <= prune.valuation_date).sum()]
-- 
2.43.0


From b68b9f71dc88291b6d3b3dcf47eb28287e6760b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 07/63] fix: grain keeps the requested origin grain and pads
 partial first origins at period ends

---
 chainladder/core/triangle.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 168ff35..aace9f5 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -709,25 +709,25 @@ class Triangle(TriangleBase):
 
             obj = obj.groupby(groups, axis=2).sum()
 
+            obj.origin_grain = ograin_new
             obj.origin_close = origin_period_end
-            d_start = pd.Period(
-                obj.valuation[0],
-                freq=(
-                    dgrain_old
-                    if dgrain_old == "M"
-                    else dgrain_old + obj.origin.freqstr[-4:]
-                ),
-            ).to_timestamp(how="s")
+            d_freq = (
+                dgrain_old
+                if dgrain_old == "M"
+                else dgrain_old + obj.origin.freqstr[-4:]
+            )
+            d_start = pd.Period(obj.valuation[0], freq=d_freq).to_timestamp(how="s")
 
             if len(obj.ddims) > 1 and obj.origin.to_timestamp(how="s")[0] != d_start:
                 addl_ts = (
-                    pd.period_range(obj.odims[0], obj.valuation[0], freq=dgrain_old)[
-                        :-1
-                    ]
-                    .to_timestamp()
+                    pd.period_range(obj.odims[0], obj.valuation[0], freq=d_freq)[:-1]
+                    .to_timestamp(how="e")
                     .values
                 )
-                addl = obj.iloc[..., -len(addl_ts) :] * 0
+                addl = obj.iloc[..., :1] * 0
+                addl.values = addl.get_array_module().concatenate(
+                    [addl.values] * len(addl_ts), axis=-1
+                )
                 addl.ddims = addl_ts
                 obj = concat((addl, obj), axis=-1)
                 obj.values = num_to_nan(obj.values)
-- 
2.43.0


From e3d04327b66c541f450e479eccdd346a73e83628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 08/63] fix: age-to-ultimate accumulation of sparse patterns
 treats missing factors as 1

---
 chainladder/core/triangle.py           | 3 +--
 chainladder/utils/utility_functions.py | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index aace9f5..4d3f288 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -496,8 +496,7 @@ class Triangle(TriangleBase):
             if self.is_cumulative or self.is_cumulative is None:
                 if self.is_pattern:
                     xp = self.get_array_module()
-                    self.values = xp.nan_to_num(self.values)
-                    values = num_to_value(self.values, 1)
+                    self.values = num_to_value(xp.nan_to_num(self.values), 1)
                     diff = self.iloc[..., :-1] / self.iloc[..., 1:].values
                     obj = concat(
                         (
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 249ad45..e4246cd 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -360,7 +360,7 @@ def num_to_value(arr, value):
             arr.data = arr.data[arr.data != 0]
 
             arr = sp(
-                coords=arr.coords, data=arr.data, fill_value=sp.nan, shape=arr.shape
+                coords=arr.coords, data=arr.data, fill_value=value, shape=arr.shape
             )
         else:
             arr = sp(num_to_nan(np.nan_to_num(arr.todense())), fill_value=value)
-- 
2.43.0


From 1ade9aa6392bc79fa2478fb3e1ad01d08ab11ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 09/63] fix: setting a cell of an empty sparse triangle

---
 chainladder/core/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 6b12889..2da7151 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -86,7 +86,7 @@ class _LocBase:
             (self.obj.values.coords[1] == key[1]) *
             (self.obj.values.coords[2] == key[2]) *
             (self.obj.values.coords[3] == key[3]))
-        if check.max():
+        if check.any():
             data_index = np.where(check == True)[0][0]
             self.obj.values.data[data_index] = values
         else:
-- 
2.43.0


From 90e29669f824838fc217ae2751a0ed0223d4fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 10/63] fix: virtual columns of a copy no longer leak into the
 original

---
 chainladder/core/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 2da7151..0b3128e 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -267,7 +267,7 @@ class TriangleSlicer:
         """ Call any time the shape of index or column changes """
         self.iloc, self.loc = Ilocation(self), Location(self)
         self.iat, self.at = Iat(self), At(self)
-        self.virtual_columns = VirtualColumns(self, self.virtual_columns.columns)
+        self.virtual_columns = VirtualColumns(self, dict(self.virtual_columns.columns))
 
 
 class At(Location):
-- 
2.43.0


From 1e77257ed72d7c9f61243a7c6e8f8459067021d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 11/63] fix: Triangle <= includes equality

---
 chainladder/core/dunders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 137f1dd..532062d 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -368,5 +368,5 @@ class TriangleDunders:
     def __le__(self, value):
         obj = self.copy()
         xp = self.get_array_module()
-        obj.values = xp.nan_to_num(obj.values) < xp.nan_to_num(value)
+        obj.values = xp.nan_to_num(obj.values) <= xp.nan_to_num(value)
         return obj
-- 
2.43.0


From b9e3db3d9bb69f56c29bb143acbcc39d2055ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 12/63] fix: arithmetic between triangles whose columns are
 reordered or a subset

---
 chainladder/core/dunders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 532062d..0da2bb3 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -124,8 +124,9 @@ class TriangleDunders:
                 y = y.reindex(columns=new_y_cols, fill_value=0)
             
             # Ensure both triangles have the same column order
-            x = x[new_x_cols]
-            y = y[new_x_cols]
+            cols = list(x.columns)
+            x = x[cols]
+            y = y[cols]
         
         # Reset backends only if they've changed
         if x.array_backend != x_backend:
-- 
2.43.0


From 20c98b484940866f5ea1dee2e2ed0016fbf04a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 13/63] fix: arithmetic aligns equally long origin/development
 axes that differ in some labels

---
 chainladder/core/dunders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 0da2bb3..2f8d7e0 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -142,9 +142,9 @@ class TriangleDunders:
             (m == n) or (m == 1) or (n == 1)
             for m, n in zip(obj.shape[-2:][::-1], other.shape[-2:][::-1]))
         if (len(obj.odims), len(obj.ddims)) == (len(other.odims), len(other.ddims)):
-            if np.all(obj.ddims != other.ddims) and len(obj.ddims) > 1:
+            if np.any(obj.ddims != other.ddims) and len(obj.ddims) > 1:
                 is_broadcastable = False
-            if np.all(obj.odims != other.odims) and len(obj.odims) > 1:
+            if np.any(obj.odims != other.odims) and len(obj.odims) > 1:
                 is_broadcastable = False
         if len(other.odims) == 1 and len(obj.odims) > 1:
             other.odims = obj.odims
-- 
2.43.0


From 51e613d902414ccb611ababc34904a4aa69035ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 14/63] fix: replacing a column of a sparse triangle neither
 mutates the assigned triangle nor fails on a single column

---
 chainladder/core/slice.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 0b3128e..cd67ad1 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -220,12 +220,11 @@ class TriangleSlicer:
         if key in self.vdims:
             i = np.where(self.vdims == key)[0][0]
             if self.array_backend == "sparse":
-                before = self.drop(key).values
-                bc = before.coords[1, :]
-                before.coords[1] = np.where(bc >= i, bc + 1, bc,)
-                value.values.coords[1] = i
-                coords = np.concatenate((before.coords, value.values.coords), axis=1)
-                data = np.concatenate((before.data, value.values.data))
+                keep = self.values.coords[1] != i
+                after = value.values.coords.copy()
+                after[1] = i
+                coords = np.concatenate((self.values.coords[:, keep], after), axis=1)
+                data = np.concatenate((self.values.data[keep], value.values.data))
                 self.values = xp(
                     coords, data, shape=self.shape, prune=True, fill_value=xp.nan
                 )
-- 
2.43.0


From f4377890f723a29a1aebbfbc9c9791de2aee404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 15/63] fix: index rows missing from one operand stay missing
 in quotients

---
 chainladder/core/dunders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 2f8d7e0..4da3794 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -216,7 +216,7 @@ class TriangleDunders:
             return obj.obj.iloc[obj.groups.indices[k]]
         else:
             other = other.obj.iloc[other.groups.indices[k]]
-            new_obj = obj.obj.iloc[:1] * 0
+            new_obj = obj.obj.iloc[:1] * np.nan
             labels = list(set(other.key_labels).intersection(set(new_obj.key_labels)))
             new_idx = other.index.set_index(labels).join(
                 new_obj.index.set_index(labels)).reset_index()
-- 
2.43.0


From 7b9c357bf7553435bc56052b5f7b0c46bd48f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 16/63] fix: arithmetic aligns origin and development when
 columns or single origins also differ

---
 chainladder/core/dunders.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 4da3794..10133de 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -141,10 +141,11 @@ class TriangleDunders:
         is_broadcastable = all(
             (m == n) or (m == 1) or (n == 1)
             for m, n in zip(obj.shape[-2:][::-1], other.shape[-2:][::-1]))
-        if (len(obj.odims), len(obj.ddims)) == (len(other.odims), len(other.ddims)):
-            if np.any(obj.ddims != other.ddims) and len(obj.ddims) > 1:
+        if len(obj.ddims) == len(other.ddims) > 1:
+            if np.any(obj.ddims != other.ddims):
                 is_broadcastable = False
-            if np.any(obj.odims != other.odims) and len(obj.odims) > 1:
+        if len(obj.odims) == len(other.odims) > 1:
+            if np.any(obj.odims != other.odims):
                 is_broadcastable = False
         if len(other.odims) == 1 and len(obj.odims) > 1:
             other.odims = obj.odims
@@ -189,17 +190,22 @@ class TriangleDunders:
                 other_arr = xp.zeros((other.shape[0], other.shape[1], len(odims), len(ddims)))
                 other_arr[:] = xp.nan
                 other_arr[:, :, rol:roh, rdl:rdh] = other.values
-                obj_arr = xp.zeros((self.shape[0], self.shape[1], len(odims), len(ddims)))
+                obj_arr = xp.zeros((obj.shape[0], obj.shape[1], len(odims), len(ddims)))
                 obj_arr[:] = xp.nan
                 obj_arr[:, :, lol:loh, ldl:ldh] = obj.values
             else:
-                obj_arr, other_arr = obj.values.copy(), other.values.copy()
+                obj_arr, other_arr = [
+                    x.values.broadcast_to(
+                        x.values.shape[:2] + (len(x.odims), len(x.ddims))
+                    ).copy()
+                    for x in (obj, other)
+                ]
                 other_arr.coords[2] = other_arr.coords[2] + rol
                 other_arr.coords[3] = other_arr.coords[3] + rdl
                 obj_arr.coords[2] = obj_arr.coords[2] + lol
                 obj_arr.coords[3] = obj_arr.coords[3] + ldl
                 other_arr.shape = (other.shape[0], other.shape[1], len(odims), len(ddims))
-                obj_arr.shape = (self.shape[0], self.shape[1], len(odims), len(ddims))
+                obj_arr.shape = (obj.shape[0], obj.shape[1], len(odims), len(ddims))
             obj.odims = np.array(odims.index)
             if type(obj.ddims) == pd.DatetimeIndex:
                 obj.ddims = pd.DatetimeIndex(ddims.index)
-- 
2.43.0


From c84b0f84c7d42462f66804868f6202bb17da693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 17/63] fix: arithmetic keeps the later valuation date when
 columns are reordered

---
 chainladder/core/dunders.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 10133de..c598417 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -23,10 +23,13 @@ class TriangleDunders:
             obj, other = self._compatibility_check(self, other)
             if obj.is_pattern != other.is_pattern:
                 obj.is_pattern = other.is_pattern = False
-            obj.valuation_date = max(obj.valuation_date, other.valuation_date)
+            valuation_date = max(obj.valuation_date, other.valuation_date)
             obj, other = self._prep_columns(obj, other)
             obj, other = self._prep_origin_development(obj, other)
+            obj.valuation_date = other.valuation_date = valuation_date
             obj, other = self._prep_index(obj, other)
+            if isinstance(obj, TriangleDunders):
+                obj.valuation_date = valuation_date
             if isinstance(other, TriangleDunders):
                 other = other.values
         else:
-- 
2.43.0


From 3a93f658f353f5823ce6d8e11a8bb761afc6e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 18/63] fix: origin axis of fiscal-year triangles follows the
 fiscal close

---
 chainladder/core/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 4d3f288..c690df2 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -200,6 +200,7 @@ class Triangle(TriangleBase):
         self.virtual_columns = VirtualColumns(self)
         self.is_pattern = pattern
 
+        origin_freq = self.origin_grain
         split = self.origin_grain.split("-")
         self.origin_grain = {"A": "Y", "2Q": "S"}.get(split[0], split[0])
 
@@ -223,7 +224,7 @@ class Triangle(TriangleBase):
             pd.period_range(
                 start=self.odims.min(),
                 end=self.valuation_date,
-                freq=self.origin_grain.replace("S", "2Q"),
+                freq=origin_freq,
             )
             .to_timestamp()
             .values
-- 
2.43.0


From 938b4b04b2f8bf75937af8dc47ec8be61ef81ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 19/63] fix: arithmetic of a single-column triangle with
 several columns and different index rows

---
 chainladder/core/dunders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index c598417..863db2f 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -104,9 +104,12 @@ class TriangleDunders:
     def _prep_columns(self, x, y):
         x_backend, y_backend = x.array_backend, y.array_backend
         
+        xp = x.get_array_module()
         if len(x.columns) == 1 and len(y.columns) > 1:
+            x.values = xp.concatenate((x.values,) * len(y.columns), 1)
             x.vdims = y.vdims
         elif len(y.columns) == 1 and len(x.columns) > 1:
+            y.values = xp.concatenate((y.values,) * len(x.columns), 1)
             y.vdims = x.vdims
         elif len(y.columns) == len(x.columns) == 1 and x.columns != y.columns:
             y.vdims = x.vdims
-- 
2.43.0


From 785ce736e7603134da4b66cdb8275fbdb5d2b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 20/63] fix: concat aligns columns by label

---
 chainladder/utils/utility_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index e4246cd..47a4448 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -318,6 +318,8 @@ def concat(
                     obj = copy.deepcopy(obj)
                     obj[col] = xp.nan
                     objs[num] = obj
+            if list(obj.columns) != all_columns:
+                objs[num] = obj[all_columns]
     objs = set_common_backend(objs)
     mapper = {0: "kdims", 1: "vdims", 2: "odims", 3: "ddims"}
     for k in mapper.keys():
-- 
2.43.0


From 58510f9e436e2c8b5877173e21d6eacc6402ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 21/63] fix: concat leaves the caller's list alone

---
 chainladder/utils/utility_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 47a4448..3a05183 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -299,8 +299,7 @@ def concat(
     """
     if type(objs) not in (list, tuple):
         raise TypeError("objects to be concatenated must be in a list or tuple")
-    if type(objs) is tuple:
-        objs = list(objs)
+    objs = list(objs)
     if len(objs) == 0:
         raise ValueError("objs must contain at least one element")
     xp = objs[0].get_array_module()
-- 
2.43.0


From d6475f4fd6e093504276fded3f9358e8c8e2a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 22/63] fix: dropna keeps origins and ages whose amounts cancel
 out

---
 chainladder/core/pandas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index 6e86c46..9d2fb6c 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -166,7 +166,7 @@ class TrianglePandas:
         new line of business that doesn't have origins/developments of an
         existing line in the same triangle.
         """
-        obj = self.sum(axis=0, keepdims=True).sum(axis=1, keepdims=True)
+        obj = abs(self).sum(axis=0, keepdims=True).sum(axis=1, keepdims=True)
         xp = obj.get_array_module()
         odim = list((xp.nansum(obj.values[0, 0, :], -1) != 0).astype("int"))
         min_odim = obj.origin[odim.index(1)]
-- 
2.43.0


From 90361b56ca76d7d6044875b81b2be16130015142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 23/63] fix: semi-annual data keep their half-year ends and can
 change grain

---
 chainladder/core/base.py     |  2 +-
 chainladder/core/triangle.py | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/chainladder/core/base.py b/chainladder/core/base.py
index 122e878..169d363 100644
--- a/chainladder/core/base.py
+++ b/chainladder/core/base.py
@@ -192,7 +192,7 @@ class TriangleBase(
         ).to_timestamp(how="e")
 
         # If the development is semi-annual, we need to adjust further because of "2Q-DEC"
-        if development_grain == "2Q-DEC":
+        if development_grain.startswith("2Q"):
             from pandas.tseries.offsets import DateOffset
 
             d = d + DateOffset(months=-3)
diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index c690df2..ca8837e 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -155,8 +155,9 @@ class Triangle(TriangleBase):
             how="s"
         )
 
+        # A multi-quarter period would end after the quarter that closes it
         development_date = development_date.dt.to_period(
-            self.development_grain
+            self.development_grain.replace("2Q", "Q")
         ).dt.to_timestamp(how="e")
 
         # Aggregate dates to the origin/development grains
@@ -693,7 +694,8 @@ class Triangle(TriangleBase):
             freq = {"Y": "Y", "S": "2Q"}.get(ograin_new, ograin_new)
 
             if trailing or (obj.origin.freqstr[-3:] != "DEC" and ograin_old != "M"):
-                origin_period_end = self.origin[-1].strftime("%b").upper()
+                origin_period_end = self.origin[-1].to_timestamp(how="e")
+                origin_period_end = origin_period_end.strftime("%b").upper()
             else:
                 origin_period_end = "DEC"
 
@@ -714,9 +716,10 @@ class Triangle(TriangleBase):
             d_freq = (
                 dgrain_old
                 if dgrain_old == "M"
-                else dgrain_old + obj.origin.freqstr[-4:]
+                else {"S": "2Q"}.get(dgrain_old, dgrain_old) + obj.origin.freqstr[-4:]
             )
-            d_start = pd.Period(obj.valuation[0], freq=d_freq).to_timestamp(how="s")
+            d_start = pd.Period(obj.valuation[0], freq=d_freq.replace("2Q", "Q"))
+            d_start = (d_start - int(dgrain_old == "S")).to_timestamp(how="s")
 
             if len(obj.ddims) > 1 and obj.origin.to_timestamp(how="s")[0] != d_start:
                 addl_ts = (
-- 
2.43.0


From 1f477813055807679c3caa7914d2bc919f684e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 24/63] fix: dev_to_val, val_to_dev and grain honour inplace

---
 chainladder/core/triangle.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index ca8837e..e565b80 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -558,6 +558,12 @@ class Triangle(TriangleBase):
             obj = obj._auto_sparse()
         return obj, slide
 
+    def _become(self, other):
+        """ Takes over the state of another Triangle """
+        self.__dict__.update(vars(other))
+        self._set_slicers()
+        return self
+
     def dev_to_val(self, inplace=False):
         """Converts triangle from a development lag triangle to a valuation
         triangle.
@@ -579,6 +585,8 @@ class Triangle(TriangleBase):
                 return self
             else:
                 return self.copy()
+        if inplace:
+            return self._become(self.dev_to_val())
         is_cumulative = self.is_cumulative
         if self.is_full:
             if is_cumulative:
@@ -620,6 +628,8 @@ class Triangle(TriangleBase):
                 return self
             else:
                 return self.copy()
+        if inplace:
+            return self._become(self.val_to_dev())
         if self.is_ultimate and self.shape[-1] > 1:
             ultimate = self.iloc[..., -1:]
             ultimate.ddims = np.array([9999])
@@ -754,8 +764,7 @@ class Triangle(TriangleBase):
         obj = obj.dev_to_val() if self.is_val_tri else obj.val_to_dev()
 
         if inplace:
-            self = obj
-            return self
+            return self._become(obj)
 
         return obj
 
-- 
2.43.0


From 15ec1805231aa7276e24163ca5e5b9cf3e6bd7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 25/63] fix: Development exclusions on triangles that are not
 full and on finer valuation grains

n_periods, drop_high/drop_low and drop_valuation masked the wrong link ratios
(or failed) when ages or origins are truncated, drop_valuation ignored the
development grain, n_periods lists could not be combined with drop_high/low.
---
 chainladder/development/base.py        | 48 ++++++++++++--------------
 chainladder/development/development.py |  8 ++---
 2 files changed, 27 insertions(+), 29 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index a1a2107..0ae3fb8 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -67,9 +67,9 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
                 val_date_min = X.valuation[X.valuation <= X.valuation_date]
                 val_date_min = val_date_min.drop_duplicates().sort_values()
                 z = -n_periods * val_offset[X.development_grain][X.origin_grain] - 1
-                val_date_min = val_date_min[z]
-                w = X[X.valuation >= val_date_min]
-                return xp.nan_to_num((w / w).values) * X.nan_triangle
+                val_date_min = val_date_min[max(z, -len(val_date_min))]
+                recent = (X.valuation >= val_date_min).reshape(X.shape[-2:], order="f")
+                return xp.nan_to_num((X / X).values) * recent * X.nan_triangle
 
         xp = X.get_array_module()
 
@@ -95,7 +95,7 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
 
         if (self.drop_high is not None) | (self.drop_low is not None):
             n_periods_ = self._validate_assumption(X, self.n_periods, axis=3)[
-                0, 0, 0, :-1
+                0, 0, 0, : X.shape[3] - 1
             ]
 
             w_ = self._assign_n_periods_weight(X, n_periods_)
@@ -169,7 +169,9 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
         preserve_array[:, :, :] = drop_array_helper(preserve)
 
         # operationalizing the -1 option for n_period
-        n_period_array = np.where(n_period_array == -1, link_ratios_len, n_period_array)
+        n_period_array = np.where(
+            n_period_array == -1, link_ratio.shape[2], n_period_array
+        )
 
         # ranking factors by itself and volume
         link_ratio_ranks = np.lexsort((X.values[..., :-1], link_ratio), axis=2).argsort(
@@ -310,24 +312,22 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
 
         return weights.transpose((0, 1, 3, 2))
 
+    def _to_valuation(self, dates, X):
+        """The valuation dates of X containing each of the given dates"""
+        freq = {"Y": "Y", "S": "Q", "Q": "Q", "M": "M"}[X.development_grain]
+        if freq != "M":
+            freq = freq + "-" + X.valuation_date.strftime("%b").upper()
+        return pd.PeriodIndex(dates, freq=freq).to_timestamp(how="e")
+
     def _drop_valuation(self, X):
         xp = X.get_array_module()
         if type(self.drop_valuation) is not list:
             drop_valuation = [self.drop_valuation]
         else:
             drop_valuation = self.drop_valuation
-        v = pd.PeriodIndex(drop_valuation, freq=X.origin_grain).to_timestamp(how="e")
-        arr = 1 - xp.nan_to_num(X[X.valuation.isin(v)].values[0, 0] * 0 + 1)
-        ofill = X.shape[-2] - arr.shape[-2]
-        dfill = X.shape[-1] - arr.shape[-1]
-        if ofill > 0:
-            arr = xp.concatenate(
-                (arr, xp.repeat(xp.ones(arr.shape[-1])[None], ofill, 0)), 0
-            )
-        if dfill > 0:
-            arr = xp.concatenate(
-                (arr, xp.repeat(xp.ones(arr.shape[-2])[..., None], dfill, -1)), -1
-            )
+        v = self._to_valuation(drop_valuation, X)
+        dropped = X.valuation.isin(v).reshape(X.shape[-2:], order="f")
+        arr = xp.array(1 - dropped.astype(float))
         return arr[:, :-1]
 
     def _drop(self, X):
@@ -386,8 +386,8 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
             val_offset = {
                 "Y": {"Y": 1},
                 "S": {"Y": 2, "S": 1},
-                "Q": {"Y": 4, "Q": 1},
-                "M": {"Y": 12, "Q": 3, "M": 1},
+                "Q": {"Y": 4, "S": 2, "Q": 1},
+                "M": {"Y": 12, "S": 6, "Q": 3, "M": 1},
             }
             if n_periods < 1 or n_periods >= X.shape[-2]:
                 return X.values * 0 + 1
@@ -395,9 +395,9 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
                 val_date_min = X.valuation[X.valuation <= X.valuation_date]
                 val_date_min = val_date_min.drop_duplicates().sort_values()
                 z = -n_periods * val_offset[X.development_grain][X.origin_grain]
-                val_date_min = val_date_min[z]
-                w = X[X.valuation >= val_date_min]
-                return xp.nan_to_num((w / w).values) * X.nan_triangle
+                val_date_min = val_date_min[max(z, -len(val_date_min))]
+                recent = (X.valuation >= val_date_min).reshape(X.shape[-2:], order="f")
+                return xp.nan_to_num((X / X).values) * recent * X.nan_triangle
 
         xp = factor.get_array_module()
 
@@ -444,9 +444,7 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
         else:
             drop_valuation_list = [self.drop_valuation]
         # turn drop_valuation to same valuation freq as factor
-        v = pd.PeriodIndex(
-            drop_valuation_list, freq=factor.development_grain
-        ).to_timestamp(how="e")
+        v = self._to_valuation(drop_valuation_list, factor)
         # warn that some drop_valuation are outside of factor
         if np.any(~v.isin(factor.valuation)):
             warnings.warn("Some valuations could not be dropped.")
diff --git a/chainladder/development/development.py b/chainladder/development/development.py
index e7b18a7..1fd612d 100644
--- a/chainladder/development/development.py
+++ b/chainladder/development/development.py
@@ -127,12 +127,12 @@ class Development(DevelopmentBase):
         else:
             tri_array = num_to_nan(obj.values.copy())
 
-        average_ = self._validate_assumption(X, self.average, axis=3)[
-            ..., : X.shape[3] - 1
+        average_ = self._validate_assumption(obj, self.average, axis=3)[
+            ..., : obj.shape[3] - 1
         ]
         self.average_ = average_.flatten()
-        n_periods_ = self._validate_assumption(X, self.n_periods, axis=3)[
-            ..., : X.shape[3] - 1
+        n_periods_ = self._validate_assumption(obj, self.n_periods, axis=3)[
+            ..., : obj.shape[3] - 1
         ]
         x, y = tri_array[..., :-1], tri_array[..., 1:]
         exponent = xp.array(
-- 
2.43.0


From 112fb41a7c8cf63e651901cfe999eb9a3e2c49c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 26/63] fix: Development with n_periods one short of the
 origins, and drop pairs without a link ratio

---
 chainladder/development/base.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index 0ae3fb8..e076a0d 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -61,7 +61,7 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
                 "Q": {"Y": 4, "S": 2, "Q": 1},
                 "M": {"Y": 12, "S": 6, "Q": 3, "M": 1},
             }
-            if n_periods < 1 or n_periods >= X.shape[-2] - 1:
+            if n_periods < 1 or n_periods >= X.shape[-2]:
                 return X.values * 0 + 1
             else:
                 val_date_min = X.valuation[X.valuation <= X.valuation_date]
@@ -426,13 +426,11 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
         )
         # create ndarray of drop_list for further operation in numpy
         drop_np = np.asarray(drop_list)
-        # find indices of drop_np
-        origin_ind = np.where(
-            np.array([factor.origin.astype("string")]) == drop_np[:, [0]]
-        )[1]
-        dev_ind = np.where(np.array([dev_list]) == drop_np[:, [1]])[1]
+        # find the factors of drop_np, some of which may have no link ratio
+        origin_hit = np.array([factor.origin.astype("string")]) == drop_np[:, [0]]
+        dev_hit = np.array([dev_list]) == drop_np[:, [1]]
         # set weight of dropped factors to 0
-        arr[(origin_ind, dev_ind)] = 0
+        arr[(origin_hit[:, :, None] & dev_hit[:, None, :]).any(axis=0)] = 0
         return xp.nan_to_num(arr)[None, None]
 
     def _drop_valuation_func(self, factor):
-- 
2.43.0


From c7833c78777ea3730bc8339a93f93bb1b7380512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 27/63] fix: an age without link ratios no longer distorts the
 extrapolated sigma

---
 chainladder/utils/weighted_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/utils/weighted_regression.py b/chainladder/utils/weighted_regression.py
index aec67d2..b7328c2 100644
--- a/chainladder/utils/weighted_regression.py
+++ b/chainladder/utils/weighted_regression.py
@@ -84,7 +84,7 @@ class WeightedRegression(BaseEstimator):
         residual = (y - fitted_value) * xp.sqrt(w)
         wss_residual = xp.nansum(residual**2, axis)
         mse_denom = xp.nansum((y * 0 + 1) * (xp.nan_to_num(w) != 0), axis) - 1
-        mse_denom = num_to_nan(mse_denom)
+        mse_denom = num_to_nan(mse_denom * (mse_denom > 0))
         mse = wss_residual / mse_denom
         std_err = xp.sqrt(mse / d)
         std_err = std_err[..., None]
-- 
2.43.0


From 16a190bbe4880481e22b7fd4182e03cb5270e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 28/63] fix: patterns of triangles whose oldest ages are beyond
 the valuation date keep every age

---
 chainladder/development/development.py | 2 +-
 chainladder/development/munich.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/development/development.py b/chainladder/development/development.py
index 1fd612d..eaa0fbe 100644
--- a/chainladder/development/development.py
+++ b/chainladder/development/development.py
@@ -223,7 +223,7 @@ class Development(DevelopmentBase):
         obj = X[X.origin == X.origin.min()]
         xp = X.get_array_module()
         obj.values = xp.ones(obj.shape)[..., :-1] * params[..., idx : idx + 1, :]
-        obj.ddims = X.link_ratio.ddims
+        obj.ddims = X.ddims[: obj.values.shape[3]]
         obj.valuation_date = pd.to_datetime(options.ULT_VAL)
         obj.is_pattern = True
         obj.is_cumulative = False
diff --git a/chainladder/development/munich.py b/chainladder/development/munich.py
index fa1ad73..42b9975 100644
--- a/chainladder/development/munich.py
+++ b/chainladder/development/munich.py
@@ -346,7 +346,7 @@ class MunichAdjustment(DevelopmentBase):
         ldf_tri = ldf_tri[..., :-1] / ldf_tri[..., 1:]
         obj = cdf.copy()
         obj.values = ldf_tri
-        obj.ddims = X.link_ratio.ddims
+        obj.ddims = X.ddims[: ldf_tri.shape[3]]
         obj.is_pattern = True
         obj.is_cumulative = False
         obj._set_slicers
-- 
2.43.0


From ec71a1c7341fdd58933224f7edabfb62af4e0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 29/63] fix: residuals of missing amounts, drop_valuation that
 empties an origin or an age

---
 chainladder/development/base.py        | 3 ++-
 chainladder/development/development.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index e076a0d..f9006ae 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -447,7 +447,8 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
         if np.any(~v.isin(factor.valuation)):
             warnings.warn("Some valuations could not be dropped.")
         # return triangle of 0/1 where dropped factors have 0
-        b = xp.nan_to_num(factor.iloc[0, 0][~factor.valuation.isin(v)].values * 0 + 1)
+        keep = (~factor.valuation.isin(v)).reshape(factor.shape[-2:], order="f")
+        b = xp.nan_to_num(factor.iloc[0, 0].values * 0 + 1) * keep
         # check to make sure some factors are still left
         if b.sum() == 0:
             raise Exception("The entire triangle has been dropped via drop_valuation.")
diff --git a/chainladder/development/development.py b/chainladder/development/development.py
index eaa0fbe..7fbdbdd 100644
--- a/chainladder/development/development.py
+++ b/chainladder/development/development.py
@@ -155,7 +155,7 @@ class Development(DevelopmentBase):
         self.w_ = self._assign_n_periods_weight(
             obj, n_periods_
         ) * self._drop_adjustment(obj, link_ratio)
-        w = num_to_nan(self.w_ / (x ** (exponent)))
+        w = num_to_nan(self.w_ / (x ** (exponent)) * (y * 0 + 1))
         params = WeightedRegression(axis=2, thru_orig=True, xp=xp).fit(x, y, w)
 
         if self.n_periods != 1:
-- 
2.43.0


From 2f4a8a870b9b47125b855ea6c8ebc59abccce05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 30/63] fix: residuals of missing amounts; drop_valuation and
 per-age parameters when an age has no link ratio

---
 chainladder/development/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index f9006ae..245281c 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -346,6 +346,7 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
         param_array = pd.Series(size * [default_value]).astype("object")
         # only a single parameter is provided
         if isinstance(param, list):
+            param = param[:size]
             param_array[range(len(param))] = np.array(param)
             param_array.loc[param_array.isna()] = default_value
             param_array = param_array.astype(type(default_value))
-- 
2.43.0


From ad29788d1ae789a5972f2384e3acbafcef3d9ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 31/63] fix: missing values are no observations of a dense
 regression

---
 chainladder/utils/weighted_regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chainladder/utils/weighted_regression.py b/chainladder/utils/weighted_regression.py
index b7328c2..84a0b88 100644
--- a/chainladder/utils/weighted_regression.py
+++ b/chainladder/utils/weighted_regression.py
@@ -49,6 +49,7 @@ class WeightedRegression(BaseEstimator):
         w, x, y, axis = self.w.copy(), self.x.copy(), self.y.copy(), self.axis
         xp = self.xp
         if xp != sp:
+            w = xp.where(xp.isnan(x * y), 0.0, w)  # a missing value is no observation
             x[w == 0] = xp.nan
             y[w == 0] = xp.nan
         else:
-- 
2.43.0


From 68ecea3e6672248c36d040e4af0f2034a670629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 32/63] fix: a regression slope of zero is a slope

---
 chainladder/utils/weighted_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/utils/weighted_regression.py b/chainladder/utils/weighted_regression.py
index 84a0b88..100192e 100644
--- a/chainladder/utils/weighted_regression.py
+++ b/chainladder/utils/weighted_regression.py
@@ -59,7 +59,7 @@ class WeightedRegression(BaseEstimator):
 
         with warnings.catch_warnings():
             warnings.simplefilter("ignore", category=RuntimeWarning)
-            slope = num_to_nan(
+            slope = (
                 xp.nansum(w * x * y, axis)
                 - xp.nansum(x * w, axis) * xp.nanmean(y, axis)
             ) / num_to_nan(
-- 
2.43.0


From 74de045de6ab2106e96f07aea66f3b42c7adccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 33/63] fix: ages of sigma_ and std_err_ of a tail follow their
 own length

---
 chainladder/tails/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/tails/base.py b/chainladder/tails/base.py
index 6243aeb..b945a72 100644
--- a/chainladder/tails/base.py
+++ b/chainladder/tails/base.py
@@ -35,7 +35,7 @@ class TailBase(DevelopmentBase):
             self.sigma_.values = xp.concatenate((self.sigma_.values, zeros), -1)
             self.std_err_ = getattr(obj, "std_err_").copy()
             self.std_err_.values = xp.concatenate((self.std_err_.values, zeros), -1)
-            self.sigma_.ddims = self.std_err_.ddims = self.ldf_.ddims[:obj.shape[2]]
+            self.sigma_.ddims = self.std_err_.ddims = self.ldf_.ddims[:self.sigma_.values.shape[-1]]
             self.sigma_._set_slicers()
             self.std_err_._set_slicers()
         if hasattr(obj, "average_"):
-- 
2.43.0


From c8456ee78ad8d00bfce47827931029e188dacad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 34/63] fix: a tail can attach at the first age

---
 chainladder/tails/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/tails/base.py b/chainladder/tails/base.py
index b945a72..aa43000 100644
--- a/chainladder/tails/base.py
+++ b/chainladder/tails/base.py
@@ -85,7 +85,7 @@ class TailBase(DevelopmentBase):
     def _apply_decay(self, X, tail, attach_idx=None):
         """ Created Tail vector with decay over time. """
         xp = self.ldf_.get_array_module()
-        if attach_idx:
+        if attach_idx is not None:
             decay_range = self.ldf_.shape[-1] - attach_idx
         else:
             decay_range = self.ldf_.shape[-1] - X.shape[-1] + 1
-- 
2.43.0


From 0fa532e158f54a68ec8d7474c3c4c2b2da4e2cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 35/63] fix: tails of sparse triangles accept attachment_age
 and a fit_period list

---
 chainladder/tails/constant.py | 3 ++-
 chainladder/tails/curve.py    | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/chainladder/tails/constant.py b/chainladder/tails/constant.py
index 54bd0c8..8f84bb1 100644
--- a/chainladder/tails/constant.py
+++ b/chainladder/tails/constant.py
@@ -1,6 +1,7 @@
 # This Source Code Form is subject to the terms of the Mozilla Public
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at https://mozilla.org/MPL/2.0/.
+import numpy as np
 from chainladder.tails import TailBase
 from chainladder.development import Development
 
@@ -70,7 +71,7 @@ class TailConstant(TailBase):
         xp = self.ldf_.get_array_module()
         tail = self.tail
         if self.attachment_age:
-            attach_idx = xp.min(xp.where(X.ddims >= self.attachment_age))
+            attach_idx = int(np.min(np.where(X.ddims >= self.attachment_age)))
         else:
             attach_idx = len(X.ddims) - 1
         self = self._apply_decay(X, tail, attach_idx)
diff --git a/chainladder/tails/curve.py b/chainladder/tails/curve.py
index b05ee43..f50b408 100644
--- a/chainladder/tails/curve.py
+++ b/chainladder/tails/curve.py
@@ -4,6 +4,7 @@
 from chainladder.tails import TailBase
 from chainladder.utils import WeightedRegression
 from chainladder.development import Development
+import numpy as np
 import pandas as pd
 import warnings
 
@@ -114,7 +115,7 @@ class TailCurve(TailBase):
             )
             fit_period = self.fit_period
         elif type(self.fit_period) is list:
-            fit_period = xp.array(self.fit_period)[None, None, None, :]
+            fit_period = np.array(self.fit_period)[None, None, None, :]
         else:
             grain = {"Y": 12, "S": 6, "Q": 3, "M": 1}[X.development_grain]
             start = (
@@ -178,7 +179,7 @@ class TailCurve(TailBase):
         )
         tail = self._predict_tail(extrapolate)
         if self.attachment_age:
-            attach_idx = xp.min(xp.where(X.ddims >= self.attachment_age))
+            attach_idx = int(np.min(np.where(X.ddims >= self.attachment_age)))
         else:
             attach_idx = len(X.ddims) - 1
         self.ldf_.values = xp.concatenate(
-- 
2.43.0


From 7f2afdc948000bc6cbf29f0ef12d93e73a1f9133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 36/63] fix: the last increment of full_expectation_ adds up to
 the ultimate

---
 chainladder/core/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index 54296a2..5dd179e 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -19,7 +19,7 @@ def _get_full_expectation(cdf_, ultimate_, is_cumulative=True):
         return concat((full, ultimate_.copy().rename("development", [9999])), axis=3)
 
     else:
-        tail_ = full.iloc[:, :, :, -1] - ultimate_
+        tail_ = ultimate_ - full.iloc[:, :, :, -1]
 
         return concat(
             (full.cum_to_incr(), tail_.copy().rename("development", [9999])), axis=3
-- 
2.43.0


From e59f905281af17a0d479caae5558054e54bf114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 37/63] fix: full_triangle_ of two origins or with missing
 factors follows the pattern

---
 chainladder/core/common.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index 5dd179e..640ea1a 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -29,19 +29,18 @@ def _get_full_expectation(cdf_, ultimate_, is_cumulative=True):
 def _get_full_triangle(X, ultimate, is_cumulative=True):
     """ Private method that builds full triangle"""
     # Getting the LDFs and expand for all origins
-    from chainladder.utils.utility_functions import num_to_nan
+    from chainladder.utils.utility_functions import num_to_nan, num_to_value
     emergence = X.ldf_.copy() * (ultimate / ultimate)
 
-    # Setting LDFs for all of the known diagonals as 1
-    emergence = (
-        emergence[emergence.valuation < X.valuation_date] * 0
-        + 1
-        + emergence[emergence.valuation >= X.valuation_date]
-    )
-    
+    # Setting LDFs for all of the known diagonals as 1, and likewise those of
+    # an age without a factor, which does not develop
+    xp = emergence.get_array_module()
+    known = np.array(emergence.valuation < X.valuation_date)
+    known = xp.array(known.reshape(emergence.shape[-2:], order="f") * 1.0)[None, None]
+    values = num_to_value(xp.nan_to_num(emergence.values), 1)
+    emergence.values = (values * (1 - known) + known).cumprod(axis=3) - 1
     emergence.valuation_date = pd.to_datetime(options.ULT_VAL)
-    emergence.values = emergence.values.cumprod(axis=3) - 1 
-    
+
     # Shifting the CDFs by development age, and renaming the last column as 9999
     emergence.ddims = emergence.ddims + \
         {"Y": 12, "Q": 3, "S": 6, "M": 1}[emergence.development_grain]
-- 
2.43.0


From d19630913d80cd8a49899c3b0f3a9a0ae653dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 38/63] fix: full_triangle_ ends at the ultimate when no
 development is left

---
 chainladder/core/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index 640ea1a..c9a7742 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -30,7 +30,7 @@ def _get_full_triangle(X, ultimate, is_cumulative=True):
     """ Private method that builds full triangle"""
     # Getting the LDFs and expand for all origins
     from chainladder.utils.utility_functions import num_to_nan, num_to_value
-    emergence = X.ldf_.copy() * (ultimate / ultimate)
+    emergence = X.ldf_.copy() * (ultimate * 0 + 1)
 
     # Setting LDFs for all of the known diagonals as 1, and likewise those of
     # an age without a factor, which does not develop
@@ -46,6 +46,8 @@ def _get_full_triangle(X, ultimate, is_cumulative=True):
         {"Y": 12, "Q": 3, "S": 6, "M": 1}[emergence.development_grain]
     emergence.ddims[-1] = 9999
     emergence.values = emergence.values / num_to_nan(emergence.values[..., -1:])
+    emergence.values = xp.concatenate(
+        (emergence.values[..., :-1], xp.ones(ultimate.shape)), -1)
     ld = X.incr_to_cum().latest_diagonal
     cum_run_off = ld + emergence * (ultimate - ld)
     cum_run_off = cum_run_off[cum_run_off.valuation > X.valuation_date]
-- 
2.43.0


From 620e093a6b2ce5b2c57be65556662a0d572db7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 39/63] fix: methods read the pattern at the ages of the
 triangle

---
 chainladder/methods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainladder/methods/base.py b/chainladder/methods/base.py
index 26bf84f..9f4edc3 100644
--- a/chainladder/methods/base.py
+++ b/chainladder/methods/base.py
@@ -26,7 +26,8 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
     def _align_cdf(self, X, sample_weight=None):
         """ Vertically align CDF to origin period latest diagonal. """
         valuation = X.valuation_date
-        cdf = X.cdf_.iloc[..., : X.shape[-1]]
+        cdf = X.cdf_
+        cdf = cdf.iloc[..., : int((cdf.ddims <= X.ddims.max()).sum())]
         a = X.iloc[0, 0] * 0
         a = a + a.nan_triangle
         if X.array_backend == "sparse":
-- 
2.43.0


From 79cc6711dce1e08d52b26ed2e6d29d997be72d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 40/63] fix: predict on an earlier triangle keeps its valuation
 date

---
 chainladder/methods/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainladder/methods/base.py b/chainladder/methods/base.py
index 9f4edc3..cc1e043 100644
--- a/chainladder/methods/base.py
+++ b/chainladder/methods/base.py
@@ -110,7 +110,9 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
         X_new = X.val_to_dev()
         if sum(X_new.ddims > self.ldf_.ddims.max()) > 0:
             raise ValueError("X has ages that exceed those available in model.")
+        valuation_date = X_new.valuation_date
         X_new = X_new + (self.X_.val_to_dev().iloc[0,0].sum(2) * 0)
+        X_new.valuation_date = valuation_date
         self.validate_weight(X_new, sample_weight)
         if sample_weight:
             sample_weight = sample_weight.set_backend(X_new.array_backend)
-- 
2.43.0


From f9863252f4886df74c7912914c6420534a423d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 41/63] fix: methods on sparse triangles of two origins

---
 chainladder/methods/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainladder/methods/base.py b/chainladder/methods/base.py
index cc1e043..91b5c9c 100644
--- a/chainladder/methods/base.py
+++ b/chainladder/methods/base.py
@@ -31,7 +31,10 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
         a = X.iloc[0, 0] * 0
         a = a + a.nan_triangle
         if X.array_backend == "sparse":
-            a = a - a[a.valuation < a.valuation_date]
+            xp = a.get_array_module()
+            latest = np.array(a.valuation >= a.valuation_date)
+            latest = latest.reshape(a.shape[-2:], order="f") * 1.0
+            a.values = a.values * xp.array(latest)[None, None]
         if sample_weight:
             X = X * a + sample_weight * a
         else:
-- 
2.43.0


From d9f1f7ca1561a0a63b9f518c83668cdce02ec058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 42/63] x

fix: CapeCod pairs rows of losses and exposure by label
---
 chainladder/methods/capecod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chainladder/methods/capecod.py b/chainladder/methods/capecod.py
index 8678566..9d2818d 100644
--- a/chainladder/methods/capecod.py
+++ b/chainladder/methods/capecod.py
@@ -103,6 +103,13 @@ class CapeCod(Benktander):
         len_orig = sample_weight.shape[-2]
         reported_exposure = sample_weight / self._align_cdf(X.copy(), sample_weight)
         reported_exposure = reported_exposure.set_backend(latest.array_backend)
+        if len(X) == len(reported_exposure) and not X.index.equals(
+            reported_exposure.index
+        ):
+            # the arrays below are combined by position
+            X, sample_weight = X.sort_index(), sample_weight.sort_index()
+            latest = X.latest_diagonal
+            reported_exposure = reported_exposure.sort_index()
         if self.groupby is not None:
             latest = latest.groupby(self.groupby).sum()
             reported_exposure = reported_exposure.groupby(self.groupby).sum()
-- 
2.43.0


From cf6aeec144abd16234f86ebc147b490416e8d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 43/63] fix: cum_to_incr of a pattern of one age

---
 chainladder/core/triangle.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index e565b80..332da52 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -499,15 +499,16 @@ class Triangle(TriangleBase):
                 if self.is_pattern:
                     xp = self.get_array_module()
                     self.values = num_to_value(xp.nan_to_num(self.values), 1)
-                    diff = self.iloc[..., :-1] / self.iloc[..., 1:].values
-                    obj = concat(
-                        (
-                            diff,
-                            self.iloc[..., -1],
-                        ),
-                        axis=3,
-                    )
-                    self.values = obj.values * self.nan_triangle
+                    if self.shape[-1] > 1:
+                        diff = self.iloc[..., :-1] / self.iloc[..., 1:].values
+                        obj = concat(
+                            (
+                                diff,
+                                self.iloc[..., -1],
+                            ),
+                            axis=3,
+                        )
+                        self.values = obj.values * self.nan_triangle
                 elif self.shape[-1] > 1:
                     diff = self.iloc[..., 1:] - self.iloc[..., :-1].values
                     obj = concat((self.iloc[..., 0], diff), axis=3)
-- 
2.43.0


From 97fe56aea1ad7e178a21efcc9e0f0e87b2f014e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 44/63] fix: drop_valuation considers every row, not only the
 first

---
 chainladder/development/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index 245281c..2991b0d 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -449,7 +449,7 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
             warnings.warn("Some valuations could not be dropped.")
         # return triangle of 0/1 where dropped factors have 0
         keep = (~factor.valuation.isin(v)).reshape(factor.shape[-2:], order="f")
-        b = xp.nan_to_num(factor.iloc[0, 0].values * 0 + 1) * keep
+        b = xp.nan_to_num(factor.values * 0 + 1) * keep
         # check to make sure some factors are still left
         if b.sum() == 0:
             raise Exception("The entire triangle has been dropped via drop_valuation.")
-- 
2.43.0


From 92250f8f9141a4b8cf3f53cad63a17c114f99938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 45/63] fix: Mack standard errors of several rows, sparse
 triangles and excluded ratios

---
 chainladder/methods/mack.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 09bf479..38cc9e9 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -4,6 +4,7 @@
 import numpy as np
 import pandas as pd
 from chainladder.methods import Chainladder
+from chainladder.utils.utility_functions import num_to_value
 
 
 class MackChainladder(Chainladder):
@@ -98,17 +99,21 @@ class MackChainladder(Chainladder):
     def _get_full_std_err_(self, X=None):
         from chainladder.utils.utility_functions import num_to_nan
 
+        full = getattr(X, "_full_triangle_", self.full_triangle_).set_backend("numpy")
+        # powers of missing amounts are not sparse
+        X = X.set_backend("numpy", deep=True)
         obj = X.copy()
         xp = obj.get_array_module()
         lxp = X.ldf_.get_array_module()
-        full = getattr(X, "_full_triangle_", self.full_triangle_)
         avg = {"regression": 0, "volume": 1, "simple": 2}
         avg = [avg.get(item, item) for item in X.average_]
         val = xp.broadcast_to(xp.array(avg + [avg[-1]]), X.shape)
         weight = xp.sqrt(full.values[..., : len(X.ddims)] ** (2 - val))
         obj.values = X.sigma_.values / num_to_nan(weight)
-        w = lxp.concatenate((X.w_, lxp.ones((1, 1, val.shape[2], 1))), 3)
-        w[xp.isnan(w)] = 1
+        w = lxp.concatenate((X.w_, lxp.ones((*X.w_.shape[:3], 1))), 3)
+        # only observed link ratios can have been excluded
+        past = (X.valuation < X.valuation_date).reshape(X.shape[-2:], order="f")
+        w = xp.where(xp.isnan(w) | ~past, 1, w)
         obj.values = xp.nan_to_num(obj.values) * xp.array(w)
         obj.valuation_date = full.valuation_date
         obj._set_slicers()
@@ -119,6 +124,7 @@ class MackChainladder(Chainladder):
         return (self.process_risk_ ** 2).sum(axis="origin").sqrt()
 
     def _mack_recursion(self, est, X=None):
+        X = X.set_backend("numpy", deep=True)
         obj = X.copy()
         xp = obj.get_array_module()
         risk_arr = xp.zeros((*X.shape[:3], 1))
@@ -142,6 +148,8 @@ class MackChainladder(Chainladder):
         ldf = X.ldf_.values[..., : len(X.ddims) - 1]
         tail = X.cdf_.values[..., -extend : -extend + 1]
         ldf = xp.array(X.ldf_.get_array_module().concatenate((ldf, tail), -1))
+        # no development and no new error where there is nothing to measure
+        ldf, t1_t = num_to_value(xp.nan_to_num(ldf), 1), xp.nan_to_num(t1_t)
         # Recursive Mack Formula
         for i in range(t1_t.shape[-1]):
             t1 = t1_t[..., i : i + 1] ** 2
-- 
2.43.0


From f6f4a2775c47afb4dffdd35c024653b8ec69a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 46/63] fix: Mack pairs patterns fitted by group with rows by
 label

---
 chainladder/methods/mack.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 38cc9e9..739ee50 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -92,6 +92,26 @@ class MackChainladder(Chainladder):
         del X_new._full_triangle_
         return X_new
 
+    @staticmethod
+    def _match_rows(X):
+        """ A dense copy of X whose patterns are in the order of its rows. """
+        X = X.set_backend("numpy", deep=True)
+        for item in ("sigma_", "std_err_", "ldf_"):
+            pattern = getattr(X, item)
+            labels = [k for k in X.key_labels if k in pattern.key_labels]
+            if pattern.shape[0] == 1 or len(labels) == 0:
+                continue
+            rows = pd.MultiIndex.from_frame(pattern.index[labels])
+            if not rows.is_unique:
+                continue
+            rows = rows.get_indexer(pd.MultiIndex.from_frame(X.index[labels]))
+            if (rows < 0).any():
+                continue
+            if item == "sigma_" and X.w_.shape[0] == pattern.shape[0]:
+                X.w_ = X.w_[rows]
+            setattr(X, item, pattern.iloc[list(rows)])
+        return X
+
     @property
     def full_std_err_(self):
         return self._get_full_std_err_(self.X_)
@@ -101,7 +121,7 @@ class MackChainladder(Chainladder):
 
         full = getattr(X, "_full_triangle_", self.full_triangle_).set_backend("numpy")
         # powers of missing amounts are not sparse
-        X = X.set_backend("numpy", deep=True)
+        X = self._match_rows(X)
         obj = X.copy()
         xp = obj.get_array_module()
         lxp = X.ldf_.get_array_module()
@@ -124,7 +144,7 @@ class MackChainladder(Chainladder):
         return (self.process_risk_ ** 2).sum(axis="origin").sqrt()
 
     def _mack_recursion(self, est, X=None):
-        X = X.set_backend("numpy", deep=True)
+        X = self._match_rows(X)
         obj = X.copy()
         xp = obj.get_array_module()
         risk_arr = xp.zeros((*X.shape[:3], 1))
-- 
2.43.0


From 2fa87dbf8cf1f682e94bc1c18d899378eb54b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 47/63] fix: a tail fitted on an undeveloped triangle carries
 its weights

---
 chainladder/tails/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/tails/base.py b/chainladder/tails/base.py
index aa43000..3761fcc 100644
--- a/chainladder/tails/base.py
+++ b/chainladder/tails/base.py
@@ -42,6 +42,8 @@ class TailBase(DevelopmentBase):
             self.average_ = obj.average_
         else:
             self.average_ = None
+        if hasattr(obj, "w_"):
+            self.w_ = obj.w_
         self.ldf_._set_slicers()
         return self
 
@@ -60,7 +62,7 @@ class TailBase(DevelopmentBase):
         """
         X_new = X.copy()
         triangles = ["ldf_", "std_err_", "sigma_"]
-        for item in triangles + ["tail_", "_ave_period", "average_"]:
+        for item in triangles + ["tail_", "_ave_period", "average_", "w_"]:
             if hasattr(self, item):
                 setattr(X_new, item, getattr(self, item))
         X_new._set_slicers()
-- 
2.43.0


From 9ce92e6cc6e98572078b85a699df347f7a0e1cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 48/63] fix: text amounts are rejected by the Triangle
 constructor as documented

---
 chainladder/core/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/base.py b/chainladder/core/base.py
index 169d363..373ef12 100644
--- a/chainladder/core/base.py
+++ b/chainladder/core/base.py
@@ -45,7 +45,7 @@ class TriangleBase(
         columns = str_to_list(columns)
         origin = str_to_list(origin)
         development = str_to_list(development)
-        if "object" in data[columns].dtypes:
+        if "object" in data[columns].dtypes.values:
             raise TypeError("column attribute must be numeric.")
         if data[columns].shape[1] != len(columns):
             raise AttributeError("Columns are required to have unique names")
-- 
2.43.0


From 05b030f5536621237a38d26d90acd25935d066af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 49/63] fix: a table with ultimate amounts keeps its
 development lags, row order, origin format and grain

---
 chainladder/core/triangle.py | 46 ++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 332da52..981fabf 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -134,7 +134,9 @@ class Triangle(TriangleBase):
         self.origin_label = origin
 
         # Handle any ultimate vectors in triangles separately
-        data, ult = self._split_ult(data, index, columns, origin, development)
+        data, ult = self._split_ult(
+            data, index, columns, origin, development, origin_format, trailing
+        )
         # Conform origins and developments to datetimes and determine lowest grains
         origin_date = self._to_datetime(data, origin, format=origin_format).rename(
             "__origin__"
@@ -272,15 +274,21 @@ class Triangle(TriangleBase):
             self.ddims = obj.ddims
             self.values = obj.values
         if ult:
-            obj = concat((self.dev_to_val().iloc[..., : len(ult.odims), :], ult), -1)
-            obj = obj.val_to_dev()
+            # origins and lags after the last amount belong to neither
+            obj = self.val_to_dev()
+            coords = obj.set_backend("sparse").values.coords
+            last = np.append(coords[2], (obj.odims <= ult.odims.max()).sum() - 1)
+            obj = obj.iloc[..., : last.max() + 1, : coords[3].max(initial=0) + 1]
+            obj = concat((obj, ult._place_ult(obj)), -1)
             self.odims = obj.odims
             self.ddims = obj.ddims
             self.values = obj.values
             self.valuation_date = pd.Timestamp(options.ULT_VAL)
 
     @staticmethod
-    def _split_ult(data, index, columns, origin, development):
+    def _split_ult(
+        data, index, columns, origin, development, origin_format=None, trailing=True
+    ):
         """Deal with triangles with ultimate values"""
         ult = None
         if (
@@ -288,19 +296,43 @@ class Triangle(TriangleBase):
             and len(development) == 1
             and data[development[0]].dtype == "<M8[ns]"
         ):
-            u = data[data[development[0]] == options.ULT_VAL].copy()
-            if len(u) > 0 and len(u) != len(data):
+            is_ult = data[development[0]] == options.ULT_VAL
+            if 0 < is_ult.sum() < len(data):
+                # All records take part so that ultimates get the same grain
+                u = data.copy()
+                u[columns] = u[columns].where(is_ult, 0)
+                u[development[0]] = pd.Timestamp(options.ULT_VAL)
                 ult = Triangle(
                     u,
                     origin=origin,
                     development=development,
                     columns=columns,
                     index=index,
+                    origin_format=origin_format,
+                    trailing=trailing,
                 )
-                ult.ddims = pd.DatetimeIndex([options.ULT_VAL])
                 data = data[data[development[0]] != options.ULT_VAL]
         return data, ult
 
+    def _place_ult(self, other):
+        """Puts ultimate values on the index and origin axes of a triangle"""
+        obj = self.set_backend("sparse")
+        coords = obj.values.coords.copy()
+        kdims = {tuple(k): num for num, k in enumerate(other.kdims)}
+        odims = {o: num for num, o in enumerate(other.odims)}
+        if not {tuple(k) for k in self.kdims} <= set(kdims) or not set(
+            self.odims
+        ) <= set(odims):
+            raise ValueError("Ultimate values without a corresponding triangle entry")
+        coords[0] = np.array([kdims[tuple(k)] for k in self.kdims])[coords[0]]
+        coords[2] = np.array([odims[o] for o in self.odims])[coords[2]]
+        shape = (*other.shape[:3], 1)
+        obj.values = num_to_nan(
+            sp(coords, obj.values.data, prune=True, has_duplicates=False, shape=shape)
+        )
+        obj.kdims, obj.odims, obj.ddims = other.kdims, other.odims, np.array([9999])
+        return obj.set_backend(other.array_backend)
+
     @property
     def index(self):
         return pd.DataFrame(list(self.kdims), columns=self.key_labels)
-- 
2.43.0


From 4ae163cbab135a7f1d892ac8627f319d87c6ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 50/63] fix: MackChainladder.predict takes standard errors from
 the model, as it does patterns

---
 chainladder/methods/mack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 739ee50..2795a74 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -73,9 +73,10 @@ class MackChainladder(Chainladder):
 
     def predict(self, X, sample_weight=None):
         X_new = super().predict(X, sample_weight)
-        X_new.sigma_ = getattr(X_new, "sigma_", self.X_.sigma_)
-        X_new.std_err_ = getattr(X_new, "std_err_", self.X_.std_err_)
-        X_new.average_ = getattr(X_new, "average_", self.X_.average_)
+        # The errors belong to the patterns, which are those of the model
+        X_new.sigma_ = self.X_.sigma_
+        X_new.std_err_ = self.X_.std_err_
+        X_new.average_ = self.X_.average_
         X_new.w_ = getattr(X_new, "w_", self.X_.w_)
         X_new._full_triangle_ = X_new.full_triangle_
         X_new.parameter_risk_ = self._mack_recursion("parameter_risk_", X_new)
-- 
2.43.0


From d835cfb98871bb3ba92f03685622e9af447cb38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 51/63] fix: val_to_dev of a pattern with several rows does not
 fail (to_json of developed triangles)

---
 chainladder/core/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 981fabf..c31eceb 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -674,8 +674,8 @@ class Triangle(TriangleBase):
         lag_0 = (val_0.year - origin_0.year) * 12 + val_0.month - origin_0.month + 1
         scale = self._dstep()["M"][obj.development_grain]
         obj.ddims = (np.arange(obj.values.shape[-1]) - slide) * scale + lag_0
-        prune = obj[obj.origin == obj.origin.max()]
         if self.is_ultimate and self.shape[-1] > 1:
+            prune = obj[obj.origin == obj.origin.max()]
             obj = obj.iloc[..., : (prune.valuation <= prune.valuation_date).sum()]
             obj = concat((obj, ultimate), -1)
         return obj
-- 
2.43.0


From a18c1c0595c56c8911fcac9300b302117ca4dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 52/63] fix: estimator parameters that are tuples, dictionaries
 or estimators survive to_json

---
 chainladder/core/io.py                 | 33 +++++++++++++++++++++++---
 chainladder/utils/utility_functions.py |  8 +++++--
 chainladder/workflow/gridsearch.py     |  7 ++++--
 3 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/chainladder/core/io.py b/chainladder/core/io.py
index 127c1f7..57b772f 100644
--- a/chainladder/core/io.py
+++ b/chainladder/core/io.py
@@ -2,12 +2,40 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at https://mozilla.org/MPL/2.0/.
 import pandas as pd
-from sklearn.base import BaseEstimator
 import json
 import joblib
 import dill
 
 
+def _encode(value):
+    """ Estimator parameters that JSON cannot express """
+    if isinstance(value, EstimatorIO):
+        return {"__estimator__": value.to_json()}
+    if isinstance(value, tuple):
+        return {"__tuple__": [_encode(v) for v in value]}
+    if isinstance(value, list):
+        return [_encode(v) for v in value]
+    if isinstance(value, dict):
+        return {"__dict__": [[_encode(k), _encode(v)] for k, v in value.items()]}
+    return value
+
+
+def _decode(value):
+    """ Inverse of _encode """
+    if isinstance(value, list):
+        return [_decode(v) for v in value]
+    if isinstance(value, dict):
+        if list(value) == ["__estimator__"]:
+            from chainladder.utils.utility_functions import read_json
+
+            return read_json(value["__estimator__"])
+        if list(value) == ["__tuple__"]:
+            return tuple(_decode(v) for v in value["__tuple__"])
+        if list(value) == ["__dict__"]:
+            return {_decode(k): _decode(v) for k, v in value["__dict__"]}
+    return value
+
+
 class TriangleIO:
     def to_pickle(self, path, protocol=None):
         """ Serializes triangle object to pickle.
@@ -77,6 +105,5 @@ class EstimatorIO:
             string representation of object in json format
         """
         params = self.get_params(deep=False)
-        j = lambda v: v.to_json() if isinstance(v, BaseEstimator) else v
-        params = {k: j(v) for k, v in params.items()}
+        params = {k: _encode(v) for k, v in params.items()}
         return json.dumps({"params": params, "__class__": self.__class__.__name__})
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 3a05183..6c81ee7 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -90,6 +90,7 @@ def read_pickle(path):
 
 def read_json(json_str, array_backend=None):
     from chainladder import Triangle
+    from chainladder.core.io import _decode
     from chainladder.workflow import Pipeline
 
     if array_backend is None:
@@ -104,7 +105,9 @@ def read_json(json_str, array_backend=None):
             steps=[
                 (
                     item["name"],
-                    cl.__dict__[item["__class__"]]().set_params(**item["params"]),
+                    cl.__dict__[item["__class__"]]().set_params(
+                        **{k: _decode(v) for k, v in item["params"].items()}
+                    ),
                 )
                 for item in json_dict
             ]
@@ -149,7 +152,8 @@ def read_json(json_str, array_backend=None):
     else:
         import chainladder as cl
 
-        return cl.__dict__[json_dict["__class__"]]().set_params(**json_dict["params"])
+        params = {k: _decode(v) for k, v in json_dict["params"].items()}
+        return cl.__dict__[json_dict["__class__"]](**params)
 
 
 def parallelogram_olf(
diff --git a/chainladder/workflow/gridsearch.py b/chainladder/workflow/gridsearch.py
index 227a84f..1e519dc 100644
--- a/chainladder/workflow/gridsearch.py
+++ b/chainladder/workflow/gridsearch.py
@@ -5,7 +5,7 @@ from sklearn.model_selection import ParameterGrid
 from sklearn.base import BaseEstimator
 from sklearn.pipeline import Pipeline as PipelineSL
 from sklearn.base import clone
-from chainladder.core.io import EstimatorIO
+from chainladder.core.io import EstimatorIO, _encode
 from joblib import Parallel, delayed
 import pandas as pd
 import json
@@ -163,7 +163,10 @@ class Pipeline(PipelineSL, EstimatorIO):
             [
                 {
                     "name": item[0],
-                    "params": item[1].get_params(),
+                    "params": {
+                        k: _encode(v)
+                        for k, v in item[1].get_params(deep=False).items()
+                    },
                     "__class__": item[1].__class__.__name__,
                 }
                 for item in self.steps
-- 
2.43.0


From 3d811a9ca598a6ca4921f8d4349f87479253b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:39 +0000
Subject: [PATCH 53/63] fix: JSON of triangles keeps all digits

---
 chainladder/core/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/io.py b/chainladder/core/io.py
index 57b772f..e9424e7 100644
--- a/chainladder/core/io.py
+++ b/chainladder/core/io.py
@@ -66,7 +66,9 @@ class TriangleIO:
         }
         out = self.cum_to_incr().dev_to_val().to_frame(
             keepdims=True, origin_as_datetime=True).fillna(0)
-        x = out.reset_index().to_json(orient="split", date_unit="ns")
+        x = out.reset_index().to_json(
+            orient="split", date_unit="ns", double_precision=15
+        )
         json_dict = {"metadata": json.dumps(metadata), "data": x}
         sub_tris = [k for k, v in vars(self).items() if isinstance(v, TriangleIO)]
         json_dict["sub_tris"] = {
-- 
2.43.0


From 5f4842f95f3703d7d55c6299cc8716e02940f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:39 +0000
Subject: [PATCH 54/63] fix: dropna of a pattern with several rows does not
 fail (read_json of developed triangles)

---
 chainladder/core/pandas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index 9d2fb6c..a3bac2b 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -179,8 +179,8 @@ class TrianglePandas:
                 (self.development >= ddim.min()) & (
                     self.development <= ddim.max())
             ]
-            return obj[(self.origin >= min_odim) & (self.origin <= max_odim)]
-        obj = self[(self.origin >= min_odim) & (self.origin <= max_odim)]
+            return obj[np.array((self.origin >= min_odim) & (self.origin <= max_odim))]
+        obj = self[np.array((self.origin >= min_odim) & (self.origin <= max_odim))]
         return obj
 
     def fillna(self, value=None, inplace=False):
-- 
2.43.0


From 9d5340f8fcb5694c95aa00752e5cccec36a716a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 55/63] fix: MackChainladder.summary_ puts the amounts of a row
 together when patterns are grouped

---
 chainladder/methods/mack.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 2795a74..3c7029b 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -205,12 +205,21 @@ class MackChainladder(Chainladder):
     def summary_(self):
         # This might be better as a dataframe
         obj = self.ultimate_.copy()
-        cols = (
-            self.X_.latest_diagonal.values,
-            self.ibnr_.values,
-            self.ultimate_.values,
-            self.mack_std_err_.values[..., -1:],
-        )
+        index = pd.MultiIndex.from_frame(obj.index)
+
+        def rows(X):
+            """ Values in the order of the rows of the ultimate """
+            order = pd.MultiIndex.from_frame(X.index).get_indexer(index)
+            return X.values[order]
+
+        if index.is_unique and len(index) > 1:
+            latest, ibnr, std_err = map(
+                rows, (self.X_.latest_diagonal, self.ibnr_, self.mack_std_err_)
+            )
+        else:
+            latest = self.X_.latest_diagonal.values
+            ibnr, std_err = self.ibnr_.values, self.mack_std_err_.values
+        cols = (latest, ibnr, self.ultimate_.values, std_err[..., -1:])
         obj.values = obj.get_array_module().concatenate(cols, 3)
         obj.ddims = ["Latest", "IBNR", "Ultimate", "Mack Std Err"]
         obj._set_slicers()
-- 
2.43.0


From a41ced894b87c717a5e72bfd6d99a5443557041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 56/63] fix: ParallelogramOLF ignored rate changes effective
 within a month

With the monthly approximation a change dated other than the first of a month fell out of the
reindexing onto month starts and had no effect.
---
 chainladder/utils/utility_functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 6c81ee7..4f05c27 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -185,7 +185,13 @@ def parallelogram_olf(
         freq=date_freq[approximation_grain],
     )
 
-    rate_changes = pd.Series(np.array(values), np.array(date))
+    if approximation_grain == "M":
+        # a change within a month is effective for that month
+        date = pd.DatetimeIndex(date).to_period("M").to_timestamp()
+    rate_changes = (
+        pd.Series(1 + np.array(values), pd.DatetimeIndex(date)).groupby(level=0).prod()
+        - 1
+    )
     rate_changes = rate_changes.reindex(date_idx, fill_value=0)
 
     cum_rate_changes = np.cumprod(1 + rate_changes.values)
-- 
2.43.0


From 6aef6ec964fb15f899ea8ccd090f07023bb97025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 57/63] fix: ParallelogramOLF for quarterly and half-yearly
 origins, daily grain after a leap year

Origin periods are counted from the start of the first origin, so quarters, half-years and years
not starting in January are averaged over their own days; the run-in year is dropped by date
instead of by count, which left an extra period after a leap year.
---
 chainladder/utils/utility_functions.py | 31 +++++++++++++-------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 4f05c27..6fb46f9 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -221,19 +221,21 @@ def parallelogram_olf(
             cum_avg_rate_leaps + cum_avg_rate_leaps.shift(1).values
         ) / 2
 
-    dropdates_num = {
-        "M": 12,
-        "D": 366,
-    }
-    cum_avg_rate_non_leaps = cum_avg_rate_non_leaps.iloc[
-        dropdates_num[approximation_grain] :
-    ]
-    cum_avg_rate_leaps = cum_avg_rate_leaps.iloc[
-        dropdates_num[approximation_grain] + 1 :
-    ]
+    cum_avg_rate_non_leaps = cum_avg_rate_non_leaps[date_idx > start_date]
+    cum_avg_rate_leaps = cum_avg_rate_leaps[date_idx > start_date]
+
+    # origin periods count from the start date, and are named by the period they start in
+    first = (start_date + pd.tseries.offsets.DateOffset(days=1)).to_period("M")
+    grain_months = {"Y": 12, "S": 6, "Q": 3, "M": 1}[grain]
+
+    def origin_period(dates):
+        months = (dates.year - first.year) * 12 + dates.month - first.month
+        starts = first + (months // grain_months) * grain_months
+        return pd.PeriodIndex(starts).asfreq("Q" if grain == "S" else grain)
 
+    origins = origin_period(cum_avg_rate_non_leaps.index)
     fcrl_non_leaps = (
-        cum_avg_rate_non_leaps.groupby(cum_avg_rate_non_leaps.index.to_period(grain))
+        cum_avg_rate_non_leaps.groupby(origins)
         .mean()
         .reset_index()
     )
@@ -242,7 +244,7 @@ def parallelogram_olf(
     fcrl_non_leaps["OLF"] = crl / fcrl_non_leaps["OLF"]
 
     fcrl_leaps = (
-        cum_avg_rate_leaps.groupby(cum_avg_rate_leaps.index.to_period(grain))
+        cum_avg_rate_leaps.groupby(origins)
         .mean()
         .reset_index()
     )
@@ -251,10 +253,7 @@ def parallelogram_olf(
     fcrl_leaps["OLF"] = crl / fcrl_leaps["OLF"]
 
     combined = fcrl_non_leaps.join(fcrl_leaps, lsuffix="_non_leaps", rsuffix="_leaps")
-    combined["is_leap"] = pd.to_datetime(
-        combined["Origin_non_leaps"], format="%Y" + ("-%M" if grain == "M" else "")
-    ).dt.is_leap_year
-    
+    combined["is_leap"] = origins.unique().is_leap_year
 
     if approximation_grain == "M":
         combined["final_OLF"] = combined["OLF_non_leaps"]
-- 
2.43.0


From f5b59384c146a811badb3716e3cc3c304eaf7297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:22 +0000
Subject: [PATCH 58/63] fix: BerquistSherman.set_params required
 reported_count_estimator

Setting any other parameter raised KeyError.
---
 chainladder/adjustments/berqsherm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/adjustments/berqsherm.py b/chainladder/adjustments/berqsherm.py
index a86bbb4..50ec220 100644
--- a/chainladder/adjustments/berqsherm.py
+++ b/chainladder/adjustments/berqsherm.py
@@ -213,7 +213,7 @@ class BerquistSherman(BaseEstimator, TransformerMixin, EstimatorIO):
     def set_params(self, **params):
         from chainladder.utils.utility_functions import read_json
 
-        if type(params["reported_count_estimator"]) is str:
+        if type(params.get("reported_count_estimator")) is str:
             params["reported_count_estimator"] = read_json(
                 params["reported_count_estimator"]
             )
-- 
2.43.0


From 33a495b5da66276a4aa3c6e3d7c0fa9701f9a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 59/63] fix: ParallelogramOLF failed on a group with a single
 rate change

Selecting one row of the rate history gave a Series, which has no date column.
---
 chainladder/adjustments/parallelogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/adjustments/parallelogram.py b/chainladder/adjustments/parallelogram.py
index 4bf6bed..10f5ef5 100644
--- a/chainladder/adjustments/parallelogram.py
+++ b/chainladder/adjustments/parallelogram.py
@@ -89,7 +89,7 @@ class ParallelogramOLF(BaseEstimator, TransformerMixin, EstimatorIO):
         if len(groups) > 0:
             tris = []
             for item in idx.index.set_index(groups).iterrows():
-                r = self.rate_history.set_index(groups).loc[item[0]].copy()
+                r = self.rate_history.set_index(groups).loc[[item[0]]].copy()
                 r[self.change_col] = r[self.change_col] + 1
                 r = (r.groupby(self.date_col)[self.change_col].prod() - 1).reset_index()
                 date = r[self.date_col]
-- 
2.43.0


From 4782bf8b738e3eaf64eb0173fffe8b26069567fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 60/63] fix: default voting weights have one row per origin,
 not one per development age

---
 chainladder/workflow/voting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 896b838..008b23d 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -51,7 +51,7 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
         # return np.ones(X.shape[:3] + (len(self.estimators), ))
         return np.repeat(
             np.array(self.default_weighting)[np.newaxis, :],
-            repeats=X.shape[-1],
+            repeats=X.shape[2],
             axis=0
             )
 
-- 
2.43.0


From fbc11528ca69020eec24f3ead2254f063615af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 61/63] fix: fitting a VotingChainladder leaves its
 default_weighting parameter alone

---
 chainladder/workflow/voting.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 008b23d..51d6887 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -47,10 +47,15 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
     Warning: This class should not be used directly. Use derived classes
     instead.
     """
+    def _get_default_weighting(self):
+        if self.default_weighting is None:
+            return (1, ) * len(self.estimators)
+        return self.default_weighting
+
     def _assum_vector_is_none(self, X, assum_vector):
         # return np.ones(X.shape[:3] + (len(self.estimators), ))
         return np.repeat(
-            np.array(self.default_weighting)[np.newaxis, :],
+            np.array(self._get_default_weighting())[np.newaxis, :],
             repeats=X.shape[2],
             axis=0
             )
@@ -69,7 +74,8 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
 
     def _assum_vector_is_dict(self, X, assum_vector):
         mapping_dict = {X.origin[X.origin == k][0]: v for k, v in assum_vector.items()}
-        missing = {k: self.default_weighting for k in X.origin[~X.origin.isin(mapping_dict.keys())]}
+        default = self._get_default_weighting()
+        missing = {k: default for k in X.origin[~X.origin.isin(mapping_dict.keys())]}
         assum_vector_ = np.array([*self.X_.origin.map({**mapping_dict, **missing})])
         return assum_vector_
 
@@ -105,8 +111,6 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
     def fit(self, X, y, sample_weight=None):
         """Get common fit operations."""
         names, clfs = self._validate_estimators()
-        if self.default_weighting is None:
-            self.default_weighting = (1, ) * len(self.estimators)
         self.weights_ = self._coerce_assum_vector_to_array(X, self.weights)
         self.weights_ = self.weights_[..., np.newaxis]
         if self.weights_.shape[-3] != X.shape[2]:
-- 
2.43.0


From e186153bbb67f72cb4c20297c5bbd8f6be28db0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 62/63] fix: a dropped member of a VotingChainladder takes its
 weights with it

---
 chainladder/workflow/voting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 51d6887..3011765 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -342,6 +342,8 @@ class VotingChainladder(_BaseChainladderVoting, MethodBase):
                                  f' and {X.shape[1]} for X.')
             weights = self.weights_
 
+        kept = [i for i, (_, est) in enumerate(self.estimators) if est != 'drop']
+        weights = weights[..., kept, :]
         ultimate = sum([
                 est.predict(X, sample_weight).ultimate_ * weights[..., i, :]
                 for i, est in enumerate(self.estimators_)
-- 
2.43.0


From 85f6f8fc97417b17d1e39089f11ad64d599b02af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:31 +0000
Subject: [PATCH 63/63] fix: voting weights given by row meet the ultimates of
 the same rows

---
 chainladder/workflow/voting.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 3011765..3b6a0a7 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -326,6 +326,14 @@ class VotingChainladder(_BaseChainladderVoting, MethodBase):
         """
         return self.fit(X, y, sample_weight).transform(X, sample_weight=sample_weight)
 
+    def _order_rows(self, ultimate, X):
+        """Brings the rows of an ultimate into the order of X, as the weights are"""
+        labels = [tuple(row) for row in ultimate.index.values]
+        wanted = [tuple(row) for row in X.index.values]
+        if labels == wanted or set(labels) != set(wanted):
+            return ultimate
+        return ultimate.iloc[[labels.index(row) for row in wanted]]
+
     def _get_ultimate(self, X, sample_weight=None):
         if self.weights_.ndim < 5:
             weights = self._broadcast_weights(X)
@@ -345,7 +353,8 @@ class VotingChainladder(_BaseChainladderVoting, MethodBase):
         kept = [i for i, (_, est) in enumerate(self.estimators) if est != 'drop']
         weights = weights[..., kept, :]
         ultimate = sum([
-                est.predict(X, sample_weight).ultimate_ * weights[..., i, :]
+                self._order_rows(est.predict(X, sample_weight).ultimate_, X)
+                * weights[..., i, :]
                 for i, est in enumerate(self.estimators_)
             ]) / weights.sum(axis=-2)
         return ultimate
-- 
2.43.0


From b1b661a7973924a43055b9e88b704e7b490bc286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:01 +0000
Subject: [PATCH 01/24] fix: honour gran_logic in the second pass of the EMF
 solver and in calibration

---
 calkulate/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index 355085f..7d91623 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -706,6 +706,7 @@ def solve_emf(
             alkalinity_init=sr.alkalinity,
             double=False,  # if True this becomes an infinite loop, so don't
             emf0_init=sr.emf0,
+            gran_logic=gran_logic,
             pH_min=pH_min,
             pH_max=pH_max,
             titrant_normality=titrant_normality,
@@ -875,6 +876,7 @@ def _lsqfun_calibrate_emf(
     alkalinity_init,
     double,
     emf0_init,
+    gran_logic,
     pH_min,
     pH_max,
     titrant_normality,
@@ -902,6 +904,7 @@ def _lsqfun_calibrate_emf(
         alkalinity_init=alkalinity_init,
         double=double,
         emf0_init=emf0_init,
+        gran_logic=gran_logic,
         pH_min=pH_min,
         pH_max=pH_max,
         titrant_normality=titrant_normality,
@@ -933,6 +936,7 @@ def calibrate_emf(
     pH_max=4,
     titrant_molinity_init=0.1,
     titrant_normality=1,
+    gran_logic="v23.7+",
     **titrant_totals,
 ):
     """Solve for `titrant_molinity` given `alkalinity_certified`.
@@ -976,6 +980,9 @@ def calibrate_emf(
         0.1.
     titrant_normality : float, optional
         Titrant normality, by default 1 (e.g., for HCl).
+    gran_logic : str, optional
+        Which points to use for Gran-plot estimates, "v23.7+" (default) or
+        "legacy".
 
     Returns
     -------
@@ -997,6 +1004,7 @@ def calibrate_emf(
             alkalinity_init,
             double,
             emf0_init,
+            gran_logic,
             pH_min,
             pH_max,
             titrant_normality,
-- 
2.43.0


From 6fad2fd175ec0c096cc755248d7e50311b58120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:36 +0000
Subject: [PATCH 02/24] fix: keep the fractional part of temperature_override
 for integer temperature data

---
 calkulate/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/convert.py b/calkulate/convert.py
index c8798de..52a1bf4 100644
--- a/calkulate/convert.py
+++ b/calkulate/convert.py
@@ -206,7 +206,9 @@ def amount_units(
     dd = dat_data
     # Overwrite temperature, if requested
     if temperature_override is not None:
-        temperature = np.full_like(dd.temperature, temperature_override)
+        temperature = np.full_like(
+            dd.temperature, temperature_override, dtype=float
+        )
     else:
         temperature = dd.temperature
     # Get titrant mass
-- 
2.43.0


From f5c555d620b08fdf7a1edaa6ab1752e94f318e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:36 +0000
Subject: [PATCH 03/24] fix: str and repr of a Titration without file_path

---
 calkulate/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 8ac59d5..610aac5 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -224,14 +224,14 @@ class Titration:
         if "file_path" in self.row:
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
         if "file_path" in self.row:
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def get_alkalinity_from_acid(self):
-- 
2.43.0


From 1f88f0195eb7977943839e5a8eaa93d2922d0763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:36 +0000
Subject: [PATCH 04/24] fix: Titration ignores null metadata like Dataset does

---
 calkulate/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 610aac5..950bc87 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -173,7 +173,8 @@ class Titration:
         self.kwargs = _backcompat(kwargs, row)
         for k, v in kwargs.items():
             self.row[k] = v
-        self.sr = solve(**self.row)
+        # Null values mean "not provided", as they do in a Dataset
+        self.sr = solve(**self.row[self.row.notnull()])
         self.t = {
             "titrant_mass": self.sr.titrant_mass,
             "temperature": self.sr.temperature,
-- 
2.43.0


From f0a15c304bc9049e40dc26f6994edd571c8fad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:36 +0000
Subject: [PATCH 05/24] fix: Titration analyte_mass when only analyte_volume is
 given

---
 calkulate/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 950bc87..a018061 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -182,6 +182,8 @@ class Titration:
             "used": self.sr.used,
         }
         self.row = add_solve_results(self.row, self.sr)
+        # In case it was calculated from analyte_volume
+        self.row["analyte_mass"] = self.sr.analyte_mass
         if isinstance(self.sr, SolveEmfResult):
             self.t.update(
                 {
-- 
2.43.0


From 6f7df51e7f5559a3b00781bb7b7476fe1819054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:36 +0000
Subject: [PATCH 06/24] fix: account for titrant_normality in the Titration
 table

---
 calkulate/classes.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index a018061..238f68b 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -237,10 +237,17 @@ class Titration:
             f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
+    def _get_titrant_normality(self):
+        # The same default as in the solvers
+        titrant_normality = self.row.get("titrant_normality")
+        return 1 if pd.isnull(titrant_normality) else titrant_normality
+
     def get_alkalinity_from_acid(self):
         self.titration["alkalinity_from_acid"] = (
             1e-6 * self.alkalinity * self.analyte_mass
-            - self.titration.titrant_mass * self.titrant_molinity
+            - self.titration.titrant_mass
+            * self.titrant_molinity
+            * self._get_titrant_normality()
         ) / (self.analyte_mass + self.titration.titrant_mass)
 
     def do_CO2SYS(self):
@@ -300,6 +307,7 @@ class Titration:
             st.alkalinity_from_pH
             + st.titrant_mass
             * self.titrant_molinity
+            * self._get_titrant_normality()
             / (st.titrant_mass + self.analyte_mass)
         ) / st.dilution_factor
 
-- 
2.43.0


From 6c43fa271a04f303303e4faa810222b548db6f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:36 +0000
Subject: [PATCH 07/24] fix: null read_dat_method in a row does not override
 file_type

---
 calkulate/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 1b62fbf..0e7e12a 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -52,7 +52,7 @@ def _backcompat(kwargs, row):
     for old, new in old2new.items():
         if old in kwargs:
             kwargs[new] = kwargs[old]
-        if "read_dat_method" in row:
+        if old in row and pd.notnull(row[old]):
             kwargs[new] = row[old]
     return kwargs
 
-- 
2.43.0


From 8d3b11d0fc0ecf39d54a9dac708a893fcd7390e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:49 +0000
Subject: [PATCH 08/24] fix: calibrate datasets where some rows have no
 analysis_batch

---
 calkulate/dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 0e7e12a..1bf18c5 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -159,9 +159,9 @@ def calibrate(ds, verbose=False, **kwargs):
     if "reference_good" not in ds:
         ds["reference_good"] = ~np.isnan(ds.titrant_molinity_here)
     batches = get_batches(ds)
-    ds["titrant_molinity"] = batches.loc[
-        ds.analysis_batch, "titrant_molinity"
-    ].to_numpy()
+    ds["titrant_molinity"] = (
+        batches["titrant_molinity"].reindex(ds.analysis_batch).to_numpy()
+    )
     print("Calkulate: calibration complete!")
     ds = solve(ds, verbose=verbose, **kwargs)
     return ds
-- 
2.43.0


From 702ae6fb52755284b7a6ebcb57a6b4656661227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:02 +0000
Subject: [PATCH 09/24] fix: total salt, borate option and amount unit kwargs
 are not overridden by dataset preparation

---
 calkulate/dataset.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 1bf18c5..603f1b8 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -13,19 +13,31 @@ from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .meta import _get_kwargs_for
 
 
-def get_total_salts(ds):
+def get_total_salts(ds, **kwargs):
     """Estimate total salt contents from salinity using PyCO2SYS without
     overwriting existing values.  Operates in-place.
+
+    If `opt_total_borate` or any of the total salts are in the `kwargs`, these
+    are used wherever the corresponding column does not provide a value.
     """
     assert "salinity" in ds, 'Dataset must contain a "salinity" column.'
     # Use opt_total_borate = 1 where it's not provided
+    opt_total_borate = kwargs.get("opt_total_borate", 1)
     if "opt_total_borate" in ds:
         ds["opt_total_borate"] = ds.opt_total_borate.where(
-            ds.opt_total_borate.notnull(), 1
+            ds.opt_total_borate.notnull(), opt_total_borate
         )
     else:
-        ds["opt_total_borate"] = 1
+        ds["opt_total_borate"] = opt_total_borate
     salts = ["total_sulfate", "total_borate", "total_fluoride"]
+    for salt in salts:
+        if salt in kwargs and pd.notnull(kwargs[salt]):
+            if salt in ds:
+                ds[salt] = ds[salt].where(
+                    ds[salt].notnull(), other=kwargs[salt]
+                )
+            else:
+                ds[salt] = kwargs[salt]
     do_pyco2 = not np.all([s in ds and ds[s].notnull().all() for s in salts])
     if do_pyco2:
         results = pyco2.sys(
@@ -107,8 +119,8 @@ def get_batches(ds):
     return batches
 
 
-def prepare(ds):
-    get_total_salts(ds)
+def prepare(ds, **kwargs):
+    get_total_salts(ds, **kwargs)
     # Get analyte_mass from analyte_volume if required
     if "analyte_mass" not in ds:
         assert "analyte_volume" in ds, (
@@ -120,7 +132,7 @@ def prepare(ds):
     if "titrant_amount_unit" in ds:
         ds["titrant_amount_unit"] = np.where(
             pd.isnull(ds.titrant_amount_unit),
-            "ml",
+            kwargs.get("titrant_amount_unit", "ml"),
             ds.titrant_amount_unit,
         )
     if "file_good" not in ds:
@@ -145,7 +157,7 @@ def calibrate(ds, verbose=False, **kwargs):
         The titration metadataset with additional columns found by the solver.
     """
     print("Calkulate: calibrating titrant_molinity...")
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "alkalinity_certified" in ds, (
         'ds must contain an "alkalinity_certified" column!'
     )
@@ -254,7 +266,7 @@ def solve(ds, verbose=False, **kwargs):
             "kwargs not recognised, being ignored: "
             + ("{} " * len(kwargs_ignored)).format(*kwargs_ignored)
         )
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "titrant_molinity" in ds, (
         'ds must contain an "titrant_molinity" column!'
     )
-- 
2.43.0


From 80c025932638862d3744c4daa62bdcf2a5d71cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:29 +0000
Subject: [PATCH 10/24] fix: dataset total salts follow opt_k_carbonic like
 single titrations

---
 calkulate/dataset.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 603f1b8..249ec58 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -8,7 +8,7 @@ import numpy as np
 import pandas as pd
 import PyCO2SYS as pyco2
 
-from . import files
+from . import default, files
 from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .meta import _get_kwargs_for
 
@@ -40,8 +40,15 @@ def get_total_salts(ds, **kwargs):
                 ds[salt] = kwargs[salt]
     do_pyco2 = not np.all([s in ds and ds[s].notnull().all() for s in salts])
     if do_pyco2:
+        # Some opt_k_carbonic cases come with their own total salt estimates
+        opt_k_carbonic = kwargs.get("opt_k_carbonic", default.opt_k_carbonic)
+        if "opt_k_carbonic" in ds:
+            opt_k_carbonic = ds.opt_k_carbonic.where(
+                ds.opt_k_carbonic.notnull(), opt_k_carbonic
+            ).values
         results = pyco2.sys(
             salinity=ds.salinity.values,
+            opt_k_carbonic=opt_k_carbonic,
             opt_total_borate=ds.opt_total_borate.values,
         )
         for salt in salts:
-- 
2.43.0


From ea772e4a9fc9d29236ce088ed25b4cef7d2fa774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:44 +0000
Subject: [PATCH 11/24] fix: export the documented top-level calkulate function

---
 calkulate/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calkulate/__init__.py b/calkulate/__init__.py
index 146e88f..0b94fc5 100644
--- a/calkulate/__init__.py
+++ b/calkulate/__init__.py
@@ -16,7 +16,7 @@
 """Determine (sea)water total alkalinity from titration data."""
 
 from .classes import Dataset, Titration, to_Titration
-from .dataset import calibrate, solve
+from .dataset import calibrate, calkulate, solve
 from .meta import __author__, __version__, hello
 from .read.metadata import (
     read_clipboard,
@@ -38,6 +38,7 @@ __all__ = [
     "say_hello",
     "Dataset",
     "calibrate",
+    "calkulate",
     "solve",
     "read_dat",
     "read_clipboard",
-- 
2.43.0


From 792ff21afe42abff58d08272219e6d5c40a299eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:55 +0000
Subject: [PATCH 12/24] fix: dilute the initial DIC of a simulated titration
 with CO2 loss

---
 calkulate/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/simulate.py b/calkulate/simulate.py
index e4643a0..d08d0ab 100644
--- a/calkulate/simulate.py
+++ b/calkulate/simulate.py
@@ -235,7 +235,7 @@ def _titration(
     # Model DIC loss
     if k_dic_loss is not None:
         dic_titration = np.full_like(titrant_mass, np.nan)
-        dic_titration[0] = dic
+        dic_titration[0] = dic * dilution_factor[0]
         for i in range(len(dic_titration) - 1):
             kwargs_i = {
                 k: v if np.isscalar(v) else v[i]
-- 
2.43.0


From c1ab0a4d224b5932384b6fa6647609f5ac795f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:23 +0000
Subject: [PATCH 13/24] fix: calibrate datasets where no row has an
 analysis_batch

---
 calkulate/dataset.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 249ec58..7d51138 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -123,7 +123,14 @@ def get_batches(ds):
         .groupby(by="analysis_batch")
         .apply(get_group_calibration, include_groups=False)
     )
-    return batches
+    # If no row has an analysis_batch then there are no groups, so no columns
+    return batches.reindex(
+        columns=[
+            "titrant_molinity",
+            "titrant_molinity__std",
+            "titrant_molinity__count",
+        ]
+    )
 
 
 def prepare(ds, **kwargs):
-- 
2.43.0


From df483399cda0874edd79ee891d0a8c9aa17f8783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:19 +0000
Subject: [PATCH 14/24] fix: reading options given in a Dataset column with
 nulls

---
 calkulate/read/titrations.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index ab45ee3..fac7f7a 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -25,12 +25,13 @@ def read_dat_genfromtxt(
     **kwargs,
 ):
     """Import a titration dataset from a .dat file with numpy.genfromtxt."""
+    # Integers become floats in a Dataset column that also contains nulls
     data = np.genfromtxt(
-        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
+        file_name, delimiter=delimiter, skip_header=int(skip_header), **kwargs
     )
-    titrant_amount = data[:, col_titrant_amount]
-    measurement = data[:, col_measurement]
-    temperature = data[:, col_temperature]
+    titrant_amount = data[:, int(col_titrant_amount)]
+    measurement = data[:, int(col_measurement)]
+    temperature = data[:, int(col_temperature)]
     return DatData(titrant_amount, measurement, temperature)
 
 
@@ -46,7 +47,8 @@ def read_dat_pclims(
     with open(file_name, mode="r", encoding="unicode-escape") as f:
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
-    re_data = re.compile(r"[\d\.]*" + r"\t[\d\.]*" * (n_cols - 1))
+    # Integers become floats in a Dataset column that also contains nulls
+    re_data = re.compile(r"[\d\.]*" + r"\t[\d\.]*" * (int(n_cols) - 1))
     data = []
     i = 0
     stop = False
@@ -62,9 +64,9 @@ def read_dat_pclims(
         i += 1
     # Convert data to float arrays
     data = np.array(data, dtype="float64")
-    titrant_amount = data[:, col_titrant_amount]
-    measurement = data[:, col_measurement]
-    temperature = data[:, col_temperature]
+    titrant_amount = data[:, int(col_titrant_amount)]
+    measurement = data[:, int(col_measurement)]
+    temperature = data[:, int(col_temperature)]
     return DatData(titrant_amount, measurement, temperature)
 
 
-- 
2.43.0


From 9e86594f2fb9ad3247c74401123b706e9ad34220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:00 +0000
Subject: [PATCH 15/24] fix: EMF0 is adjusted in the pH_adjust solve mode

---
 calkulate/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/settings.py b/calkulate/settings.py
index 4563be3..486ad49 100644
--- a/calkulate/settings.py
+++ b/calkulate/settings.py
@@ -1 +1,3 @@
-kwargs_least_squares = {}
+# alkalinity (mol/kg) and EMF0 (mV) differ by orders of magnitude, so without
+# scaling, EMF0 is not adjusted when its initial value is zero (pH_adjust)
+kwargs_least_squares = {"x_scale": "jac"}
-- 
2.43.0


From b47856893ac11f7cdf1005346d74a4c45184fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 16/24] fix: read PC LIMS data lines with negative values

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index fac7f7a..6fb901d 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -48,7 +48,7 @@ def read_dat_pclims(
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
     # Integers become floats in a Dataset column that also contains nulls
-    re_data = re.compile(r"[\d\.]*" + r"\t[\d\.]*" * (int(n_cols) - 1))
+    re_data = re.compile(r"-?[\d\.]*" + r"\t-?[\d\.]*" * (int(n_cols) - 1))
     data = []
     i = 0
     stop = False
-- 
2.43.0


From 307c9f8971cc169815c4dbd494c4e79679d3348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:00 +0000
Subject: [PATCH 17/24] fix: import .dbs files where a row has a date but no
 time

---
 calkulate/read/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 71c6477..aad71c9 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -44,7 +44,7 @@ def dbs_datetime(dbs_row):
             + "T"
             + dbs_row["time"]
         )
-    except AttributeError:
+    except (AttributeError, TypeError):
         analysis_datetime = np.datetime64("NaT")
     return pd.Series(
         {
-- 
2.43.0


From 4ff470c846380fe7fae820c4a65d39a1127b9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:16 +0000
Subject: [PATCH 18/24] fix: VINDTA file names in a .dbs where some rows have
 no batch or bottle

---
 calkulate/read/metadata.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index aad71c9..0a483aa 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -53,6 +53,13 @@ def dbs_datetime(dbs_row):
     )
 
 
+def _whole(value):
+    """Restore an integer that became a float due to nulls in its column."""
+    if isinstance(value, float) and value.is_integer():
+        value = int(value)
+    return value
+
+
 def get_VINDTA_filenames(dbs, filename_format="{s}-{c}  {n}  ({d}){b}.dat"):
     """Determine VINDTA filenames, assuming defaults were used, based on the
     dbs.
@@ -67,10 +74,12 @@ def get_VINDTA_filenames(dbs, filename_format="{s}-{c}  {n}  ({d}){b}.dat"):
                 c=int(row.cast),
                 n=int(row.niskin),
                 d=int(row.depth),
-                b=row.bottle,
+                b=_whole(row.bottle),
             )
         elif row.run_type == "CRM":
-            dbs.loc[i, "file_name"] = f"CRM{row.batch}{row.bottle}.dat"
+            dbs.loc[i, "file_name"] = (
+                f"CRM{_whole(row.batch)}{_whole(row.bottle)}.dat"
+            )
             dbs.loc[i, "alkalinity_certified"] = row["cert. CRM AT"]
         else:
             dbs.loc[i, "file_good"] = False
-- 
2.43.0


From ffd815b608b0884c2acf188964404a6edef002ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:22 +0000
Subject: [PATCH 19/24] fix: fit the DIC loss model with current NumPy

---
 calkulate/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/loss.py b/calkulate/loss.py
index 4cf9918..1c53b28 100644
--- a/calkulate/loss.py
+++ b/calkulate/loss.py
@@ -35,7 +35,7 @@ def _lsqfun_dic_loss_model(
 ):
     return (
         dic_loss_model_fitted(
-            k_dic_loss,
+            k_dic_loss[0],
             i_titrant_mass,
             i_delta_fCO2,
             dic_start,
@@ -174,7 +174,7 @@ def get_dic_loss_hires(
             i_dic_loss,
         ),
     )
-    k_dic_loss = k_dic_loss_opt_result["x"]
+    k_dic_loss = k_dic_loss_opt_result["x"][0]
     # Calculate DIC from k_dic_loss in the fitted region
     i_dic = dic_loss_model_fitted(
         k_dic_loss,
@@ -202,7 +202,7 @@ def get_dic_loss_hires(
         step_tm,
         fCO2_air=fCO2_air,
     )
-    return k_dic_loss[0], {
+    return k_dic_loss, {
         "titrant_mass": a_titrant_mass,
         "pH": a_pH,
         "dic": np.concatenate((i_dic, f_dic)),
-- 
2.43.0


From 85e05b8da36f5f99a84957b12bdb29ab10f96d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:21 +0000
Subject: [PATCH 20/24] fix: str and repr of a Titration with a null file_path

---
 calkulate/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 238f68b..b4075ad 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -224,14 +224,14 @@ class Titration:
             raise AttributeError(key)
 
     def __str__(self):
-        if "file_path" in self.row:
+        if pd.notnull(self.row.get("file_path")):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
             f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
-        if "file_path" in self.row:
+        if pd.notnull(self.row.get("file_path")):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
             f = self.row.file_name
-- 
2.43.0


From 8c299f382650549273b7e89ded4c113ceff0df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:21 +0000
Subject: [PATCH 21/24] fix: titrants that contain phosphate when the analyte
 does not

---
 calkulate/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 7d91623..f0aefff 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -509,12 +509,17 @@ def add_titrant_totals(
     for t_total, factor in titrant_totals.items():
         assert t_total.startswith("titrant_total_")
         total = t_total[8:]
-        totals[total] += (
+        added = (
             titrant_mass
             * (titrant_molinity - titrant_molinity_prev)
             * factor
             / (titrant_mass + analyte_mass)
         )
+        if total in totals:
+            totals[total] += added
+        else:
+            # Nothing of this in the analyte
+            totals[total] = added
     return totals
 
 
-- 
2.43.0


From f4c88bad6e50567c76a2d0297e7a076ff732e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:48 +0000
Subject: [PATCH 22/24] fix: dataset plots when reference_good contains null
 values

---
 calkulate/plot/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/calkulate/plot/__init__.py b/calkulate/plot/__init__.py
index cca12ae..b635b2a 100644
--- a/calkulate/plot/__init__.py
+++ b/calkulate/plot/__init__.py
@@ -24,7 +24,8 @@ def titrant_molinity(
         xdata = data[xvar]
         xlabel = xvar
     if "reference_good" in data:
-        G = data.reference_good.values
+        # Null values are not used for calibrating either
+        G = data.reference_good.fillna(False).to_numpy(dtype=bool)
     else:
         G = np.full(np.size(xdata), True)
     # Draw the figure
@@ -80,7 +81,8 @@ def alkalinity_offset(
         xdata = data[xvar]
         xlabel = xvar
     if "reference_good" in data:
-        G = data.reference_good.values
+        # Null values are not used for calibrating either
+        G = data.reference_good.fillna(False).to_numpy(dtype=bool)
     else:
         G = np.full(np.size(xdata), True)
     if show_batches:
-- 
2.43.0


From ea674949edd7c2048387e052688fa4437ff77737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:48 +0000
Subject: [PATCH 23/24] fix: pH plot shows the default window for null limits

---
 calkulate/plot/titration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/calkulate/plot/titration.py b/calkulate/plot/titration.py
index 9fe2ff4..3494953 100644
--- a/calkulate/plot/titration.py
+++ b/calkulate/plot/titration.py
@@ -1,4 +1,5 @@
 import numpy as np
+import pandas as pd
 from matplotlib import pyplot as plt
 from scipy.interpolate import pchip_interpolate
 
@@ -94,8 +95,9 @@ def pH(tt, ax=None, show_gran=True):
         label="Final, used",
         **final_styler.scatter(),
     )
-    pH_min = tt.pH_min if hasattr(tt, "pH_min") else 3
-    pH_max = tt.pH_max if hasattr(tt, "pH_max") else 4
+    # Null values mean "not provided", so the default was used
+    pH_min = tt.pH_min if pd.notnull(tt.row.get("pH_min")) else 3
+    pH_max = tt.pH_max if pd.notnull(tt.row.get("pH_max")) else 4
     xlim = ax.get_xlim()
     ax.fill_between(
         xlim,
-- 
2.43.0


From 75afb2e827bf476fbec79f0e90c178577962c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:48 +0000
Subject: [PATCH 24/24] fix: documented names of the Gran plots of a Titration

---
 calkulate/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index b4075ad..29c75c1 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -316,6 +316,8 @@ class Titration:
         components as plot_components,
         emf as plot_emf,
         gran_alkalinity as plot_alkalinity_gran,  # TODO add trend line
+        gran_alkalinity as plot_gran_alkalinity,
         gran_emf0 as plot_emf0_gran,
+        gran_emf0 as plot_gran_emf0,
         pH as plot_pH,
     )
-- 
2.43.0


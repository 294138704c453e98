From 3204364956d9deb06a07299eb71c5ae8c4ab5ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 01/16] fix: grandfathering when the per-capita convergence
 year is false

percapconv_share_rule compared the Param object, not its value, with False, so
a convergence year of false was treated as year 0.
---
 mimosa/components/effortsharing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index c9d43c0..4a30447 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -259,7 +259,7 @@ def percapconv_share_rule(m, t, r):
     """
 
     year_0, year_t = m.year(0), m.year(t)
-    year_conv = m.percapconv_year
+    year_conv = value(m.percapconv_year)
 
     if year_conv is False:
         # If it is false, use grandfathering all the time
-- 
2.43.0


From 9286d4f6c5783de90c78d93f16c9b2ad6c0d3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 02/16] fix: data file cache left half-initialised when loading
 is interrupted or run in threads

---
 mimosa/common/data/datastore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mimosa/common/data/datastore.py b/mimosa/common/data/datastore.py
index 8a4082c..0448cfe 100644
--- a/mimosa/common/data/datastore.py
+++ b/mimosa/common/data/datastore.py
@@ -45,8 +45,10 @@ class DataStore:
         if filename not in DataStore.databases:
             database = pd.read_csv(full_path)
             database.columns = database.columns.str.lower()
+            # The presence in `databases` marks the file as loaded, so add it last:
+            # the cache must exist by then, also if this is interrupted halfway
+            DataStore.cached_data.setdefault(filename, {})
             DataStore.databases[filename] = database
-            self.cached_data[filename] = {}
 
     def _create_data_years(self):
         beginyear = self.params["time"]["start"]
-- 
2.43.0


From 05533cece59daf97b5578bd7a5091422ccdd26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 03/16] fix: model shared nested settings (regions, simulation
 data) with the dictionary of the caller

---
 mimosa/mimosa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mimosa/mimosa.py b/mimosa/mimosa.py
index df40b6c..698e33a 100644
--- a/mimosa/mimosa.py
+++ b/mimosa/mimosa.py
@@ -7,6 +7,7 @@ it creates an `instance` of the AbstractModel. This is then sent to the solver.
 Finally, the export functions are called here.
 """
 
+import copy
 import os
 import warnings
 
@@ -49,8 +50,9 @@ class MIMOSA:
     """
 
     def __init__(self, params: dict):
-        # Check if input parameter dictionary is valid
-        params, parser_tree = check_params(params, True)
+        # Check if input parameter dictionary is valid. Work on a copy, so that later
+        # changes to the dictionary of the caller do not end up in this model
+        params, parser_tree = check_params(copy.deepcopy(params), True)
         params = parse_param_values(params)
         self.params = params
         self.param_parser_tree = parser_tree
-- 
2.43.0


From d4389ca510d4fc7cba902cc2bcd691501bd1b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 04/16] fix: interrupted save leaves truncated tables or a
 table next to the settings of another run

The table and its param file were written in place, one after the other. Write both
to temporary files first, and put them in place such that no table is ever next to
the param file of another run.
---
 mimosa/export/save.py | 49 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/mimosa/export/save.py b/mimosa/export/save.py
index 01b1349..413c292 100644
--- a/mimosa/export/save.py
+++ b/mimosa/export/save.py
@@ -34,12 +34,53 @@ def save_output(params, m, experiment=None, hash_suffix=False, folder="output"):
     filename = f"{experiment}_{settings_hash}" if hash_suffix else experiment
 
     path = f"{folder}/{filename}.csv"
-    dataframe.to_csv(path, float_format="%.6g", index=False)
+    _write_together(
+        path,
+        dataframe.to_csv(float_format="%.6g", index=False),
+        # The param file
+        f"{path}.params.json",
+        json.dumps(params),
+    )
     print(f"Saved to {path}")
 
-    # 3. Save the param file
-    with open(f"{path}.params.json", "w") as fh:
-        json.dump(params, fh)
+
+def _write_together(path, table, params_path, params):
+    """
+    Writes a table and its param file. If this is interrupted at any point, `path` is
+    either the old or the new table, without a param file or with its own.
+    """
+    folder = os.path.dirname(path)
+    temporary_files = {path: f"{path}.tmp", params_path: f"{params_path}.tmp"}
+    try:
+        for content, temporary in zip((table, params), temporary_files.values()):
+            with open(temporary, "w", encoding="utf-8") as fh:
+                fh.write(content)
+                fh.flush()
+                os.fsync(fh.fileno())
+
+        # The old param file goes first: it does not belong to the new table
+        if os.path.exists(params_path):
+            os.remove(params_path)
+            _sync_folder(folder)
+        os.replace(temporary_files[path], path)
+        _sync_folder(folder)
+        os.replace(temporary_files[params_path], params_path)
+        _sync_folder(folder)
+    finally:
+        for temporary in temporary_files.values():
+            if os.path.exists(temporary):
+                os.remove(temporary)
+
+
+def _sync_folder(folder):
+    """Makes sure that renamed and removed files stay so after a power failure"""
+    if os.name != "posix":
+        return  # Folders cannot be opened elsewhere
+    descriptor = os.open(folder, os.O_RDONLY)
+    try:
+        os.fsync(descriptor)
+    finally:
+        os.close(descriptor)
 
 
 def var_to_row(rows, m, var, is_regional, unit):
-- 
2.43.0


From 05454f90858bff62aae98aadbe095a605d9aca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 05/16] fix: model claims to be saved under a name when saving
 failed

---
 mimosa/mimosa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/mimosa.py b/mimosa/mimosa.py
index 698e33a..d44c972 100644
--- a/mimosa/mimosa.py
+++ b/mimosa/mimosa.py
@@ -219,8 +219,8 @@ class MIMOSA:
         )
 
     def save(self, filename=None, **kwargs):
-        self.last_saved_filename = filename
         save_output(self.params, self.concrete_model, filename, **kwargs)
+        self.last_saved_filename = filename
 
 
 ###########################
-- 
2.43.0


From 8419c644da412f901d19fadffb3404efbb28344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 06/16] fix: run_calibration.py stops right away when there is
 no output folder yet

---
 run_calibration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/run_calibration.py b/run_calibration.py
index 455730f..f65d0c3 100644
--- a/run_calibration.py
+++ b/run_calibration.py
@@ -8,10 +8,7 @@ params = load_params()
 params["economics"]["damages"]["ignore damages"] = True
 params["time"]["end"] = 2100
 
-try:
-    os.mkdir("output/calibration")
-except FileExistsError:
-    pass
+os.makedirs("output/calibration", exist_ok=True)
 
 carbon_budgets = np.arange(200, 1501, 100)
 
-- 
2.43.0


From 083c6454cb58af522442a76d0346c1e717045ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 07/16] fix: choice between several files matching a simulation
 mode pattern was arbitrary

---
 mimosa/concrete_model/simulation_mode/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/concrete_model/simulation_mode/utils.py b/mimosa/concrete_model/simulation_mode/utils.py
index 89fbf3a..b00cfaa 100644
--- a/mimosa/concrete_model/simulation_mode/utils.py
+++ b/mimosa/concrete_model/simulation_mode/utils.py
@@ -14,14 +14,14 @@ from mimosa.common import logger
 
 def read_csv(path):
     if "*" in path:
-        paths = glob(path)
+        paths = sorted(glob(path))  # glob gives an arbitrary order
         if len(paths) != 1:
             logger.warning(
                 "Warning: matched {} files instead of 1 for file pattern {}".format(
                     len(paths), path
                 )
             )
-        path = glob(path)[0]
+        path = paths[0]
     return pd.read_csv(path)
 
 
-- 
2.43.0


From 2f72e25bff7f828bf1afa78fef9c64a302001767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 08/16] fix: nan accepted as the value of a setting

---
 mimosa/common/config/utils/parsers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 77df185..eb17b38 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -172,8 +172,8 @@ class NumParser(GeneralParser):
             self.error(
                 f"Value {value} can not be parsed to a {self.num_type_fct.__name__}"
             )
-        # Check if value within bounds
-        if parsed_value < self.min or parsed_value > self.max:
+        # Check if value within bounds (nan never is)
+        if not self.min <= parsed_value <= self.max:
             self.error(
                 f"Value {parsed_value} not within bounds ({self.min}, {self.max})"
             )
@@ -285,6 +285,8 @@ class QuantityParser(GeneralParser):
             UndefinedUnitError,
         ):
             self.error(f"Cannot parse quantity `{value}` to unit `{self.unit}`")
+        if np.isnan(parsed):
+            self.error(f"Quantity `{value}` is not a number")
         return value  # Returns the string, unit will be really converted when instantiating the model
 
     def to_string(self):
-- 
2.43.0


From 8ca0b30aeef0d0cf08a8943929d8c2e6c1b11f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 09/16] fix: some unknown keys in the settings were silently
 ignored

---
 mimosa/common/config/parseconfig.py | 44 ++++++++++++++++-------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 2446e14..7280525 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -49,32 +49,36 @@ def parse_params(default_yaml, user_yaml, return_parser_tree=False):
     return parsed_dict
 
 
-def create_leaf_criterium(parser_tree):
-    def leaf_criterium(keys, node):
-        try:
-            parser_type = get_nested(parser_tree, keys).type
-        except (AttributeError, KeyError):
-            parser_type = None
-        if isinstance(node, dict) and parser_type not in ["dict", "datasource"]:
-            return False
-        return True
-
-    return leaf_criterium
-
-
-def check_obsolete_params(user_yaml, parsed_params, parser_tree):
+def find_obsolete_keys(user_yaml, parser_tree, parents=()):
+    """Yields the keys of the user config which are not in the default config template"""
+    for key, node in user_yaml.items():
+        keys = [*parents, key]
+        parser = parser_tree.get(key)
+        if isinstance(parser, dict):
+            if isinstance(node, dict):
+                yield from find_obsolete_keys(node, parser, keys)
+            else:
+                # A value is given instead of a section
+                yield keys
+        elif parser is None:
+            yield keys
+        elif isinstance(node, dict) and parser.type not in [
+            "dict",
+            "datasource",
+            "str_or_plain_dict",
+        ]:
+            # A section is given instead of a value
+            yield keys
 
-    leaf_criterium = create_leaf_criterium(parser_tree)
 
-    keys_user = set(flatten(user_yaml, leaf_criterium=leaf_criterium))
-    keys_parsed = set(flatten(parsed_params, leaf_criterium=leaf_criterium))
+def check_obsolete_params(user_yaml, parser_tree):
 
     # Check keys which are in user config, but not in parsed file
     # These are obsolete/unused/misspelled parameters
     num_obsolete = 0
-    for key in set(keys_user) - set(keys_parsed):
+    for keys in find_obsolete_keys(user_yaml, parser_tree):
         num_obsolete += 1
-        print(f"Obsolete key: {key}")
+        print(f"Obsolete key: {' - '.join(str(key) for key in keys)}")
     if num_obsolete > 0:
         raise RuntimeWarning("Some config parameters are obsolete.")
 
@@ -90,7 +94,7 @@ def check_params(input_params, return_parser_tree=False):
         default_yaml, input_params, return_parser_tree=True
     )
 
-    check_obsolete_params(input_params, parsed_params, params_parser_tree)
+    check_obsolete_params(input_params, params_parser_tree)
 
     if return_parser_tree:
         return parsed_params, params_parser_tree
-- 
2.43.0


From b338089dc44fb05a0981c18fe82e76c685791c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 10/16] fix: incomplete simulation mode data accepted, leaving
 the constraint without effect

---
 mimosa/concrete_model/simulation_mode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/concrete_model/simulation_mode/utils.py b/mimosa/concrete_model/simulation_mode/utils.py
index b00cfaa..bc16bb2 100644
--- a/mimosa/concrete_model/simulation_mode/utils.py
+++ b/mimosa/concrete_model/simulation_mode/utils.py
@@ -46,7 +46,7 @@ class InterpolatingData:
 
         new_values = extrapolate(values, years, extra_years, "for_simulation_mode")
         all_years = np.concatenate([years, extra_years])
-        return InterpolatedUnivariateSpline(all_years, new_values)
+        return InterpolatedUnivariateSpline(all_years, new_values, check_finite=True)
 
     def get(self, region, year):
         value = self.region_interp_fct[region](year)
-- 
2.43.0


From 26be48b3fbeb1dbdafc0b837c22b9ecb91f51a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:03 +0000
Subject: [PATCH 11/16] fix: emission trade module globalcostpool could never
 be built

It declared area_under_MAC and two constraints a second time, which the
mitigation module already defines.
---
 .../emissiontrade/globalcostpool.py           | 21 -------------------
 1 file changed, 21 deletions(-)

diff --git a/mimosa/components/emissiontrade/globalcostpool.py b/mimosa/components/emissiontrade/globalcostpool.py
index d91e013..de5fbda 100644
--- a/mimosa/components/emissiontrade/globalcostpool.py
+++ b/mimosa/components/emissiontrade/globalcostpool.py
@@ -13,12 +13,9 @@ from mimosa.common import (
     GlobalConstraint,
     RegionalConstraint,
     Constraint,
-    NonNegativeReals,
     quant,
 )
 
-from mimosa.components.mitigation import AC
-
 
 def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """Emission trading equations and constraints
@@ -37,22 +34,9 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """
     constraints = []
 
-    m.area_under_MAC = Var(
-        m.t,
-        m.regions,
-        within=NonNegativeReals,
-        initialize=0,
-        units=quant.unit("currency_unit"),
-    )
-
     # The global mitigation cost pool:
     constraints.extend(
         [
-            RegionalConstraint(
-                lambda m, t, r: m.area_under_MAC[t, r]
-                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],
-                "mitigation_costs",
-            ),
             GlobalConstraint(
                 lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)
                 == sum(m.area_under_MAC[t, r] for r in m.regions),
@@ -95,11 +79,6 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
                 ),
                 "import_export_emission_reduction_balance",
             ),
-            RegionalConstraint(
-                lambda m, t, r: m.import_export_mitigation_cost_balance[t, r]
-                == m.mitigation_costs[t, r] - m.area_under_MAC[t, r],
-                "import_export_mitigation_cost_balance",
-            ),
         ]
     )
 
-- 
2.43.0


From 09272c6f148a1178e8ab0048d504667e3d123fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:03 +0000
Subject: [PATCH 12/16] fix: minimum and maximum payment level of the global
 cost pool had no effect

---
 .../emissiontrade/globalcostpool.py           | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mimosa/components/emissiontrade/globalcostpool.py b/mimosa/components/emissiontrade/globalcostpool.py
index de5fbda..98297ba 100644
--- a/mimosa/components/emissiontrade/globalcostpool.py
+++ b/mimosa/components/emissiontrade/globalcostpool.py
@@ -14,6 +14,7 @@ from mimosa.common import (
     RegionalConstraint,
     Constraint,
     quant,
+    value,
 )
 
 
@@ -89,5 +90,27 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     m.max_rel_payment_level = Param(
         doc="::economics.emission trade.max rel payment level"
     )
+    constraints.extend(
+        [
+            RegionalConstraint(
+                lambda m, t, r: (
+                    m.mitigation_costs[t, r]
+                    >= m.min_rel_payment_level * m.area_under_MAC[t, r]
+                    if value(m.min_rel_payment_level) is not False and t > 0
+                    else Constraint.Skip
+                ),
+                "min_rel_payment_level",
+            ),
+            RegionalConstraint(
+                lambda m, t, r: (
+                    m.mitigation_costs[t, r]
+                    <= m.max_rel_payment_level * m.area_under_MAC[t, r]
+                    if value(m.max_rel_payment_level) is not False and t > 0
+                    else Constraint.Skip
+                ),
+                "max_rel_payment_level",
+            ),
+        ]
+    )
 
     return constraints
-- 
2.43.0


From b92c892c8538dad019fbb378dda55ea2f1e1a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 13/16] fix: several references in one settings string all
 resolve

Only the last of several references in a string was replaced, and a reference
to a number or a switch raised a TypeError.
---
 mimosa/common/config/parseconfig.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 7280525..942d1c0 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -127,8 +127,8 @@ def parse_param_values(params):
         for match in re.findall(r"\{([\w -]+)\}", node):
             try:
                 other_value = get_nested(params, match.split(" - "))
-                new_value = node.replace(f"{{{match}}}", other_value)
-                set_nested(params, keys, new_value)
+                node = node.replace(f"{{{match}}}", str(other_value))
+                set_nested(params, keys, node)
             except KeyError:
                 pass
 
-- 
2.43.0


From ee20b58af483f14db0c2da285bdf66d5dec79f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 14/16] fix: a convergence year before the first year means
 immediate per capita convergence

With percapconv_year (2020 or later) before time.start, the interpolation was
extrapolated: shares drifted away from the population shares, up to negative
allowances.
---
 mimosa/components/effortsharing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index 4a30447..b3f6a58 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -264,8 +264,8 @@ def percapconv_share_rule(m, t, r):
     if year_conv is False:
         # If it is false, use grandfathering all the time
         return m.percapconv_share_init[r]
-    if year_conv == year_0:
-        # If it is equal to first year, use immediate per capita convergence
+    if year_conv <= year_0:
+        # If it is not after the first year, use immediate per capita convergence
         return m.percapconv_share_pop[t, r]
 
     year_linear_part = (year_t - year_0) / (year_conv - year_0)
-- 
2.43.0


From 5460c48b395bfa1e0b53a12069bc06de5ac918e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:53 +0000
Subject: [PATCH 15/16] fix: an input table that changed on disk was not read
 again

The tables were cached per file name for the whole process: after editing an
own input table, later runs in the same process silently used the old data.
---
 mimosa/common/data/datastore.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mimosa/common/data/datastore.py b/mimosa/common/data/datastore.py
index 0448cfe..d346a0d 100644
--- a/mimosa/common/data/datastore.py
+++ b/mimosa/common/data/datastore.py
@@ -3,6 +3,7 @@ Create a DataStore object which reads and parses regional data
 from a data file in IIASA database format
 """
 
+import hashlib
 import os
 from typing import Dict
 import numpy as np
@@ -23,13 +24,14 @@ class DataStore:
 
     # Class property and not instance property to reduce redundancy
     databases = {}
-    cached_data = {}
 
     def __init__(self, params):
         self.params = params
 
         self._create_data_years()
         self._data_values = {}
+        self._database = {}
+        self.cached_data = {}
 
         for var_name, var_info in params["input"]["variables"].items():
             self._select_database(var_info["file"])
@@ -42,13 +44,15 @@ class DataStore:
             "../../",
             filename,
         )
-        if filename not in DataStore.databases:
+        with open(full_path, "rb") as datafile:
+            # The file can have changed since another run read it
+            key = (filename, hashlib.md5(datafile.read()).hexdigest())
+        if key not in DataStore.databases:
             database = pd.read_csv(full_path)
             database.columns = database.columns.str.lower()
-            # The presence in `databases` marks the file as loaded, so add it last:
-            # the cache must exist by then, also if this is interrupted halfway
-            DataStore.cached_data.setdefault(filename, {})
-            DataStore.databases[filename] = database
+            # Together with the cache of the data selected from it
+            DataStore.databases[key] = (database, {})
+        self._database[filename], self.cached_data[filename] = DataStore.databases[key]
 
     def _create_data_years(self):
         beginyear = self.params["time"]["start"]
@@ -70,7 +74,7 @@ class DataStore:
         variablename = var_info["variable"]
         key = (model, scenario, region, variablename)
         if key not in self.cached_data[filename]:
-            database = DataStore.databases[filename]
+            database = self._database[filename]
             selection = database.loc[
                 (database["model"] == model)
                 & (database["scenario"] == scenario)
-- 
2.43.0


From 37e940fd05bc103fd1eb1fdf8f6f6b8aaeb0c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:01 +0000
Subject: [PATCH 16/16] fix: settings stored with a custom scalar parameter
 could not be used again

The index None of a scalar is written as "null" in the settings file.
---
 mimosa/concrete_model/instantiate_params.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mimosa/concrete_model/instantiate_params.py b/mimosa/concrete_model/instantiate_params.py
index b1e8b8e..45cb774 100644
--- a/mimosa/concrete_model/instantiate_params.py
+++ b/mimosa/concrete_model/instantiate_params.py
@@ -122,7 +122,11 @@ class InstantiatedModel:
         parameter_mapping.update(parameter_mapping_manual)
 
         if "custom_mapping" in params["simulation"]:
-            parameter_mapping.update(params["simulation"]["custom_mapping"])
+            for name, values in params["simulation"]["custom_mapping"].items():
+                if isinstance(values, dict) and list(values) == ["null"]:
+                    # The index None of a scalar, as written in a stored settings file
+                    values = V(values["null"])
+                parameter_mapping[name] = values
 
         instance_data[None].update(parameter_mapping)
 
-- 
2.43.0


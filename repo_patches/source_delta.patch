From b2f208d56012b12f2bd43671ad4b5c4f70e4dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 01/31] fix: give an unloading rate function the levels before
 and after unloading

The duration is determined before the amount is taken from the origin, so the
level before is the present level and the level after is that minus the amount.
---
 src/openclsim/core/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index e4beaf3..a24dd34 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -264,8 +264,8 @@ class UnloadingFunction:
             return duration, amount
         else:
             unloading_time = self.unloading_rate(
-                origin.container.get_level(id_) + amount,
                 origin.container.get_level(id_),
+                origin.container.get_level(id_) - amount,
             )
             duration = unloading_time + self.unload_manoeuvring * 60
             return duration, amount
-- 
2.43.0


From ce6977a4c5d4fa1dab7769b0e78aad099bfe40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 02/31] fix: let rate functions see the material that is
 shifted

The loading and unloading functions take the id of the container, but the shift
activity did not pass it, so they always looked at the default container.
---
 src/openclsim/model/shift_amount_activity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index f564ea4..58cd9e2 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -202,9 +202,9 @@ class ShiftAmountActivity(GenericActivity):
         if self.duration is not None:
             return lambda origin, destination: (self.duration, amount)
         elif self.phase == "loading":
-            return partial(self.processor.loading, amount=amount)
+            return partial(self.processor.loading, amount=amount, id_=self.id_)
         elif self.phase == "unloading":
-            return partial(self.processor.unloading, amount=amount)
+            return partial(self.processor.unloading, amount=amount, id_=self.id_)
         else:
             raise RuntimeError(
                 "Both the phase (loading / unloading) and the duration of the "
-- 
2.43.0


From e70f6b5874dd37a39cda7c199a9e9a8ef4c419d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 03/31] fix: base the speed of a multi container vessel on its
 whole load

The fill degree only used the level and capacity of the last container.
---
 src/openclsim/core/movable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 31f0fec..994c6f7 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -222,8 +222,8 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
         sum_level = 0
         sum_capacity = 0
         for id_ in self.container.container_list:
-            sum_level = self.container.get_level(id_)
-            sum_capacity = self.container.get_capacity(id_)
+            sum_level += self.container.get_level(id_)
+            sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
         return self.compute_v(fill_degree)
 
-- 
2.43.0


From 795987099940a9a4515f12edac9dd5fdbf20f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 04/31] fix: apply the engine order of movables and container
 dependent movables

The engine_order argument of Movable was dropped and the speed of container
dependent movables ignored the engine order of a move.
---
 src/openclsim/core/movable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 994c6f7..a887a54 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -59,7 +59,7 @@ class Movable(Locatable, PerformsActivity, Log):
         super().__init__(*args, **kwargs)
         """Construct a movable object."""
         self._v = v
-        self.engine_order = 1.0
+        self.engine_order = engine_order
 
     def move(
         self,
@@ -191,7 +191,7 @@ class ContainerDependentMovable(Movable, HasContainer):
 
     @property
     def v(self):
-        return self.compute_v(
+        return self.engine_order * self.compute_v(
             self.container.get_level() / self.container.get_capacity()
         )
 
@@ -225,7 +225,7 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
             sum_level += self.container.get_level(id_)
             sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
-        return self.compute_v(fill_degree)
+        return self.engine_order * self.compute_v(fill_degree)
 
 
 class Routable(Movable, Locatable):
-- 
2.43.0


From eb6ebd403fb036783efb2030aab650bd022224f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 05/31] fix: export the direct parent of nested activities

Activities nested two or more levels deep were listed with the topmost
activity as parent.
---
 src/openclsim/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 7497e88..e2f580d 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -58,8 +58,11 @@ def get_tree_as_list(treelist, depth=0) -> dict:
             d = get_tree_as_list(act.sub_processes, depth + 1)
             ActivityID += d["ActivityID"]
             activity += d["activity"]
-            ParentId += [act.id] * len(d["activity"])
-            ParentName += [act.name] * len(d["ParentName"])
+            ParentId += [x if x is not None else act.id for x in d["ParentId"]]
+            ParentName += [
+                n if x is not None else act.name
+                for x, n in zip(d["ParentId"], d["ParentName"])
+            ]
             ActivityClass += d["ActivityClass"]
             ActivityName += d["ActivityName"]
             ParentLevel += d["ParentLevel"]
-- 
2.43.0


From 2617f1e619ca226c566b7ca54623ea8cb13a23cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 06/31] fix: take distance over speed when a routable moves
 over a geometry

move_to_geometry multiplied the distance by the speed and pass_linestring
applied the engine order, which is part of the speed, twice.
---
 src/openclsim/core/movable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index a887a54..4a31a70 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -334,7 +334,7 @@ class Routable(Movable, Locatable):
         """
         linestring = shapely.geometry.LineString([self.geometry, geometry])
         distance = WGS84.geometry_length(linestring)
-        duration = self.v * distance
+        duration = distance / self.v
         yield self.env.timeout(duration)
         self.geometry = geometry
 
@@ -354,7 +354,7 @@ class Routable(Movable, Locatable):
         b = shapely.geometry.Point(geometry.coords[-1])
         assert isinstance(geometry, shapely.geometry.LineString)
         distance = WGS84.geometry_length(geometry)
-        duration = distance / (self.v * self.engine_order)
+        duration = distance / self.v
         self.geometry = a
         yield self.env.timeout(duration)
         self.geometry = b
-- 
2.43.0


From 8d3f1d2817f8fd7722b6d51bb4d6ec36bc49043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:33 +0000
Subject: [PATCH 07/31] fix: allow weather that reaches its limit but never
 exceeds it

---
 src/openclsim/plugins/weather.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 75a2689..455296a 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -137,7 +137,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         if criterion.maximum is not None:
             threshold = {col: criterion.maximum}
 
-            if orig_data[col].max() < threshold[col]:
+            if orig_data[col].max() <= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
@@ -151,7 +151,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         else:
             threshold = {col: criterion.minimum}
 
-            if orig_data[col].min() > threshold[col]:
+            if orig_data[col].min() >= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
-- 
2.43.0


From 45df7ebe1ab3e732a9abd5ea6423d95ffc1dad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 08/31] fix: place weather windows in the repetition of the
 record they are taken from

---
 src/openclsim/plugins/weather.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 455296a..eb4f3b4 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -113,13 +113,15 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         ts_stop = res["dataset_stop"]
 
         filter_windows = windows[windows[:, 1] >= start_time]
+        dt = 0
         i = 0
         while len(filter_windows) < 1 and i < 10:
             dt = i * (ts_stop - ts_start)
             filter_windows = windows[windows[:, 1] >= start_time - dt]
             i = i + 1
 
-        return list(filter_windows[0])
+        # the windows of a repetition of the data set are dt later
+        return [bound + dt for bound in filter_windows[0]]
 
     def process_data(self, criterion) -> dict:
         col = criterion.condition
-- 
2.43.0


From e7ae8aed1ffcac7876c820c031d47ad1a43e0cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 09/31] fix: close the weather window of a record that only
 becomes unworkable

---
 src/openclsim/plugins/weather.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index eb4f3b4..79a3580 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -183,12 +183,12 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         data["ts_inter"] = np.maximum.reduce(data[columns].values, axis=1)
         data["end_inter"] = data.ts_inter.shift(-1)
 
+        if data.iloc[-1]["type"] == "start":
+            data.iloc[-1, data.columns.get_loc("end_inter")] = orig_data.iloc[-1]["ts"]
         if data.iloc[0]["type"] == "end":
             data.iloc[0, data.columns.get_loc("type")] = "start"
             data.iloc[0, data.columns.get_loc("end_inter")] = data.iloc[0]["ts_inter"]
             data.iloc[0, data.columns.get_loc("ts_inter")] = orig_data.iloc[0]["ts"]
-        if data.iloc[-1]["type"] == "start":
-            data.iloc[-1, data.columns.get_loc("end_inter")] = orig_data.iloc[-1]["ts"]
 
         data.rename(columns={"ts_inter": "start_inter"}, inplace=True)
 
-- 
2.43.0


From 79d1ad7de050fbee435d8b2fe96f16a5ab58b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 10/31] fix: export the resources of plans that use none

---
 src/openclsim/io.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index e2f580d..74b31f6 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -120,16 +120,16 @@ def get_activity_resources(activities, ofile=None):
             )
             for x in df[mask]["activity"]
         ]
-    tmp = list(zip(*li))
-    res = pd.DataFrame.from_dict(
-        {
-            "ActivityID": tmp[0],
-            "ActivityName": tmp[1],
-            "ActivityClass": tmp[2],
-            "ConceptID": tmp[3],
-            "ConceptName": tmp[4],
-            "ConceptMode": tmp[5],
-        }
+    res = pd.DataFrame(
+        li,
+        columns=[
+            "ActivityID",
+            "ActivityName",
+            "ActivityClass",
+            "ConceptID",
+            "ConceptName",
+            "ConceptMode",
+        ],
     )
 
     if ofile:
-- 
2.43.0


From b0cc12fffe3f428197250b427a6f5a106a5c4236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:53 +0000
Subject: [PATCH 11/31] fix: keep simultaneous log entries in order in log data
 frames

---
 src/openclsim/plot/log_dataframe.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 200aa85..924c71d 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -31,11 +31,8 @@ def get_log_dataframe(simulation_object, id_map=None):
     else:
         id_map = id_map if id_map else {}
 
-    df = (
-        pd.DataFrame(simulation_object.log)
-        .sort_values(by=["Timestamp"])
-        .sort_values(by=["Timestamp"])
-    )
+    # entries with the same timestamp are kept in the order in which they were made
+    df = pd.DataFrame(simulation_object.log).sort_values(by=["Timestamp"], kind="stable")
     return pd.concat(
         [
             (
-- 
2.43.0


From 0644e6f583f8929b6d16f5c11c7ef2cc07257e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 12/31] fix: pair the starts and stops of sub processes with
 each other in time ranges

---
 src/openclsim/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 74b31f6..78b7c3f 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -162,13 +162,14 @@ def get_ranges_dataframe(simulation_object, id_map=None):
 
     li = []
 
-    # do this analysis per ActivityID
+    # do this analysis per ActivityID, and within it per label: a structural
+    # activity also logs the START STOP of each of its sub processes
     # each intervals has START STOP
     # at most 1 interval may be without STOP, the last one
 
-    for ActivityID in set(log[idkey]):
-        log1 = log[log[idkey] == ActivityID]
+    keys = [idkey] + [key for key in ["type", "ref"] if key in log.columns]
 
+    for (ActivityID, *_), log1 in log.groupby(keys, dropna=False, sort=False):
         t0 = log1[log1["ActivityState"] == "START"].rename(
             columns={"Timestamp": "TimestampStart"}
         )
-- 
2.43.0


From 868abd367a053dbd0fa2d37761837b29fbffe993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:31 +0000
Subject: [PATCH 13/31] fix: export time ranges of simulations that are cut
 short

---
 src/openclsim/io.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 78b7c3f..9fc3fa3 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -197,8 +197,8 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         elif len(t0) == len(t1) + 1:
             print("END missing")
             dt1 = pd.DataFrame.from_dict(
-                {"trip": [len(t0)], "TimestampStop": [None]}
-            )  # will give NaT
+                {"trip": [len(t0)], "TimestampStop": [pd.NaT]}
+            )
             t1 = pd.concat([t1, dt1], ignore_index=True)
         else:
             raise Exception("At most 1 range may be without STOP")
@@ -210,6 +210,11 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         s["TimestampDt"] = [x.total_seconds() for x in dt]
         li.append(s)
 
+    if len(li) == 0:
+        return pd.DataFrame(
+            columns=["TimestampStart", "trip", "TimestampStop", idkey, "TimestampDt"]
+        )
+
     R = pd.concat(li)
     R = R.sort_values(by=["TimestampStart"])
 
-- 
2.43.0


From 0e149c09a961d429da8104fae8128c31d74696db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 14/31] fix: accept a manual id_map of uuids to labels

---
 src/openclsim/plot/log_dataframe.py   | 4 +++-
 src/openclsim/plot/vessel_planning.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 924c71d..35dd801 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -23,7 +23,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     if id_map is None:
         id_map = []
 
-    if isinstance(id_map, dict):
+    if isinstance(id_map, dict) and not all(
+        isinstance(label, str) for label in id_map.values()
+    ):
         id_map = [*id_map.values()]
     if isinstance(id_map, list):
         # TO DO should in fact be recursive for nested activities
diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 9ab6ee9..f8664c7 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -80,7 +80,9 @@ def get_gantt_chart(
     if type(activities) == dict:
         activities = [*activities.values()]
 
-    if type(id_map) == dict:
+    if type(id_map) == dict and not all(
+        isinstance(label, str) for label in id_map.values()
+    ):
         id_map = [*id_map.values()]
 
     if type(id_map) == list:
-- 
2.43.0


From 76687e1b0e57487d12db3b07a1764a88f73cd302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 15/31] fix: plan nested activities on the vessels of the same
 chart

---
 src/openclsim/plot/vessel_planning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index f8664c7..80150d7 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -89,7 +89,7 @@ def get_gantt_chart(
         id_map = {act.id: act.name for act in get_subprocesses(id_map)}
     else:
         id_map = id_map if id_map else {}
-    act_map = {ves.id: ves.name for ves in concepts}
+    act_map = {act.id: act.name for act in get_subprocesses(concepts)}
 
     if activities is None:
         activities = []
-- 
2.43.0


From 477b7f6e60a1872b7f5d3cbaafb473fa08b71c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 16/31] fix: plan an activity once when it is logged on several
 objects

---
 src/openclsim/plot/vessel_planning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 80150d7..46c1c1b 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -94,7 +94,7 @@ def get_gantt_chart(
     if activities is None:
         activities = []
         for obj in concepts:
-            activities.extend(set(obj.log["ActivityID"]))
+            activities.extend(set(obj.log["ActivityID"]) - set(activities))
 
     if colors is None:
         C = get_colors(len(activities))
-- 
2.43.0


From 57e5017a48e794ec00aa576dc9477bb3f96e8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:03 +0000
Subject: [PATCH 17/31] fix: plan the runs of structural activities and of
 their parts side by side

---
 src/openclsim/plot/vessel_planning.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 46c1c1b..c7cb8c5 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -32,12 +32,15 @@ def get_segments(df, activity, y_val):
     """Extract 'start' and 'stop' of activities from log."""
     x = []
     y = []
-    start = 0
+    # a structural activity also logs the START and STOP of each of its sub processes
+    start = {}
     for index, row in df.iterrows():
+        label = str(row.get("ref"))
         if "START" in row["activity_state"] and row["log_string"] == activity:
-            start = index
+            start[label] = index
         elif "STOP" in row["activity_state"] and row["log_string"] == activity:
-            x.extend((start, start, index, index, index))
+            begin = start[label]
+            x.extend((begin, begin, index, index, index))
             y.extend((y_val, y_val, y_val, y_val, None))
     return x, y
 
-- 
2.43.0


From 8ced94429da68b912ce30f84d66bb15f4c9d139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:19 +0000
Subject: [PATCH 18/31] fix: allow dependencies on activities that take no time
 in the simulation graph

---
 .../critical_path/simulation_graph.py         | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index c42878b..998bdd4 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -139,6 +139,11 @@ class SimulationGraph:
             )
 
         # drop activities with zero time, they mess up algorithm
+        self.__zero_time_ids = set(
+            recorded_activities_df.loc[
+                recorded_activities_df.duration == 0, "cp_activity_id"
+            ]
+        )
         recorded_activities_df = recorded_activities_df.loc[
             recorded_activities_df.duration != 0, :
         ]
@@ -158,12 +163,45 @@ class SimulationGraph:
         """
         assert isinstance(dependency_list, list), "list_dependencies must be a list"
 
+        dependency_list = self.__bridge_zero_time_activities(dependency_list)
         dependency_list = [
             (f"{self.__NODE_END_PREFIX} {end}", f"{self.__NODE_START_PREFIX} {start}")
             for end, start in dependency_list
         ]
         return dependency_list
 
+    def __bridge_zero_time_activities(self, dependency_list):
+        """
+        Replace dependencies on activities with zero time, which are not in the graph.
+
+        What depends on such an activity, depends on whatever that activity depends on.
+
+        Parameters
+        ----------
+        dependency_list : list
+        """
+        effects = {}
+        for cause, effect in dependency_list:
+            effects.setdefault(cause, []).append(effect)
+
+        bridged = {}
+        for cause in effects:
+            if cause in self.__zero_time_ids:
+                continue
+            seen = set()
+            to_visit = list(reversed(effects[cause]))
+            while to_visit:
+                effect = to_visit.pop()
+                if effect in seen:
+                    continue
+                seen.add(effect)
+                if effect in self.__zero_time_ids:
+                    to_visit.extend(reversed(effects.get(effect, [])))
+                else:
+                    bridged[(cause, effect)] = None
+
+        return list(bridged)
+
     def __construct_graph(self):
         """
         Construct and return simulation graph (self.simulation_graph),
-- 
2.43.0


From d05c9462c50a675f98d0283af88a706c55fa31a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:54 +0000
Subject: [PATCH 19/31] fix: find all longest paths through the simulation
 graph

---
 .../critical_path/simulation_graph.py         | 190 +++++-------------
 1 file changed, 53 insertions(+), 137 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index 998bdd4..de52732 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -3,7 +3,6 @@ Module that contains class SimulationGraph.
 SimulationGraph is a graph representation of simulated activities and their dependencies.
 """
 
-import copy
 import datetime as dt
 import logging
 
@@ -315,148 +314,65 @@ class SimulationGraph:
                 dependency_cause, dependency_effect, **edge_kwargs
             )
 
-    def __find_critical_edges(
-        self,
-        marked_edges_graph=None,
-        list_critical=None,
-        list_noncritical=None,
-        to_discount=None,
-        max_duration=None,
-        t_max_end=None,
-        duration_discounted_prev=None,
-    ):
+    def __find_critical_edges(self):
         """
-        Create a list of edges on a longest path in the graph (recursively).
-
-        This method recursively builds a list of edges in the activity graph
-        which are on the longest path. In a nutshell the process is as follows:
-
-        0. Create a shadow/copy of the activity graph 'marked_edges_graph'.
-        1. Find an initial longest path, mark all edges on it as such, and set
-           their 'duration' to 10**-4 on the shadow-graph (i.e. discount all
-           edges which have already been marked).
-        2. Find a new longest path in the shadow-graph, and check if the
-           duration in the original graph equals the maximum length. If so,
-           good! Mark all edges as critical and set duration in the shadow
-           graph to 10**-4. If not a feasible longest path, then mark the last
-           edge as noncritical, and set its weight in the shadow graph to
-           10**-8.
-        3. Repeat until all edges are marked as critical or non-critical.
-        """
-
-        feasible_longest = False  # all edges on path can be discounted at once
-
-        # the initial iteration
-        if marked_edges_graph is None:
-            # make a copy of the graph to change weights
-            marked_edges_graph = copy.deepcopy(self.simulation_graph)
-
-            # get an initial longest path
-            longest_path = nx.dag_longest_path(self.simulation_graph, weight="duration")
-            list_critical = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            logging.debug(f"Found initial longest path {list_critical}.")
+        Create a list of edges on a longest path in the graph.
 
-            # get the end time of the initial longest path
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_max_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-
-            logging.debug(
-                f"Max duration {round(self.max_duration, 2)}, "
-                f"t_start {t_start} and t_max end {t_max_end}."
+        An activity edge is critical when the longest path up to its start node,
+        the edge itself and the longest path from its end node together are as
+        long as the longest path in the graph. Only the longest paths with the
+        latest end are considered.
+        """
+        graph = self.simulation_graph
+        nodes = list(nx.topological_sort(graph))
+
+        # the longest path that ends at each of the nodes
+        length_to = {}
+        for node in nodes:
+            length_to[node] = max(
+                [
+                    length_to[prev] + graph.edges[prev, node]["duration"]
+                    for prev in graph.predecessors(node)
+                ],
+                default=0,
             )
 
-            # ready to continue
-            list_noncritical = []
-            to_discount = []
-            feasible_longest = True
-
-        # any following iteration
-        else:
-            # get the current longest path in the discount graph
-            longest_path = nx.dag_longest_path(marked_edges_graph, weight="duration")
-            lp_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
+        # the moment at which the (latest) longest path ends
+        max_duration = round(self.max_duration, 2)
+        t_max_end = max(
+            (
+                graph.nodes[node]["time"]
+                for node in nodes
+                if round(length_to[node], 2) == max_duration
+            ),
+            default=None,
+        )
+        logging.debug(f"Max duration {max_duration} and t_max_end {t_max_end}.")
+
+        # the longest path from each of the nodes to that moment, if there is one
+        length_from = {}
+        for node in reversed(nodes):
+            lengths = [
+                graph.edges[node, following]["duration"] + length_from[following]
+                for following in graph.successors(node)
+                if following in length_from
             ]
+            if graph.nodes[node]["time"] == t_max_end:
+                lengths.append(0)
+            if lengths:
+                length_from[node] = max(lengths)
+
+        list_critical = []
+        for start, end in graph.edges:
+            edge = graph.edges[start, end]
+            if edge["edge_type"] != "activity" or end not in length_from:
+                continue
+            length = length_to[start] + edge["duration"] + length_from[end]
+            if round(length, 2) == max_duration:
+                edge[self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
+                list_critical.append((start, end))
 
-            # get the original duration
-            lp_duration_discounted = nx.path_weight(
-                marked_edges_graph, longest_path, weight="duration"
-            )
-            lp_duration = round(
-                nx.path_weight(self.simulation_graph, longest_path, weight="duration"),
-                2,
-            )
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-            logging.debug(
-                f"longest path found: duration {lp_duration}, t_start "
-                f"{t_start} and t_end {t_end}. (discounted duration "
-                f"{lp_duration_discounted})"
-            )
-
-            # see if this path is a feasible longest path in the original
-            # i.e. must be max duration and same end time
-            new_cp = (lp_duration == round(self.max_duration, 2)) and (
-                t_end == t_max_end
-            )
-            if new_cp:
-                # create list of not-yet-marked-as-critical critical edges
-                to_add_critical = [
-                    edge for edge in lp_edges if edge not in list_critical
-                ]
-                logging.debug(
-                    "New elements on critical path path, " f"adding {to_add_critical}."
-                )
-                list_critical += to_add_critical
-                feasible_longest = True
-            else:
-                to_add_discount = [edge for edge in lp_edges if edge not in to_discount]
-                logging.debug("adding to discount")
-                to_discount += to_add_discount
-
-        # discount the edges, all at once, or only the last one
-        if feasible_longest:
-            logging.debug("discounting all")
-            # in one go discount all activity edges in critical path
-            list_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            for edge in list_edges:
-                marked_edges_graph.edges[edge]["duration"] = 10**-4
-                self.simulation_graph.edges[edge][self.__COLNAME_CRITICAL] = (
-                    self.__CRITICAL[1]
-                )
-            yet_to_discount = []
-        else:
-            yet_to_discount = [
-                edge for edge in to_discount if edge not in list_noncritical
-            ]
-            if len(yet_to_discount) > 0:
-                logging.debug(f"Discounting {yet_to_discount[-1]}")
-                marked_edges_graph.edges[yet_to_discount[-1]]["duration"] = 10**-8
-                list_noncritical.append(yet_to_discount[-1])
-                yet_to_discount = yet_to_discount[:-1]
-
-        # iterate if we have yet to discount or if we have marked all edges
-        if len(list_critical) + len(list_noncritical) == self.n_activities:
-            return list_critical
-        return self.__find_critical_edges(
-            marked_edges_graph=marked_edges_graph,
-            list_critical=list_critical,
-            list_noncritical=list_noncritical,
-            to_discount=yet_to_discount,
-            max_duration=max_duration,
-            t_max_end=t_max_end,
-            duration_discounted_prev=duration_discounted_prev,
-        )
+        return list_critical
 
     def get_list_critical_activities(self):
         """
-- 
2.43.0


From 31b964496e1fadb079259551428b0cca06e6d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:59 +0000
Subject: [PATCH 20/31] fix: trace the dependencies of activities that end with
 a wait of no time

---
 src/openclsim/critical_path/dependencies_from_simpy_step.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 0e7bd76..cd152e7 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -156,6 +156,8 @@ class DependenciesFromSimpy(BaseCP):
             (
                 (recorded_activities_df.ActivityID == activity_id)
                 & (recorded_activities_df.end_time == end_time)
+                # an event that takes time is not recorded as something without duration
+                & (recorded_activities_df.start_time < end_time)
             ),
             "cp_activity_id",
         ]
-- 
2.43.0


From be05ba4fc0599fb36b3ee05c0fc33b12e38965ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:00 +0000
Subject: [PATCH 21/31] fix: trace the dependencies of plans with start times
 nobody waits for

---
 .../dependencies_from_simpy_step.py           | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index cd152e7..b56cd1e 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -13,6 +13,7 @@ import pandas as pd
 import simpy
 
 from openclsim.critical_path.base_cp import BaseCP
+from openclsim.model import get_subprocesses
 
 
 class DependenciesFromSimpy(BaseCP):
@@ -131,7 +132,7 @@ class DependenciesFromSimpy(BaseCP):
         )
 
         # rename the dependencies from dependencies with e_id to dependencies with cp_activity_id
-        self.dependency_list = [
+        dependency_list = [
             (
                 self._find_cp_act(dependency[0], recorded_activities_df),
                 self._find_cp_act(dependency[1], recorded_activities_df),
@@ -139,6 +140,11 @@ class DependenciesFromSimpy(BaseCP):
             for dependency in DEPENDENCIES_OPENCLSIM
         ]
 
+        # leave out start times nobody waited for, they are not recorded
+        self.dependency_list = [
+            dependency for dependency in dependency_list if None not in dependency
+        ]
+
     def _find_cp_act(self, e_id, recorded_activities_df):
         """
         Get cp activity ID given a time-window and an activity ID.
@@ -163,6 +169,8 @@ class DependenciesFromSimpy(BaseCP):
         ]
         if len(set(matching_ids)) == 1:
             cp_activity_id = matching_ids.iloc[0]
+        elif len(matching_ids) == 0 and self._is_start_time(activity_id):
+            cp_activity_id = None
         else:
             raise ValueError(
                 f"No recorded activity found for"
@@ -171,6 +179,24 @@ class DependenciesFromSimpy(BaseCP):
             )
         return cp_activity_id
 
+    def _is_start_time(self, activity_id):
+        """
+        Check if a timeout can be a time in a start or condition event of an activity.
+
+        Parameters
+        ----------
+        activity_id : str
+            Value of the timeout event.
+        """
+        return any(
+            activity.id == activity_id
+            and (
+                getattr(activity, "start_event", None) is not None
+                or getattr(activity, "condition_event", None) is not None
+            )
+            for activity in get_subprocesses(self.activity_list)
+        )
+
 
 class CriticalPathEnvironment(simpy.Environment):
     """
-- 
2.43.0


From 83093d376ea16b8a9282f314e8e8b77e8e774d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:42 +0000
Subject: [PATCH 22/31] fix: trace the dependencies of long simulations

---
 .../dependencies_from_simpy_step.py           | 64 ++++++++++---------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index b56cd1e..f8bc380 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -59,16 +59,16 @@ class DependenciesFromSimpy(BaseCP):
         """
         Hidden and protected method for the get_dependency_list.
 
-        This method recursively walks through the simpy dependencies
+        This method walks through the simpy dependencies
         (as the 'monkey-patched' step function recorded these) and keeps only those dependencies
         which are a timeout event. Then we translate the IDs of these dependencies from
         the original simpy e_id values to our openclsim cp_activity_id values.
         """
-        # Define some globals to which the recursive functions/while loop can append
+        # Define some globals to which the function/while loop can append
         DEPENDENCIES_OPENCLSIM = []
-        SEEN = []
+        SEEN = set()
 
-        def __extract_openclsim_dependencies(tree_input, elem=None, last_seen=None):
+        def __extract_openclsim_dependencies(tree_input):
             """
             Extract the relevant (OpenCLSim) dependencies from the complete list
             of all Simpy dependencies.
@@ -83,38 +83,40 @@ class DependenciesFromSimpy(BaseCP):
             This function extracts such dependencies (which Timeout causes which timeout)
             from the original tree_input.
             """
-            if elem is None:
-                elem = tree_input[0][0]
-
-            # note that we have seen this one
-            SEEN.append(elem)
-
-            # get effects
-            effects_this_elem = [tup[1] for tup in tree_input if tup[0] == elem]
-            # we only want dependencies that are 1) a Timeout and 2) have a delay > 0
-            # (because these events take time)
-            relevant_timeout = (
-                isinstance(
-                    self.step_logging_dataframe.loc[elem, "event_object"],
-                    simpy.events.Timeout,
+            effects = {}
+            for cause, effect in tree_input:
+                effects.setdefault(cause, []).append(effect)
+
+            # the tree is as deep as the simulation is long, so do not use recursion
+            to_visit = [(tree_input[0][0], None)]
+            while to_visit:
+                elem, last_seen = to_visit.pop()
+
+                # note that we have seen this one
+                SEEN.add(elem)
+
+                # we only want dependencies that are 1) a Timeout and 2) have a delay > 0
+                # (because these events take time)
+                relevant_timeout = (
+                    isinstance(
+                        self.step_logging_dataframe.loc[elem, "event_object"],
+                        simpy.events.Timeout,
+                    )
+                    and self.step_logging_dataframe.loc[elem, "event_object"]._delay > 0
                 )
-                and self.step_logging_dataframe.loc[elem, "event_object"]._delay > 0
-            )
 
-            if relevant_timeout:
-                # relevant to SAVE
-                if last_seen is not None:
-                    DEPENDENCIES_OPENCLSIM.append((last_seen, elem))
-                last_seen = elem
+                if relevant_timeout:
+                    # relevant to SAVE
+                    if last_seen is not None:
+                        DEPENDENCIES_OPENCLSIM.append((last_seen, elem))
+                    last_seen = elem
 
-            for effect_this_elem in effects_this_elem:
-                logging.debug(f"Effect {effect_this_elem} from {effects_this_elem}")
-                __extract_openclsim_dependencies(
-                    tree_input, elem=effect_this_elem, last_seen=last_seen
+                effects_this_elem = effects.get(elem, [])
+                logging.debug(f"Effects {effects_this_elem} of {elem}")
+                to_visit.extend(
+                    (effect, last_seen) for effect in reversed(effects_this_elem)
                 )
 
-            return None
-
         # get all relevant dependencies from the simpy dependencies,
         # that is find how the timeouts depend on one another.
         tree = copy.deepcopy(self.__cause_effect_list)
-- 
2.43.0


From 3d343c2fa7e0480773f6694eef1b86710c9073d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:42 +0000
Subject: [PATCH 23/31] fix: trace the dependencies of start times in loops

---
 .../dependencies_from_simpy_step.py           | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index f8bc380..c432681 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -137,17 +137,19 @@ class DependenciesFromSimpy(BaseCP):
         dependency_list = [
             (
                 self._find_cp_act(dependency[0], recorded_activities_df),
-                self._find_cp_act(dependency[1], recorded_activities_df),
+                self._find_cp_act(
+                    dependency[1], recorded_activities_df, match_start=True
+                ),
             )
             for dependency in DEPENDENCIES_OPENCLSIM
         ]
 
-        # leave out start times nobody waited for, they are not recorded
+        # leave out start times nobody waited for (all the time), they are not recorded
         self.dependency_list = [
             dependency for dependency in dependency_list if None not in dependency
         ]
 
-    def _find_cp_act(self, e_id, recorded_activities_df):
+    def _find_cp_act(self, e_id, recorded_activities_df, match_start=False):
         """
         Get cp activity ID given a time-window and an activity ID.
 
@@ -157,6 +159,10 @@ class DependenciesFromSimpy(BaseCP):
             Execution id from simpy.
         recorded_activities_df : pd.DataFrame
             From self.get_recorded_activity_df().
+        match_start : boolean
+            If True the activity must also be recorded from the start of the event.
+            One waits for a start time that is set beforehand only from the
+            moment at which the activity can begin.
         """
         activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
         end_time = round(self.step_logging_dataframe.loc[e_id, "t1"], 4)
@@ -171,6 +177,13 @@ class DependenciesFromSimpy(BaseCP):
         ]
         if len(set(matching_ids)) == 1:
             cp_activity_id = matching_ids.iloc[0]
+            if match_start and self._is_start_time(activity_id):
+                event = self.step_logging_dataframe.loc[e_id, "event_object"]
+                start_times = recorded_activities_df.loc[
+                    matching_ids.index, "start_time"
+                ]
+                if abs(start_times.iloc[0] + event._delay - end_time) > 0.001:
+                    cp_activity_id = None
         elif len(matching_ids) == 0 and self._is_start_time(activity_id):
             cp_activity_id = None
         else:
-- 
2.43.0


From 0751d09c9c899522e7a3b8577406ec35fcc3567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 24/31] fix: record runs and waits separately

---
 src/openclsim/critical_path/base_cp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/critical_path/base_cp.py b/src/openclsim/critical_path/base_cp.py
index a0c5fe8..9546bfc 100644
--- a/src/openclsim/critical_path/base_cp.py
+++ b/src/openclsim/critical_path/base_cp.py
@@ -181,8 +181,12 @@ class BaseCP(ABC):
             The reformatted and reshaped log.
         """
 
+        # runs and waits are paired separately
+        df_log = df_log.assign(
+            waiting=df_log["ActivityState"].isin(["WAIT_START", "WAIT_STOP"])
+        )
         df_log = df_log.sort_values(
-            by=["ActivityID", "Timestamp", "ActivityState"]
+            by=["ActivityID", "waiting", "Timestamp", "ActivityState"]
         ).reset_index()
 
         df_starts = (
-- 
2.43.0


From dd6d17d01ac52e2bd05c2986f40f125addc6e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 25/31] fix: keep claims of the group when a shift is tried
 again

---
 src/openclsim/model/shift_amount_activity.py | 24 ++++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index 58cd9e2..8105c3c 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -85,6 +85,10 @@ class ShiftAmountActivity(GenericActivity):
             self.origin, self.destination, self.amount, self.id_
         )
 
+        # resources that are already held (the destination and those kept by previous
+        # activities) stay claimed when an attempt is aborted
+        held_resources = list(self.requested_resources)
+
         all_available = False
         while not all_available and amount > 0:
             amount = self.processor.determine_processor_amount(
@@ -115,24 +119,15 @@ class ShiftAmountActivity(GenericActivity):
                 # someone removed / added content while we were requesting the
                 # processor, so abort and wait for available
                 # space/content again
-                self._release_resource(
-                    self.requested_resources,
-                    self.processor.resource,
-                )
+                self._release_claimed(held_resources, self.processor.resource)
                 continue
 
             yield from self._request_resource(
                 self.requested_resources, self.origin.resource
             )
             if self.origin.container.get_level(self.id_) < amount:
-                self._release_resource(
-                    self.requested_resources,
-                    self.processor.resource,
-                )
-                self._release_resource(
-                    self.requested_resources,
-                    self.origin.resource,
-                )
+                self._release_claimed(held_resources, self.processor.resource)
+                self._release_claimed(held_resources, self.origin.resource)
                 continue
             all_available = True
 
@@ -179,6 +174,11 @@ class ShiftAmountActivity(GenericActivity):
                 self.requested_resources, self.processor.resource, self.keep_resources
             )
 
+    def _release_claimed(self, held_resources, resource):
+        """Release a resource that was claimed in the attempt that is aborted."""
+        if resource not in held_resources:
+            self._release_resource(self.requested_resources, resource)
+
     def _shift_amount(
         self,
         env,
-- 
2.43.0


From c542fa73049d49420599835c38c2a45d0bc01dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 26/31] fix: a shift of nothing reserved as much as could ever
 fit

---
 src/openclsim/core/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index a24dd34..0f5d3a1 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -176,7 +176,7 @@ class Processor(SimpyObject):
     ):
         return (
             amount
-            if amount
+            if amount is not None
             else min(
                 origin.container.get_capacity(id_),
                 destination.container.get_capacity(id_),
-- 
2.43.0


From 07e29d818ad3c73e72fea8ce3a0073641f587efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 27/31] fix: move_over_route could not find the graph

---
 src/openclsim/core/movable.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 4a31a70..8ed8059 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -394,16 +394,16 @@ class Routable(Movable, Locatable):
             a list of nodes that are available on the network
         """
         a = route[0]
-        a_geometry = self.graph.nodes[a]["geometry"]
+        a_geometry = self.env.graph.nodes[a]["geometry"]
         yield from self.move_to_geometry(a_geometry)
         # move self to node + geometry
         self.node = a
         self.geometry = a_geometry
 
         for i, (a, b) in enumerate(pairwise(route)):
-            a_geometry = self.graph[a]["geometry"]
-            b_geometry = self.graph[b]["geometry"]
-            edge_geometry = self.graph[(a, b)]["geometry"]
+            a_geometry = self.env.graph.nodes[a]["geometry"]
+            b_geometry = self.env.graph.nodes[b]["geometry"]
+            edge_geometry = self.env.graph.edges[(a, b)]["geometry"]
             # make sure we are in the right order
             edge_geometry = self.order_geometry(edge_geometry, a_geometry)
             # go to a (we should already be here)
@@ -412,7 +412,7 @@ class Routable(Movable, Locatable):
             # pass over the edge
             yield from self.pass_linestring(edge_geometry)
             # call any other functions we have registered
-            for pass_edge_function in self.pass_edge_function:
+            for pass_edge_function in self.on_pass_edge_functions:
                 yield pass_edge_function(
                     movable=self, a=a, b=b, route=route, geometry=edge_geometry
                 )
-- 
2.43.0


From 0d5cade789cc0dfec0712eba87f2d73cf2ff1ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 28/31] fix: a reference by name was resolved to the activity
 that has that name as id

---
 src/openclsim/model/base_activities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/model/base_activities.py b/src/openclsim/model/base_activities.py
index 6d618e3..c70a95f 100644
--- a/src/openclsim/model/base_activities.py
+++ b/src/openclsim/model/base_activities.py
@@ -201,7 +201,10 @@ class GenericActivity(PluginActivity):
 
                 activity_from_id = self.registry.get("id", {}).get(key)
                 activity_from_name = self.registry.get("name", {}).get(key)
-                if activity_from_id is not None:
+                if activity_from_name is not None and "ID" not in expr:
+                    # the name of one activity can be the id of another
+                    activity_ = activity_from_name
+                elif activity_from_id is not None:
                     activity_ = activity_from_id
                 elif activity_from_name is not None:
                     activity_ = activity_from_name
-- 
2.43.0


From dfced70c772e6c7d40f0f6e90180ce093db94a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 29/31] fix: log the end of a shift or move under the activity
 it belongs to

---
 src/openclsim/core/movable.py   | 9 ++++++---
 src/openclsim/core/processor.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 8ed8059..eee56b0 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -93,10 +93,13 @@ class Movable(Locatable, PerformsActivity, Log):
         if engine_order is not None:
             self.engine_order = engine_order
 
+        # a mover with several places can start another activity meanwhile
+        activity_id = self.activity_id
+
         # Log the start event
         self.log_entry_v1(
             self.env.now,
-            self.activity_id,
+            activity_id,
             LogState.START,
         )
 
@@ -105,7 +108,7 @@ class Movable(Locatable, PerformsActivity, Log):
             duration = self.compute_duration(self.geometry, destination.geometry)
 
         # Check out the time based on duration of sailing event
-        yield self.env.timeout(duration, value=self.activity_id)
+        yield self.env.timeout(duration, value=activity_id)
 
         # Set mover geometry to destination geometry
         self.geometry = shapely.geometry.shape(destination.geometry)
@@ -113,7 +116,7 @@ class Movable(Locatable, PerformsActivity, Log):
         # Log the stop event
         self.log_entry_v1(
             self.env.now,
-            self.activity_id,
+            activity_id,
             LogState.STOP,
         )
 
diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index 0f5d3a1..37295e2 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -51,11 +51,14 @@ class Processor(SimpyObject):
         assert self.is_at(origin)
         assert destination.is_at(origin)
 
+        # a processor with several places can start another activity meanwhile
+        activity_id = self.activity_id
+
         # Log the process for all parts
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.START,
             )
 
@@ -70,7 +73,7 @@ class Processor(SimpyObject):
             reserved_amount=reserved_amount,
             id_=id_,
         )
-        yield self.env.timeout(duration, value=self.activity_id)
+        yield self.env.timeout(duration, value=activity_id)
         # Put the amount in the destination
         yield from self.check_possible_shift(
             origin=origin,
@@ -85,7 +88,7 @@ class Processor(SimpyObject):
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.STOP,
             )
 
-- 
2.43.0


From ee76c057b6010a12b33665280dd4c2e8b131a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 30/31] fix: reject a loop whose stop condition refers to an
 activity that does not exist before time passes

---
 src/openclsim/model/base_activities.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/openclsim/model/base_activities.py b/src/openclsim/model/base_activities.py
index c70a95f..8ac1ada 100644
--- a/src/openclsim/model/base_activities.py
+++ b/src/openclsim/model/base_activities.py
@@ -229,6 +229,21 @@ class GenericActivity(PluginActivity):
             "are: simpy.Event, dict, and list"
         )
 
+    def check_references(self, expr):
+        """Raise an error if an expression refers to an activity that does not exist."""
+        if isinstance(expr, list):
+            for item in expr:
+                self.check_references(item)
+        elif isinstance(expr, dict):
+            self.check_references(expr.get("and", expr.get("or", [])))
+            key = expr.get("ID", expr.get("name"))
+            if expr.get("type") == "activity" and not any(
+                key in self.registry.get(by, {}) for by in ["id", "name"]
+            ):
+                raise ValueError(
+                    f"No activity found in ActivityExpression for id/name {key} in expression {expr}"
+                )
+
     def delayed_process(
         self,
         activity_log,
@@ -236,6 +251,8 @@ class GenericActivity(PluginActivity):
     ):
         """Return a generator which can be added as a process to a simpy environment."""
         additional_logs = getattr(self, "additional_logs", [])
+        # a condition event is parsed when its turn comes, long after the start
+        self.check_references(getattr(self, "condition_event", None))
         start_event = (
             None
             if self.start_event is None
-- 
2.43.0


From 655af6a21e748435cb708d9ed2392cdb8e3650b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 31/31] fix: a container condition that no longer holds could
 be returned as already signalled

An event that was triggered but not yet processed was kept for the next
caller although the level no longer fulfilled the condition.
---
 src/openclsim/core/events_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/events_container.py b/src/openclsim/core/events_container.py
index b748dff..d657f70 100644
--- a/src/openclsim/core/events_container.py
+++ b/src/openclsim/core/events_container.py
@@ -82,7 +82,7 @@ class EventsContainer(simpy.FilterStore):
         current_level = self.get_level(id_)
         event_status = getattr(py_opp, operator)(current_level, level)
 
-        if not event or (not event_status and event.processed):
+        if not event or (not event_status and event.triggered):
             # If event_status is still correct keep it otherwise overwrite it.
             self._container_events[(id_, level, operator)] = self._env.event()
 
-- 
2.43.0


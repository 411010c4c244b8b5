From a7ca3224c2888d9ce63e5e1debc1166fa66682ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 01/30] fix: MultiContainerDependentMovable speed uses the fill
 of all its containers

---
 src/openclsim/core/movable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 31f0fec..994c6f7 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -222,8 +222,8 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
         sum_level = 0
         sum_capacity = 0
         for id_ in self.container.container_list:
-            sum_level = self.container.get_level(id_)
-            sum_capacity = self.container.get_capacity(id_)
+            sum_level += self.container.get_level(id_)
+            sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
         return self.compute_v(fill_degree)
 
-- 
2.43.0


From e86dca4c02d7ff9204acf8b657d7a221534b8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 02/30] fix: apply the engine order exactly once for every kind
 of movable

---
 src/openclsim/core/movable.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 994c6f7..0b467c1 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -59,7 +59,7 @@ class Movable(Locatable, PerformsActivity, Log):
         super().__init__(*args, **kwargs)
         """Construct a movable object."""
         self._v = v
-        self.engine_order = 1.0
+        self.engine_order = engine_order
 
     def move(
         self,
@@ -191,9 +191,8 @@ class ContainerDependentMovable(Movable, HasContainer):
 
     @property
     def v(self):
-        return self.compute_v(
-            self.container.get_level() / self.container.get_capacity()
-        )
+        fill_degree = self.container.get_level() / self.container.get_capacity()
+        return self.compute_v(fill_degree) * self.engine_order
 
 
 class MultiContainerDependentMovable(Movable, HasMultiContainer):
@@ -225,7 +224,7 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
             sum_level += self.container.get_level(id_)
             sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
-        return self.compute_v(fill_degree)
+        return self.compute_v(fill_degree) * self.engine_order
 
 
 class Routable(Movable, Locatable):
@@ -354,7 +353,7 @@ class Routable(Movable, Locatable):
         b = shapely.geometry.Point(geometry.coords[-1])
         assert isinstance(geometry, shapely.geometry.LineString)
         distance = WGS84.geometry_length(geometry)
-        duration = distance / (self.v * self.engine_order)
+        duration = distance / self.v
         self.geometry = a
         yield self.env.timeout(duration)
         self.geometry = b
-- 
2.43.0


From a3ac4ffa83e53435d6eb20a041cbc927a4d7c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 03/30] fix: let a Routable sail over a route of the
 environment's graph

---
 src/openclsim/core/movable.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 0b467c1..ec5151a 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -333,7 +333,7 @@ class Routable(Movable, Locatable):
         """
         linestring = shapely.geometry.LineString([self.geometry, geometry])
         distance = WGS84.geometry_length(linestring)
-        duration = self.v * distance
+        duration = distance / self.v
         yield self.env.timeout(duration)
         self.geometry = geometry
 
@@ -393,16 +393,16 @@ class Routable(Movable, Locatable):
             a list of nodes that are available on the network
         """
         a = route[0]
-        a_geometry = self.graph.nodes[a]["geometry"]
+        a_geometry = self.env.graph.nodes[a]["geometry"]
         yield from self.move_to_geometry(a_geometry)
         # move self to node + geometry
         self.node = a
         self.geometry = a_geometry
 
         for i, (a, b) in enumerate(pairwise(route)):
-            a_geometry = self.graph[a]["geometry"]
-            b_geometry = self.graph[b]["geometry"]
-            edge_geometry = self.graph[(a, b)]["geometry"]
+            a_geometry = self.env.graph.nodes[a]["geometry"]
+            b_geometry = self.env.graph.nodes[b]["geometry"]
+            edge_geometry = self.env.graph.edges[(a, b)]["geometry"]
             # make sure we are in the right order
             edge_geometry = self.order_geometry(edge_geometry, a_geometry)
             # go to a (we should already be here)
@@ -411,7 +411,7 @@ class Routable(Movable, Locatable):
             # pass over the edge
             yield from self.pass_linestring(edge_geometry)
             # call any other functions we have registered
-            for pass_edge_function in self.pass_edge_function:
+            for pass_edge_function in self.on_pass_edge_functions:
                 yield pass_edge_function(
                     movable=self, a=a, b=b, route=route, geometry=edge_geometry
                 )
-- 
2.43.0


From e3bb5d3ec8cd4f16ca5b463151420145ce5afca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 04/30] fix: pass the levels before and after unloading to a
 callable unloading rate

---
 src/openclsim/core/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index e4beaf3..a24dd34 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -264,8 +264,8 @@ class UnloadingFunction:
             return duration, amount
         else:
             unloading_time = self.unloading_rate(
-                origin.container.get_level(id_) + amount,
                 origin.container.get_level(id_),
+                origin.container.get_level(id_) - amount,
             )
             duration = unloading_time + self.unload_manoeuvring * 60
             return duration, amount
-- 
2.43.0


From 9e388007643ffe8759a43e105b90cbf275f3e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 05/30] fix: wait with a shift until its amount is available or
 fits, as documented

---
 src/openclsim/core/processor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index a24dd34..6fb4fc1 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -104,6 +104,17 @@ class Processor(SimpyObject):
         method = getattr(obj.container, activity)
 
         start_time = self.env.now
+        # Wait until the amount is available (get) or until it fits (put)
+        if activity == "get":
+            while obj.container.get_level(id_) < amount:
+                yield obj.container.get_container_event(
+                    level=amount, operator="ge", id_=id_
+                )
+        else:
+            while obj.container.get_capacity(id_) - obj.container.get_level(id_) < amount:
+                yield obj.container.get_container_event(
+                    level=obj.container.get_level(id_), operator="lt", id_=id_
+                )
         # Shift amounts in containers
         yield method(
             amount,
-- 
2.43.0


From fb914b8fb1f1387c6c0bc3d165bcfb51c676d8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 06/30] fix: do not wait forever for space that only rounding
 says is missing

---
 src/openclsim/model/shift_amount_activity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index f564ea4..455a4fd 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -92,6 +92,8 @@ class ShiftAmountActivity(GenericActivity):
             )
 
             # yield until enough content and space available in origin and destination
+            # (capacity - amount can be rounded to just below the level that amount
+            # was derived from, in which case the amount still fits)
             yield env.all_of(
                 events=[
                     self.origin.container.get_container_event(
@@ -100,8 +102,10 @@ class ShiftAmountActivity(GenericActivity):
                         id_=self.id_,
                     ),
                     self.destination.container.get_container_event(
-                        level=self.destination.container.get_capacity(self.id_)
-                        - amount,
+                        level=max(
+                            self.destination.container.get_capacity(self.id_) - amount,
+                            self.destination.container.get_level(self.id_),
+                        ),
                         operator="le",
                         id_=self.id_,
                     ),
-- 
2.43.0


From 6d4857d1a5b7ffd319cfa94ff5b91ba84186b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 07/30] fix: evaluate nested stop conditions of a while
 activity without delay

---
 src/openclsim/model/while_activity.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/while_activity.py b/src/openclsim/model/while_activity.py
index 31e81d4..58b5818 100644
--- a/src/openclsim/model/while_activity.py
+++ b/src/openclsim/model/while_activity.py
@@ -1,11 +1,26 @@
 """While activity for the simulation."""
 
+import simpy
+
 import openclsim.core as core
 
 from .base_activities import GenericActivity, RegisterSubProcesses
 from .helpers import register_processes
 
 
+def has_occurred(event):
+    """
+    Return whether an event, or what a (nested) condition waits for, has occurred.
+
+    A condition itself is only processed a few simulation steps after the events it
+    waits for, every level of nesting takes another step.
+    """
+    if isinstance(event, simpy.events.Condition):
+        occurred = [item for item in event._events if has_occurred(item)]
+        return event._evaluate(event._events, len(occurred))
+    return event.processed
+
+
 class ConditionProcessMixin:
     """Mixin for the condition process."""
 
@@ -68,8 +83,8 @@ class ConditionProcessMixin:
 
             if (
                 repetitions >= self.max_iterations
-                or static_condition_event.processed is True
-                or self.parse_expression(self.condition_event).processed is True
+                or has_occurred(static_condition_event)
+                or has_occurred(self.parse_expression(self.condition_event))
             ):
                 break
             else:
-- 
2.43.0


From ef59f8efe69c112e17b7b271aeae9b1da89aea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 08/30] fix: end the only weather window when the weather turns
 bad just once

---
 src/openclsim/plugins/weather.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 75a2689..8b3f214 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -177,15 +177,19 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         else:
             data.loc[data[col] < threshold[col], "type"] = "end"
 
+        # a single row can be both the first and the last change of the weather
+        starts_workable = data.iloc[0]["type"] == "end"
+        ends_workable = data.iloc[-1]["type"] == "start"
+
         columns = [f"{col}_inter"]
         data["ts_inter"] = np.maximum.reduce(data[columns].values, axis=1)
         data["end_inter"] = data.ts_inter.shift(-1)
 
-        if data.iloc[0]["type"] == "end":
+        if starts_workable:
             data.iloc[0, data.columns.get_loc("type")] = "start"
             data.iloc[0, data.columns.get_loc("end_inter")] = data.iloc[0]["ts_inter"]
             data.iloc[0, data.columns.get_loc("ts_inter")] = orig_data.iloc[0]["ts"]
-        if data.iloc[-1]["type"] == "start":
+        if ends_workable:
             data.iloc[-1, data.columns.get_loc("end_inter")] = orig_data.iloc[-1]["ts"]
 
         data.rename(columns={"ts_inter": "start_inter"}, inplace=True)
-- 
2.43.0


From c8cdbb3e5c4afbfa0e9d4832c4860606a3a71c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 09/30] fix: wait for the next weather window when the dataset
 is repeated

---
 src/openclsim/plugins/weather.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 8b3f214..522057f 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -116,7 +116,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         i = 0
         while len(filter_windows) < 1 and i < 10:
             dt = i * (ts_stop - ts_start)
-            filter_windows = windows[windows[:, 1] >= start_time - dt]
+            filter_windows = windows[windows[:, 1] >= start_time - dt] + dt
             i = i + 1
 
         return list(filter_windows[0])
-- 
2.43.0


From 047decc7afa38e0e1f40f2d295971e90efb6049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 10/30] fix: accept weather that never gets worse than exactly
 the limit

---
 src/openclsim/plugins/weather.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 522057f..8c030f1 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -137,7 +137,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         if criterion.maximum is not None:
             threshold = {col: criterion.maximum}
 
-            if orig_data[col].max() < threshold[col]:
+            if orig_data[col].max() <= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
@@ -151,7 +151,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         else:
             threshold = {col: criterion.minimum}
 
-            if orig_data[col].min() > threshold[col]:
+            if orig_data[col].min() >= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
-- 
2.43.0


From 426960970393407acf3c57b19eb3a3a9b75e1a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 11/30] fix: log a move or transfer under the activity that
 started it

---
 src/openclsim/core/movable.py   |  9 ++++++---
 src/openclsim/core/processor.py | 27 +++++++++++++++++++++------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index ec5151a..617b29e 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -93,10 +93,13 @@ class Movable(Locatable, PerformsActivity, Log):
         if engine_order is not None:
             self.engine_order = engine_order
 
+        # Another activity may use this object before the move is finished
+        activity_id = self.activity_id
+
         # Log the start event
         self.log_entry_v1(
             self.env.now,
-            self.activity_id,
+            activity_id,
             LogState.START,
         )
 
@@ -105,7 +108,7 @@ class Movable(Locatable, PerformsActivity, Log):
             duration = self.compute_duration(self.geometry, destination.geometry)
 
         # Check out the time based on duration of sailing event
-        yield self.env.timeout(duration, value=self.activity_id)
+        yield self.env.timeout(duration, value=activity_id)
 
         # Set mover geometry to destination geometry
         self.geometry = shapely.geometry.shape(destination.geometry)
@@ -113,7 +116,7 @@ class Movable(Locatable, PerformsActivity, Log):
         # Log the stop event
         self.log_entry_v1(
             self.env.now,
-            self.activity_id,
+            activity_id,
             LogState.STOP,
         )
 
diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index 6fb4fc1..b7731d0 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -51,11 +51,14 @@ class Processor(SimpyObject):
         assert self.is_at(origin)
         assert destination.is_at(origin)
 
+        # Another activity may use this processor before this one is finished
+        activity_id = self.activity_id
+
         # Log the process for all parts
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.START,
             )
 
@@ -69,8 +72,9 @@ class Processor(SimpyObject):
             activity="get",
             reserved_amount=reserved_amount,
             id_=id_,
+            activity_id=activity_id,
         )
-        yield self.env.timeout(duration, value=self.activity_id)
+        yield self.env.timeout(duration, value=activity_id)
         # Put the amount in the destination
         yield from self.check_possible_shift(
             origin=origin,
@@ -79,18 +83,26 @@ class Processor(SimpyObject):
             activity="put",
             reserved_amount=reserved_amount,
             id_=id_,
+            activity_id=activity_id,
         )
 
         # Log the process for all parts
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.STOP,
             )
 
     def check_possible_shift(
-        self, origin, destination, amount, activity, reserved_amount, id_="default"
+        self,
+        origin,
+        destination,
+        amount,
+        activity,
+        reserved_amount,
+        id_="default",
+        activity_id=None,
     ):
         """
         Check if all the material is available.
@@ -99,6 +111,9 @@ class Processor(SimpyObject):
         yield a put or get. Time will move forward until the amount can be
         retrieved from the origin or placed into the destination.
         """
+        if activity_id is None:
+            activity_id = self.activity_id
+
         obj_map = {"get": origin, "put": destination}
         obj = obj_map[activity]
         method = getattr(obj.container, activity)
@@ -131,7 +146,7 @@ class Processor(SimpyObject):
         if start_time != end_time:
             self.log_entry_v1(
                 t=start_time,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.WAIT_START,
                 activity_label={
                     "type": "subprocess",
@@ -140,7 +155,7 @@ class Processor(SimpyObject):
             )
             self.log_entry_v1(
                 t=end_time,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.WAIT_STOP,
                 activity_label={
                     "type": "subprocess",
-- 
2.43.0


From 98d2c3d31dc4c0d3c127297448d31b44acfe462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 12/30] fix: give a callable rate the levels of the content
 that is shifted

---
 src/openclsim/model/shift_amount_activity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index 455a4fd..dbae32c 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -206,9 +206,9 @@ class ShiftAmountActivity(GenericActivity):
         if self.duration is not None:
             return lambda origin, destination: (self.duration, amount)
         elif self.phase == "loading":
-            return partial(self.processor.loading, amount=amount)
+            return partial(self.processor.loading, amount=amount, id_=self.id_)
         elif self.phase == "unloading":
-            return partial(self.processor.unloading, amount=amount)
+            return partial(self.processor.unloading, amount=amount, id_=self.id_)
         else:
             raise RuntimeError(
                 "Both the phase (loading / unloading) and the duration of the "
-- 
2.43.0


From 363e7a84fd07c943a54491203a99aeb72e606de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 13/30] fix: do not give away kept resources when a shift has
 to retry

---
 src/openclsim/model/shift_amount_activity.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index dbae32c..257a373 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -85,6 +85,13 @@ class ShiftAmountActivity(GenericActivity):
             self.origin, self.destination, self.amount, self.id_
         )
 
+        # what was kept for this activity is not given away when it has to retry
+        held = [
+            item
+            for item in [self.processor, self.origin]
+            if item.resource in self.requested_resources
+        ]
+
         all_available = False
         while not all_available and amount > 0:
             amount = self.processor.determine_processor_amount(
@@ -120,8 +127,7 @@ class ShiftAmountActivity(GenericActivity):
                 # processor, so abort and wait for available
                 # space/content again
                 self._release_resource(
-                    self.requested_resources,
-                    self.processor.resource,
+                    self.requested_resources, self.processor.resource, held
                 )
                 continue
 
@@ -130,12 +136,10 @@ class ShiftAmountActivity(GenericActivity):
             )
             if self.origin.container.get_level(self.id_) < amount:
                 self._release_resource(
-                    self.requested_resources,
-                    self.processor.resource,
+                    self.requested_resources, self.processor.resource, held
                 )
                 self._release_resource(
-                    self.requested_resources,
-                    self.origin.resource,
+                    self.requested_resources, self.origin.resource, held
                 )
                 continue
             all_available = True
-- 
2.43.0


From 66006391d09bd7aa138190d4ea6e96c8a053c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:46 +0000
Subject: [PATCH 14/30] fix: keep simultaneous entries of a log in their order
 in the log table

---
 src/openclsim/plot/log_dataframe.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 200aa85..5618bbe 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -31,10 +31,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     else:
         id_map = id_map if id_map else {}
 
-    df = (
-        pd.DataFrame(simulation_object.log)
-        .sort_values(by=["Timestamp"])
-        .sort_values(by=["Timestamp"])
+    # entries of the same moment stay in the order in which they were made
+    df = pd.DataFrame(simulation_object.log).sort_values(
+        by=["Timestamp"], kind="stable"
     )
     return pd.concat(
         [
-- 
2.43.0


From f3838ecdb335130a3100d3041f01b1cde78bff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:46 +0000
Subject: [PATCH 15/30] fix: accept a manual id_map in log tables and Gantt
 charts, as documented

---
 src/openclsim/plot/log_dataframe.py   | 4 +++-
 src/openclsim/plot/vessel_planning.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 5618bbe..d39359d 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -23,7 +23,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     if id_map is None:
         id_map = []
 
-    if isinstance(id_map, dict):
+    if isinstance(id_map, dict) and not all(
+        isinstance(value, str) for value in id_map.values()
+    ):
         id_map = [*id_map.values()]
     if isinstance(id_map, list):
         # TO DO should in fact be recursive for nested activities
diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 9ab6ee9..43569b8 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -80,7 +80,9 @@ def get_gantt_chart(
     if type(activities) == dict:
         activities = [*activities.values()]
 
-    if type(id_map) == dict:
+    if type(id_map) == dict and not all(
+        isinstance(value, str) for value in id_map.values()
+    ):
         id_map = [*id_map.values()]
 
     if type(id_map) == list:
-- 
2.43.0


From 369453c84af15ffa1f894fd59229d71a465cb551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 16/30] fix: draw sub activities in a Gantt chart of activities
 and vessels, each activity once

---
 src/openclsim/plot/vessel_planning.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 43569b8..8fa71d7 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -89,12 +89,15 @@ def get_gantt_chart(
         id_map = {act.id: act.name for act in get_subprocesses(id_map)}
     else:
         id_map = id_map if id_map else {}
-    act_map = {ves.id: ves.name for ves in concepts}
+    # the log tables below have the names of the concepts and of their subprocesses
+    act_map = {ves.id: ves.name for ves in get_subprocesses(concepts)}
 
     if activities is None:
         activities = []
         for obj in concepts:
-            activities.extend(set(obj.log["ActivityID"]))
+            activities.extend(obj.log["ActivityID"])
+        # every activity once, in order of appearance
+        activities = list(dict.fromkeys(activities))
 
     if colors is None:
         C = get_colors(len(activities))
-- 
2.43.0


From c17fb5160ee673ea809c0967d145fc3d71d940cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 17/30] fix: give every activity its own parent in the exported
 activity tree

---
 src/openclsim/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 7497e88..89e4c15 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -58,8 +58,10 @@ def get_tree_as_list(treelist, depth=0) -> dict:
             d = get_tree_as_list(act.sub_processes, depth + 1)
             ActivityID += d["ActivityID"]
             activity += d["activity"]
-            ParentId += [act.id] * len(d["activity"])
-            ParentName += [act.name] * len(d["ParentName"])
+            # only the direct sub processes do not have a parent yet
+            for parent_id, parent_name in zip(d["ParentId"], d["ParentName"]):
+                ParentId.append(act.id if parent_id is None else parent_id)
+                ParentName.append(act.name if parent_id is None else parent_name)
             ActivityClass += d["ActivityClass"]
             ActivityName += d["ActivityName"]
             ParentLevel += d["ParentLevel"]
-- 
2.43.0


From 29f0cb072a8beedb2d17deb747da38fd9ba6d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 18/30] fix: export the resources of activities that use none

---
 src/openclsim/io.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 89e4c15..1bf429a 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -119,16 +119,16 @@ def get_activity_resources(activities, ofile=None):
             )
             for x in df[mask]["activity"]
         ]
-    tmp = list(zip(*li))
-    res = pd.DataFrame.from_dict(
-        {
-            "ActivityID": tmp[0],
-            "ActivityName": tmp[1],
-            "ActivityClass": tmp[2],
-            "ConceptID": tmp[3],
-            "ConceptName": tmp[4],
-            "ConceptMode": tmp[5],
-        }
+    res = pd.DataFrame(
+        li,
+        columns=[
+            "ActivityID",
+            "ActivityName",
+            "ActivityClass",
+            "ConceptID",
+            "ConceptName",
+            "ConceptMode",
+        ],
     )
 
     if ofile:
-- 
2.43.0


From acf5d1267849245f3ff2f9abab58b703bcca069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 19/30] fix: pair the start and stop of every sub process in
 the exported ranges

---
 src/openclsim/io.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 1bf429a..bfe1469 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -164,9 +164,13 @@ def get_ranges_dataframe(simulation_object, id_map=None):
     # do this analysis per ActivityID
     # each intervals has START STOP
     # at most 1 interval may be without STOP, the last one
+    # structural activities also log the intervals of their sub processes, these
+    # have their own label
 
-    for ActivityID in set(log[idkey]):
+    for ActivityID in log[idkey].unique():
         log1 = log[log[idkey] == ActivityID]
+        label = log1["ref"].fillna("") if "ref" in log1.keys() else ""
+        log1 = log1.assign(label=label)
 
         t0 = log1[log1["ActivityState"] == "START"].rename(
             columns={"Timestamp": "TimestampStart"}
@@ -177,30 +181,27 @@ def get_ranges_dataframe(simulation_object, id_map=None):
 
         # add geometry?
         if "container level" in log1.keys():
-            t0 = t0[["TimestampStart", "container level"]].rename(
+            t0 = t0[["TimestampStart", "label", "container level"]].rename(
                 columns={"container level": "ContainerLevelStart"}
             )
-            t1 = t1[["TimestampStop", "container level"]].rename(
+            t1 = t1[["TimestampStop", "label", "container level"]].rename(
                 columns={"container level": "ContainerLevelStop"}
             )
         else:
-            t0 = t0[["TimestampStart"]]
-            t1 = t1[["TimestampStop"]]
+            t0 = t0[["TimestampStart", "label"]]
+            t1 = t1[["TimestampStop", "label"]]
 
         t0["trip"] = range(1, len(t0) + 1)
-        t1["trip"] = range(1, len(t1) + 1)
-
-        if len(t0) == len(t1):
-            pass
-        elif len(t0) == len(t1) + 1:
-            print("END missing")
-            dt1 = pd.DataFrame.from_dict(
-                {"trip": [len(t0)], "TimestampStop": [None]}
-            )  # will give NaT
-            t1 = pd.concat([t1, dt1], ignore_index=True)
-        else:
+
+        # the n-th STOP with some label belongs to the n-th START with that label
+        t0["count"] = t0.groupby("label").cumcount()
+        t1["count"] = t1.groupby("label").cumcount()
+        missing = t0["label"].value_counts().sub(t1["label"].value_counts(), fill_value=0)
+        if not missing.isin([0, 1]).all():
             raise Exception("At most 1 range may be without STOP")
-        s = t0.merge(t1, on="trip")
+        # a missing STOP will give NaT
+        s = t0.merge(t1, on=["label", "count"], how="left")
+        s = s.drop(columns=["label", "count"])
 
         s[idkey] = ActivityID
         dt = s["TimestampStop"] - s["TimestampStart"]
-- 
2.43.0


From c2c9f1122e08454f473786b6adaea7f2c06bf008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 20/30] fix: export the ranges of an activity that has not
 started yet

---
 src/openclsim/io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index bfe1469..0fa1aed 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -209,6 +209,12 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         s["TimestampDt"] = [x.total_seconds() for x in dt]
         li.append(s)
 
+    if len(li) == 0:
+        # nothing happened (yet)
+        return pd.DataFrame(
+            columns=["TimestampStart", "trip", "TimestampStop", idkey, "TimestampDt"]
+        )
+
     R = pd.concat(li)
     R = R.sort_values(by=["TimestampStart"])
 
-- 
2.43.0


From 762b5e98432f25b8938b09781a6879b17c1d7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 21/30] fix: write the exported activity log in the order in
 which it is returned

---
 src/openclsim/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 0fa1aed..8af391a 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -372,7 +372,9 @@ def get_activity_log(activities, ofile=None):
         "TimestampDt",
     ]
 
+    ActivityRanges = ActivityRanges.sort_values(by=["TimestampStart"])
+
     if ofile:
         ActivityRanges.to_csv(ofile, columns=keys, index=False)
 
-    return ActivityRanges.sort_values(by=["TimestampStart"])
+    return ActivityRanges
-- 
2.43.0


From 6399a587a862a5a500fdc3724f5a38dec13c5e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 22/30] fix: pair start and stop of recorded activities per
 object and leave out unfinished ones

---
 src/openclsim/critical_path/base_cp.py | 40 ++++++++++++++++----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/openclsim/critical_path/base_cp.py b/src/openclsim/critical_path/base_cp.py
index a0c5fe8..e8cc37d 100644
--- a/src/openclsim/critical_path/base_cp.py
+++ b/src/openclsim/critical_path/base_cp.py
@@ -183,32 +183,42 @@ class BaseCP(ABC):
 
         df_log = df_log.sort_values(
             by=["ActivityID", "Timestamp", "ActivityState"]
-        ).reset_index()
+        ).reset_index(drop=True)
+
+        # the n-th stop belongs to the n-th start of the same activity, recorded with the
+        # same object, and both for waiting or both for being active
+        df_log["is_wait"] = df_log.ActivityState.isin(["WAIT_START", "WAIT_STOP"])
+        df_log["is_start"] = df_log.ActivityState.isin(["START", "WAIT_START"])
+        keys = ["ActivityID", "SimulationObject", "is_wait"]
+        keys = [key for key in keys if key in df_log]
+        df_log["number"] = df_log.groupby(keys + ["is_start"]).cumcount()
+        keys = keys + ["number"]
 
         df_starts = (
             df_log[df_log.ActivityState.isin(["START", "WAIT_START"])]
-            .filter(
-                [
-                    "ActivityID",
-                    "Activity",
-                    "SimulationObject",
-                    "Timestamp",
-                    "ActivityState",
-                ]
-            )
+            .filter(["Activity", "Timestamp", "ActivityState"] + keys)
             .rename(columns={"Timestamp": "start_time"})
-            .set_index("ActivityID")
         )
         df_stops = (
             df_log[df_log.ActivityState.isin(["STOP", "WAIT_STOP"])]
-            .filter(["ActivityID", "Timestamp"])
+            .filter(["Timestamp"] + keys)
             .rename(columns={"Timestamp": "end_time"})
-            .set_index("ActivityID")
         )
+        # whatever has not ended yet is left out
         recorded_activities_df = (
-            pd.concat([df_starts, df_stops], axis=1)
+            df_starts.merge(df_stops, on=keys)
             .sort_values(by=["start_time"])
-            .reset_index()
+            .reset_index(drop=True)
+            .filter(
+                [
+                    "ActivityID",
+                    "Activity",
+                    "SimulationObject",
+                    "start_time",
+                    "ActivityState",
+                    "end_time",
+                ]
+            )
         )
 
         recorded_activities_df["duration"] = (
-- 
2.43.0


From ec304a7a67c6905d40a09423da4e0cd5033b6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 23/30] fix: find all critical activities with a longest path
 computation

The recursive marking of critical edges hit the recursion limit for long
simulations and could mark activities that are on no longest path.
---
 .../critical_path/simulation_graph.py         | 181 ++++--------------
 1 file changed, 42 insertions(+), 139 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index c42878b..adf4a96 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -3,7 +3,6 @@ Module that contains class SimulationGraph.
 SimulationGraph is a graph representation of simulated activities and their dependencies.
 """
 
-import copy
 import datetime as dt
 import logging
 
@@ -277,148 +276,52 @@ class SimulationGraph:
                 dependency_cause, dependency_effect, **edge_kwargs
             )
 
-    def __find_critical_edges(
-        self,
-        marked_edges_graph=None,
-        list_critical=None,
-        list_noncritical=None,
-        to_discount=None,
-        max_duration=None,
-        t_max_end=None,
-        duration_discounted_prev=None,
-    ):
+    def __find_critical_edges(self):
         """
-        Create a list of edges on a longest path in the graph (recursively).
-
-        This method recursively builds a list of edges in the activity graph
-        which are on the longest path. In a nutshell the process is as follows:
-
-        0. Create a shadow/copy of the activity graph 'marked_edges_graph'.
-        1. Find an initial longest path, mark all edges on it as such, and set
-           their 'duration' to 10**-4 on the shadow-graph (i.e. discount all
-           edges which have already been marked).
-        2. Find a new longest path in the shadow-graph, and check if the
-           duration in the original graph equals the maximum length. If so,
-           good! Mark all edges as critical and set duration in the shadow
-           graph to 10**-4. If not a feasible longest path, then mark the last
-           edge as noncritical, and set its weight in the shadow graph to
-           10**-8.
-        3. Repeat until all edges are marked as critical or non-critical.
-        """
-
-        feasible_longest = False  # all edges on path can be discounted at once
-
-        # the initial iteration
-        if marked_edges_graph is None:
-            # make a copy of the graph to change weights
-            marked_edges_graph = copy.deepcopy(self.simulation_graph)
-
-            # get an initial longest path
-            longest_path = nx.dag_longest_path(self.simulation_graph, weight="duration")
-            list_critical = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            logging.debug(f"Found initial longest path {list_critical}.")
-
-            # get the end time of the initial longest path
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_max_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-
-            logging.debug(
-                f"Max duration {round(self.max_duration, 2)}, "
-                f"t_start {t_start} and t_max end {t_max_end}."
-            )
-
-            # ready to continue
-            list_noncritical = []
-            to_discount = []
-            feasible_longest = True
-
-        # any following iteration
-        else:
-            # get the current longest path in the discount graph
-            longest_path = nx.dag_longest_path(marked_edges_graph, weight="duration")
-            lp_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
+        Create a list of all activity edges on a longest path in the graph.
 
-            # get the original duration
-            lp_duration_discounted = nx.path_weight(
-                marked_edges_graph, longest_path, weight="duration"
-            )
-            lp_duration = round(
-                nx.path_weight(self.simulation_graph, longest_path, weight="duration"),
-                2,
-            )
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-            logging.debug(
-                f"longest path found: duration {lp_duration}, t_start "
-                f"{t_start} and t_end {t_end}. (discounted duration "
-                f"{lp_duration_discounted})"
-            )
-
-            # see if this path is a feasible longest path in the original
-            # i.e. must be max duration and same end time
-            new_cp = (lp_duration == round(self.max_duration, 2)) and (
-                t_end == t_max_end
-            )
-            if new_cp:
-                # create list of not-yet-marked-as-critical critical edges
-                to_add_critical = [
-                    edge for edge in lp_edges if edge not in list_critical
-                ]
-                logging.debug(
-                    "New elements on critical path path, " f"adding {to_add_critical}."
-                )
-                list_critical += to_add_critical
-                feasible_longest = True
-            else:
-                to_add_discount = [edge for edge in lp_edges if edge not in to_discount]
-                logging.debug("adding to discount")
-                to_discount += to_add_discount
-
-        # discount the edges, all at once, or only the last one
-        if feasible_longest:
-            logging.debug("discounting all")
-            # in one go discount all activity edges in critical path
-            list_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            for edge in list_edges:
-                marked_edges_graph.edges[edge]["duration"] = 10**-4
-                self.simulation_graph.edges[edge][self.__COLNAME_CRITICAL] = (
-                    self.__CRITICAL[1]
+        An activity is on a longest path if the longest path to its start, its own
+        duration, and the longest path from its end onwards add up to the duration of
+        the longest path in the graph. All longest paths have to end at the same time,
+        i.e. at the end time of the longest path which is found first.
+        """
+        graph = self.simulation_graph
+        longest_path = nx.dag_longest_path(graph, weight="duration")
+        if len(longest_path) == 0:
+            return []
+        t_max_end = graph.nodes[longest_path[-1]]["time"]
+        order = list(nx.topological_sort(graph))
+
+        # duration of the longest path up to every node
+        duration_before = {node: 0 for node in order}
+        for node in order:
+            for _, effect, edge in graph.out_edges(node, data=True):
+                duration_before[effect] = max(
+                    duration_before[effect], duration_before[node] + edge["duration"]
                 )
-            yet_to_discount = []
-        else:
-            yet_to_discount = [
-                edge for edge in to_discount if edge not in list_noncritical
+
+        # duration of the longest path from every node to t_max_end
+        duration_after = {}
+        for node in reversed(order):
+            options = [
+                duration_after[effect] + edge["duration"]
+                for _, effect, edge in graph.out_edges(node, data=True)
+                if duration_after[effect] is not None
             ]
-            if len(yet_to_discount) > 0:
-                logging.debug(f"Discounting {yet_to_discount[-1]}")
-                marked_edges_graph.edges[yet_to_discount[-1]]["duration"] = 10**-8
-                list_noncritical.append(yet_to_discount[-1])
-                yet_to_discount = yet_to_discount[:-1]
-
-        # iterate if we have yet to discount or if we have marked all edges
-        if len(list_critical) + len(list_noncritical) == self.n_activities:
-            return list_critical
-        return self.__find_critical_edges(
-            marked_edges_graph=marked_edges_graph,
-            list_critical=list_critical,
-            list_noncritical=list_noncritical,
-            to_discount=yet_to_discount,
-            max_duration=max_duration,
-            t_max_end=t_max_end,
-            duration_discounted_prev=duration_discounted_prev,
-        )
+            if graph.nodes[node]["time"] == t_max_end:
+                options.append(0)
+            duration_after[node] = max(options, default=None)
+
+        list_critical = []
+        for start, end, edge in graph.edges(data=True):
+            if edge["edge_type"] != self.__EDGE_TYPES[0] or duration_after[end] is None:
+                continue
+            duration = duration_before[start] + edge["duration"] + duration_after[end]
+            if round(duration, 2) == round(self.max_duration, 2):
+                edge[self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
+                list_critical.append((start, end))
+
+        return list_critical
 
     def get_list_critical_activities(self):
         """
-- 
2.43.0


From 6f5de03430c744885ac21132f0f059b42a2fb9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 24/30] fix: bridge activities without duration in the
 simulation graph

Dependencies on activities without duration, which are not in the graph,
made the critical path computation fail with a KeyError.
---
 .../critical_path/simulation_graph.py         | 39 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index adf4a96..f6375f6 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -138,6 +138,11 @@ class SimulationGraph:
             )
 
         # drop activities with zero time, they mess up algorithm
+        self.__dropped_activities = set(
+            recorded_activities_df.loc[
+                recorded_activities_df.duration == 0, "cp_activity_id"
+            ]
+        )
         recorded_activities_df = recorded_activities_df.loc[
             recorded_activities_df.duration != 0, :
         ]
@@ -159,10 +164,42 @@ class SimulationGraph:
 
         dependency_list = [
             (f"{self.__NODE_END_PREFIX} {end}", f"{self.__NODE_START_PREFIX} {start}")
-            for end, start in dependency_list
+            for end, start in self.__bridge_dropped_activities(dependency_list)
         ]
         return dependency_list
 
+    def __bridge_dropped_activities(self, dependency_list):
+        """
+        Replace dependencies on activities without duration, which are not in the graph.
+
+        Whatever depends on such an activity depends on what that activity depends on.
+
+        Parameters
+        ----------
+        dependency_list : list
+        """
+        dropped = self.__dropped_activities
+        effects = {}
+        for cause, effect in dependency_list:
+            effects.setdefault(cause, []).append(effect)
+
+        bridged_list = []
+        for cause, effect in dependency_list:
+            if cause in dropped:
+                continue
+            # follow the dependencies until activities with a duration are found
+            to_follow, seen = [effect], set()
+            while to_follow:
+                item = to_follow.pop()
+                if item in seen:
+                    continue
+                seen.add(item)
+                if item in dropped:
+                    to_follow.extend(effects.get(item, []))
+                else:
+                    bridged_list.append((cause, item))
+        return bridged_list
+
     def __construct_graph(self):
         """
         Construct and return simulation graph (self.simulation_graph),
-- 
2.43.0


From ed68df932f408bc177d29ebafe076cb68d8d653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:36 +0000
Subject: [PATCH 25/30] fix: get the simpy dependencies of long, paused and
 waiting simulations

The recursive walk through the recorded events hit the recursion limit for
long simulations, raised a KeyError for events that had not been processed
when a run was cut short, and raised a ValueError for timeouts that did not
coincide with a recorded activity.
---
 .../dependencies_from_simpy_step.py           | 155 ++++++++----------
 1 file changed, 71 insertions(+), 84 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 0e7bd76..76ef43e 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -7,12 +7,12 @@ are to be found with method 'simpy step':
 """
 
 import copy
-import logging
 
 import pandas as pd
 import simpy
 
 from openclsim.critical_path.base_cp import BaseCP
+from openclsim.model import get_subprocesses
 
 
 class DependenciesFromSimpy(BaseCP):
@@ -58,69 +58,11 @@ class DependenciesFromSimpy(BaseCP):
         """
         Hidden and protected method for the get_dependency_list.
 
-        This method recursively walks through the simpy dependencies
-        (as the 'monkey-patched' step function recorded these) and keeps only those dependencies
-        which are a timeout event. Then we translate the IDs of these dependencies from
-        the original simpy e_id values to our openclsim cp_activity_id values.
+        This method walks through the simpy dependencies (as the 'monkey-patched' step
+        function recorded these) and keeps only those dependencies which are a timeout
+        event. These dependencies are translated from the original simpy e_id values to
+        our openclsim cp_activity_id values.
         """
-        # Define some globals to which the recursive functions/while loop can append
-        DEPENDENCIES_OPENCLSIM = []
-        SEEN = []
-
-        def __extract_openclsim_dependencies(tree_input, elem=None, last_seen=None):
-            """
-            Extract the relevant (OpenCLSim) dependencies from the complete list
-            of all Simpy dependencies.
-
-            This function will walk through a dependency tree which is represented by
-            list of tuples (e.g. [(1, 2), (2, 3), (2, 4))]). Each tuple contains two
-            eids (event-IDs) and can be seen a dependency with a cause (first element
-            tuple) and effect (second and last element tuple).
-            CriticalPathEnvironment registers all events, but we are only
-            interested in events which are OpenClSim activities with duration,
-            i.e. we are only interested in Timeout event with a _delay attribute > 0.
-            This function extracts such dependencies (which Timeout causes which timeout)
-            from the original tree_input.
-            """
-            if elem is None:
-                elem = tree_input[0][0]
-
-            # note that we have seen this one
-            SEEN.append(elem)
-
-            # get effects
-            effects_this_elem = [tup[1] for tup in tree_input if tup[0] == elem]
-            # we only want dependencies that are 1) a Timeout and 2) have a delay > 0
-            # (because these events take time)
-            relevant_timeout = (
-                isinstance(
-                    self.step_logging_dataframe.loc[elem, "event_object"],
-                    simpy.events.Timeout,
-                )
-                and self.step_logging_dataframe.loc[elem, "event_object"]._delay > 0
-            )
-
-            if relevant_timeout:
-                # relevant to SAVE
-                if last_seen is not None:
-                    DEPENDENCIES_OPENCLSIM.append((last_seen, elem))
-                last_seen = elem
-
-            for effect_this_elem in effects_this_elem:
-                logging.debug(f"Effect {effect_this_elem} from {effects_this_elem}")
-                __extract_openclsim_dependencies(
-                    tree_input, elem=effect_this_elem, last_seen=last_seen
-                )
-
-            return None
-
-        # get all relevant dependencies from the simpy dependencies,
-        # that is find how the timeouts depend on one another.
-        tree = copy.deepcopy(self.__cause_effect_list)
-        while len(tree) > 0:
-            __extract_openclsim_dependencies(tree)
-            tree = [tup for tup in tree if tup[0] not in SEEN]
-
         # get recorded activities and convert times to floats (seconds since Jan 1970)
         recorded_activities_df = self.recorded_activities_df.copy()
         recorded_activities_df.start_time = round(
@@ -130,14 +72,39 @@ class DependenciesFromSimpy(BaseCP):
             recorded_activities_df.end_time.astype("int64") / 10**9, 4
         )
 
-        # rename the dependencies from dependencies with e_id to dependencies with cp_activity_id
-        self.dependency_list = [
-            (
-                self._find_cp_act(dependency[0], recorded_activities_df),
-                self._find_cp_act(dependency[1], recorded_activities_df),
-            )
-            for dependency in DEPENDENCIES_OPENCLSIM
-        ]
+        # the simpy dependencies can be seen as trees, because every event has a single cause
+        effects = {}
+        for cause, effect in self.__cause_effect_list:
+            effects.setdefault(cause, []).append(effect)
+        all_effects = {effect for _, effect in self.__cause_effect_list}
+
+        # the events to visit, each with the last activity in the tree above it
+        to_visit = [(elem, None) for elem in effects if elem not in all_effects][::-1]
+
+        self.dependency_list = []
+        while to_visit:
+            elem, last_seen = to_visit.pop()
+
+            # CriticalPathEnvironment registers all events, but we are only
+            # interested in events which are OpenClSim activities with duration,
+            # i.e. we are only interested in Timeout event with a _delay attribute > 0.
+            if self._is_relevant_timeout(elem):
+                cp_activity_id, is_effect = self._find_cp_act(
+                    elem, recorded_activities_df
+                )
+                if last_seen is not None and is_effect:
+                    self.dependency_list.append((last_seen, cp_activity_id))
+                last_seen = cp_activity_id
+
+            to_visit.extend((effect, last_seen) for effect in effects.get(elem, [])[::-1])
+
+    def _is_relevant_timeout(self, e_id):
+        """Whether an event is a timeout which takes time and which has been processed."""
+        if e_id not in self.step_logging_dataframe.index:
+            # scheduled, but not processed (yet)
+            return False
+        event = self.step_logging_dataframe.loc[e_id, "event_object"]
+        return isinstance(event, simpy.events.Timeout) and event._delay > 0
 
     def _find_cp_act(self, e_id, recorded_activities_df):
         """
@@ -149,25 +116,45 @@ class DependenciesFromSimpy(BaseCP):
             Execution id from simpy.
         recorded_activities_df : pd.DataFrame
             From self.get_recorded_activity_df().
+
+        Returns
+        -------
+        cp_activity_id : str or None
+            None if the timeout has not been recorded as (the end of) an activity,
+            e.g. because an activity kept on waiting for something else.
+        is_effect : bool
+            Whether the recorded activity started when the timeout was created.
         """
-        activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
-        end_time = round(self.step_logging_dataframe.loc[e_id, "t1"], 4)
-        matching_ids = recorded_activities_df.loc[
-            (
-                (recorded_activities_df.ActivityID == activity_id)
-                & (recorded_activities_df.end_time == end_time)
-            ),
-            "cp_activity_id",
-        ]
-        if len(set(matching_ids)) == 1:
-            cp_activity_id = matching_ids.iloc[0]
-        else:
+        event = self.step_logging_dataframe.loc[e_id, "event_object"]
+        activity_id = event.value
+        end_time = self.step_logging_dataframe.loc[e_id, "t1"]
+        start_time = round(end_time - event._delay, 4)
+        end_time = round(end_time, 4)
+
+        is_activity = recorded_activities_df.ActivityID == activity_id
+        if not is_activity.any() and activity_id not in [
+            activity.id for activity in get_subprocesses(self.activity_list)
+        ]:
             raise ValueError(
                 f"No recorded activity found for"
                 f" activityID {activity_id} at (end)time {end_time}"
                 f" . Make sure to add `value=activity_id` to timeout events you yield."
             )
-        return cp_activity_id
+
+        matching = recorded_activities_df.loc[
+            is_activity
+            & (recorded_activities_df.end_time == end_time)
+            & (recorded_activities_df.start_time < end_time),
+            ["cp_activity_id", "start_time"],
+        ]
+        matching_effects = matching.loc[
+            matching.start_time == start_time, "cp_activity_id"
+        ]
+        if len(set(matching_effects)) == 1:
+            return matching_effects.iloc[0], True
+        if len(set(matching.cp_activity_id)) == 1:
+            return matching.cp_activity_id.iloc[0], False
+        return None, False
 
 
 class CriticalPathEnvironment(simpy.Environment):
-- 
2.43.0


From a1a2a52414f223ff3365da0ef29be4ab0f1642a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:09 +0000
Subject: [PATCH 26/30] fix: draw the sub activities of structural activities
 in a Gantt chart from their own start

Segments of staggered sub processes in a parallel or sequential activity began
at the start of whichever sub process had started last.
---
 src/openclsim/plot/vessel_planning.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 8fa71d7..0a28c4f 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -32,12 +32,15 @@ def get_segments(df, activity, y_val):
     """Extract 'start' and 'stop' of activities from log."""
     x = []
     y = []
-    start = 0
+    # structural activities also log their sub processes, these have their own label
+    start = {}
     for index, row in df.iterrows():
+        label = str(row.get("ref", ""))
         if "START" in row["activity_state"] and row["log_string"] == activity:
-            start = index
+            start[label] = index
         elif "STOP" in row["activity_state"] and row["log_string"] == activity:
-            x.extend((start, start, index, index, index))
+            begin = start.get(label, 0)
+            x.extend((begin, begin, index, index, index))
             y.extend((y_val, y_val, y_val, y_val, None))
     return x, y
 
-- 
2.43.0


From 3ad398b019e887c782817445178f68c686c937bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:31 +0000
Subject: [PATCH 27/30] fix: get the critical path of simulations in which
 little or nothing was recorded

Without recorded objects, or without finished activities, the recorded
activities and the critical path could not be determined at all.
---
 src/openclsim/critical_path/base_cp.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/openclsim/critical_path/base_cp.py b/src/openclsim/critical_path/base_cp.py
index e8cc37d..2949252 100644
--- a/src/openclsim/critical_path/base_cp.py
+++ b/src/openclsim/critical_path/base_cp.py
@@ -105,6 +105,10 @@ class BaseCP(ABC):
         if not len(names) == len(set(names)):
             raise ValueError("Names of your objects must be unique!")
 
+        if len(names) == 0:
+            # only activities have been recorded
+            return self.get_log_dataframe_activity([])
+
         # concat logs with name and keep only columns needed
         log_list = [get_log_dataframe(obj) for obj in self.object_list]
         names_column = (
@@ -224,9 +228,10 @@ class BaseCP(ABC):
         recorded_activities_df["duration"] = (
             recorded_activities_df.end_time - recorded_activities_df.start_time
         )
-        recorded_activities_df["state"] = recorded_activities_df.apply(
-            lambda x: "WAITING" if "WAIT" in x["ActivityState"] else "ACTIVE", axis=1
-        )
+        recorded_activities_df["state"] = [
+            "WAITING" if "WAIT" in state else "ACTIVE"
+            for state in recorded_activities_df["ActivityState"]
+        ]
 
         recorded_activities_df = recorded_activities_df.drop(columns=["ActivityState"])
 
@@ -258,9 +263,9 @@ class BaseCP(ABC):
         recorded_activities_df.insert(
             loc=len(recorded_activities_df.columns),
             column="cp_activity_id",
-            value=recorded_activities_df.set_index(
-                ["ActivityID", "start_time", "end_time"]
-            ).index.factorize()[0],
+            value=recorded_activities_df.groupby(
+                ["ActivityID", "start_time", "end_time"], sort=False
+            ).ngroup(),
         )
         mapping = {
             temp_id: str(uuid.uuid4())
-- 
2.43.0


From 03d9313f78b7539c61b018a48fd762bf4e45b5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:31 +0000
Subject: [PATCH 28/30] fix: match timeouts with recorded activities within a
 tolerance

Both times were rounded to 4 decimals after the recorded ones had been rounded
to microseconds, which made them differ for e.g. durations of 0.00625.
---
 .../dependencies_from_simpy_step.py            | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 76ef43e..96b0b3d 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -65,11 +65,11 @@ class DependenciesFromSimpy(BaseCP):
         """
         # get recorded activities and convert times to floats (seconds since Jan 1970)
         recorded_activities_df = self.recorded_activities_df.copy()
-        recorded_activities_df.start_time = round(
-            recorded_activities_df.start_time.astype("int64") / 10**9, 4
+        recorded_activities_df.start_time = (
+            recorded_activities_df.start_time.astype("int64") / 10**9
         )
-        recorded_activities_df.end_time = round(
-            recorded_activities_df.end_time.astype("int64") / 10**9, 4
+        recorded_activities_df.end_time = (
+            recorded_activities_df.end_time.astype("int64") / 10**9
         )
 
         # the simpy dependencies can be seen as trees, because every event has a single cause
@@ -128,8 +128,7 @@ class DependenciesFromSimpy(BaseCP):
         event = self.step_logging_dataframe.loc[e_id, "event_object"]
         activity_id = event.value
         end_time = self.step_logging_dataframe.loc[e_id, "t1"]
-        start_time = round(end_time - event._delay, 4)
-        end_time = round(end_time, 4)
+        start_time = end_time - event._delay
 
         is_activity = recorded_activities_df.ActivityID == activity_id
         if not is_activity.any() and activity_id not in [
@@ -141,14 +140,15 @@ class DependenciesFromSimpy(BaseCP):
                 f" . Make sure to add `value=activity_id` to timeout events you yield."
             )
 
+        # recorded times are rounded (to microseconds)
         matching = recorded_activities_df.loc[
             is_activity
-            & (recorded_activities_df.end_time == end_time)
-            & (recorded_activities_df.start_time < end_time),
+            & ((recorded_activities_df.end_time - end_time).abs() < 10**-4)
+            & (recorded_activities_df.start_time < recorded_activities_df.end_time),
             ["cp_activity_id", "start_time"],
         ]
         matching_effects = matching.loc[
-            matching.start_time == start_time, "cp_activity_id"
+            (matching.start_time - start_time).abs() < 10**-4, "cp_activity_id"
         ]
         if len(set(matching_effects)) == 1:
             return matching_effects.iloc[0], True
-- 
2.43.0


From e8c44224c6e8a30479626ffb7267f21d5f836880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 29/30] fix: let structural activities wait for their own sub
 activities, not for all of the same name

---
 src/openclsim/model/base_activities.py     | 2 +-
 src/openclsim/model/parallel_activity.py   | 2 +-
 src/openclsim/model/sequential_activity.py | 2 +-
 src/openclsim/model/while_activity.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/model/base_activities.py b/src/openclsim/model/base_activities.py
index 6d618e3..2abb8bf 100644
--- a/src/openclsim/model/base_activities.py
+++ b/src/openclsim/model/base_activities.py
@@ -51,7 +51,7 @@ class RegisterSubProcesses:
                 sub_process.start_event_parent = {
                     "type": "activity",
                     "state": "done",
-                    "name": self.sub_processes[i - 1].name,
+                    "ID": self.sub_processes[i - 1].id,
                 }
 
         for sub_process in self.sub_processes:
diff --git a/src/openclsim/model/parallel_activity.py b/src/openclsim/model/parallel_activity.py
index 78e7537..7b7a32c 100644
--- a/src/openclsim/model/parallel_activity.py
+++ b/src/openclsim/model/parallel_activity.py
@@ -60,7 +60,7 @@ class ParallelActivity(GenericActivity, RegisterSubProcesses):
             )
 
             stop_events.append(
-                {"type": "activity", "state": "done", "name": sub_process.name}
+                {"type": "activity", "state": "done", "ID": sub_process.id}
             )
             subprocess_ids.append(sub_process.id)
 
diff --git a/src/openclsim/model/sequential_activity.py b/src/openclsim/model/sequential_activity.py
index 19b66ef..8b4b4e8 100644
--- a/src/openclsim/model/sequential_activity.py
+++ b/src/openclsim/model/sequential_activity.py
@@ -65,7 +65,7 @@ class SequentialActivity(GenericActivity, RegisterSubProcesses):
                     {
                         "type": "activity",
                         "state": "done",
-                        "name": sub_process.name,
+                        "ID": sub_process.id,
                     }
                 ]
             )
diff --git a/src/openclsim/model/while_activity.py b/src/openclsim/model/while_activity.py
index 58b5818..c2cb5cb 100644
--- a/src/openclsim/model/while_activity.py
+++ b/src/openclsim/model/while_activity.py
@@ -61,7 +61,7 @@ class ConditionProcessMixin:
                         {
                             "type": "activity",
                             "state": "done",
-                            "name": sub_process.name,
+                            "ID": sub_process.id,
                         }
                     ]
                 )
-- 
2.43.0


From b16353c057e2366ba1213be04be20cb16434bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 30/30] fix: repeat the weather for as long as it takes to find
 the next window

---
 src/openclsim/plugins/weather.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 8c030f1..aee691e 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -114,7 +114,9 @@ class WeatherPluginActivity(model.AbstractPluginClass):
 
         filter_windows = windows[windows[:, 1] >= start_time]
         i = 0
-        while len(filter_windows) < 1 and i < 10:
+        # repeat the dataset as often as needed, if that can give another window
+        repeatable = ts_stop > ts_start and np.isfinite(windows[:, 1]).any()
+        while len(filter_windows) < 1 and repeatable:
             dt = i * (ts_stop - ts_start)
             filter_windows = windows[windows[:, 1] >= start_time - dt] + dt
             i = i + 1
-- 
2.43.0


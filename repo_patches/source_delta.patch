From 2cd079949f761d5a10863ec0e47b76179ec8c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 01/68] fix: skip contractors that cannot provide the crew
 assigned in the spec

---
 sampo/scheduler/generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampo/scheduler/generic.py b/sampo/scheduler/generic.py
index 211ca5b..9e8b25c 100644
--- a/sampo/scheduler/generic.py
+++ b/sampo/scheduler/generic.py
@@ -85,6 +85,10 @@ class GenericScheduler(Scheduler):
                 if len(workers) != len(node.work_unit.worker_reqs):
                     return assigned_parent_time, Time.inf(), []
 
+                if any(spec.assigned_workers.get(worker.name, 0) > worker.count for worker in workers):
+                    # the team assigned in spec is larger than this contractor has
+                    return assigned_parent_time, Time.inf(), []
+
                 workers = [worker.copy() for worker in workers]
 
                 # apply worker team spec
-- 
2.43.0


From 4f1ad572c36e893665a4c076a1f36b10c76b0318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 02/68] fix: handle a crew assigned in the spec only partially
 in the resource optimizers

---
 sampo/scheduler/resource/average_req.py        | 2 +-
 sampo/scheduler/resource/coordinate_descent.py | 8 +++++++-
 sampo/scheduler/resource/full_scan.py          | 7 ++++++-
 sampo/utilities/base_opt.py                    | 2 +-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/resource/average_req.py b/sampo/scheduler/resource/average_req.py
index bd71886..2cb1c94 100644
--- a/sampo/scheduler/resource/average_req.py
+++ b/sampo/scheduler/resource/average_req.py
@@ -37,7 +37,7 @@ class AverageReqResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        if optimize_array:
+        if optimize_array is not None:
             for worker, up, down, optimize in zip(worker_team, up_border, down_border, optimize_array):
                 if optimize:
                     worker.count = max(0, down) + int((up - down) / self.k)
diff --git a/sampo/scheduler/resource/coordinate_descent.py b/sampo/scheduler/resource/coordinate_descent.py
index c884c94..d9cfb66 100644
--- a/sampo/scheduler/resource/coordinate_descent.py
+++ b/sampo/scheduler/resource/coordinate_descent.py
@@ -35,6 +35,12 @@ class CoordinateDescentResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on the worker team
         """
 
+        if optimize_array is not None:
+            # amounts assigned in spec are fixed
+            assigned = np.array([worker.count for worker in worker_team])
+            down_border = np.where(optimize_array, down_border, assigned)
+            up_border = np.where(optimize_array, up_border, assigned)
+
         def fitness(worker_count: np.ndarray):
             """
             Function that counts finish time with a current set of resources.
@@ -50,7 +56,7 @@ class CoordinateDescentResourceOptimizer(ResourceOptimizer):
                                                self.one_dimension_optimizer,
                                                fitness,
                                                optimize_array)
-        if optimize_array:
+        if optimize_array is not None:
             for i, worker in enumerate(worker_team):
                 if optimize_array[i]:
                     worker.count = count_worker_team[i]
diff --git a/sampo/scheduler/resource/full_scan.py b/sampo/scheduler/resource/full_scan.py
index 291ea24..aba37f7 100644
--- a/sampo/scheduler/resource/full_scan.py
+++ b/sampo/scheduler/resource/full_scan.py
@@ -35,7 +35,12 @@ class FullScanResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        # TODO Handle optimize_array
+        if optimize_array is not None:
+            # amounts assigned in spec are fixed
+            assigned = np.array([worker.count for worker in worker_team])
+            down_border = np.where(optimize_array, down_border, assigned)
+            up_border = np.where(optimize_array, up_border, assigned)
+
         def fitness(worker_count: np.ndarray):
             """
             Function that counts finish time with a current set of resources
diff --git a/sampo/utilities/base_opt.py b/sampo/utilities/base_opt.py
index 484353f..aec86f9 100644
--- a/sampo/utilities/base_opt.py
+++ b/sampo/utilities/base_opt.py
@@ -46,7 +46,7 @@ def coordinate_descent(down: np.ndarray, up: np.ndarray,
                        optimize_array: Optional[np.ndarray]) -> np.ndarray:
     cur = down.copy()
     for i in range(down.size):
-        if optimize_array and not optimize_array[i]:
+        if optimize_array is not None and not optimize_array[i]:
             continue
 
         def part(x) -> Time:
-- 
2.43.0


From 590102f65179e565c2dc35be8f98840a5cc7e73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 03/68] fix: apply the crew assigned in the spec before
 checking whether a work can start (parallel SGS)

---
 sampo/scheduler/genetic/converter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 4cea529..41e7113 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -174,6 +174,8 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
                                          .copy().with_count(worker_count)
                                          for worker_index, worker_count in enumerate(cur_resources)
                                          if worker_count > 0]
+        # apply worker spec
+        Scheduler.optimize_resources_using_spec(cur_node.work_unit, cur_worker_team, cur_work_spec)
         if cur_work_spec.assigned_time is not None:
             cur_exec_time = cur_work_spec.assigned_time
         else:
@@ -194,9 +196,6 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
         idx, (work_idx, node, worker_team, contractor, exec_time, work_spec) = args
 
         if timeline.can_schedule_at_the_moment(node, worker_team, work_spec, node2swork, start_time, exec_time):
-            # apply worker spec
-            Scheduler.optimize_resources_using_spec(node.work_unit, worker_team, work_spec)
-
             st = start_time
             if idx == 0:  # we are scheduling the work `start of the project`
                 st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
-- 
2.43.0


From 337ce1000f4196ecc2f267d299db3ac64165751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 04/68] fix: check precedence of independent works in
 can_schedule_at_the_moment

---
 .../scheduler/timeline/just_in_time_timeline.py  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 7115b87..60d70a9 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -142,6 +142,14 @@ class JustInTimeTimeline(Timeline):
                                    node2swork: dict[GraphNode, ScheduledWork],
                                    start_time: Time,
                                    exec_time: Time) -> bool:
+        # checking edges
+        chain = set(node.get_inseparable_chain_with_self())
+        for dep_node in chain:
+            if any(p not in chain and p not in node2swork for p in dep_node.parents):
+                return False
+        if node.min_start_time(node2swork) > start_time:
+            return False
+
         if spec.is_independent:
             # squash all the timeline to the last point
             for worker in worker_team:
@@ -151,14 +159,6 @@ class JustInTimeTimeline(Timeline):
                     return False
             return True
         else:
-            # checking edges
-            chain = set(node.get_inseparable_chain_with_self())
-            for dep_node in chain:
-                if any(p not in chain and p not in node2swork for p in dep_node.parents):
-                    return False
-            if node.min_start_time(node2swork) > start_time:
-                return False
-
             max_agent_time = Time(0)
             for worker in worker_team:
                 needed_count = worker.count
-- 
2.43.0


From a0d458dbb5afe427adea7026973b676b89fb0ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 05/68] fix: index contractor borders of a chromosome by the
 worker kind, not by the order in the contractor

---
 sampo/scheduler/genetic/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index abd6406..f932bf6 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -50,8 +50,8 @@ def prepare_optimized_data_structures(wg: WorkGraph,
 
     contractor_borders = np.zeros((len(contractor2index), len(worker_name2index)), dtype=int)
     for ind, contractor in enumerate(contractors):
-        for ind_worker, worker in enumerate(contractor.workers.values()):
-            contractor_borders[ind, ind_worker] = worker.count
+        for worker_name, worker in contractor.workers.items():
+            contractor_borders[ind, worker_name2index[worker_name]] = worker.count
 
     nodes, node_id2parent_ids, node_id2child_ids = get_head_nodes_with_connections_mappings(wg)
     node_indices = list(range(len(nodes)))
-- 
2.43.0


From 78851427f4c92ac8f0b13cd9224302a2b98e7a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 06/68] fix: mutate crews and contractors of a chromosome only
 within the spec and the worker kinds of contractors

---
 sampo/scheduler/genetic/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index f932bf6..d64d280 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -68,14 +68,18 @@ def prepare_optimized_data_structures(wg: WorkGraph,
     resources_border = np.zeros((2, len(worker_pool), len(index2node)))
     contractors_available = np.zeros((len(index2node), len(contractor2index)))
     for work_index, node in index2node.items():
+        assigned_workers = spec.get_work_spec(node.id).assigned_workers
         for req in node.work_unit.worker_reqs:
             worker_index = worker_name2index[req.kind]
-            resources_border[0, worker_index, work_index] = req.min_count
-            resources_border[1, worker_index, work_index] = req.max_count
+            # the amount assigned in spec should not be changed
+            resources_border[0, worker_index, work_index] = assigned_workers.get(req.kind, req.min_count)
+            resources_border[1, worker_index, work_index] = assigned_workers.get(req.kind, req.max_count)
 
         contractors_spec = spec.get_work_spec(node.id).contractors or map(attrgetter('id'), contractors)
         for contractor in contractors_spec:
-            contractors_available[work_index, contractor2index[contractor]] = 1
+            # the contractor should have all the required kinds of workers
+            if all(contractor in worker_pool[req.kind] for req in node.work_unit.worker_reqs):
+                contractors_available[work_index, contractor2index[contractor]] = 1
 
     return (worker_pool, index2node, index2zone, work_id2index, worker_name2index, index2contractor_obj,
             worker_pool_indices, contractor2index, contractor_borders, node_indices, priorities, parents,
-- 
2.43.0


From ecdf8f7f6e51469ce72398d44d4b2bd2f5aea9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 07/68] fix: keep the lags between the stages of a chain when
 the spec assigns its time (momentum timeline)

---
 sampo/scheduler/timeline/momentum_timeline.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index ae64168..91b7739 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -112,9 +112,14 @@ class MomentumTimeline(Timeline):
 
         exec_time: Time = Time(0)
         exec_times: dict[GraphNode, tuple[Time, Time]] = {}  # node: (lag, exec_time)
+        assigned_exec_times = {} if spec.assigned_time is None else \
+            get_exec_times_from_assigned_time_for_chain(inseparable_chain, spec.assigned_time)
         for chain_node in inseparable_chain:
-            node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
-                work_estimator.estimate_time(chain_node.work_unit, worker_team)
+            if chain_node in assigned_exec_times:
+                _, node_exec_time = assigned_exec_times[chain_node]
+            else:
+                node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
+                    work_estimator.estimate_time(chain_node.work_unit, worker_team)
 
             lag_req = nodes_max_parent_times[chain_node] - max_parent_time - exec_time
             lag = lag_req if lag_req > 0 else 0
@@ -403,7 +408,10 @@ class MomentumTimeline(Timeline):
             self.find_min_start_time_with_additional(node, workers, node2swork, spec, assigned_start_time,
                                                      assigned_parent_time, work_estimator)
         if assigned_time is not None:
-            exec_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, assigned_time)
+            # keep the lags needed by the other predecessors of chain nodes
+            assigned_exec_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, assigned_time)
+            exec_times = {chain_node: (exec_times[chain_node][0], exec_time)
+                          for chain_node, (_, exec_time) in assigned_exec_times.items()}
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
         self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
-- 
2.43.0


From 30fdeb9b6f6f44938d873c7b897730492e455d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 08/68] fix: an independent work holds all the workers of its
 kinds in the momentum timeline

---
 sampo/scheduler/timeline/momentum_timeline.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index 91b7739..a192456 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -369,17 +369,19 @@ class MomentumTimeline(Timeline):
         end = finish_time
         for w in worker_team:
             state = self._timeline[w.contractor_id][w.name]
+            # an independent work shares this type of workers with nobody
+            count = state[0].available_workers_count if spec.is_independent else w.count
             start_idx = state.bisect_right(start)
             end_idx = state.bisect_left((end, -1, EventType.INITIAL))
             available_workers_count = state[start_idx - 1].available_workers_count
             # updating all events in between the start and the end of our current task
             for event in state[start_idx: end_idx]:
-                assert event.available_workers_count >= w.count
-                event.available_workers_count -= w.count
+                assert event.available_workers_count >= count
+                event.available_workers_count -= count
 
-            assert available_workers_count >= w.count
+            assert available_workers_count >= count
 
-            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - w.count))
+            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - count))
 
             # move the index on time when resources of the work will be freed
             end_idx = state.bisect_right(end) - 1
@@ -389,7 +391,7 @@ class MomentumTimeline(Timeline):
                 end_count = state[end_idx].available_workers_count
             else:
                 # time when resources will be freed is not in timeline
-                end_count = state[end_idx].available_workers_count + w.count
+                end_count = state[end_idx].available_workers_count + count
 
             state.add(ScheduleEvent(task_index, EventType.END, end, None, end_count))
 
-- 
2.43.0


From 6605c116eda390e56a9131787537ec4a15b019cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 09/68] fix: hold a zone until the end of a work and while its
 status is being changed

---
 sampo/scheduler/timeline/zone_timeline.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 50cf0f9..aaa5eab 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -229,8 +229,8 @@ class ZoneTimeline:
                 # starting status don't match, trying to change status
                 change_cost = self._config.time_costs[start_status, zone.required_status]
                 new_start_idx = state.bisect_right(start_time - change_cost)
-                if new_start_idx != start_idx:
-                    # we have incompatible status inside our interval, break
+                if new_start_idx != start_idx or start_time < change_cost:
+                    # we have incompatible status inside our interval or no time to change it, break
                     return False
 
                 if not self._is_inside_interval(state, start_idx):
@@ -258,8 +258,11 @@ class ZoneTimeline:
                 if not self._config.statuses.match_status(start_status, zone.status) \
                 else 0
 
-            state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, zone.status))
-            state.add(ScheduleEvent(index, EventType.END, start_time - change_cost + exec_time, None, zone.status))
+            if change_cost > 0:
+                # the status is not stated while it is being changed
+                state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, 0))
+            state.add(ScheduleEvent(index, EventType.START, start_time, None, zone.status))
+            state.add(ScheduleEvent(index, EventType.END, start_time + exec_time, None, zone.status))
 
             if start_status != zone.status and zone.status != 0:
                 # if we need to change status, record it
-- 
2.43.0


From 58c459d9d33d0ea6e4d1e71934c705479b6cc717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 10/68] fix: switch zones to their end statuses at the end of a
 project

---
 sampo/scheduler/timeline/zone_timeline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index aaa5eab..0ef919a 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -280,7 +280,7 @@ class ZoneTimeline:
         for zone in zones:
             state = self._timeline[zone.name]
             latest_time = state[-1].time + 1
-            latest_status = state[-1].available_workers_time
+            latest_status = state[-1].available_workers_count
             change_cost = self._config.time_costs[latest_status, zone.status] \
                 if not self._config.statuses.match_status(latest_status, zone.status) \
                 else 0
@@ -294,12 +294,12 @@ class ZoneTimeline:
                 sworks.append(ZoneTransition(name=zone.name,
                                              from_status=latest_status,
                                              to_status=zone.status,
-                                             start_time=latest_time - change_cost,
-                                             end_time=latest_time))
+                                             start_time=latest_time,
+                                             end_time=finish_time))
 
             global_finish_time = max(global_finish_time, finish_time)
 
         return global_finish_time, sworks
 
     def finish_statuses(self) -> tuple[Time, list[ZoneTransition]]:
-        return self.append_statuses([Zone(*v) for v in self._config.end_statuses])
+        return self.append_statuses([Zone(*v) for v in self._config.end_statuses.items()])
-- 
2.43.0


From 9510bad6f596cfc1449bdbaa47b85c353c46c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 11/68] fix: schedule works with zones by the serial scheme of
 the genetic scheduler

---
 sampo/scheduler/genetic/converter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 41e7113..afdadd2 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -295,9 +295,14 @@ def serial_schedule_generation_scheme(chromosome: ChromosomeType,
         if order_index == 0:  # we are scheduling the work `start of the project`
             st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
 
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            finish_time, finalizing_zones = timeline.zone_timeline.finish_statuses()
+            st = max(st, finish_time)
+
         # finish using time spec
-        ft = timeline.schedule(node, node2swork, worker_team, contractor, work_spec,
-                               st, work_spec.assigned_time, assigned_parent_time, work_estimator)
+        timeline.schedule(node, node2swork, worker_team, contractor, work_spec,
+                          st, work_spec.assigned_time, assigned_parent_time, work_estimator)
+        ft = node2swork[node.get_inseparable_chain_with_self()[-1]].finish_time
         # process zones
         zone_reqs = [ZoneReq(index2zone[i], zone_status) for i, zone_status in enumerate(zone_statuses[work_index])]
         zone_start_time = timeline.zone_timeline.find_min_start_time(zone_reqs, ft, 0)
@@ -309,6 +314,9 @@ def serial_schedule_generation_scheme(chromosome: ChromosomeType,
                                                                                  [z.to_zone() for z in zone_reqs],
                                                                                  zone_start_time, 0)
 
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            node2swork[node].zones_pre = finalizing_zones
+
     schedule_start_time = min((swork.start_time for swork in node2swork.values() if
                                len(swork.workers) != 0), default=assigned_parent_time)
 
-- 
2.43.0


From 1baa7e78a33d82b4e0de8a2735f211c84c627a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 12/68] fix: count the cost of a status change behind the last
 use of a zone

---
 sampo/scheduler/timeline/zone_timeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 0ef919a..485b129 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -193,7 +193,8 @@ class ZoneTimeline:
                 #                                                                   required_status):
                 #     # print('Problem!')
                 #     current_start_time = max(parent_time, state[-1].time + 1)
-                current_start_time = max(parent_time, state[-1].time + 1)
+                change_cost = self._config.time_costs[state[-1].available_workers_count, required_status]
+                current_start_time = max(parent_time, state[-1].time + max(1, change_cost))
                 break
 
             current_start_time = state[current_start_idx].time
-- 
2.43.0


From 45208ec8c845bb1e020cf2d47410f37b5048ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 13/68] fix: take materials from a platform only after the last
 recorded use

---
 sampo/scheduler/timeline/platform_timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/platform_timeline.py b/sampo/scheduler/timeline/platform_timeline.py
index 8a94fa8..29a5582 100644
--- a/sampo/scheduler/timeline/platform_timeline.py
+++ b/sampo/scheduler/timeline/platform_timeline.py
@@ -62,7 +62,7 @@ class PlatformTimeline:
             start = platform_state[mat.name].bisect_right(start_time)
             finish = len(platform_state[mat.name])
 
-            if finish - start > 1:
+            if finish - start > 0:
                 return False
 
         return True
-- 
2.43.0


From 822a8578e3ce30dfdafb8e33de230df44ba964c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 14/68] fix: consume also the materials that a platform has
 when others are delivered

---
 sampo/scheduler/timeline/hybrid_supply_timeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 60be8b5..9307054 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -296,7 +296,9 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
 
         # update the platform timeline
         node_mat_req = {mat.name: mat.count for mat in node.work_unit.need_materials()}
-        update_mat_req_info = [(mat.name, node_mat_req[mat.name] - mat.count, finish_delivery_time) for mat in materials]
+        delivered = {mat.name: mat.count for mat in materials}
+        update_mat_req_info = [(name, count - delivered.get(name, 0), finish_delivery_time)
+                               for name, count in node_mat_req.items()]
         self._platform_timeline.update_timeline(platform.id, update_mat_req_info)
 
         # update the supply timeline
-- 
2.43.0


From 161d9e7fb781769be022a6d8e903e5fef0ee5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 15/68] fix: keep vehicles busy while they deliver materials

---
 sampo/scheduler/timeline/hybrid_supply_timeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 9307054..f11dddb 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -230,7 +230,7 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                                                                           route_start_time,
                                                                           exec_return_time + exec_ahead_time)
 
-                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries
+                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries, selected_vehicles
 
         delivery = MaterialDelivery(node.id)
 
@@ -264,7 +264,8 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
             start_delivery_time += 1
 
             # iterate over depots and find the earliest time when the depot could supply resources
-            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries in get_finish_time(start_delivery_time):
+            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries, vehicles \
+                    in get_finish_time(start_delivery_time):
                 # choose the current depot if only it could supply resources earlier than the previous one
                 if finish_delivery_time > deadline and depot_vehicle_start_time + exec_ahead_time < finish_delivery_time \
                         or finish_delivery_time < deadline:
@@ -272,6 +273,7 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                     min_depot_time = depot_vehicle_start_time
                     finish_delivery_time = depot_vehicle_start_time + exec_ahead_time
                     selected_depot = depot
+                    selected_vehicles = vehicles
 
                     road_deliveries = deliveries
 
-- 
2.43.0


From 79addfd23a1e3b4f2b70b6e6d4aa513eec92a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 16/68] fix: WorkUnit state keeps every attribute (description,
 name) on copy

---
 sampo/schemas/works.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 8af0bf0..115b0cc 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -144,15 +144,4 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
 
     def __setstate__(self, state):
         new_work_unit = self._deserialize(state)
-        self.worker_reqs = new_work_unit.worker_reqs
-        self.equipment_reqs = new_work_unit.equipment_reqs
-        self.object_reqs = new_work_unit.object_reqs
-        self.material_reqs = new_work_unit.material_reqs
-        self.zone_reqs = new_work_unit.zone_reqs
-        self.id = new_work_unit.id
-        self.model_name = new_work_unit.model_name
-        self.is_service_unit = new_work_unit.is_service_unit
-        self.volume = new_work_unit.volume
-        self.group = new_work_unit.group
-        self.display_name = new_work_unit.display_name
-        self.priority = new_work_unit.priority
+        self.__dict__.update(new_work_unit.__dict__)
-- 
2.43.0


From f51bf435b5ca375f5c1075a3ed81ca5421c0fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 17/68] fix: stages of a restructured work get names of their
 own and leave the original work untouched

---
 sampo/structurator/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 444cc66..b16193c 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -184,7 +184,7 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         # update id attribute with current stage node id
         wu_attrs['id'] = stage_node_id
         # update name attribute with current index of stage
-        wu_attrs['model_name']['granular_name'] = f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'
+        wu_attrs['model_name'] = {**wu.model_name, 'granular_name': f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'}
         # update volume attribute with passed proportion
         wu_attrs['volume'] = wu.volume * volume_proportion
         # remove because it's unused field from Identifiable
-- 
2.43.0


From 3148957f0d42cd6460e948cd6c4186fa1aa33bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 18/68] fix: the deadline search keeps the terms given in the
 specification

---
 sampo/scheduler/resources_in_time/average_binary_search.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index eb0df9f..e71ef0f 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -48,8 +48,6 @@ class AverageBinarySearchResourceOptimizingScheduler:
             return result
 
         copied_spec = deepcopy(spec)
-        # FIXME Investigate why `spec` given to this method can be saved from previous call and remove this
-        copied_spec._work2spec.clear()
 
         k_min = 1
         k_max = 10000
-- 
2.43.0


From bff3ef272cb99586e028fb28b4be0e950e5e31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 19/68] fix: the first stage of a search with a deadline works
 with any number of goals

---
 sampo/scheduler/genetic/schedule_builder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/schedule_builder.py b/sampo/scheduler/genetic/schedule_builder.py
index e1eb839..73eb279 100644
--- a/sampo/scheduler/genetic/schedule_builder.py
+++ b/sampo/scheduler/genetic/schedule_builder.py
@@ -188,8 +188,7 @@ def build_schedules_with_cache(wg: WorkGraph,
     # create population of a given size
     if pop is None:
         pop = SAMPO.backend.generate_first_population(population_size)
-    else:
-        pop = [toolbox.Individual(chromosome) for chromosome in pop]
+    pop = [toolbox.Individual(chromosome) for chromosome in pop]
 
     evaluation_start = time.time()
 
-- 
2.43.0


From 966ee490edcf68160658a32eba8668fda18072b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 20/68] fix: chain and start-start neighbours of a node follow
 its own current edges

The chain was cached globally by node id, so a graph with the same ids got
the nodes of another graph.
---
 sampo/schemas/graph.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 771a474..9ac4d00 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -1,7 +1,7 @@
 from collections import deque
 from dataclasses import dataclass, field
 from enum import Enum
-from functools import cached_property, cache
+from functools import cached_property
 from random import Random
 from typing import Optional
 
@@ -127,16 +127,15 @@ class GraphNode(JSONSerializable['GraphNode']):
     def invalidate_parents_cache(self):
         self.__dict__.pop('parents', None)
         self.__dict__.pop('parents_set', None)
+        self.__dict__.pop('neighbors', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def invalidate_children_cache(self):
         self.__dict__.pop('children', None)
         self.__dict__.pop('children_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def is_inseparable_parent(self) -> bool:
         return self.inseparable_son is not None
@@ -241,7 +240,6 @@ class GraphNode(JSONSerializable['GraphNode']):
     def id(self) -> str:
         return self.work_unit.id
 
-    @cache
     def get_inseparable_chain(self) -> Optional[list['GraphNode']]:
         """
         Gets an ordered list of whole chain of nodes, connected with edges of type INSEPARABLE_FINISH_START =
-- 
2.43.0


From 7932dbd62891bdef430d447ba277ee430f6894c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 21/68] fix: a pickled or deep-copied work graph keeps its
 edges

---
 sampo/schemas/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 9ac4d00..248816e 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -434,9 +434,9 @@ class WorkGraph(JSONSerializable['WorkGraph']):
     def __setstate__(self, state):
         # custom method to avoid calling __hash__() on GraphNode objects
         deserialized = self._deserialize(state)
-        object.__setattr__(self, 'start', deserialized.start)
-        object.__setattr__(self, 'finish', deserialized.finish)
-        self.__post_init__()
+        self.__dict__.update(deserialized.__dict__)
+        # the nodes belong to this graph now, so the temporary one must not tear them down
+        deserialized.nodes = []
 
     def __del__(self):
         self.dict_nodes = None
-- 
2.43.0


From d02c64487a5efa72c90aabf9a3e6a752ab87549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 22/68] fix: a copied graph node keeps priority, description
 and display name

---
 sampo/structurator/prepare_wg_copy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sampo/structurator/prepare_wg_copy.py b/sampo/structurator/prepare_wg_copy.py
index 66706cf..e875079 100644
--- a/sampo/structurator/prepare_wg_copy.py
+++ b/sampo/structurator/prepare_wg_copy.py
@@ -15,20 +15,23 @@ def copy_graph_node(node: GraphNode, new_id: int | str | None = None,
     :return: copy of GraphNode and pair(old node id, new node id)
     """
     if change_id:
-        new_id = new_id or uuid_str()
+        new_id = uuid_str() if new_id is None else new_id
         new_id = str(new_id) if isinstance(new_id, int) else new_id
     else:
         new_id = node.work_unit.id
     wu = node.work_unit
     new_wu = WorkUnit(id=new_id,
-                      model_name=wu.model_name,
+                      model_name=deepcopy(wu.model_name),
                       worker_reqs=deepcopy(wu.worker_reqs),
                       material_reqs=deepcopy(wu.material_reqs),
                       equipment_reqs=deepcopy(wu.equipment_reqs),
                       object_reqs=deepcopy(wu.object_reqs),
                       zone_reqs=deepcopy(wu.zone_reqs),
+                      description=wu.description,
                       group=wu.group,
-                      is_service_unit=wu.is_service_unit, volume=wu.volume)
+                      priority=wu.priority,
+                      is_service_unit=wu.is_service_unit, volume=wu.volume,
+                      display_name=wu.display_name)
     return GraphNode(new_wu, []), (wu.id, new_id)
 
 
-- 
2.43.0


From 5c0e96aef73cb2f3bf9ab6eda6623cdd4c0d3c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 23/68] fix: ids simplification respects change_id

---
 sampo/structurator/light_modifications.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/light_modifications.py b/sampo/structurator/light_modifications.py
index 2ea8872..3caa759 100644
--- a/sampo/structurator/light_modifications.py
+++ b/sampo/structurator/light_modifications.py
@@ -11,7 +11,8 @@ def work_graph_ids_simplification(wg: WorkGraph, id_offset: int = 0, change_id:
     :param change_id: Do IDs in the new graph need to be changed
     :return: new WorkGraph with numeric ids
     """
-    nodes, old_to_new_ids = prepare_work_graph_copy(wg, [], use_ids_simplification=True, id_offset=id_offset)
+    nodes, old_to_new_ids = prepare_work_graph_copy(wg, [], use_ids_simplification=True, id_offset=id_offset,
+                                                    change_id=change_id)
     start = nodes[old_to_new_ids[wg.start.id]]
     finish = nodes[old_to_new_ids[wg.finish.id]]
     return WorkGraph(start, finish)
-- 
2.43.0


From 266c9732c74db9b2643255e1c0dccf795afe3b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 24/68] fix: a work inserted between plain nodes gets edges
 without lag

---
 sampo/structurator/insert_wu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/structurator/insert_wu.py b/sampo/structurator/insert_wu.py
index e904a3d..f5a348a 100644
--- a/sampo/structurator/insert_wu.py
+++ b/sampo/structurator/insert_wu.py
@@ -42,8 +42,8 @@ def _new_edges(copied_nodes: dict[str, GraphNode], original_old_to_new_ids: dict
 
 def _reduce_to_tuple_type(edges: list[GraphNode] or list[tuple[GraphNode, float, EdgeType]]) \
         -> list[tuple[GraphNode, float, EdgeType]]:
-    if isinstance(edges[0], GraphNode):
-        return [(edge, -1, EdgeType.FinishStart) for edge in edges]
+    if edges and isinstance(edges[0], GraphNode):
+        return [(edge, 0, EdgeType.FinishStart) for edge in edges]
     else:
         return edges
 
-- 
2.43.0


From fbe996ba287845fa64de7cf88a7aa8e138840ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 25/68] fix: deleting a work removes its whole chain and every
 edge to it

---
 sampo/structurator/delete_graph_node.py | 30 ++++++++++---------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/sampo/structurator/delete_graph_node.py b/sampo/structurator/delete_graph_node.py
index a13d85a..6b6424c 100644
--- a/sampo/structurator/delete_graph_node.py
+++ b/sampo/structurator/delete_graph_node.py
@@ -16,16 +16,10 @@ def delete_graph_node(original_wg: WorkGraph, remove_gn_id: str, change_id: bool
 
     copied_remove_gn = copied_nodes[old_to_new_ids[remove_gn_id]]
 
-    inseparable_chain = copied_remove_gn.get_inseparable_chain()
-    if inseparable_chain is not None:
-        copied_remove_gn = inseparable_chain[len(inseparable_chain) - 1]
-        parent_to_delete = copied_remove_gn.inseparable_parent
-        while parent_to_delete is not None:
-            copied_remove_gn = parent_to_delete
-            parent_to_delete = copied_remove_gn.inseparable_parent
-            _node_deletion(copied_remove_gn, copied_nodes)
-    else:
-        _node_deletion(copied_remove_gn, copied_nodes)
+    while copied_remove_gn.inseparable_parent is not None:
+        copied_remove_gn = copied_remove_gn.inseparable_parent
+    for node in copied_remove_gn.get_inseparable_chain_with_self():
+        _node_deletion(node, copied_nodes)
 
     start, finish = new_start_finish(original_wg, copied_nodes, old_to_new_ids)
 
@@ -36,15 +30,15 @@ def _node_deletion(remove_gn: GraphNode, nodes: dict[str, GraphNode]):
     parents = remove_gn.parents
     children = remove_gn.children
 
-    for parent in parents:
-        for edge in parent.edges_from:
-            if edge.finish.id == remove_gn.id:
-                parent.edges_from.remove(edge)
+    for edge in remove_gn.edges_to:
+        parent = edge.start
+        parent.edges_from[:] = [e for e in parent.edges_from if e.finish.id != remove_gn.id]
+        parent.invalidate_children_cache()
 
-    for child in children:
-        for edge in child.edges_to:
-            if edge.start.id == remove_gn.id:
-                child.edges_to.remove(edge)
+    for edge in remove_gn.edges_from:
+        child = edge.finish
+        child.edges_to[:] = [e for e in child.edges_to if e.start.id != remove_gn.id]
+        child.invalidate_parents_cache()
 
     nodes.pop(remove_gn.id)
 
-- 
2.43.0


From c471b553d951d2f6c30c8f54a337476c87ba1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 26/68] fix: a graph inserted into another one keeps its ids,
 lags and edge types on request

---
 sampo/structurator/graph_insertion.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sampo/structurator/graph_insertion.py b/sampo/structurator/graph_insertion.py
index cc05c6b..2ad5620 100644
--- a/sampo/structurator/graph_insertion.py
+++ b/sampo/structurator/graph_insertion.py
@@ -16,17 +16,22 @@ def graph_in_graph_insertion(master_wg: WorkGraph, master_start: GraphNode, mast
     :return: new union WorkGraph
     """
     master_nodes, master_old_to_new_ids = prepare_work_graph_copy(master_wg, change_id=change_id)
-    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish], change_id)
+    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish],
+                                                            change_id=change_id)
 
-    # add parent links from slave_wg's nodes to master_start node from slave_wg's nodes
+    # master_start and master_finish take the places of slave_wg's start and finish
     master_start = master_nodes[master_old_to_new_ids[master_start.id]]
+    master_finish = master_nodes[master_old_to_new_ids[master_finish.id]]
+
+    # add parent links from slave_wg's nodes to master_start
     for edge in slave_wg.start.edges_from:
-        slave_nodes[slave_old_to_new[edge.finish.id]].add_parents([master_start])
+        if edge.finish != slave_wg.finish:
+            slave_nodes[slave_old_to_new[edge.finish.id]].add_parents([(master_start, edge.lag, edge.type)])
 
     # add parent links from master_finish to slave_wg's nodes
-    master_finish = master_nodes[master_old_to_new_ids[master_finish.id]]
-    master_finish.add_parents([slave_nodes[slave_old_to_new[edge.start.id]]
-                               for edge in slave_wg.finish.edges_to])
+    for edge in slave_wg.finish.edges_to:
+        parent = master_start if edge.start == slave_wg.start else slave_nodes[slave_old_to_new[edge.start.id]]
+        master_finish.add_parents([(parent, edge.lag, edge.type)])
 
     start, finish = new_start_finish(master_wg, master_nodes, master_old_to_new_ids)
     return WorkGraph(start, finish)
-- 
2.43.0


From 517212bfbc50cc06ec9e222a07bf169e47e8ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 27/68] fix: an obstruction inserts the whole graph and
 survives it

---
 sampo/scheduler/utils/obstruction.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/utils/obstruction.py b/sampo/scheduler/utils/obstruction.py
index 2bfcad2..9297711 100644
--- a/sampo/scheduler/utils/obstruction.py
+++ b/sampo/scheduler/utils/obstruction.py
@@ -4,6 +4,7 @@ from random import Random
 from typing import Callable
 
 from sampo.schemas.graph import WorkGraph, GraphNode
+from sampo.structurator.prepare_wg_copy import prepare_work_graph_copy, new_start_finish
 
 
 class Obstruction(ABC):
@@ -51,16 +52,20 @@ class OneInsertObstruction(Obstruction):
     def apply(self, wg: WorkGraph):
         # get the insert graph
         insert_wg = self._insert_wg_getter(self._rand)
+        # the inserted nodes should outlive the inserted graph, so use copies of them
+        nodes, ids = prepare_work_graph_copy(insert_wg, change_id=False)
+        start, finish = new_start_finish(insert_wg, nodes, ids)
         # get the insert point
         insert_node: GraphNode = self._rand.sample(wg.nodes, 1)[0]
+        children = insert_node.children
         # insert
-        insert_wg.start.add_parents([insert_node])
+        start.add_parents([insert_node])
 
-        if insert_node.children:
+        if children:
             # get the insert end point
-            insert_node_child: GraphNode = self._rand.sample(insert_node.children, 1)[0]
+            insert_node_child: GraphNode = self._rand.sample(children, 1)[0]
             # insert
-            insert_node_child.add_parents([insert_wg.start])
+            insert_node_child.add_parents([finish])
 
         wg.reinit()
 
-- 
2.43.0


From 44c47816a3ae4836f2694210c65c85ee477ad255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 28/68] fix: equipment and object requirements of a work are
 serialized

---
 sampo/schemas/works.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 115b0cc..f3cd63d 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -84,6 +84,8 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
     @custom_serializer('worker_reqs')
     @custom_serializer('zone_reqs')
     @custom_serializer('material_reqs')
+    @custom_serializer('equipment_reqs')
+    @custom_serializer('object_reqs')
     def serialize_serializable_list(self, value) -> list:
         """
         Return serialized list of values.
@@ -105,6 +107,28 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         """
         return [MaterialReq._deserialize(wr) for wr in value]
 
+    @classmethod
+    @custom_serializer('equipment_reqs', deserializer=True)
+    def equipment_reqs_deserializer(cls, value) -> list[EquipmentReq]:
+        """
+        Get list of equipment requirements
+
+        :param value: serialized list of equipment requirements
+        :return: list of equipment requirements
+        """
+        return [EquipmentReq._deserialize(er) for er in value]
+
+    @classmethod
+    @custom_serializer('object_reqs', deserializer=True)
+    def object_reqs_deserializer(cls, value) -> list[ConstructionObjectReq]:
+        """
+        Get list of construction object requirements
+
+        :param value: serialized list of construction object requirements
+        :return: list of construction object requirements
+        """
+        return [ConstructionObjectReq._deserialize(objr) for objr in value]
+
     @classmethod
     @custom_serializer('worker_reqs', deserializer=True)
     def worker_reqs_deserializer(cls, value) -> list[WorkerReq]:
-- 
2.43.0


From ed3736ea00c6acd63494836f9abdf1572bceee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 29/68] fix: loading an object leaves its saved form usable

---
 sampo/schemas/graph.py        | 9 +++++----
 sampo/schemas/schedule.py     | 3 +--
 sampo/schemas/serializable.py | 7 ++-----
 3 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 248816e..4a15968 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -94,10 +94,11 @@ class GraphNode(JSONSerializable['GraphNode']):
 
     @classmethod
     def _deserialize(cls, representation: T) -> dict:
-        representation['work_unit'] = WorkUnit._deserialize(representation['work_unit'])
-        representation['parent_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']]
-        # representation['child_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
-        return representation
+        return {
+            'work_unit': WorkUnit._deserialize(representation['work_unit']),
+            'parent_edges': [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']],
+            # 'child_edges': [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
+        }
 
     def update_work_unit(self, work_unit: WorkUnit) -> None:
         self._work_unit = work_unit
diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index de53fbf..dfc50ce 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -101,8 +101,7 @@ class Schedule(JSONSerializable['Schedule']):
     @classmethod
     def _deserialize(cls, dict_representation: T) -> 'Schedule':
         # Method described in base class
-        dict_representation['works'] = [ScheduledWork._deserialize(sw) for sw in dict_representation['works']]
-        return Schedule.from_scheduled_works(**dict_representation)
+        return Schedule.from_scheduled_works([ScheduledWork._deserialize(sw) for sw in dict_representation['works']])
 
     @lru_cache
     def merged_stages_datetime_df(self, offset: Union[datetime, str]) -> DataFrame:
diff --git a/sampo/schemas/serializable.py b/sampo/schemas/serializable.py
index d158127..31e0ccd 100644
--- a/sampo/schemas/serializable.py
+++ b/sampo/schemas/serializable.py
@@ -403,10 +403,7 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
                                                                                           CUSTOM_TYPE_DESERIALIZER)]
                                                for attr in [getattr(cls, name) for name in dir(cls)]
                                                if hasattr(attr, CUSTOM_TYPE_DESERIALIZER)]))
-        type_hints = {}
-        if TYPE_HINTS in dict_representation:
-            type_hints = dict_representation[TYPE_HINTS]
-            del dict_representation[TYPE_HINTS]
+        type_hints = dict_representation.get(TYPE_HINTS, {})
 
         def deserialize_field(name, value):
             """
@@ -430,7 +427,7 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
         fields = dict({f: None for f in cls.ignored_fields},
                       **{k: deserialize_field(k, v)
                          for k, v in dict_representation.items()
-                         if k not in cls.ignored_fields})
+                         if k not in cls.ignored_fields and k != TYPE_HINTS})
 
         self = cls.__new__(cls)
         try:
-- 
2.43.0


From f0d0b7f33ce9acb231bd2d66edee4001a131a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 30/68] fix: intervals can be serialized

---
 sampo/schemas/interval.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sampo/schemas/interval.py b/sampo/schemas/interval.py
index 7aec4cc..c328246 100644
--- a/sampo/schemas/interval.py
+++ b/sampo/schemas/interval.py
@@ -21,6 +21,8 @@ class Interval(AutoJSONSerializable['BaseReq'], ABC):
     A class for generating random numbers from a given boundary and distribution.
     """
 
+    ignored_fields = ['rand']
+
     @abstractmethod
     def rand_float(self, rand: Optional[random.Random] = None) -> float:
         """
@@ -62,7 +64,7 @@ class IntervalUniform(Interval):
         :param rand: object for generating random numbers, if you want to use a randomizer with a determined seed
         :return kind: the random float
         """
-        rand = rand or self.rand
+        rand = rand or self.rand or random
         return rand.uniform(self.min_val, self.max_val)
 
     def rand_int(self, rand: Optional[random.Random] = None) -> int:
@@ -72,7 +74,7 @@ class IntervalUniform(Interval):
         :param rand: object for generating random numbers, if you want to use a randomizer with a determined seed
         :return kind: the random int
         """
-        rand = rand or self.rand
+        rand = rand or self.rand or random
         value = round(rand.uniform(self.min_val, self.max_val))
         # TODO fix cast math.inf to int
         value = max(value, int(self.min_val - EPS))
@@ -105,7 +107,7 @@ class IntervalGaussian(Interval):
         :param rand: object for generating random numbers
         :return kind: the random float
         """
-        rand = rand or self.rand
+        rand = rand or self.rand or random
         value = rand.gauss(self.mean, self.sigma)
         value = max(value, self.min_val)
         value = min(value, self.max_val)
@@ -119,7 +121,7 @@ class IntervalGaussian(Interval):
         :param rand: object for generating random numbers
         :return kind: the random int
         """
-        rand = rand or self.rand
+        rand = rand or self.rand or random
         value = round(rand.gauss(self.mean, self.sigma))
         # TODO fix cast math.inf to int
         value = max(value, int(self.min_val - EPS))
-- 
2.43.0


From bac55951365eab450e078f1c49d950b58c0f125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 31/68] fix: copies of workers and materials keep their cost

---
 sampo/schemas/resources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/resources.py b/sampo/schemas/resources.py
index ce96871..7708204 100644
--- a/sampo/schemas/resources.py
+++ b/sampo/schemas/resources.py
@@ -81,7 +81,8 @@ class Worker(Resource):
                       name=self.name,
                       count=self.count,
                       contractor_id=self.contractor_id,
-                      productivity=self.productivity)
+                      productivity=self.productivity,
+                      cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Worker':
         """
@@ -155,7 +156,8 @@ class Material(Resource):
     def copy(self) -> 'Material':
         return Material(id=self.id,
                         name=self.name,
-                        count=self.count)
+                        count=self.count,
+                        cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Material':
         self.count = count
-- 
2.43.0


From 8c761c67c53fa017fca069dfcb35156c8d5b9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 32/68] fix: uniting the stages of a work sums their costs

---
 sampo/schemas/schedule.py   | 1 +
 sampo/utilities/schedule.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index dfc50ce..5c1bab3 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -126,6 +126,7 @@ class Schedule(JSONSerializable['Schedule']):
             swork.model_name['granular_name'] = row['granular_name']
             swork.display_name = row['task_name']
             swork.volume = float(row['volume'])
+            swork.cost = float(row['cost'])
             swork.start_end_time = Time(int(row['start'])), Time(int(row['finish']))
             return row
 
diff --git a/sampo/utilities/schedule.py b/sampo/utilities/schedule.py
index 05322be..4b8c578 100644
--- a/sampo/utilities/schedule.py
+++ b/sampo/utilities/schedule.py
@@ -74,8 +74,9 @@ def merge_split_stages(task_df: pd.DataFrame) -> pd.Series:
         for column in ['task_id', 'task_name', 'granular_name']:
             df.loc[0, column] = df.loc[0, column].split(STAGE_SEP)[0]  # fix task id and name
 
-        # sum up volumes through all stages
+        # sum up volumes and costs through all stages
         df.loc[0, 'volume'] = sum(task_df.loc[:, 'volume'])
+        df.loc[0, 'cost'] = sum(task_df.loc[:, 'cost'])
         df.loc[0, 'workers'] = task_df.loc[0, 'workers']
 
         # fix task's start time and duration
-- 
2.43.0


From 55a5736625eafe61fa77d4ae7e70e1ae15686c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 33/68] fix: works with different naming columns share one
 schedule table

---
 sampo/schemas/schedule.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 5c1bab3..9a72628 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -1,7 +1,6 @@
 from copy import deepcopy
 from datetime import datetime
 from functools import lru_cache
-from operator import itemgetter
 from typing import Iterable, Union, Any
 
 from pandas import DataFrame
@@ -10,15 +9,14 @@ from sampo.schemas.graph import WorkGraph, GraphNode
 from sampo.schemas.scheduled_work import ScheduledWork
 from sampo.schemas.serializable import JSONSerializable, T
 from sampo.schemas.time import Time
-from sampo.utilities.collections_util import first
 from sampo.utilities.schedule import fix_split_tasks, offset_schedule
 
 ResourceSchedule = dict[str, list[tuple[Time, Time]]]
 ScheduleWorkDict = dict[str, ScheduledWork]
 
 
-def _get_granular_name_columns(sworks: Iterable[ScheduledWork] | None = None):
-    return list(sorted(first(sworks).model_name.keys()))
+def _get_granular_name_columns(sworks: Iterable[ScheduledWork]) -> list[str]:
+    return sorted({column for swork in sworks for column in swork.model_name})
 
 
 # TODO: Rebase object onto ScheduleWorkDict and ordered ScheduledWork list
@@ -160,7 +158,7 @@ class Schedule(JSONSerializable['Schedule']):
         model_name_columns = _get_granular_name_columns(works)
 
         def make_model_name_columns(swork: ScheduledWork) -> list[Any]:
-            return list(map(itemgetter(1), sorted(swork.model_name.items(), key=itemgetter(0))))
+            return [swork.model_name.get(column) for column in model_name_columns]
 
         data_frame = [(i,                                                   # idx
                        w.id,                                                # task_id
-- 
2.43.0


From ad0df9c45c782ed8f43e37ab9f251d4dcb3c428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 34/68] fix: the LFT scheduler counts assignments of the
 contractor it assigned

---
 sampo/scheduler/lft/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/lft/base.py b/sampo/scheduler/lft/base.py
index 3732d9e..516ca92 100644
--- a/sampo/scheduler/lft/base.py
+++ b/sampo/scheduler/lft/base.py
@@ -229,7 +229,7 @@ class LFTScheduler(Scheduler):
             assigned_amount = workers_amounts[contractor_index]
 
             # increase the counter for the assigned contractor
-            contractors_assignments_count[contractor_index] += 1
+            contractors_assignments_count[np.flatnonzero(accepted_contractors_mask)[contractor_index]] += 1
 
             if not spec[work_unit.id].is_contractor_enabled(assigned_contractor.id):
                 raise
-- 
2.43.0


From 1878fe8837124ca0248a7486f95d41fe16448b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 35/68] fix: priorities are corrected in time linear in the
 graph

---
 sampo/utilities/priority.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/utilities/priority.py b/sampo/utilities/priority.py
index cd23be6..c08328b 100644
--- a/sampo/utilities/priority.py
+++ b/sampo/utilities/priority.py
@@ -11,7 +11,8 @@ def update_priority(node, priority_value, visited=None):
     node.work_unit.priority = min(node.work_unit.priority, priority_value)
 
     for parent in getattr(node, "parents", []):
-        update_priority(parent, priority_value, visited)
+        if parent not in visited:
+            update_priority(parent, priority_value, visited)
 
 
 def check_and_correct_priorities(wg: WorkGraph, verbose: bool = True):
-- 
2.43.0


From 4cc83babe6085c851c7fd2c954d30093140c6867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 36/68] fix: seeded and topological orders do not depend on the
 hash seed

---
 sampo/scheduler/lft/prioritization.py | 2 +-
 sampo/scheduler/topological/base.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/lft/prioritization.py b/sampo/scheduler/lft/prioritization.py
index c36d256..5a6e9a8 100644
--- a/sampo/scheduler/lft/prioritization.py
+++ b/sampo/scheduler/lft/prioritization.py
@@ -86,7 +86,7 @@ def lft_randomized_prioritization_core(head_nodes: list[GraphNode],
     candidates = {head_nodes[0].id}
 
     while candidates:
-        eligibles = [node_id for node_id in candidates if is_eligible(node_id)]
+        eligibles = [node_id for node_id in sorted(candidates) if is_eligible(node_id)]
         min_group_priority = min(node_id2group_priority[node_id] for node_id in eligibles)
         eligibles = [node_id for node_id in eligibles if node_id2group_priority[node_id] == min_group_priority]
 
diff --git a/sampo/scheduler/topological/base.py b/sampo/scheduler/topological/base.py
index da31daa..f2fd8bc 100644
--- a/sampo/scheduler/topological/base.py
+++ b/sampo/scheduler/topological/base.py
@@ -36,7 +36,7 @@ class TopologicalScheduler(GenericScheduler):
         :param nodes: list of nodes
         :return: list of shuffled indices
         """
-        return list(nodes)
+        return sorted(nodes)
 
     # noinspection PyMethodMayBeStatic
     def _topological_sort(self,
@@ -132,7 +132,7 @@ class RandomizedTopologicalScheduler(TopologicalScheduler):
         :param nodes: list of nodes
         :return: list of shuffled indices
         """
-        nds = list(nodes)
+        nds = sorted(nodes)
         indices = np.arange(len(nds))
         self._random_state.shuffle(indices)
         return [nds[ind] for ind in indices]
-- 
2.43.0


From b10c5148f9cbd731a9048544f6fc88273fef703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 37/68] fix: independent works wait for materials and zones too

---
 .../scheduler/timeline/just_in_time_timeline.py | 13 ++++++-------
 sampo/scheduler/timeline/momentum_timeline.py   | 17 +++++++----------
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 60d70a9..d6c95b5 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -157,7 +157,6 @@ class JustInTimeTimeline(Timeline):
                 last_cpkt_time, _ = worker_timeline[0]
                 if last_cpkt_time > start_time:
                     return False
-            return True
         else:
             max_agent_time = Time(0)
             for worker in worker_team:
@@ -177,13 +176,13 @@ class JustInTimeTimeline(Timeline):
             if not max_agent_time <= start_time:
                 return False
 
-            if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
-                                                                      node.work_unit.need_materials()):
-                return False
-            if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
-                return False
+        if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
+                                                                  node.work_unit.need_materials()):
+            return False
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+            return False
 
-            return True
+        return True
 
     def update_timeline(self,
                         finish_time: Time,
diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index a192456..31320a3 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -308,11 +308,8 @@ class MomentumTimeline(Timeline):
         if spec.is_independent:
             # squash all the timeline to the last point
             for worker in worker_team:
-                worker_timeline = self._timeline[(worker.contractor_id, worker.name)]
-                last_cpkt_time, _ = worker_timeline[0]
-                if last_cpkt_time >= start_time:
+                if self._timeline[worker.contractor_id][worker.name][-1].time > start_time:
                     return False
-            return True
         else:
             start = start_time
             end = start_time + exec_time
@@ -334,13 +331,13 @@ class MomentumTimeline(Timeline):
                 if not state[0].available_workers_count >= available_workers_count:
                     return False
 
-            if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
-                                                                      node.work_unit.need_materials()):
-                return False
-            if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
-                return False
+        if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
+                                                                  node.work_unit.need_materials()):
+            return False
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+            return False
 
-            return True
+        return True
 
     def update_timeline(self,
                         finish_time: Time,
-- 
2.43.0


From 3d5eebaf3dd0a68d4e3692bba55712ce2815141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 38/68] fix: zones stay closed while a stage of a chain waits
 in the parallel scheme

---
 sampo/scheduler/timeline/just_in_time_timeline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index d6c95b5..52825e6 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -179,7 +179,10 @@ class JustInTimeTimeline(Timeline):
         if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
                                                                   node.work_unit.need_materials()):
             return False
-        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+        # the zones are used longer if stages of the chain wait for works outside of it
+        waiting_time = max(Time(0), max(dep_node.min_start_time(node2swork) for dep_node in chain) - start_time)
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time,
+                                                             exec_time + waiting_time):
             return False
 
         return True
-- 
2.43.0


From b0bc911863a8add778eb2af0f58cadb4a3fb9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 39/68] fix: the pipeline survives contractors without some
 kind of workers

contractors_can_perform_work_graph looked up every required kind in every
contractor and raised KeyError for contractors that do not have it.
---
 sampo/pipeline/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 79c1c80..3ad610a 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -34,7 +34,7 @@ def contractors_can_perform_work_graph(contractors: list[Contractor], wg: WorkGr
         for contractor in contractors:
             offers = contractor.workers
             for req in reqs:
-                if req.min_count > offers[req.kind].count:
+                if req.kind not in offers or req.min_count > offers[req.kind].count:
                     is_at_least_one_contractor_can_perform = False
                     break
             if is_at_least_one_contractor_can_perform:
-- 
2.43.0


From 7b597b667309e94291078e43faad90a923ca9438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 40/68] fix: the deadline search reports infeasible projects as
 other schedulers do

It swallowed NoSufficientContractorError and failed with AttributeError on the
missing schedule.
---
 .../resources_in_time/average_binary_search.py         | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index e71ef0f..364eff7 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -4,7 +4,6 @@ from sampo.scheduler.base import Scheduler
 from sampo.scheduler.resource.average_req import AverageReqResourceOptimizer
 from sampo.scheduler.timeline.base import Timeline
 from sampo.schemas.contractor import Contractor
-from sampo.schemas.exceptions import NoSufficientContractorError
 from sampo.schemas.graph import WorkGraph, GraphNode
 from sampo.schemas.landscape import LandscapeConfiguration
 from sampo.schemas.schedule import Schedule
@@ -34,12 +33,9 @@ class AverageBinarySearchResourceOptimizingScheduler:
         def call_scheduler(k: float, inner_spec: ScheduleSpec) \
                 -> tuple[tuple[Schedule, Time, Timeline, list[GraphNode]], ScheduleSpec]:
             self._resource_optimizer.k = k
-            try:
-                return self._base_scheduler.schedule_with_cache(wg, contractors, inner_spec, validate,
-                                                                assigned_parent_time,
-                                                                landscape=landscape)[0], inner_spec
-            except NoSufficientContractorError:
-                return (None, Time.inf(), None, None), inner_spec
+            return self._base_scheduler.schedule_with_cache(wg, contractors, inner_spec, validate,
+                                                            assigned_parent_time,
+                                                            landscape=landscape)[0], inner_spec
 
         def fitness(k: float, inner_spec: ScheduleSpec):
             result = call_scheduler(k, inner_spec)[0][0].execution_time
-- 
2.43.0


From 716bce753b46931918be8ecca240c7a1e121b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 41/68] fix: local optimizers keep the order of works and the
 schedule valid

Swap candidates were checked as if the order was reversed and without the
stages of inseparable chains; parallelizing recalculated the reversed order,
overwrote the new works with the old ones, looked workers up by an attribute
they do not have and exceeded the limits of teams and contractors. Areas may
be longer than the order (inseparable chains are one entry of it).
---
 sampo/scheduler/utils/local_optimization.py | 106 +++++++++++++-------
 1 file changed, 70 insertions(+), 36 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 194e5fd..4dd0267 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -59,6 +59,15 @@ class ScheduleLocalOptimizer(ABC):
         ...
 
 
+def head_of(node: GraphNode) -> GraphNode:
+    """
+    Inseparable chains are represented in the order by their first nodes.
+    """
+    while node.inseparable_parent is not None:
+        node = node.inseparable_parent
+    return node
+
+
 def get_swap_candidates(node: GraphNode,
                         node_index: int,
                         candidates: Iterable[GraphNode],
@@ -70,23 +79,26 @@ def get_swap_candidates(node: GraphNode,
 
     :param node: target node
     :param node_index: index of target node in global sequence
-    :param candidates: list of candidates to swapping
+    :param candidates: list of candidates to swapping, placed before the target node
     :param node2ind: a dict from node to its index
     :param processed: a set of nodes that should not be swapped yet
     """
-    cur_children: set[GraphNode] = node.children_set
+    parents: set[GraphNode] = {head_of(parent) for stage in node.get_inseparable_chain_with_self()
+                               for parent in stage.parents} - {node}
+    # the nodes listed outside `node2ind` are not placed between any pair of nodes we consider
+    last_parent_ind = max((node2ind[parent] for parent in parents if node2ind.get(parent, node_index) < node_index),
+                          default=-1)
 
     def is_candidate_accepted(candidate: GraphNode) -> bool:
-        if candidate in cur_children or candidate in processed:
+        if candidate in processed:
             return False
         candidate_ind = node2ind[candidate]
-        for child in cur_children:
-            if node2ind.get(child, 0) >= candidate_ind:  # we have a child between us and candidate
-                return False
-        candidate_parents = candidate.parents
-        for parent in candidate_parents:
-            if node2ind.get(parent, 0) <= node_index:  # candidate has a parent between us and candidate
-                return False
+        if last_parent_ind >= candidate_ind:  # we have a parent between us and candidate
+            return False
+        for stage in candidate.get_inseparable_chain_with_self():
+            for child in stage.children:  # candidate has a child between us and candidate
+                if candidate_ind < node2ind.get(head_of(child), -1) <= node_index:
+                    return False
         return True
 
     return [candidate for candidate in candidates if is_candidate_accepted(candidate)]
@@ -105,7 +117,7 @@ class SwapOrderLocalOptimizer(OrderLocalOptimizer):
             return
 
         start_index = area.start
-        end_index = area.stop
+        end_index = min(area.stop, len(node_order))
 
         # TODO Examine what is better: perform shuffling in nearly placed sub-seq or in whole sequence
         # node2cost = {node: work_priority(node, calculate_working_time_cascade, work_estimator) for node in sub_seq}
@@ -118,7 +130,7 @@ class SwapOrderLocalOptimizer(OrderLocalOptimizer):
         swapped = 0
 
         processed: set[GraphNode] = set()
-        for i in reversed(area):
+        for i in reversed(range(start_index, end_index)):
             node = node_order[i]
             if node in processed:
                 continue
@@ -153,7 +165,7 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         super().__init__(timeline_type)
 
     def recalc_schedule(self,
-                        node_order: Iterable[GraphNode],
+                        node_order: list[GraphNode],
                         contractors: list[Contractor],
                         landscape_config: LandscapeConfiguration,
                         spec: ScheduleSpec,
@@ -179,18 +191,26 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         timeline = self._timeline_type(worker_pool, landscape_config)
         node2swork_new: dict[GraphNode, ScheduledWork] = {}
 
-        id2contractor = build_index(contractors, attrgetter('name'))
+        id2contractor = build_index(contractors, attrgetter('id'))
 
         for index, node in enumerate(node_order):
             node_schedule = node2swork[node]
             work_spec = spec.get_work_spec(node.id)
-            # st = timeline.find_min_start_time(node, node_schedule.workers, node2swork_new)
-            # ft = st + node_schedule.get_actual_duration(work_estimator)
+            start_time, _, _ = timeline.find_min_start_time_with_additional(node, node_schedule.workers,
+                                                                            node2swork_new, work_spec, None,
+                                                                            assigned_parent_time, work_estimator)
+            finalizing_zones = None
+            if index == 0:
+                start_time = assigned_parent_time
+            if index == len(node_order) - 1:
+                finish_time, finalizing_zones = timeline.zone_timeline.finish_statuses()
+                start_time = max(start_time, finish_time)
+
             timeline.schedule(node, node2swork_new, node_schedule.workers,
-                              id2contractor[node_schedule.contractor], work_spec, None, work_spec.assigned_time,
-                              assigned_parent_time, work_estimator)
-            # node_schedule.start_end_time = (st, ft)
-            node2swork_new[node] = node_schedule
+                              id2contractor[node_schedule.contractor_id], work_spec, start_time,
+                              work_spec.assigned_time, assigned_parent_time, work_estimator)
+            if finalizing_zones is not None:
+                node2swork_new[node].zones_pre = finalizing_zones
 
         return node2swork_new
 
@@ -213,16 +233,20 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         :param area:
         :return:
         """
+        if not node_order:  # the scheduler does not tell the order of works
+            return scheduled_works
+
         start_index = area.start
-        end_index = area.stop
-        
+        end_index = min(area.stop, len(node_order))
+
         # preprocessing
         node2ind: dict[GraphNode, int] = {node: start_index + ind for ind, node in
                                           enumerate(node_order[start_index:end_index])}
 
+        contractors_workers = {contractor.id: contractor.workers for contractor in contractors}
         processed: set[GraphNode] = set()
 
-        for i in reversed(area):
+        for i in reversed(range(start_index, end_index)):
             node = node_order[i]
             if node in processed:
                 continue
@@ -233,7 +257,7 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
             my_workers: dict[str, Worker] = build_index(my_schedule.workers, attrgetter('name'))
             my_schedule_reqs: dict[str, WorkerReq] = build_index(node.work_unit.worker_reqs, attrgetter('kind'))
 
-            new_my_workers = {}
+            fixed_workers = spec.get_work_spec(node.id).assigned_workers
 
             # now accepted_candidates is a list of nodes that can(according to dependencies) run in parallel
             for candidate in accepted_candidates:
@@ -242,21 +266,31 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                 candidate_schedule_reqs: dict[str, WorkerReq] = build_index(candidate.work_unit.worker_reqs,
                                                                             attrgetter('kind'))
 
+                new_my_workers: dict[str, int] = {}
                 new_candidate_workers: dict[str, int] = {}
 
                 satisfy = True
 
+                if candidate_schedule.contractor_id != my_schedule.contractor_id:
+                    break  # these two works have different workers, they don't prevent each other
+                contractor_workers = contractors_workers[my_schedule.contractor_id]
+
                 for candidate_worker in candidate_schedule.workers:
-                    my_worker = my_workers.get(candidate_worker.model_name, None)
+                    my_worker = my_workers.get(candidate_worker.name, None)
                     if my_worker is None:  # these two works are not compete for this worker
                         continue
 
-                    need_me = my_workers[candidate_worker.model_name].count
+                    need_me = my_workers[candidate_worker.name].count
                     need_candidate = candidate_worker.count
 
-                    total = need_me + need_candidate
-                    my_req = my_schedule_reqs[candidate_worker.model_name]
-                    candidate_req = candidate_schedule_reqs[candidate_worker.model_name]
+                    if candidate_worker.name in fixed_workers \
+                            or candidate_worker.name in spec.get_work_spec(candidate.id).assigned_workers:
+                        continue  # the team is assigned by the user
+
+                    # the teams should fit in the contractor's pool together
+                    total = min(need_me + need_candidate, contractor_workers[candidate_worker.name].count)
+                    my_req = my_schedule_reqs[candidate_worker.name]
+                    candidate_req = candidate_schedule_reqs[candidate_worker.name]
                     needed_min = my_req.min_count + candidate_req.min_count
 
                     if needed_min > total:  # these two works can't run in parallel
@@ -267,29 +301,29 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                     my_worker_count = my_req.min_count
                     total -= needed_min
 
-                    add_me = min(my_req.max_count, total // 2)
-                    add_candidate = min(candidate_req.max_count, total - add_me)
+                    add_me = min(my_req.max_count - my_req.min_count, total // 2)
+                    add_candidate = min(candidate_req.max_count - candidate_req.min_count, total - add_me)
 
                     my_worker_count += add_me
                     candidate_worker_count += add_candidate
 
-                    new_my_workers[candidate_worker.model_name] = my_worker_count
-                    new_candidate_workers[candidate_worker.model_name] = candidate_worker_count
+                    new_my_workers[candidate_worker.name] = my_worker_count
+                    new_candidate_workers[candidate_worker.name] = candidate_worker_count
 
                 if satisfy:  # replacement found, apply changes and leave candidates bruteforce
                     print(f'Found! {candidate.work_unit.name} {node.work_unit.name}')
                     for worker in my_schedule.workers:
-                        worker_count = new_my_workers.get(worker.model_name, None)
+                        worker_count = new_my_workers.get(worker.name, None)
                         if worker_count is not None:
                             worker.count = worker_count
                     for worker in candidate_schedule.workers:
-                        worker_count = new_candidate_workers.get(worker.model_name, None)
+                        worker_count = new_candidate_workers.get(worker.name, None)
                         if worker_count is not None:
                             worker.count = worker_count
                     # candidate_schedule.start_time = my_schedule.start_time
                     break
 
-        return self.recalc_schedule(reversed(node_order), contractors, landscape_config, spec, scheduled_works,
+        return self.recalc_schedule(node_order, contractors, landscape_config, spec, scheduled_works,
                                     worker_pool, assigned_parent_time, work_estimator)
 
 
-- 
2.43.0


From bd3dbea597a15914ee2ea83508ac1340b8af6ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 42/68] fix: lag optimization is applied when it is requested

The pattern matched a tuple, never the strategy itself.
---
 sampo/pipeline/default.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 3ad610a..608f68f 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -276,8 +276,8 @@ class DefaultInputPipeline(InputPipeline):
                     wg = wg2
                     schedules = schedules2
 
-            case LagOptimizationStrategy.TRUE, LagOptimizationStrategy.FALSE:
-                wg = graph_restructuring(self._wg, self._lag_optimize.value)
+            case LagOptimizationStrategy.TRUE:
+                wg = graph_restructuring(self._wg, True)
                 schedules = scheduler.schedule_with_cache(wg, self._contractors,
                                                           self._spec,
                                                           landscape=self._landscape_config,
-- 
2.43.0


From c7840373e578d7dc207a00ce4b736531c76ecae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 43/68] fix: schedule optimizers can be stacked

The second and next functions of the queue did not receive the order of works.
---
 sampo/schemas/apply_queue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/apply_queue.py b/sampo/schemas/apply_queue.py
index 4f5a637..092c79e 100644
--- a/sampo/schemas/apply_queue.py
+++ b/sampo/schemas/apply_queue.py
@@ -16,11 +16,12 @@ class ApplyQueue:
 
     def apply(self, *first_args):
         """
-        Sequentially applies functions to the result of previous function and the args stored in queue.
+        Sequentially applies functions to the result of previous function, the rest of `first_args`
+        and the args stored in queue.
         """
         res = first_args
         for f, args in self.stack:
-            res = (f(*res, *args),)
+            res = (f(*res, *args), *first_args[1:])
         return res[0]
 
     def empty(self) -> bool:
-- 
2.43.0


From 88c5fa0d5832e92a12799c2ba303caf4d2eb74cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 44/68] fix: NameMapper.get returns the name

---
 sampo/utilities/name_mapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/utilities/name_mapper.py b/sampo/utilities/name_mapper.py
index 9aa1c1a..80c63dc 100644
--- a/sampo/utilities/name_mapper.py
+++ b/sampo/utilities/name_mapper.py
@@ -60,7 +60,7 @@ class DummyNameMapper(NameMapper):
         return item
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     @property
     def _source(self) -> NameMapper:
@@ -72,7 +72,7 @@ class DictNameMapper(NameMapper):
         self._source = source
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     def __getitem__(self, item) -> str:
         return self._source[item] if item in self._source else item
@@ -88,7 +88,7 @@ class ModelNameMapper(NameMapper):
         self.__nie()
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     def __getitem__(self, item):
         self.__nie()
-- 
2.43.0


From b62f72eca18cbb1305f3bc2ebf77da9335f65771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 45/68] fix: WorkGraph.to_frame describes works by their model
 names

---
 sampo/schemas/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 4a15968..7e40641 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -362,6 +362,7 @@ class WorkGraph(JSONSerializable['WorkGraph']):
         graph_df_structure = {'activity_id': [],
                               'activity_name': [],
                               'granular_name': [],
+                              'model_name': [],
                               'volume': [],
                               'measurement': [],
                               'priority': [],
@@ -384,9 +385,10 @@ class WorkGraph(JSONSerializable['WorkGraph']):
                 # Get information about tasks from graph nodes (work units)
                 graph_df_structure['activity_id'].append(node_info_dict['work_unit']['id'])
                 graph_df_structure['activity_name'].append(node_info_dict['work_unit']['display_name'])
-                graph_df_structure['granular_name'].append(node_info_dict['work_unit']['name'])
+                graph_df_structure['granular_name'].append(node.work_unit.model_name['granular_name'])
+                graph_df_structure['model_name'].append(str(node.work_unit.model_name))
                 graph_df_structure['volume'].append(node_info_dict['work_unit']['volume'])
-                graph_df_structure['measurement'].append(node_info_dict['work_unit']['volume_type'])
+                graph_df_structure['measurement'].append(node.work_unit.model_name['measurement'])
                 graph_df_structure['priority'].append(node_info_dict['work_unit']['priority'])
 
                 if save_req:
-- 
2.43.0


From 15b58142f2b24c9eb5307f4be7f64a8164af1174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 46/68] fix: history tells about the link of the same
 predecessor, 'work_name' column is accepted

---
 sampo/userinput/parser/history.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/sampo/userinput/parser/history.py b/sampo/userinput/parser/history.py
index c1c8cec..b2b9d4d 100644
--- a/sampo/userinput/parser/history.py
+++ b/sampo/userinput/parser/history.py
@@ -107,8 +107,6 @@ def get_all_seq_statistic(history_data: pd.DataFrame,
                           graph_df: pd.DataFrame,
                           use_model_name: bool = False,
                           mapper: NameMapper | None = None):
-    df_grouped = history_data.copy()
-
     if use_model_name:
         column_name = 'model_name'
     else:
@@ -116,7 +114,7 @@ def get_all_seq_statistic(history_data: pd.DataFrame,
             history_data['granular_name'] = [activity_name for activity_name in history_data['work_name']]
         column_name = 'granular_name'
 
-    df_grouped = df_grouped.groupby('upper_works')[column_name].apply(list).reset_index(name="Works")
+    df_grouped = history_data.groupby('upper_works')[column_name].apply(list).reset_index(name="Works")
     works1, works2 = get_all_connections(graph_df, use_model_name, mapper)
 
     # Declare structure with updated connections
@@ -304,16 +302,12 @@ def set_connections_info(graph_df: pd.DataFrame,
                     update_connections(pred_ids_lst_tmp, pred_ids_lst, pred_types_lst, pred_lags_lst, pred_counts_lst))
             pred_ids_lst, pred_types_lst, pred_lags_lst, pred_counts_lst = (
                 append_new_connections(pred_ids_lst_tmp, pred_ids_lst, pred_types_lst, pred_lags_lst, pred_counts_lst))
-        else:
-            if row['predecessor_ids'] != ['-1']:
-                # if 'lags' is unknown, thus 'connection_type' is also unknown
-                pred_info_lst = [[pred_types_lst[i], pred_lags_lst[i], pred_counts_lst[i]]
-                                 for i in range(len(pred_ids_lst)) if pred_ids_lst[i] in row['predecessor_ids']]
-                pred_ids_lst = row['predecessor_ids']
-                if len(pred_info_lst) > 0:
-                    pred_types_lst, pred_lags_lst, pred_counts_lst = map(list, zip(*pred_info_lst))
-                else:
-                    pred_types_lst, pred_lags_lst, pred_counts_lst = ['-1'], [1], [INF]
+        elif row['predecessor_ids'] != ['-1']:
+            # the links stay as they are, the information about those that occurred in the history is taken from it
+            pred_ids_lst_tmp, pred_types_lst_tmp, pred_lags_lst_tmp, pred_counts_lst_tmp = (
+                row['predecessor_ids'].copy(), row['connection_types'].copy(), row['lags'].copy(), [INF] * len(row['lags']))
+            pred_ids_lst, pred_types_lst, pred_lags_lst, pred_counts_lst = (
+                update_connections(pred_ids_lst_tmp, pred_ids_lst, pred_types_lst, pred_lags_lst, pred_counts_lst))
 
         while len(pred_ids_lst) != len(pred_types_lst):
             pred_types_lst.append('FS')
-- 
2.43.0


From 1c259b560ab8e20a8d543e0d4094df557b4c96ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 47/68] fix: documented tables of works and contractors are
 read as written

---
 sampo/userinput/parser/csv_parser.py    | 19 ++++-------
 sampo/userinput/parser/general_build.py | 43 +++++++++++++++----------
 2 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index aae71e4..dbc0d8e 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -1,5 +1,3 @@
-import math
-from itertools import chain
 from uuid import uuid4
 
 import pandas as pd
@@ -80,6 +78,8 @@ class CSVParser:
         history_df = pd.read_csv(history_data, sep=sep_history) if isinstance(history_data,
                                                                               str) else history_data.copy()
 
+        graph_df = graph_df.reset_index(drop=True)
+
         if 'predecessor_ids' not in graph_df.columns and history_df.shape[0] == 0:
             raise InputDataException(
                 'you have neither history data about tasks nor tasks\' connection info in received .csv file.')
@@ -123,16 +123,9 @@ class CSVParser:
         if name_mapper:
             works_info.activity_name = works_info.activity_name.apply(lambda name: name_mapper[name])
 
-        resources = [dict((worker_req.kind, int(worker_req.volume))
-                          for worker_req in work_resource_estimator.find_work_resources(model_name=w[0],
-                                                                                        work_volume=float(w[1])))
-                     for w in works_info.loc[:, ['model_name', 'volume']].to_numpy()]
-
-        unique_res = list(set(chain(*[r.keys() for r in resources])))
-
         works_resources = add_graph_info(works_info)
         works_resources = topsort_graph_df(works_resources)
-        work_graph = build_work_graph(works_resources, unique_res, work_resource_estimator)
+        work_graph = build_work_graph(works_resources, work_resource_estimator)
 
         return work_graph
 
@@ -175,18 +168,18 @@ class CSVParser:
 
         if isinstance(contractor_info, list):
             contractors = contractor_info
-        elif isinstance(contractor_info, str):
+        elif isinstance(contractor_info, (str, pd.DataFrame)):
             # if contractor info is given or contractor info and work resource estimator are received simultaneously
             contractor_df = pd.read_csv(contractor_info, sep=';', header=0) if isinstance(contractor_info,
                                                                                           str) else contractor_info
             for index, row in contractor_df.iterrows():
                 specified_id = 'contractor_id' in contractor_df.columns
                 column_lag = 2 if specified_id else 1
-                contractor_id = row['contractor_id'] if specified_id else str(uuid4())
+                contractor_id = str(row['contractor_id']) if specified_id else str(uuid4())
                 contractors.append(
                     Contractor(id=contractor_id,
                                name=row['name'],
-                               workers={item[0]: Worker(str(ind), str(item[0]), int(item[1])) for ind, item in
+                               workers={item[0]: Worker(str(ind), str(item[0]), int(item[1]), contractor_id) for ind, item in
                                         enumerate(row[column_lag:].items())},
                                equipments=dict())
                 )
diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 23fb7bc..4b893b6 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -156,9 +156,11 @@ def fix_df_column_with_arrays(column: pd.Series, cast: Callable[[str], Any] | No
 
 def preprocess_graph_df(frame: pd.DataFrame,
                         name_mapper: NameMapper | None = None) -> pd.DataFrame:
+    activity_ids = set(frame['activity_id'].astype(str))
+
     def normalize_if_number(s):
         return str(int(float(s))) \
-            if s.replace('.', '', 1).isdigit() \
+            if s not in activity_ids and s.replace('.', '', 1).isdigit() \
             else s
 
     temp_lst = [math.nan] * frame.shape[0]
@@ -167,16 +169,19 @@ def preprocess_graph_df(frame: pd.DataFrame,
         if col not in frame.columns:
             frame[col] = temp_lst
 
-    if 'model_name' not in frame.columns:
-        frame['model_name'] = ''
-
     def map_activity(row):
-        model_name_dict = eval(row['model_name'])
+        model_name_dict = literal_eval(row['model_name']) if 'model_name' in frame.columns else {}
+        for key in ['granular_name', 'measurement']:
+            if key not in model_name_dict and key in frame.columns:
+                model_name_dict[key] = row[key]
         if 'granular_name' not in model_name_dict:
-            model_name_dict['granular_name'] = name_mapper[row['activity_name']]
+            model_name_dict['granular_name'] = name_mapper[row['activity_name']] if name_mapper is not None \
+                else row['activity_name']
         return str(model_name_dict)
 
-    frame['model_name'] = frame[['activity_name', 'model_name']].apply(map_activity, axis=1)
+    frame['model_name'] = frame.apply(map_activity, axis=1)
+    if 'granular_name' not in frame.columns:
+        frame['granular_name'] = frame['model_name'].apply(lambda name: literal_eval(name)['granular_name'])
 
     frame['activity_id'] = frame['activity_id'].astype(str)
     frame['volume'] = [float(x.replace(',', '.')) if isinstance(x, str) else float(x) for x in frame['volume']]
@@ -184,17 +189,22 @@ def preprocess_graph_df(frame: pd.DataFrame,
     if 'min_req' in frame.columns and 'max_req' in frame.columns:
         frame['min_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['min_req']]
         frame['max_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['max_req']]
+        if 'req_volume' in frame.columns:
+            frame['req_volume'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['req_volume']]
 
     frame['predecessor_ids'] = fix_df_column_with_arrays(frame['predecessor_ids'], cast=normalize_if_number)
     frame['connection_types'] = fix_df_column_with_arrays(frame['connection_types'],
                                                           cast=EdgeType,
                                                           none_elem=EdgeType.FinishStart)
-    if 'lags' not in frame.columns:
-        frame['lags'] = [NONE_ELEM] * len(frame)
-    frame['lags'] = fix_df_column_with_arrays(frame['lags'], float)
+    frame['lags'] = fix_df_column_with_arrays(frame['lags'], float, none_elem=0.0)
     for col in ['predecessor_ids', 'connection_types', 'lags', 'counts']:
         frame[col] = frame[col].astype(object)
 
+    # the types and lags that are not specified
+    for ids, types, lags in zip(frame['predecessor_ids'], frame['connection_types'], frame['lags']):
+        types.extend([EdgeType.FinishStart] * (len(ids) - len(types)))
+        lags.extend([0.0] * (len(ids) - len(lags)))
+
     for _, row in frame.iterrows():
         frame.at[_, 'counts'] = [np.iinfo(np.int64).max] * len(frame.at[_, 'lags'])
 
@@ -240,20 +250,20 @@ def topsort_graph_df(frame: pd.DataFrame) -> pd.DataFrame:
     return frame
 
 
-def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estimator: WorkTimeEstimator) -> WorkGraph:
+def build_work_graph(frame: pd.DataFrame, work_estimator: WorkTimeEstimator) -> WorkGraph:
     id_to_node = {}
 
     for _, row in frame.iterrows():
         if 'min_req' in frame.columns and 'max_req' in frame.columns and 'req_volume' in frame.columns:
             reqs = []
-            for res_name in resource_names:
-                if res_name in row['min_req'] and res_name in row['max_req']:
+            for res_name in row['min_req']:
+                if res_name in row['max_req']:
                     if 0 < row['min_req'][res_name] <= row['max_req'][res_name]:
                         reqs.append(WorkerReq(res_name, Time(int(row['req_volume'][res_name])),
                                               row['min_req'][res_name],
                                               row['max_req'][res_name]))
         else:
-            reqs = work_estimator.find_work_resources(model_name=eval(row['model_name']),
+            reqs = work_estimator.find_work_resources(model_name=literal_eval(row['model_name']),
                                                       work_volume=float(row['volume']))
         is_service_unit = len(reqs) == 0
 
@@ -264,7 +274,7 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
         group = row['group'] if 'group' in frame.columns else 'main project'
         priority = row['priority'] if 'priority' in frame.columns else 1
 
-        work_unit = WorkUnit(row['activity_id'], row['model_name'], reqs, group=group,
+        work_unit = WorkUnit(row['activity_id'], literal_eval(row['model_name']), reqs, group=group,
                              description=description, volume=row['volume'],
                              is_service_unit=is_service_unit, display_name=row['activity_name_original'],
                              zone_reqs=zone_reqs, priority=priority)
@@ -272,8 +282,7 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
         node = GraphNode(work_unit, parents)
         id_to_node[row['activity_id']] = node
 
-    all_nodes = [id_to_node[index] for index in list(set(id_to_node.keys()))]
-    return WorkGraph.from_nodes(all_nodes)
+    return WorkGraph.from_nodes(list(id_to_node.values()))
 
 
 def get_graph_contractors(path: str, contractor_name: str | None = 'ООО "***"') -> (
-- 
2.43.0


From 38c224f712147c90af67823dbaf0d80b1f04626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 48/68] fix: linked lists, sorted lists and intervals keep
 their contracts

---
 sampo/schemas/interval.py      | 17 ++++++++++-------
 sampo/schemas/sorted_list.py   |  3 ++-
 sampo/utilities/linked_list.py |  8 ++++++--
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/sampo/schemas/interval.py b/sampo/schemas/interval.py
index c328246..71c1aa9 100644
--- a/sampo/schemas/interval.py
+++ b/sampo/schemas/interval.py
@@ -1,3 +1,4 @@
+import math
 import random
 from abc import abstractmethod, ABC
 from dataclasses import dataclass
@@ -7,7 +8,7 @@ from typing import Optional
 from sampo.schemas.serializable import AutoJSONSerializable
 
 # to work with float and avoid errors due to inaccuracy
-EPS = 1e5
+EPS = 1e-5
 # to work with distributions when certain start and finish value is undefined
 INF = float('inf')
 MINUS_INF = float('-inf')
@@ -76,9 +77,10 @@ class IntervalUniform(Interval):
         """
         rand = rand or self.rand or random
         value = round(rand.uniform(self.min_val, self.max_val))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
+        if value < self.min_val:
+            value = math.ceil(self.min_val - EPS)
+        if value > self.max_val:
+            value = math.floor(self.max_val + EPS)
         return value
 
 
@@ -123,7 +125,8 @@ class IntervalGaussian(Interval):
         """
         rand = rand or self.rand or random
         value = round(rand.gauss(self.mean, self.sigma))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
+        if value < self.min_val:
+            value = math.ceil(self.min_val - EPS)
+        if value > self.max_val:
+            value = math.floor(self.max_val + EPS)
         return value
diff --git a/sampo/schemas/sorted_list.py b/sampo/schemas/sorted_list.py
index ca4d9dc..4eeb7c3 100644
--- a/sampo/schemas/sorted_list.py
+++ b/sampo/schemas/sorted_list.py
@@ -13,7 +13,8 @@ class ExtendedSortedList(SortedKeyList, ABC):
         :param idx: the index
         :param value: value. Should have tha same key even the old value reverenced by `idx`
         """
-        self.merge(self[idx], value, lambda x, y: y)
+        pos, idx = self._pos(idx)
+        self._lists[pos][idx] = value
 
     def merge(self, old, value, merger):
         """
diff --git a/sampo/utilities/linked_list.py b/sampo/utilities/linked_list.py
index 9819f77..966d268 100644
--- a/sampo/utilities/linked_list.py
+++ b/sampo/utilities/linked_list.py
@@ -17,7 +17,7 @@ class Iterator(Generic[T]):
         self._prev = None
 
     def __iter__(self):
-        while self._node.next is not None:
+        while self._node is not None:
             yield self._node
             self.__next__()
 
@@ -36,15 +36,19 @@ class Iterator(Generic[T]):
         return self._node is not None
 
     def remove(self) -> T:
-        if self._node == self._lst._root:
+        if self._node is self._lst._root:
             old = self._lst._root
             self._lst._root = old.next
+            if old.next is None:
+                self._lst._tail = None
             self._node = self._lst._root
             self._lst._len -= 1
             return old.value
         node = self._node
         next = node.next
         self._prev.next = next
+        if next is None:
+            self._lst._tail = self._prev
         self._node = next
         self._lst._len -= 1
         return node.value
-- 
2.43.0


From 3946607b08a52c9cd2e22351bd5276294ab35bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:23 +0000
Subject: [PATCH 49/68] fix: sum of resources usage refers to workers by name

---
 sampo/utilities/resource_usage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/utilities/resource_usage.py b/sampo/utilities/resource_usage.py
index faab513..05c13e4 100644
--- a/sampo/utilities/resource_usage.py
+++ b/sampo/utilities/resource_usage.py
@@ -47,7 +47,7 @@ def resources_sum(schedule: Schedule, resources_names: Iterable[str] | None = No
     resources_names = set(resources_names) if not is_none else {}
 
     res_sum = sum([sum([worker.count * work.duration.value for worker in work.workers
-                        if worker.model_name in resources_names or is_none], start=0)
+                        if worker.name in resources_names or is_none], start=0)
                    for work in schedule.works])
 
     return res_sum
-- 
2.43.0


From 5339cab842cb0f0ad46c7cfa002e0cd0474e7ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:23 +0000
Subject: [PATCH 50/68] fix: stochastic productivity of the default estimator
 lies in [0, 1]

---
 sampo/schemas/time_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 441124b..8500783 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -63,7 +63,7 @@ class DefaultWorkEstimator(WorkTimeEstimator):
         self._estimation_mode = WorkEstimationMode.Realistic
         self.rand = rand
         self._productivity_mode = WorkerProductivityMode.Static
-        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 1, 0)}
+        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 0, 1)}
                               for worker in ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']}
 
     def find_work_resources(self,
-- 
2.43.0


From 27bcdfde9e109f973e135f61eeac84bc3ed1ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:23 +0000
Subject: [PATCH 51/68] fix: default estimator estimates works of any kinds of
 workers

---
 sampo/schemas/time_estimator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 8500783..a06be23 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -22,6 +22,10 @@ class WorkEstimationMode(Enum):
     Optimistic = 1
 
 
+# productivity of the workers that is used while it is not set
+DEFAULT_PRODUCTIVITY = IntervalGaussian(1, 0.2, 0, 1)
+
+
 class WorkTimeEstimator(ABC):
     """
     Implementation of time estimator of work with a given set of resources.
@@ -63,7 +67,7 @@ class DefaultWorkEstimator(WorkTimeEstimator):
         self._estimation_mode = WorkEstimationMode.Realistic
         self.rand = rand
         self._productivity_mode = WorkerProductivityMode.Static
-        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 0, 1)}
+        self._productivity = {worker: {'__ALL__': DEFAULT_PRODUCTIVITY}
                               for worker in ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']}
 
     def find_work_resources(self,
@@ -118,8 +122,9 @@ class DefaultWorkEstimator(WorkTimeEstimator):
         :param max_count_workers: maximum workers count according to worker reqs
         :return:
         """
-        worker_productivities = self._productivity[worker.name]
-        productivity_interval = worker_productivities.get(worker.contractor_id, worker_productivities['__ALL__'])
+        worker_productivities = self._productivity.get(worker.name, {})
+        productivity_interval = worker_productivities.get(worker.contractor_id,
+                                                          worker_productivities.get('__ALL__', DEFAULT_PRODUCTIVITY))
         productivity = productivity_interval.mean \
             if self._productivity_mode is WorkerProductivityMode.Static \
             else productivity_interval.rand_float(self.rand)
@@ -127,9 +132,9 @@ class DefaultWorkEstimator(WorkTimeEstimator):
 
     def set_worker_productivity(self, productivity: Interval, name: str, contractor: str | None = None):
         if contractor is None:
-            self._productivity[name]['__ALL__'] = productivity
+            self._productivity.setdefault(name, {})['__ALL__'] = productivity
             return
-        self._productivity[name][contractor] = productivity
+        self._productivity.setdefault(name, {})[contractor] = productivity
 
     def get_recreate_info(self) -> tuple[Type, tuple]:
         return DefaultWorkEstimator, ()
-- 
2.43.0


From 1bb4608f7402d38979aaff50f8b7045791ac0b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 52/68] fix: deadline search tries the maximum resources

---
 sampo/scheduler/resources_in_time/average_binary_search.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index 364eff7..7d7ad22 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -96,4 +96,7 @@ class AverageBinarySearchResourceOptimizingScheduler:
 
             if best_left_fit < Time.inf():
                 return call_scheduler(best_left_m, copied_spec)
+            # the search comes close to the maximum resources but doesn't reach them
+            if fitness(k_min, copied_spec) <= deadline:
+                return call_scheduler(k_min, copied_spec)
             return call_scheduler(best_right_m, copied_spec)
-- 
2.43.0


From d822638638878693c46178e7d509370af454333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 53/68] fix: land graph nodes accept neighbours, have unique
 ids and know their neighbours

---
 sampo/schemas/landscape_graph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 828be0e..71c9b9c 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -38,7 +38,7 @@ class ResourceStorageUnit:
 
 class LandGraphNode:
     def __init__(self,
-                 id: str = str(uuid.uuid4()),
+                 id: str | None = None,
                  name: str = 'platform',
                  resource_storage_unit: ResourceStorageUnit = ResourceStorageUnit(),
                  neighbour_nodes: list[tuple['LandGraphNode', float, int]] | None = None,
@@ -50,11 +50,11 @@ class LandGraphNode:
         :param resource_storage_unit: object that saves info about the resources in the current node
         (in other words platform)
         """
-        self.id = id
+        self.id = id if id is not None else str(uuid.uuid4())
         self.name = name
-        if not (neighbour_nodes is None):
-            self.add_neighbours(neighbour_nodes)
         self._roads: list[LandEdge] = []
+        if neighbour_nodes is not None:
+            self.add_neighbours(neighbour_nodes)
         self.nodes: list['GraphNode'] = []
         if works is not None:
             self.nodes.extend(works) if isinstance(works, list) else self.nodes.append(works)
@@ -63,7 +63,7 @@ class LandGraphNode:
     def __hash__(self):
         return hash(self.id)
 
-    @cached_property
+    @property
     def neighbours(self) -> list['LandGraphNode']:
         if self._roads:
             return [neighbour_edge.finish for neighbour_edge in self._roads]
-- 
2.43.0


From 942a59ebf9bb8d6c5ca868e3a932424c84ff87e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 54/68] fix: routes take the shortest available road when
 several roads connect two nodes, and roads of length 0

---
 sampo/schemas/landscape.py       | 29 +++++++++++------------------
 sampo/schemas/landscape_graph.py |  3 ++-
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/sampo/schemas/landscape.py b/sampo/schemas/landscape.py
index ca362e4..2e57579 100644
--- a/sampo/schemas/landscape.py
+++ b/sampo/schemas/landscape.py
@@ -141,7 +141,8 @@ class LandscapeConfiguration:
         return [self.road_mx[path[v - 1]][path[v]] for v in range(len(path) - 1, 0, -1)]
 
     def _dijkstra(self, node_ind: int, distances: list[float], path_mx: np.ndarray, roads_available_set: set[str]) \
-            -> np.ndarray:
+            -> tuple[np.ndarray, dict[int, str]]:
+        last_road: dict[int, str] = {}
         prior_queue = [(.0, node_ind)]
         distances[node_ind] = 0
 
@@ -159,8 +160,9 @@ class LandscapeConfiguration:
                 if d < distances[finish_ind]:
                     distances[finish_ind] = d
                     path_mx[node_ind][finish_ind] = v
+                    last_road[finish_ind] = road.id
                     heapq.heappush(prior_queue, (d, finish_ind))
-        return path_mx
+        return path_mx, last_road
 
     def construct_route(self, from_node: LandGraphNode, to_node: LandGraphNode,
                         roads_available: list[Road]) -> list[str]:
@@ -170,32 +172,24 @@ class LandscapeConfiguration:
         :return: list of roads' id that are included to the route whether it exists, otherwise return empty list
         """
 
-        adj_matrix = self.lg.adj_matrix.copy()
         distances = [self.WAY_LENGTH] * self.lg.vertex_count
         path_mx = np.full((self.lg.vertex_count, self.lg.vertex_count), -1)
         roads_available_set = set(road.id for road in roads_available)
-        for v in range(self.lg.vertex_count):
-            for u in range(self.lg.vertex_count):
-                if v == u:
-                    path_mx[v][u] = 0
-                elif adj_matrix[v][u] != np.inf and self.road_mx[v][u] in roads_available_set:
-                    path_mx[v][u] = v
 
         from_ind = self._node2ind[from_node]
         to_ind = self._node2ind[to_node]
-        path_mx = self._dijkstra(to_ind, distances, path_mx, roads_available_set)
+        path_mx, last_road = self._dijkstra(to_ind, distances, path_mx, roads_available_set)
 
         if path_mx[to_ind][from_ind] == -1:
             return []
 
+        route = []
         fr = from_ind
-        path = [from_ind]
-        while path_mx[to_ind][fr] != to_ind:
-            path.append(path_mx[to_ind][fr])
+        while fr != to_ind:
+            route.append(last_road[fr])
             fr = path_mx[to_ind][fr]
-        path.append(to_ind)
 
-        return [self.road_mx[path[v]][path[v + 1]] for v in range(len(path) - 1)]
+        return route
 
     @cached_property
     def holders(self) -> list[ResourceHolder]:
@@ -249,7 +243,7 @@ class LandscapeConfiguration:
                 elif dist_mx[v][u] != np.inf:
                     path_mx[v][u] = v
                     for road in self.lg.nodes[v].roads:
-                        if self.lg.node2ind[road.finish] == u:
+                        if self.lg.node2ind[road.finish] == u and road.weight == dist_mx[v][u]:
                             road_mx[v][u] = road.id
                 else:
                     path_mx[v][u] = -1
@@ -257,8 +251,7 @@ class LandscapeConfiguration:
         for i in range(self.lg.vertex_count):
             for u in range(self.lg.vertex_count):
                 for v in range(self.lg.vertex_count):
-                    if (dist_mx[u][i] != np.inf and dist_mx[u][i] != 0
-                            and dist_mx[i][v] != np.inf and dist_mx[i][v] != 0
+                    if (u != v and dist_mx[u][i] != np.inf and dist_mx[i][v] != np.inf
                             and dist_mx[u][i] + dist_mx[i][v] < dist_mx[u][v]):
                         dist_mx[u][v] = dist_mx[u][i] + dist_mx[i][v]
                         path_mx[u][v] = path_mx[i][v]
diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 71c9b9c..7c832d0 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -140,6 +140,7 @@ class LandGraph:
         for v, i in node2ind.items():
             for child in v.roads:
                 c_i = node2ind[child.finish]
-                adj_mtrx[i, c_i] = child.weight
+                # there can be several roads between two nodes
+                adj_mtrx[i, c_i] = min(adj_mtrx[i, c_i], child.weight)
 
         return adj_mtrx, node2ind, id2ind
-- 
2.43.0


From c8a4be9fd56d95b890bdfcee55d3e07358bd9dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 55/68] fix: borders and number of clusters of synthetic graphs
 hold, small graphs follow the seed

---
 sampo/generator/pipeline/project.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sampo/generator/pipeline/project.py b/sampo/generator/pipeline/project.py
index a8031de..2b86bcd 100644
--- a/sampo/generator/pipeline/project.py
+++ b/sampo/generator/pipeline/project.py
@@ -101,12 +101,14 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
     stages = []
 
     while True:
-        if cluster_counts > 0 and cluster_counts == len(stages) - 1:
+        if cluster_counts > 0 and cluster_counts == len(stages) + 1:
             addition_cluster_probability = 0
 
         checkpoints, roads, count_works = _get_cluster_graph(f'{cluster_name_prefix}{masters_clusters_ind}',
                                                              addition_cluster_probability=addition_cluster_probability,
                                                              rand=rand)
+        if 0 < top_border < works_generated + count_works:
+            break
         root_stage = get_root_stage(stages, branching_probability, rand)
         if root_stage is not None:
             for checkpoint in checkpoints:
@@ -116,12 +118,11 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
         masters_clusters_ind += 1
         works_generated += count_works
 
-        if (0 < bottom_border <= works_generated or 0 < top_border < count_works + works_generated
-                or 0 < cluster_counts <= (len(stages) - 1)):
+        if 0 < bottom_border <= works_generated or 0 < cluster_counts <= len(stages):
             break
 
-    if len(stages) == 1:
-        return get_small_graph(cluster_name=f'{cluster_name_prefix}1')
+    if not stages:
+        return get_small_graph(cluster_name=f'{cluster_name_prefix}1', rand=rand)
 
     nodes = [road for _, roads in stages for road in roads.values()]
     nodes.extend([c for c, _ in stages])
-- 
2.43.0


From 76235f94740240a6047ef0532e9818ffd508a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 56/68] fix: extended graphs get new names of works and follow
 the seed

---
 sampo/generator/pipeline/extension.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sampo/generator/pipeline/extension.py b/sampo/generator/pipeline/extension.py
index a91237d..6ab8d45 100644
--- a/sampo/generator/pipeline/extension.py
+++ b/sampo/generator/pipeline/extension.py
@@ -11,7 +11,7 @@ def _extend_str_fields(new_uniq_count: int, wg: WorkGraph, rand: Random,
                        uniq_finder_str: Callable[[WorkGraph], list[str]],
                        update_node: Callable[[GraphNode, dict[str, list[str]], Random], None]) -> WorkGraph:
     uniq_str = uniq_finder_str(wg)
-    if new_uniq_count <= len(uniq_str):
+    if not uniq_str or new_uniq_count <= len(uniq_str):
         return wg
     wg = deepcopy(wg)
     rand.shuffle(uniq_str)
@@ -23,7 +23,8 @@ def _extend_str_fields(new_uniq_count: int, wg: WorkGraph, rand: Random,
 
 
 def _get_uniq_resource_kinds(wg: WorkGraph) -> list[str]:
-    uniq_res_kinds = list(set(req.kind for req in chain(*[n.work_unit.worker_reqs for n in wg.nodes])))
+    # the order of kinds should depend only on the graph, otherwise the result does not follow the seed
+    uniq_res_kinds = sorted(set(req.kind for req in chain(*[n.work_unit.worker_reqs for n in wg.nodes])))
     return uniq_res_kinds
 
 
@@ -38,16 +39,20 @@ def _update_resource_names(node: GraphNode, name_to_suffixes: dict[str, list[str
 
 
 def _get_uniq_work_names(wg: WorkGraph) -> list[str]:
-    start_finish_names = {wg.start.work_unit.name, wg.finish.work_unit.name}
-    uniq_work_names = list(set(node.work_unit.name for node in wg.nodes) - start_finish_names)
+    start_finish_names = {node.work_unit.model_name['granular_name'] for node in (wg.start, wg.finish)}
+    uniq_work_names = sorted(set(node.work_unit.model_name['granular_name'] for node in wg.nodes) - start_finish_names)
     return uniq_work_names
 
 
 def _update_work_name(node: GraphNode, name_to_suffixes: dict[str, list[str]], rand: Random) -> None:
-    name = node.work_unit.name
+    work_unit = node.work_unit
+    name = work_unit.model_name['granular_name']
     if name in name_to_suffixes:
         options = name_to_suffixes[name]
-        node.work_unit.name = name + options[rand.randint(0, len(options)-1)]
+        new_name = name + options[rand.randint(0, len(options)-1)]
+        if work_unit.display_name == name:
+            work_unit.display_name = new_name
+        work_unit.model_name = {**work_unit.model_name, 'granular_name': new_name}
 
 
 def extend_resources(uniq_resources: int, wg: WorkGraph, rand: Random) -> WorkGraph:
-- 
2.43.0


From 2cb3ac46ef3c503c1dedd9e8193b1d8bbd29c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:00 +0000
Subject: [PATCH 57/68] fix: borders for kinds of materials hold and the
 materials follow the seed

---
 sampo/generator/base.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sampo/generator/base.py b/sampo/generator/base.py
index c34f3ce..90b406d 100644
--- a/sampo/generator/base.py
+++ b/sampo/generator/base.py
@@ -88,20 +88,19 @@ class SimpleSynthetic:
         """
         if materials_name is None:
             materials_name = ['stone', 'brick', 'sand', 'rubble', 'concrete', 'metal']
-            bottom_border = 2
-            top_border = 6
-        else:
             if bottom_border is None:
-                bottom_border = len(materials_name) // 2
-            if top_border is None:
-                top_border = len(materials_name)
+                bottom_border = 2 if top_border is None else min(2, top_border)
+        if top_border is None:
+            top_border = len(materials_name)
+        if bottom_border is None:
+            bottom_border = min(len(materials_name) // 2, top_border)
 
         if bottom_border > len(materials_name) or top_border > len(materials_name):
             raise ValueError('The borders are out of the range of materials_name')
 
         for node in wg.nodes:
             if not node.work_unit.is_service_unit:
-                work_materials = list(set(self._rand.choices(materials_name, k=self._rand.randint(bottom_border, top_border))))
+                work_materials = self._rand.sample(materials_name, k=self._rand.randint(bottom_border, top_border))
                 node.work_unit.material_reqs = [MaterialReq(name, self._rand.randint(52, 345), name) for name in
                                                 work_materials]
 
-- 
2.43.0


From 95f706d725e3686ee3100e7438149fde2955160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 58/68] fix: sampler follows its seed in every process

---
 sampo/utilities/sampler/requirements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/utilities/sampler/requirements.py b/sampo/utilities/sampler/requirements.py
index 2bbeb2d..c9836f9 100644
--- a/sampo/utilities/sampler/requirements.py
+++ b/sampo/utilities/sampler/requirements.py
@@ -19,7 +19,8 @@ def get_worker_reqs_list(rand: random.Random,
                          volume: Optional[MinMax[int]] = MinMax[int](1, 50),
                          worker_count: Optional[MinMax[int]] = MinMax[int](1, 100)
                          ) -> list[WorkerReq]:
-    names: list[WorkerSpecialization] = list(WORKER_TYPES)
+    # the order of types in the set differs between processes
+    names: list[WorkerSpecialization] = sorted(WORKER_TYPES)
     rand.shuffle(names)
     req_count = rand.randint(1, len(names))
     names = names[:req_count]
-- 
2.43.0


From c8de3d4d49963d8c7e64f439dd754399d7ffb2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 59/68] fix: vehicles of synthetic landscapes can carry
 something

---
 sampo/generator/environment/landscape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/generator/environment/landscape.py b/sampo/generator/environment/landscape.py
index 1edea2f..dfb97f8 100644
--- a/sampo/generator/environment/landscape.py
+++ b/sampo/generator/environment/landscape.py
@@ -166,7 +166,7 @@ def get_landscape_by_wg(wg: WorkGraph, rnd: random.Random) -> LandscapeConfigura
         holders.append(ResourceHolder(str(uuid.uuid4()), holders_node[-1].name,
                                       vehicles=[
                                           Vehicle(str(uuid.uuid4()), f'vehicle{j}',
-                                                  [Material(name, name, count // 2)
+                                                  [Material(name, name, max(count // 2, 1))
                                                    for name, count in max_materials.items()])
                                           for j in range(vehicles_number)
                                       ], node=holders_node[-1]))
-- 
2.43.0


From ee18fb9a55192373d1149f465ad684290bdf2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:47 +0000
Subject: [PATCH 60/68] fix: heuristic populations are made of the schedules
 with their orders

---
 sampo/hybrid/population.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/hybrid/population.py b/sampo/hybrid/population.py
index 0c635da..c3d7f4d 100644
--- a/sampo/hybrid/population.py
+++ b/sampo/hybrid/population.py
@@ -49,6 +49,7 @@ class HeuristicPopulationScheduler(PopulationScheduler):
         toolbox = create_toolbox(wg=wg, contractors=contractors,
                                  spec=spec, assigned_parent_time=assigned_parent_time,
                                  landscape=landscape)
-        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule))
+        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule, order=node_order))
                 for scheduler in self._schedulers
-                for schedule in scheduler.schedule(wg, contractors, spec, landscape=landscape)]
+                for schedule, _, _, node_order in scheduler.schedule_with_cache(wg, contractors, spec,
+                                                                                landscape=landscape)]
-- 
2.43.0


From 4bdcc3d0044cc2d9b4c3bbf30d8e5a21aea276ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 61/68] fix: hybrid cycles evaluate populations for their own
 project, best individual for several goals

---
 sampo/hybrid/cycle.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/sampo/hybrid/cycle.py b/sampo/hybrid/cycle.py
index 79e2204..83df23e 100644
--- a/sampo/hybrid/cycle.py
+++ b/sampo/hybrid/cycle.py
@@ -1,5 +1,3 @@
-import numpy as np
-
 from sampo.api.genetic_api import FitnessFunction, ChromosomeType, ScheduleGenerationScheme
 from sampo.base import SAMPO
 from sampo.hybrid.population import PopulationScheduler
@@ -20,26 +18,40 @@ class CycleHybridScheduler:
         self._fitness = fitness
         self._max_plateau_size = max_plateau_size
 
+    @staticmethod
+    def _prepare_backend(wg: WorkGraph,
+                         contractors: list[Contractor],
+                         spec: ScheduleSpec,
+                         assigned_parent_time: Time,
+                         sgs_type: ScheduleGenerationScheme,
+                         landscape: LandscapeConfiguration):
+        # the backend may know nothing about this project yet, or may be set up by one of the schedulers in other way
+        SAMPO.backend.cache_scheduler_info(wg, contractors, landscape, spec)
+        SAMPO.backend.cache_genetic_info(assigned_parent_time=assigned_parent_time, fitness_weights=(-1,),
+                                         sgs_type=sgs_type)
+
     def _get_population_fitness(self, pop: list[ChromosomeType]):
         # return best chromosome's fitness
         return min(SAMPO.backend.compute_chromosomes(self._fitness, pop))
 
     def _get_best_individual(self, pop: list[ChromosomeType]) -> ChromosomeType:
         fitness = SAMPO.backend.compute_chromosomes(self._fitness, pop)
-        return pop[np.argmin(fitness)]
+        return pop[min(range(len(pop)), key=fitness.__getitem__)]
 
     def run(self,
             wg: WorkGraph,
             contractors: list[Contractor],
             spec: ScheduleSpec = ScheduleSpec(),
             assigned_parent_time: Time = Time(0),
-            landscape: LandscapeConfiguration = LandscapeConfiguration()) -> ChromosomeType:
+            landscape: LandscapeConfiguration = LandscapeConfiguration(),
+            sgs_type: ScheduleGenerationScheme = ScheduleGenerationScheme.Parallel) -> ChromosomeType:
         pop = self._starting_scheduler.schedule([], wg, contractors, spec, assigned_parent_time, landscape)
 
         cur_fitness = Time.inf().value
         plateau_steps = 0
 
         while True:
+            self._prepare_backend(wg, contractors, spec, assigned_parent_time, sgs_type, landscape)
             pop_fitness = self._get_population_fitness(pop)
             if pop_fitness == cur_fitness:
                 plateau_steps += 1
@@ -61,7 +73,7 @@ class CycleHybridScheduler:
                  assigned_parent_time: Time = Time(0),
                  sgs_type: ScheduleGenerationScheme = ScheduleGenerationScheme.Parallel,
                  landscape: LandscapeConfiguration = LandscapeConfiguration()) -> Schedule:
-        best_ind = self.run(wg, contractors, spec, assigned_parent_time, landscape)
+        best_ind = self.run(wg, contractors, spec, assigned_parent_time, landscape, sgs_type)
 
         toolbox = create_toolbox(wg=wg, contractors=contractors, landscape=landscape,
                                  assigned_parent_time=assigned_parent_time, spec=spec,
-- 
2.43.0


From 6b70cfbe464ecb8bbf230e2969747d5a1969ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 62/68] fix: first population of the multiprocessing backend is
 valid and the same for any number of processes

---
 sampo/backend/multiproc.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index 691ecd1..32101b4 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -13,6 +13,7 @@ from sampo.backend.default import DefaultComputationalBackend
 from sampo.scheduler.genetic.operators import Individual
 from sampo.scheduler.genetic.utils import create_toolbox_using_cached_chromosomes, init_chromosomes_f
 from sampo.scheduler.heft import HEFTScheduler, HEFTBetweenScheduler
+from sampo.scheduler.lft.base import LFTScheduler
 from sampo.scheduler.resource import AverageReqResourceOptimizer
 from sampo.scheduler.resources_in_time import AverageBinarySearchResourceOptimizingScheduler
 from sampo.scheduler.topological.base import RandomizedTopologicalScheduler
@@ -158,10 +159,12 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         self._ensure_toolbox_created()
         self._ensure_pool_created()
 
-        def mapper(key: str):
+        def mapper(key_and_seed: tuple[str, int]):
+            key, seed = key_and_seed
+
             def randomized_init():
-                schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, int(g_rand.random() * 1000000)) \
-                    .schedule_with_cache(g_wg, g_contractors, landscape=g_landscape)[0]
+                schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, seed) \
+                    .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
             def init_k_schedule(scheduler_class, k) -> tuple[Schedule | None, list[GraphNode] | None, ScheduleSpec | None]:
@@ -170,7 +173,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                                                                   resource_optimizer=AverageReqResourceOptimizer(k))
                                                   .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                        landscape=g_landscape))[0]
-                    return schedule, node_order[::-1], g_spec
+                    return schedule, node_order, g_spec
                 except NoSufficientContractorError:
                     return None, None, None
 
@@ -180,7 +183,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         schedule, _, _, node_order = (scheduler_class(work_estimator=g_work_estimator)
                                                       .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                            landscape=g_landscape))[0]
-                        return schedule, node_order[::-1], g_spec
+                        return schedule, node_order, g_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
@@ -190,7 +193,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         (schedule, _, _, node_order), modified_spec = AverageBinarySearchResourceOptimizingScheduler(
                             scheduler_class(work_estimator=g_work_estimator)
                         ).schedule_with_cache(g_wg, g_contractors, g_deadline, g_spec, landscape=g_landscape)
-                        return schedule, node_order[::-1], modified_spec
+                        return schedule, node_order, modified_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
@@ -198,6 +201,8 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                 return g_toolbox.schedule_to_chromosome(schedule=schedule, spec=spec, order=priority_list)
 
             match key:
+                case 'lft':
+                    return convert(*init_schedule(LFTScheduler))
                 case 'heft_end':
                     return convert(*init_schedule(HEFTScheduler))
                 case 'heft_between':
@@ -213,7 +218,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                 case 'randomized':
                     return convert(*randomized_init())
 
-        weights = self._weights or [2, 2, 1, 1, 1, 1]
+        weights = self._weights or [2, 2, 2, 1, 1, 1, 1]
 
         count_for_specified_types = (size_population // 3) // len(weights)
         count_for_specified_types = count_for_specified_types if count_for_specified_types > 0 else 1
@@ -227,8 +232,11 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         count_for_topological = count_for_topological if count_for_topological > 0 else 1
         counts += [count_for_topological]
 
-        chromosome_keys = ['heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
+        chromosome_keys = ['lft', 'heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
         chromosome_types = self._rand.sample(chromosome_keys, k=size_population, counts=counts)
 
-        chromosomes = self.map(mapper, chromosome_types)
+        # seeds are drawn here, so the population doesn't depend on which process makes which chromosome
+        seeds = [int(self._rand.random() * 1000000) for _ in chromosome_types]
+
+        chromosomes = self.map(mapper, list(zip(chromosome_types, seeds)))
         return [self._toolbox.Individual(chromosome) for chromosome in chromosomes]
-- 
2.43.0


From e00b3c30730c1281d3bd027d580ab3b563468177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 63/68] fix: schedules made by the parallel scheme come with
 their order of works

---
 sampo/scheduler/genetic/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index afdadd2..a8d2f4f 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -158,7 +158,7 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
     if not isinstance(timeline, JustInTimeTimeline):
         timeline = JustInTimeTimeline(worker_pool, landscape)
 
-    order_nodes = []
+    order_nodes = [index2node[work_index] for work_index in works_order]
 
     # timeline to store starts and ends of all works
     work_timeline = GeneralTimeline()
-- 
2.43.0


From c2ddd408aed961250ec3614a9fea708ebfad44d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 64/68] fix: the to-start supply timeline keeps vehicles busy
 and consumes materials of the platform

---
 sampo/scheduler/timeline/to_start_supply_timeline.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/timeline/to_start_supply_timeline.py b/sampo/scheduler/timeline/to_start_supply_timeline.py
index c6336b8..d26a462 100644
--- a/sampo/scheduler/timeline/to_start_supply_timeline.py
+++ b/sampo/scheduler/timeline/to_start_supply_timeline.py
@@ -196,7 +196,7 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
                                                                           route_start_time,
                                                                           exec_return_time + exec_ahead_time)
 
-                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries
+                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries, selected_vehicles
 
         delivery = MaterialDelivery(node.id)
 
@@ -224,7 +224,8 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
             start_delivery_time += 1
 
             local_min_start_time = Time.inf()
-            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries in get_finish_time(start_delivery_time):
+            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries, vehicles \
+                    in get_finish_time(start_delivery_time):
                 if local_min_start_time > depot_vehicle_start_time and (finish_delivery_time > deadline
                                                                         and depot_vehicle_start_time + exec_ahead_time < finish_delivery_time
                                                                         or finish_delivery_time < deadline):
@@ -234,6 +235,7 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
                     local_min_start_time = depot_vehicle_start_time
                     finish_delivery_time = depot_vehicle_start_time + exec_ahead_time
                     selected_depot = depot
+                    selected_vehicles = vehicles
 
                     road_deliveries = deliveries
 
@@ -257,7 +259,9 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
                 update_timeline_info[road_id].append(res_info)
 
         node_mat_req = {mat.name: mat.count for mat in node.work_unit.need_materials()}
-        update_mat_req_info = [(mat.name, node_mat_req[mat.name] - mat.count, finish_delivery_time) for mat in materials]
+        delivered = {mat.name: mat.count for mat in materials}
+        update_mat_req_info = [(name, count - delivered.get(name, 0), finish_delivery_time)
+                               for name, count in node_mat_req.items()]
         self._platform_timeline.update_timeline(platform.id, update_mat_req_info)
 
         self._update_timeline(update_timeline_info)
-- 
2.43.0


From 9749ce46925daa23c7baca397be289381c2d07d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:47 +0000
Subject: [PATCH 65/68] fix: momentum timeline finds times for crews in any
 order of kinds

---
 sampo/scheduler/timeline/momentum_timeline.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index 31320a3..980636b 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -181,7 +181,7 @@ class MomentumTimeline(Timeline):
         that are divided into several dependent tasks
         :param parent_time: the minimum start time
         :param exec_time: the time of execution
-        :param passed_workers: list of passed workers. Should be IN THE SAME ORDER AS THE CORRESPONDING WREQS
+        :param passed_workers: list of passed workers
         :return:
         """
         # if it is a service unit, then it can be satisfied by any contractor at any moment
@@ -196,12 +196,15 @@ class MomentumTimeline(Timeline):
         # even if it is scheduled to the very end, e.g., after the end of all other tasks
         # already scheduled to this contractor
 
+        # the crew can have any order and miss the kinds no workers are taken of
+        type2count: dict[str, int] = build_index(passed_workers, lambda w: w.name, lambda w: w.count)
+
         for node in inseparable_chain:
-            for i, wreq in enumerate(node.work_unit.worker_reqs):
+            for wreq in node.work_unit.worker_reqs:
                 initial_event: ScheduleEvent = resource_timeline[wreq.kind][0]
                 assert initial_event.event_type is EventType.INITIAL
                 # if this contractor initially has fewer workers of this type, then needed...
-                if initial_event.available_workers_count < passed_workers[i].count:
+                if initial_event.available_workers_count < type2count.get(wreq.kind, 0):
                     return Time.inf()
 
         # here we look for the earliest time slot that can satisfy all the worker's specializations
@@ -214,8 +217,6 @@ class MomentumTimeline(Timeline):
         start = parent_time
         scheduled_wreqs: list[WorkerReq] = []
 
-        type2count: dict[str, int] = build_index(passed_workers, lambda w: w.name, lambda w: w.count)
-
         i = 0
         while len(queue) > 0:
 
@@ -226,7 +227,7 @@ class MomentumTimeline(Timeline):
             # we look for the earliest time slot starting from 'start' time moment
             # if we have found a time slot for the previous task,
             # we should start to find for the earliest time slot of other task since this new time
-            found_start = self._find_earliest_time_slot(state, start, exec_time, type2count[wreq.kind], spec)
+            found_start = self._find_earliest_time_slot(state, start, exec_time, type2count.get(wreq.kind, 0), spec)
 
             assert found_start >= start
 
-- 
2.43.0


From 40de7adca51c2399a1d95be4cbfec581ee0e6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:54 +0000
Subject: [PATCH 66/68] fix: block graphs can be generated

---
 sampo/scheduler/multi_agency/block_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/multi_agency/block_generator.py b/sampo/scheduler/multi_agency/block_generator.py
index 6038225..8efda21 100644
--- a/sampo/scheduler/multi_agency/block_generator.py
+++ b/sampo/scheduler/multi_agency/block_generator.py
@@ -93,7 +93,7 @@ def generate_blocks(graph_type: SyntheticBlockGraphType, n_blocks: int, type_pro
             bg.add_edge(global_start, node)
             bg.add_edge(node, global_end)
 
-    logger(f'{graph_type.name} ' + ' '.join([str(mode.model_name) for i, mode in enumerate(modes)
+    logger(f'{graph_type.name} ' + ' '.join([str(mode.name) for i, mode in enumerate(modes)
                                              if nodes[i].vertex_count != EMPTY_GRAPH_VERTEX_COUNT]))
     return bg
 
-- 
2.43.0


From eb0dae2cdf5ebbad5034ac321f0db225ee352019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 67/68] fix: united block graphs keep their edges after blocks
 are copied

---
 sampo/scheduler/multi_agency/block_graph.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sampo/scheduler/multi_agency/block_graph.py b/sampo/scheduler/multi_agency/block_graph.py
index a8a808e..385133d 100644
--- a/sampo/scheduler/multi_agency/block_graph.py
+++ b/sampo/scheduler/multi_agency/block_graph.py
@@ -4,6 +4,7 @@ from typing import Callable
 from sampo.scheduler.utils.obstruction import Obstruction
 from sampo.schemas.graph import WorkGraph, GraphNode
 from sampo.schemas.works import WorkUnit
+from sampo.structurator.prepare_wg_copy import prepare_work_graph_copy, new_start_finish
 from sampo.utilities.collections_util import build_index
 
 
@@ -73,20 +74,23 @@ class BlockGraph:
         copied_graph = self.__copy__()
         copied_nodes = copied_graph.nodes
 
-        # nodes are copied as follows, since recursion occurs when attempting to copy WorkGraph normally
+        # the nodes of copied blocks should outlive the blocks, so only their copies get into the united graph
+        borders = {}
         for node in copied_nodes:
-            node.wg = WorkGraph._deserialize(node.wg._serialize())
+            nodes, ids = prepare_work_graph_copy(node.wg, change_id=False)
+            borders[node.id] = new_start_finish(node.wg, nodes, ids)
 
         nodes_without_children = []
 
         global_start = GraphNode(WorkUnit('start', 'start', is_service_unit=True), [])
 
         for end in copied_nodes:
-            end.wg.start.add_parents([start.wg.finish for start in end.blocks_to])
-            if len(end.wg.start.parents) == 0:
-                end.wg.start.add_parents([global_start])
-            if len(end.wg.finish.children) == 0:
-                nodes_without_children.append(end.wg.finish)
+            end_start, end_finish = borders[end.id]
+            end_start.add_parents([borders[start.id][1] for start in end.blocks_to])
+            if len(end_start.parents) == 0:
+                end_start.add_parents([global_start])
+            if len(end_finish.children) == 0:
+                nodes_without_children.append(end_finish)
 
         global_end = GraphNode(WorkUnit('finish', 'finish', is_service_unit=True), nodes_without_children)
 
-- 
2.43.0


From ad0ac4065057752c28deaf53c9d0d6509e0e5689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:24 +0000
Subject: [PATCH 68/68] fix: copies of block graphs keep the direction of edges

---
 sampo/scheduler/multi_agency/block_graph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sampo/scheduler/multi_agency/block_graph.py b/sampo/scheduler/multi_agency/block_graph.py
index 385133d..ee66ae8 100644
--- a/sampo/scheduler/multi_agency/block_graph.py
+++ b/sampo/scheduler/multi_agency/block_graph.py
@@ -57,13 +57,13 @@ class BlockGraph:
         return len(self.nodes)
 
     def __copy__(self) -> 'BlockGraph':
-        parent_ids = [[parent.id for parent in node.blocks_to] for node in self.nodes]
+        child_ids = [[child.id for child in node.blocks_to] for node in self.nodes]
         nodes = [BlockNode(old_node.wg, old_node.obstruction) for old_node in self.nodes]
         nodes_index = build_index(nodes, attrgetter('id'))
 
-        for node, parents in zip(nodes, parent_ids):
-            for parent in parents:
-                BlockGraph.add_edge(nodes_index[parent], node)
+        for node, children in zip(nodes, child_ids):
+            for child in children:
+                BlockGraph.add_edge(node, nodes_index[child])
 
         return BlockGraph(nodes)
 
@@ -86,7 +86,7 @@ class BlockGraph:
 
         for end in copied_nodes:
             end_start, end_finish = borders[end.id]
-            end_start.add_parents([borders[start.id][1] for start in end.blocks_to])
+            end_start.add_parents([borders[start.id][1] for start in end.blocks_from])
             if len(end_start.parents) == 0:
                 end_start.add_parents([global_start])
             if len(end_finish.children) == 0:
-- 
2.43.0


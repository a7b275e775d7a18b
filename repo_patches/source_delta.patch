From dc9b596c2b24b5a661f4046b9100a28bc7b6f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 01/49] fix: distance time model refuses the configurable
 metric 'euclidian'

---
 prodsys/simulation/time_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/time_model.py b/prodsys/simulation/time_model.py
index 13c565a..20460c3 100644
--- a/prodsys/simulation/time_model.py
+++ b/prodsys/simulation/time_model.py
@@ -233,7 +233,7 @@ class DistanceTimeModel(TimeModel):
         Returns:
             float: The distance between the two points.
         """
-        if self.time_model_data.metric == "euclidean":
+        if self.time_model_data.metric in ("euclidian", "euclidean"):
             return np.linalg.norm(np.array(origin) - np.array(target))
         elif self.time_model_data.metric == "manhattan":
             return np.sum(np.abs(np.array(origin) - np.array(target)))
-- 
2.43.0


From 6ecc599c71ef694d5ed0c56996402b81323d6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 02/49] fix: process lookup matches identifiers that merely
 contain a process ID

---
 prodsys/factories/process_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/factories/process_factory.py b/prodsys/factories/process_factory.py
index 397e46d..c98cb98 100644
--- a/prodsys/factories/process_factory.py
+++ b/prodsys/factories/process_factory.py
@@ -126,7 +126,7 @@ class ProcessFactory(BaseModel):
         Returns:
             Optional[process.PROCESS_UNION]: Process object based on the given ID.
         """
-        pr = [pr for pr in self.processes if pr.process_data.ID in ID]
+        pr = [pr for pr in self.processes if pr.process_data.ID == ID]
         if not pr:
             raise ValueError(f"Process with ID {ID} not found")
         return pr.pop()
-- 
2.43.0


From 004651ff7b44d5be13683bdf1216e40070f282f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 03/49] fix: interrupted work resumes although a further
 breakdown is still active

---
 prodsys/simulation/state.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 7888c10..0b507c0 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -334,7 +334,8 @@ class ProductionState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    while not (self.active.triggered and self.resource.active.triggered):
+                        yield events.AllOf(self.env, [self.active, self.resource.active])
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -446,7 +447,8 @@ class TransportState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    while not (self.active.triggered and self.resource.active.triggered):
+                        yield events.AllOf(self.env, [self.active, self.resource.active])
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -652,7 +654,8 @@ class SetupState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    while not (self.active.triggered and self.resource.active.triggered):
+                        yield events.AllOf(self.env, [self.active, self.resource.active])
                     self.interrupted = False
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.state_info.log_end_interrupt_state(
@@ -745,7 +748,8 @@ class ChargingState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    while not (self.active.triggered and self.resource.active.triggered):
+                        yield events.AllOf(self.env, [self.active, self.resource.active])
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
-- 
2.43.0


From 232909c9c28b2b6a03e4fc0469a4f4bcce69ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 04/49] fix: interruption of work started at time zero loses
 its progress

---
 prodsys/simulation/state.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 0b507c0..60be83f 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -358,8 +358,6 @@ class ProductionState(State):
         self.finished_process.succeed()
 
     def update_done_in(self):
-        if self.start == 0:
-            return
         self.done_in -= (self.env.now - self.start)  # How much time left?
         if self.done_in < 0:
             self.done_in = 0
@@ -772,8 +770,6 @@ class ChargingState(State):
         self.finished_process.succeed()
 
     def update_done_in(self):
-        if self.start == 0:
-            return
         self.done_in -= (self.env.now - self.start)  # How much time left?
         if self.done_in < 0:
             self.done_in = 0
-- 
2.43.0


From 18caf6377bc5697bb0c994a48a07defedd00355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 05/49] fix: overlapping process breakdowns of one resource
 crash on reactivating its setups

---
 prodsys/simulation/state.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 60be83f..efbcf2b 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -566,9 +566,11 @@ class ProcessBreakDownState(State):
         while True:
             yield self.env.process(self.wait_for_breakdown())
             debug_logging(self, f"breakdown occured, start interrupting processes")
-            yield events.AllOf(
-                self.env, [state.active for state in self.production_states]
-            )
+            blocked_states = self.production_states + self.resource.setup_states
+            while not all(state.active.triggered for state in blocked_states):
+                yield events.AllOf(
+                    self.env, [state.active for state in blocked_states]
+                )
             debug_logging(self, f"interrupted states, starting breakdown for {self.repair_time_model.get_next_time()}")
             for state in self.production_states + self.resource.setup_states:
                 state.deactivate()
-- 
2.43.0


From 8dfebc428d3e02e3cf04550847bf5dc260293640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 06/49] fix: process breakdown draws its repair time twice

---
 prodsys/simulation/state.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index efbcf2b..c56b3df 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -571,7 +571,6 @@ class ProcessBreakDownState(State):
                 yield events.AllOf(
                     self.env, [state.active for state in blocked_states]
                 )
-            debug_logging(self, f"interrupted states, starting breakdown for {self.repair_time_model.get_next_time()}")
             for state in self.production_states + self.resource.setup_states:
                 state.deactivate()
             for state in self.production_states + self.resource.setup_states:
-- 
2.43.0


From 699c5831c4b73f48ae8b5312d74117596165e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 07/49] fix: interruption of charging is logged with the work
 type production

---
 prodsys/simulation/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index c56b3df..07164fb 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -743,7 +743,7 @@ class ChargingState(State):
             try:
                 if self.interrupted:
                     self.state_info.log_start_interrupt_state(
-                        self.env.now, StateTypeEnum.production
+                        self.env.now, StateTypeEnum.charging
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-- 
2.43.0


From e37671829d40ccd3c7154b06689f82fd559d12dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 08/49] fix: compound processes never match by capability or
 contained process

---
 prodsys/simulation/process.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/prodsys/simulation/process.py b/prodsys/simulation/process.py
index d998689..c46ff49 100644
--- a/prodsys/simulation/process.py
+++ b/prodsys/simulation/process.py
@@ -92,9 +92,9 @@ class CapabilityProcess(Process):
             return False
         if isinstance(requested_process, CompoundProcess):
             return self.process_data.capability in [
-                p.process_data.capability
+                p.capability
                 for p in requested_process.contained_processes_data
-                if isinstance(p, CapabilityProcess)
+                if is_process_data_with_capability(p)
             ]
         return requested_process.process_data.capability == self.process_data.capability
 
@@ -140,6 +140,18 @@ def is_process_with_capability(process: "PROCESS_UNION") -> bool:
     """
     return isinstance(process, CapabilityProcess) or isinstance(process, RequiredCapabilityProcess) or (isinstance(process, LinkTransportProcess) and process.process_data.capability)
 
+def is_process_data_with_capability(process_data: "processes_data.PROCESS_DATA_UNION") -> bool:
+    """
+    Returns True if the given process data describes a process with capability.
+
+    Args:
+        process_data (processes_data.PROCESS_DATA_UNION): The process data.
+
+    Returns:
+        bool: True if the given process data describes a process with capability.
+    """
+    return isinstance(process_data, (processes_data.CapabilityProcessData, processes_data.RequiredCapabilityProcessData)) or (isinstance(process_data, processes_data.LinkTransportProcessData) and bool(process_data.capability))
+
 def is_available_process_with_capability(process: "PROCESS_UNION") -> bool:
     """
     Returns True if the given process is an available process with capability.
@@ -180,24 +192,24 @@ class CompoundProcess(Process):
             return requested_process.process_data.ID in self.process_data.process_ids
         elif is_process_with_capability(requested_process):
             return requested_process.process_data.capability in [
-                p.process_data.capability
+                p.capability
                 for p in self.contained_processes_data
-                if is_available_process_with_capability(p)
+                if is_process_data_with_capability(p)
             ]
         elif isinstance(requested_process, CompoundProcess):
             return any(
                 p.ID in self.process_data.process_ids
                 for p in requested_process.contained_processes_data
-                if isinstance(p, ProductionProcess)
+                if isinstance(p, (processes_data.ProductionProcessData, processes_data.TransportProcessData))
             ) or any(
                 p.capability
                 in [
-                    p.process_data.capability
+                    p.capability
                     for p in self.contained_processes_data
-                    if is_available_process_with_capability(p)
+                    if is_process_data_with_capability(p)
                 ]
                 for p in requested_process.contained_processes_data
-                if is_available_process_with_capability(p)
+                if is_process_data_with_capability(p)
             )
         return False
 
@@ -271,9 +283,9 @@ class LinkTransportProcess(TransportProcess):
         if isinstance(requested_process, CompoundProcess):
             possible_processes = []
             for process_data_instance in requested_process.contained_processes_data:
-                if is_process_with_capability(process_data_instance) and self.process_data.capability and self.process_data.capability == process_data_instance.capability:
+                if is_process_data_with_capability(process_data_instance) and self.process_data.capability and self.process_data.capability == process_data_instance.capability:
                     possible_processes.append(process_data_instance)
-                if isinstance(process_data_instance, LinkTransportProcess) and process_data_instance.ID == self.process_data.ID:
+                if isinstance(process_data_instance, processes_data.LinkTransportProcessData) and process_data_instance.ID == self.process_data.ID:
                     possible_processes.append(process_data_instance)
             if not possible_processes:
                 return False
-- 
2.43.0


From 7cabe14ff551fb30225e32771b92588037240b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 09/49] fix: link transport with a capability is matched by its
 ID instead of the capability

---
 prodsys/simulation/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/process.py b/prodsys/simulation/process.py
index c46ff49..09fde31 100644
--- a/prodsys/simulation/process.py
+++ b/prodsys/simulation/process.py
@@ -296,7 +296,7 @@ class LinkTransportProcess(TransportProcess):
             elif hasattr(request, "auxiliary") and requested_process.process_data.capability == self.process_data.capability:
                 return True
 
-        if isinstance(requested_process, LinkTransportProcess):
+        elif isinstance(requested_process, LinkTransportProcess):
             if not requested_process.process_data.ID == self.process_data.ID:
                 return False
             elif hasattr(request, "auxiliary") and requested_process.process_data.ID == self.process_data.ID:
-- 
2.43.0


From 599e5743ede9eac2790d7f642d6712d5a27416e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 10/49] fix: order of precedence graph nodes depends on the
 interpreter's hash seed, runs are not reproducible

---
 prodsys/simulation/proces_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/proces_models.py b/prodsys/simulation/proces_models.py
index de71e67..1e96be7 100644
--- a/prodsys/simulation/proces_models.py
+++ b/prodsys/simulation/proces_models.py
@@ -135,7 +135,7 @@ def get_adjacency_matrix_from_edges(edges: List[List[str]]) -> Dict[str, List[st
     Returns:
         Dict[str, List[str]]: Adjacency matrix of the process model. The keys are the process IDs and the values are the IDs of the successor processes.
     """
-    nodes = list(set(flatten(edges)))
+    nodes = list(dict.fromkeys(flatten(edges)))
     adjacency_matrix = {}
     for node in nodes:
         successors = [edge[1] for edge in edges if edge[0] == node]
-- 
2.43.0


From f4d40d50dcd896e62bc92142a65c46f34cc82e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 11/49] fix: LIFO control policy serves the oldest request
 whenever nothing arrived since its last call

---
 prodsys/simulation/control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index a69c5a5..dff9713 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -950,7 +950,8 @@ def LIFO_control_policy(requests: List[request_module.Request]) -> None:
     Args:
         requests (List[Request]): The list of requests.
     """
-    requests.reverse()
+    if requests:
+        requests.insert(0, requests.pop())
 
 
 def SPT_control_policy(requests: List[request_module.Request]) -> None:
-- 
2.43.0


From 2599f373f2735cbe78f15f9f8399715ab092643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 12/49] fix: nearest-origin control policies raise a TypeError
 on every call

---
 prodsys/simulation/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index dff9713..fe88588 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -994,7 +994,7 @@ def nearest_origin_and_longest_target_queues_transport_control_policy(requests:
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                get_location(x.resource, mode="origin"), get_location(x.origin, mode="origin")),
                 - x.target.get_output_queue_length()
                 )
     )
@@ -1010,7 +1010,7 @@ def nearest_origin_and_shortest_target_input_queues_transport_control_policy(req
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                get_location(x.resource, mode="origin"), get_location(x.origin, mode="origin")),
             x.target.get_input_queue_length()
             )
     )
-- 
2.43.0


From 23340b8c1c9ce2bd59d528cc4eb643e95cd35566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 13/49] fix: two waiting requests can start on the same process
 slot

---
 prodsys/simulation/control.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index fe88588..71368fa 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -280,9 +280,9 @@ class ProductionController(Controller):
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve product {product.product_data.ID} from queue"})
             yield events.AllOf(resource.env, product_retrieval_events)
 
-            production_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            production_state: state.State = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting process for {product.product_data.ID}"})
-            yield self.env.process(self.run_process(production_state, product, process))
+            yield from self.run_process(production_state, product, process)
             production_state.process = None
 
             product_put_events = self.put_product_to_output_queue(resource, [product])
@@ -789,18 +789,18 @@ class TransportController(Controller):
             if origin.data.ID != self._current_locatable.data.ID:
                 route_to_origin = self.find_route_to_origin(process_request)
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Empty transport needed for {product.product_data.ID} from {origin.data.ID} to {target.data.ID}"})
-                transport_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+                transport_state: state.State = yield from self.wait_for_free_process(resource, process)
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting transport to pick up {product.product_data.ID} for transport"})
-                yield self.env.process(self.run_transport(transport_state, product, route_to_origin, empty_transport=True))
+                yield from self.run_transport(transport_state, product, route_to_origin, empty_transport=True)
 
             product_retrieval_events = self.get_next_product_for_process(origin, product)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve product {product.product_data.ID} from queue"})
             yield events.AllOf(resource.env, product_retrieval_events)
             product.update_location(self.resource)
 
-            transport_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            transport_state: state.State = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting transport of {product.product_data.ID}"})
-            yield self.env.process(self.run_transport(transport_state, product, route_to_target, empty_transport=False))
+            yield from self.run_transport(transport_state, product, route_to_target, empty_transport=False)
 
             product_put_events = self.put_product_to_input_queue(target, product)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put product {product.product_data.ID} to queue"})
@@ -835,7 +835,7 @@ class TransportController(Controller):
             else:
                 last_transport_step = False
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Moving from {location.data.ID} to {next_location.data.ID}", "empty_transport": True, "initial_transport_step": initial_transport_step, "last_transport_step": last_transport_step})
-            yield self.env.process(self.run_process(transport_state, product, target=next_location, empty_transport=empty_transport, initial_transport_step=initial_transport_step, last_transport_step=last_transport_step))
+            yield from self.run_process(transport_state, product, target=next_location, empty_transport=empty_transport, initial_transport_step=initial_transport_step, last_transport_step=last_transport_step)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Arrived at {next_location.data.ID}", "empty_transport": True, "initial_transport_step": initial_transport_step, "last_transport_step": last_transport_step})
             transport_state.process = None
 
-- 
2.43.0


From d76225642e2e6914663777aeb20eb6fe22f0a57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 14/49] fix: stores of auxiliaries are put into without
 reservation, their fill level drifts

---
 prodsys/factories/auxiliary_factory.py | 1 +
 prodsys/simulation/router.py           | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/prodsys/factories/auxiliary_factory.py b/prodsys/factories/auxiliary_factory.py
index 41aabd3..8365a17 100644
--- a/prodsys/factories/auxiliary_factory.py
+++ b/prodsys/factories/auxiliary_factory.py
@@ -94,6 +94,7 @@ class AuxiliaryFactory(BaseModel):
                         None
                 """
                 for auxiliary in self.auxiliaries:
+                        auxiliary.current_locatable.reserve()
                         auxiliary.current_locatable.put(auxiliary.product_data)
 
         def get_auxiliary(self, ID: str) -> auxiliary.Auxiliary:
diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index d2475eb..561099d 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -514,6 +514,9 @@ class Router:
         )
         # transport_request = self.get_transport_request(auxiliary, auxiliary.transport_process, auxiliary.storage)
         env = get_env_from_requests([auxiliary_request])
+        while auxiliary.storage.full:
+            yield auxiliary.storage.state_change
+        auxiliary.storage.reserve()
         transport_request: request.TransportResquest = yield env.process(
             self.route_transport_resource_for_item(auxiliary_request)
         )
-- 
2.43.0


From 79f47100dfb7f6bc3589f6f2e9701d1318681b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 15/49] fix: compound processes match link transports by
 capability

---
 prodsys/simulation/process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prodsys/simulation/process.py b/prodsys/simulation/process.py
index 09fde31..6109e90 100644
--- a/prodsys/simulation/process.py
+++ b/prodsys/simulation/process.py
@@ -186,9 +186,10 @@ class CompoundProcess(Process):
 
     def matches_request(self, request: request_module.Request) -> bool:
         requested_process = request.process
-        if isinstance(requested_process, ProductionProcess) or isinstance(
-            requested_process, TransportProcess
-        ) or (isinstance(requested_process, LinkTransportProcess) and not requested_process.process_data.capability):
+        if isinstance(requested_process, ProductionProcess) or (
+            isinstance(requested_process, TransportProcess)
+            and not is_process_with_capability(requested_process)
+        ):
             return requested_process.process_data.ID in self.process_data.process_ids
         elif is_process_with_capability(requested_process):
             return requested_process.process_data.capability in [
-- 
2.43.0


From 2edb6a812b2164b202616a45579a8a468acd9a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 16/49] fix: finding a route leaves the links of the transport
 process unchanged

---
 prodsys/simulation/route_finder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/route_finder.py b/prodsys/simulation/route_finder.py
index f0295b9..bfd1a50 100644
--- a/prodsys/simulation/route_finder.py
+++ b/prodsys/simulation/route_finder.py
@@ -59,8 +59,9 @@ class RouteFinder:
         origin, target = self.get_route_origin_and_target_locatables(
             request=request, route_to_origin=find_route_to_origin
         )
+        links = list(process.links)
         edges = self.process_links_to_graph_edges(
-            links=process.links,
+            links=links,
             origin=origin,
             target=target,
             empty_transport=find_route_to_origin,
@@ -75,7 +76,7 @@ class RouteFinder:
         graph_node_path = self.find_graphnode_path(origin_node, target_node, graph)
         if not graph_node_path:
             return []
-        route = self.convert_node_path_to_locatable_route(graph_node_path=graph_node_path, links=process.links)
+        route = self.convert_node_path_to_locatable_route(graph_node_path=graph_node_path, links=links)
         from prodsys.simulation.resources import TransportResource
         if isinstance(origin, TransportResource):
             route = route[1:]
-- 
2.43.0


From 960196ad3166f5c88f140795a52014bef2c5217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 17/49] fix: stores report their queue lengths to the transport
 control policies

---
 prodsys/simulation/store.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prodsys/simulation/store.py b/prodsys/simulation/store.py
index d1cb786..f1f22f8 100644
--- a/prodsys/simulation/store.py
+++ b/prodsys/simulation/store.py
@@ -117,4 +117,10 @@ class Store(Queue):
     
     def get_output_location(self):
         return self.data.output_location
+
+    def get_input_queue_length(self) -> int:
+        return len(self.items)
+
+    def get_output_queue_length(self) -> int:
+        return len(self.items)
     
-- 
2.43.0


From ea1d0b9c87cb8100b36682a835a2e3f4f0cae829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 18/49] fix: failed updates lose projects and adapters, deleted
 adapters keep their performance

---
 app/backends/in_memory.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index 4b17a07..36ab1d6 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -27,6 +27,9 @@ class InMemoryBackend:
         return project
 
     def update_project(self, project_id: str, project: Project) -> Project:
+        self.get_project(project_id)
+        if project.ID != project_id and project.ID in self.database:
+            raise HTTPException(409, f"Project {project.ID} already exists. Try updating it with put.")
         self.delete_project(project_id)
         return self.create_project(project)
 
@@ -54,16 +57,23 @@ class InMemoryBackend:
         return adapter
 
     def update_adapter(self, project_id: str, adapter_id: str, adapter: JsonProductionSystemAdapter) -> JsonProductionSystemAdapter:
-        self.delete_adapter(project_id, adapter_id)
-        return self.create_adapter(project_id, adapter)
+        project = self.get_project(project_id)
+        old_adapter = self.get_adapter(project_id, adapter_id)
+        if adapter.ID != adapter_id and adapter.ID in [a.ID for a in project.adapters]:
+            raise HTTPException(409, f"Adapter {adapter.ID} already exists in project {project_id}. Try updating it with put.")
+        for adapter_index, existing_adapter in enumerate(project.adapters):
+            if existing_adapter is old_adapter:
+                project.adapters[adapter_index] = adapter
+                break
+        return adapter
 
     def delete_adapter(self, project_id: str, adapter_id: str):
         project = self.get_project(project_id)
         for adapter_index, adapter in enumerate(project.adapters):
             if adapter.ID == adapter_id:
                 del project.adapters[adapter_index]
+                project.performances.pop(adapter_id, None)
                 return
-        self.delete_performance(project_id, adapter_id)
         raise HTTPException(404, f"Adapter {adapter_id} not found in project {project_id}")
     
 
-- 
2.43.0


From f5a6379cedf8f99b36d52c107a1fd2735e842dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 19/49] fix: the service accepts parts with an already used ID

---
 app/dao/process_dao.py    | 13 +++++--------
 app/dao/product_dao.py    | 13 +++++--------
 app/dao/queue_dao.py      | 13 +++++--------
 app/dao/resources_dao.py  | 13 +++++--------
 app/dao/sink_dao.py       | 13 +++++--------
 app/dao/source_dao.py     | 13 +++++--------
 app/dao/state_dao.py      | 11 ++++-------
 app/dao/time_model_dao.py | 13 +++++--------
 8 files changed, 39 insertions(+), 63 deletions(-)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index c75b672..318526c 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -21,15 +21,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, process: processes_data.PROCESS_DATA_UNION
 ) -> processes_data.PROCESS_DATA_UNION:
-    try:
-        if get(project_id, adapter_id, process.ID):
-            raise HTTPException(
-                404,
-                f"Process with ID {process.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == process.ID for existing in adapter.process_data):
+        raise HTTPException(
+            404,
+            f"Process with ID {process.ID} already exists. Try updating instead.",
+        )
     adapter.process_data.append(process)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return process
diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index 6802fff..d690ea2 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, product_id: str) -> product_data.Produ
 def add(
     project_id: str, adapter_id: str, product: product_data.ProductData
 ) -> product_data.ProductData:
-    try:
-        if get(project_id, adapter_id, product.ID):
-            raise HTTPException(
-                404,
-                f"Product with ID {product.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == product.ID for existing in adapter.product_data):
+        raise HTTPException(
+            404,
+            f"Product with ID {product.ID} already exists. Try updating instead.",
+        )
     adapter.product_data.append(product)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return product
diff --git a/app/dao/queue_dao.py b/app/dao/queue_dao.py
index 41e66bc..7648e0f 100644
--- a/app/dao/queue_dao.py
+++ b/app/dao/queue_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QueueData
 def add(
     project_id: str, adapter_id: str, queue: queue_data.QueueData
 ) -> queue_data.QueueData:
-    try:
-        if get(project_id, adapter_id, queue.ID):
-            raise HTTPException(
-                404,
-                f"Queue with ID {queue.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == queue.ID for existing in adapter.queue_data):
+        raise HTTPException(
+            404,
+            f"Queue with ID {queue.ID} already exists. Try updating instead.",
+        )
     adapter.queue_data.append(queue)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return queue
diff --git a/app/dao/resources_dao.py b/app/dao/resources_dao.py
index 2388b1d..6236956 100644
--- a/app/dao/resources_dao.py
+++ b/app/dao/resources_dao.py
@@ -40,15 +40,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, resource: resource_data.RESOURCE_DATA_UNION
 ) -> resource_data.RESOURCE_DATA_UNION:
-    try:
-        if get(project_id, adapter_id, resource.ID):
-            raise HTTPException(
-                404,
-                f"Resource with ID {resource.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == resource.ID for existing in adapter.resource_data):
+        raise HTTPException(
+            404,
+            f"Resource with ID {resource.ID} already exists. Try updating instead.",
+        )
     adapter.resource_data.append(resource)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return resource
diff --git a/app/dao/sink_dao.py b/app/dao/sink_dao.py
index 68cc1ea..786c3ac 100644
--- a/app/dao/sink_dao.py
+++ b/app/dao/sink_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, sink_id: str) -> sink_data.SinkData:
 def add(
     project_id: str, adapter_id: str, sink: sink_data.SinkData
 ) -> sink_data.SinkData:
-    try:
-        if get(project_id, adapter_id, sink.ID):
-            raise HTTPException(
-                404,
-                f"Sink with ID {sink.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == sink.ID for existing in adapter.sink_data):
+        raise HTTPException(
+            404,
+            f"Sink with ID {sink.ID} already exists. Try updating instead.",
+        )
     adapter.sink_data.append(sink)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return sink
diff --git a/app/dao/source_dao.py b/app/dao/source_dao.py
index 78a9ded..93226d6 100644
--- a/app/dao/source_dao.py
+++ b/app/dao/source_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, source_id: str) -> source_data.SourceD
 def add(
     project_id: str, adapter_id: str, source: source_data.SourceData
 ) -> source_data.SourceData:
-    try:
-        if get(project_id, adapter_id, source.ID):
-            raise HTTPException(
-                404,
-                f"Source with ID {source.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == source.ID for existing in adapter.source_data):
+        raise HTTPException(
+            404,
+            f"Source with ID {source.ID} already exists. Try updating instead.",
+        )
     adapter.source_data.append(source)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return source
diff --git a/app/dao/state_dao.py b/app/dao/state_dao.py
index 97bc685..27ea27c 100644
--- a/app/dao/state_dao.py
+++ b/app/dao/state_dao.py
@@ -18,14 +18,11 @@ def get(project_id: str, adapter_id: str, state_id: str) -> state_data.STATE_DAT
 
 
 def add(project_id: str, adapter_id: str, state: state_data.STATE_DATA_UNION):
-    try:
-        if get(project_id, adapter_id, state.ID):
-            raise HTTPException(
-                404, f"State with ID {state.ID} already exists. Try updating instead."
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == state.ID for existing in adapter.state_data):
+        raise HTTPException(
+            404, f"State with ID {state.ID} already exists. Try updating instead."
+        )
     adapter.state_data.append(state)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return state
diff --git a/app/dao/time_model_dao.py b/app/dao/time_model_dao.py
index 78e47cf..57c0aee 100644
--- a/app/dao/time_model_dao.py
+++ b/app/dao/time_model_dao.py
@@ -23,15 +23,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, time_model: time_model_data.TIME_MODEL_DATA
 ) -> time_model_data.TIME_MODEL_DATA:
-    try:
-        if get(project_id, adapter_id, time_model.ID):
-            raise HTTPException(
-                404,
-                f"Time model with ID {time_model.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == time_model.ID for existing in adapter.time_model_data):
+        raise HTTPException(
+            404,
+            f"Time model with ID {time_model.ID} already exists. Try updating instead.",
+        )
     adapter.time_model_data.append(time_model)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return time_model
-- 
2.43.0


From eeea44a85d5ef93aa71c27307df54ce90cab3333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 20/49] fix: deleting a process fails, missing products and
 objectives are not refused

---
 app/dao/process_dao.py  | 2 +-
 app/dao/product_dao.py  | 1 +
 app/dao/scenario_dao.py | 4 ++--
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index 318526c..6cbbc7a 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -52,6 +52,6 @@ def delete(project_id: str, adapter_id: str, process_id: str):
     for idx, process in enumerate(adapter.process_data):
         if process.ID == process_id:
             adapter.process_data.pop(idx)
-            prodsys_backend.update_adapter(project_id, adapter)
+            prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return
     raise HTTPException(404, f"Process with ID {process_id} not found.")
diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index d690ea2..534bbe7 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -51,3 +51,4 @@ def delete(project_id: str, adapter_id: str, product_id: str):
             adapter.product_data.pop(idx)
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return
+    raise HTTPException(404, f"Product with ID {product_id} not found.")
diff --git a/app/dao/scenario_dao.py b/app/dao/scenario_dao.py
index ccb8600..20c20ba 100644
--- a/app/dao/scenario_dao.py
+++ b/app/dao/scenario_dao.py
@@ -140,7 +140,7 @@ def update_objective(
         if objective.name == existing_objective.name:
             scenario.objectives[idx] = objective
             return update(project_id, adapter_id, scenario)
-    HTTPException(
+    raise HTTPException(
         404,
         f"Objective with name {objective.name} not found for scenario of adapter {adapter_id}.",
     )
@@ -154,7 +154,7 @@ def delete_objective(
         if objective.name == objective_name:
             scenario.objectives.pop(idx)
             return update(project_id, adapter_id, scenario)
-    HTTPException(
+    raise HTTPException(
         404,
         f"Objective with name {objective_name} not found for scenario of adapter {adapter_id}.",
     )
-- 
2.43.0


From 39973220aeef713341f182a6a9284a888e54b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 21/49] fix: answers to listing adapters and writing processes
 do not match their schema

---
 app/routers/adapters.py  | 4 ++--
 app/routers/processes.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/app/routers/adapters.py b/app/routers/adapters.py
index 8b9d33e..0c15a8e 100644
--- a/app/routers/adapters.py
+++ b/app/routers/adapters.py
@@ -1,4 +1,4 @@
-from typing import List, Dict
+from typing import List
 
 
 from fastapi import APIRouter
@@ -14,7 +14,7 @@ router = APIRouter(
 )
 
 
-@router.get("/", response_model=Dict[str, JsonProductionSystemAdapter])
+@router.get("/", response_model=List[JsonProductionSystemAdapter])
 async def get_adapters(project_id: str) -> List[JsonProductionSystemAdapter]:
     return prodsys_backend.get_adapters(project_id)
 
diff --git a/app/routers/processes.py b/app/routers/processes.py
index 6a72590..9da0e95 100644
--- a/app/routers/processes.py
+++ b/app/routers/processes.py
@@ -39,7 +39,7 @@ async def get_processes(project_id: str, adapter_id: str):
 
 @router.post(
     "/",
-    response_model=List[processes_data.PROCESS_DATA_UNION],
+    response_model=processes_data.PROCESS_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully created process",
@@ -73,7 +73,7 @@ async def get_process(project_id: str, adapter_id: str, process_id: str):
 
 @router.put(
     "/{process_id}",
-    response_model=List[processes_data.PROCESS_DATA_UNION],
+    response_model=processes_data.PROCESS_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully updated process",
-- 
2.43.0


From 8a95fed4514e81c9be3cd24250bee98faa004da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 22/49] fix: partial machine crossover does not lose or
 duplicate machines

---
 prodsys/optimization/adapter_manipulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 7479a20..86443bc 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -42,8 +42,10 @@ def crossover(ind1, ind2):
         adapter2.resource_data = transport_resources_2
         if crossover_type == "partial_machine":
             min_length = min(len(machines_1), len(machines_2))
-            machines_1 = machines_1[:min_length] + machines_2[min_length:]
-            machines_2 = machines_2[:min_length] + machines_1[min_length:]
+            machines_1, machines_2 = (
+                machines_1[:min_length] + machines_2[min_length:],
+                machines_2[:min_length] + machines_1[min_length:],
+            )
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
-- 
2.43.0


From b56d6d28890cdc26daa929a508ec883f6f305382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 23/49] fix: moving or removing a process module handles
 partially present modules and adds no duplicates

---
 prodsys/optimization/adapter_manipulation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 86443bc..0e3fb0d 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -239,7 +239,8 @@ def remove_process_module(adapter_object: adapters.ProductionSystemAdapter) -> b
     process_module_to_delete = random.choice(process_modules)
 
     for process in process_module_to_delete:
-        machine.process_ids.remove(process)
+        if process in machine.process_ids:
+            machine.process_ids.remove(process)
     add_setup_states_to_machine(adapter_object, machine.ID)
     return True
 
@@ -269,8 +270,10 @@ def move_process_module(adapter_object: adapters.ProductionSystemAdapter) -> boo
         return False
     process_module_to_move = random.choice(grouped_process_module_IDs)
     for process_module in process_module_to_move:
-        from_machine.process_ids.remove(process_module)
-        to_machine.process_ids.append(process_module)
+        if process_module in from_machine.process_ids:
+            from_machine.process_ids.remove(process_module)
+        if process_module not in to_machine.process_ids:
+            to_machine.process_ids.append(process_module)
     add_setup_states_to_machine(adapter_object, from_machine.ID)
     add_setup_states_to_machine(adapter_object, to_machine.ID)
     return True
-- 
2.43.0


From fa5320b492aede058686ab30e414e447187300b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 24/49] fix: policy mutations accept a current policy that is
 not among the scenario's options

---
 prodsys/optimization/adapter_manipulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 0e3fb0d..8e63cd4 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -394,7 +394,8 @@ def change_control_policy(adapter_object: adapters.ProductionSystemAdapter) -> b
 
     if len(possible_control_policies) < 2:
         return False
-    possible_control_policies.remove(resource.control_policy)
+    if resource.control_policy in possible_control_policies:
+        possible_control_policies.remove(resource.control_policy)
     new_control_policy = random.choice(possible_control_policies)
     resource.control_policy = new_control_policy
     return True
@@ -413,7 +414,8 @@ def change_routing_policy(adapter_object: adapters.ProductionSystemAdapter) -> N
     )
     if len(possible_routing_policies) < 2:
         return False
-    possible_routing_policies.remove(source.routing_heuristic)
+    if source.routing_heuristic in possible_routing_policies:
+        possible_routing_policies.remove(source.routing_heuristic)
     source.routing_heuristic = random.choice(possible_routing_policies)
     return True
 
-- 
2.43.0


From a700c94dddc24e65ba0ad2d44642541ae9559f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 25/49] fix: auxiliary mutations do nothing when no auxiliary
 is required

---
 prodsys/optimization/adapter_manipulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 8e63cd4..a399c25 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -338,6 +338,8 @@ def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was added, False otherwise (if adding is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     queue = [
@@ -362,6 +364,8 @@ def remove_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was removed, False otherwise (if removing is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     if auxiliary.quantity_in_storages[storage_index] == 0:
-- 
2.43.0


From ee064df49fca5bafec14e6358899b882eea6813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 26/49] fix: reconfiguration cost without a baseline counts
 auxiliaries

---
 prodsys/optimization/optimization.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 2223f7f..22ac709 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -91,11 +91,20 @@ def get_auxiliary_cost(
     baseline: adapters.ProductionSystemAdapter,
 ) -> float:
     auxiliary_cost = 0
-    for new_auxiliary, auxiliary_before in zip(
-        adapter_object.auxiliary_data, baseline.auxiliary_data
+    if baseline:
+        quantities_before = [
+            auxiliary.quantity_in_storages for auxiliary in baseline.auxiliary_data
+        ]
+    else:
+        quantities_before = [
+            [0] * len(auxiliary.quantity_in_storages)
+            for auxiliary in adapter_object.auxiliary_data
+        ]
+    for new_auxiliary, quantity_before in zip(
+        adapter_object.auxiliary_data, quantities_before
     ):
         for i, storage in enumerate(new_auxiliary.quantity_in_storages):
-            storage_before = auxiliary_before.quantity_in_storages[i]
+            storage_before = quantity_before[i]
             auxiliary_cost += max(
                 0,
                 (storage - storage_before)
-- 
2.43.0


From 7238f15b7a60665e46c0792e2703efeb70e0d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 27/49] fix: omitted optional prices count as zero in the
 reconfiguration cost

---
 prodsys/optimization/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 22ac709..4dbad62 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -30,7 +30,7 @@ def get_process_module_cost(
         if isinstance(process_module_cost, dict):
             process_cost = process_module_cost.get(process, 0)
         else:
-            process_cost = process_module_cost
+            process_cost = process_module_cost or 0
         sum_process_module_cost += max(
             0,
             (
@@ -108,7 +108,7 @@ def get_auxiliary_cost(
             auxiliary_cost += max(
                 0,
                 (storage - storage_before)
-                * adapter_object.scenario_data.info.auxiliary_cost,
+                * (adapter_object.scenario_data.info.auxiliary_cost or 0),
             )
     return auxiliary_cost
 
-- 
2.43.0


From b21ae852338c1d50033e9870225322efcd5d2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:00 +0000
Subject: [PATCH 28/49] fix: processes contained in compound processes are all
 considered when checking availability

---
 prodsys/adapters/adapter.py | 39 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 587bf58..cf119b4 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -1108,12 +1108,12 @@ def get_contained_production_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_production_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            found_processes = get_production_processes_from_ids(
+                adapter_object, [process_id]
+            )
+            if len(found_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes.extend(found_processes)
     return processes
 
 def get_contained_capability_processes_from_compound_processes(
@@ -1122,12 +1122,12 @@ def get_contained_capability_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_capability_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            found_processes = get_capability_processes_from_ids(
+                adapter_object, [process_id]
+            )
+            if len(found_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes.extend(found_processes)
     return processes
 
 def get_contained_transport_processes_from_compound_processes(
@@ -1136,12 +1136,12 @@ def get_contained_transport_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_transport_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            found_processes = get_transport_processes_from_ids(
+                adapter_object, [process_id]
+            )
+            if len(found_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes.extend(found_processes)
     return processes
 
 
@@ -1151,11 +1151,12 @@ def get_contained_required_capability_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_required_capability_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            found_processes = get_required_capability_processes_from_ids(
+                adapter_object, [process_id]
+            )
+            if len(found_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            process = processes[0]
-            processes.append(process)
+            processes.extend(found_processes)
     return processes
 
 
-- 
2.43.0


From 066791b5f10404acc1c1bbf71918b3b42bdd4724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:09 +0000
Subject: [PATCH 29/49] fix: crossover does not create two machines with the
 same ID

---
 prodsys/optimization/adapter_manipulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index a399c25..6374db3 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -46,6 +46,12 @@ def crossover(ind1, ind2):
                 machines_1[:min_length] + machines_2[min_length:],
                 machines_2[:min_length] + machines_1[min_length:],
             )
+            for machines in (machines_1, machines_2):
+                machine_ids = set()
+                for machine in machines:
+                    if machine.ID in machine_ids:
+                        machine.ID = str(uuid1())
+                    machine_ids.add(machine.ID)
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
-- 
2.43.0


From 62f3659160e9a1d393bf957ac093f4ea074f68a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:19 +0000
Subject: [PATCH 30/49] fix: hash of setup states finds both of their processes

---
 prodsys/models/state_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/state_data.py b/prodsys/models/state_data.py
index 3e20674..325a048 100644
--- a/prodsys/models/state_data.py
+++ b/prodsys/models/state_data.py
@@ -366,7 +366,7 @@ class SetupStateData(StateData):
             for process in adapter.process_data:
                 if process.ID == process_id:
                     setup_process_hashes.append(process.hash(adapter))
-                break
+                    break
             else:
                 raise ValueError(
                     f"Process with ID {process_id} not found for setup state {self.ID}."
-- 
2.43.0


From 2ff6dbfa4f42aae566ce0e69387f682e047f0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 31/49] fix: hash of link transport processes does not depend
 on the names of the linked places

---
 prodsys/models/processes_data.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index 17a4637..32e3432 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -474,9 +474,30 @@ class LinkTransportProcessData(TransportProcessData):
         """
         base_class_hash = super().hash(adapter)
 
-        sorted_links = sorted(["-".join(link) for link in self.links])
+        locatables = [
+            *adapter.node_data,
+            *adapter.resource_data,
+            *adapter.source_data,
+            *adapter.sink_data,
+            *[queue for queue in adapter.queue_data if hasattr(queue, "location")],
+        ]
+        link_hashes = []
+        for link in self.links:
+            locations = []
+            for locatable_id in link:
+                for locatable in locatables:
+                    if locatable.ID == locatable_id:
+                        locations.append(str(locatable.location))
+                        break
+                else:
+                    raise ValueError(
+                        f"Location with ID {locatable_id} not found for process {self.ID}."
+                    )
+            link_hashes.append("-".join(locations))
 
-        input_data = base_class_hash + "".join(sorted_links) + self.capability
+        input_data = (
+            base_class_hash + "".join(sorted(link_hashes)) + (self.capability or "")
+        )
 
         return md5(input_data.encode("utf-8")).hexdigest()
 
-- 
2.43.0


From fb1a1f6931f5e03e9192b769eb8e36a8d913ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 32/49] fix: time models with different samples do not share a
 hash

---
 prodsys/models/time_model_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prodsys/models/time_model_data.py b/prodsys/models/time_model_data.py
index e64bb12..6e1e63d 100644
--- a/prodsys/models/time_model_data.py
+++ b/prodsys/models/time_model_data.py
@@ -78,7 +78,7 @@ class SequentialTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, self.sequence)])).encode("utf-8")).hexdigest()
+        return md5(("_".join([*map(str, self.sequence)])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -122,7 +122,7 @@ class SampleTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, self.samples)])).encode("utf-8")).hexdigest()
+        return md5(("_".join([*map(str, self.samples)])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -172,7 +172,7 @@ class ScheduledTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, self.schedule)] + [*map(str, [self.absolute, self.cyclic])])).encode("utf-8")).hexdigest()
+        return md5(("_".join([*map(str, self.schedule)] + [*map(str, [self.absolute, self.cyclic])])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -276,7 +276,7 @@ class ManhattanDistanceTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, [self.speed, self.reaction_time])])).encode("utf-8")).hexdigest()
+        return md5(("_".join([*map(str, [self.speed, self.reaction_time])])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
-- 
2.43.0


From 70e95667fee828b8c64431c927eea3bd1fe58d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 33/49] fix: hash of transport processes reports dangling time
 models

---
 prodsys/models/processes_data.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index 32e3432..a2e613a 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -263,12 +263,20 @@ class TransportProcessData(ProcessData):
                 if time_model.ID == self.loading_time_model_id:
                     loading_time_model_hash = time_model.hash()
                     break
+            else:
+                raise ValueError(
+                    f"Time model with ID {self.loading_time_model_id} not found for process {self.ID}."
+                )
 
         if self.unloading_time_model_id:
             for time_model in adapter.time_model_data:
                 if time_model.ID == self.unloading_time_model_id:
                     unloading_time_model_hash = time_model.hash()
                     break
+            else:
+                raise ValueError(
+                    f"Time model with ID {self.unloading_time_model_id} not found for process {self.ID}."
+                )
         input_data = (
             base_class_hash + loading_time_model_hash + unloading_time_model_hash
         )
-- 
2.43.0


From 462176dbbc93ade9cf64dcc3ec09b2d82d42d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 34/49] fix: unknown transport process of a product is reported
 as a validation error

---
 prodsys/adapters/adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index cf119b4..2d5d80f 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from abc import ABC, abstractmethod
 from hashlib import md5
 from typing import List, Any, Set, Optional, Tuple, Union
-from pydantic import BaseModel, ConfigDict, field_validator, ValidationError, ValidationInfo
+from pydantic import BaseModel, ConfigDict, field_validator, ValidationInfo
 
 import logging
 logger = logging.getLogger(__name__)
@@ -774,7 +774,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
         for product in products:
             all_processes = get_set_of_IDs(values["process_data"])
             if product.transport_process not in all_processes:
-                raise ValidationError(
+                raise ValueError(
                     f"The transport process {product.transport_process} of product {product.ID} is not a valid process of {all_processes}."
                 )
             required_processes = set()
-- 
2.43.0


From baeccd8f0af925297693c135044f8a08a0caa10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 35/49] fix: default queues complete only the missing queues of
 a resource and dangling queues are reported

---
 prodsys/adapters/adapter.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 2d5d80f..ef85a7f 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -754,17 +754,18 @@ class ProductionSystemAdapter(ABC, BaseModel):
                     )
             if isinstance(resource, resource_data_module.ProductionResourceData):
                 queues = get_set_of_IDs(values["queue_data"])
-                if resource.input_queues and resource.output_queues:
-                    for queue in resource.input_queues + resource.output_queues:
-                        if queue not in queues:
-                            raise ValueError(
-                                f"The queue {queue} of resource {resource.ID} is not a valid queue of {queues}."
-                            )
-                else:
-                    input_queues, output_queues = get_default_queues_for_resource(resource)
+                for queue in resource.input_queues + resource.output_queues:
+                    if queue not in queues:
+                        raise ValueError(
+                            f"The queue {queue} of resource {resource.ID} is not a valid queue of {queues}."
+                        )
+                input_queues, output_queues = get_default_queues_for_resource(resource)
+                if not resource.input_queues:
                     resource.input_queues = list(get_set_of_IDs(input_queues))
+                    values["queue_data"] += input_queues
+                if not resource.output_queues:
                     resource.output_queues = list(get_set_of_IDs(output_queues))
-                    values["queue_data"] += input_queues + output_queues
+                    values["queue_data"] += output_queues
 
         return resources
 
-- 
2.43.0


From 7755465e2d59c8b5784343e9124ed0a06b8d20ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 36/49] fix: a machine with the same input and output location
 is not reported as two objects at one location

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index ef85a7f..0e89788 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -917,7 +917,7 @@ def get_location_of_locatable(locatable: Union[resource_data_module.ProductionRe
     locations = [locatable.location]
     if hasattr(locatable, "input_location") and locatable.input_location != locatable.location:
         locations.append(locatable.input_location)
-    if hasattr(locatable, "output_location") and locatable.output_location != locatable.location:
+    if hasattr(locatable, "output_location") and locatable.output_location not in locations:
         locations.append(locatable.output_location)
     return locations
 
-- 
2.43.0


From 39beb5660878a95b7715ff202ceb9f777fbc37df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 37/49] fix: validate_proceses_available reports every missing
 process

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 0e89788..c5558e3 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -890,7 +890,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
         for resource in self.resource_data:
             for process in resource.process_ids:
                 available_processes.add(process)
-        if required_processes > available_processes:
+        if required_processes - available_processes:
             raise ValueError(
                 f"The processes {required_processes - available_processes} are not available."
             )
-- 
2.43.0


From c4bc14e939a15cfa8ba40791281b4927f2d6075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 38/49] fix: resources without processes can be validated

---
 prodsys/models/resource_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 22c35b6..8caf9b9 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -96,7 +96,7 @@ class ResourceData(CoreAsset, Locatable):
             raise ValueError(
                 f"process_capacities {values['process_capacities']} must have the same length as processes {values['process_ids']}"
             )
-        if max(values["process_capacities"]) > values["capacity"]:
+        if max(values["process_capacities"], default=0) > values["capacity"]:
             raise ValueError("process_capacities must be smaller than capacity")
         return values
     
-- 
2.43.0


From 734534886e9b3045a347d8540e92b6b9be4d810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 39/49] fix: dangling repair, battery, loading and unloading
 time models are reported

---
 prodsys/adapters/adapter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index c5558e3..67c3e72 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -721,6 +721,12 @@ class ProductionSystemAdapter(ABC, BaseModel):
                 raise ValueError(
                     f"The time model {state.time_model_id} of state {state.ID} is not a valid time model of {time_models}."
                 )
+            for attribute in ("repair_time_model_id", "battery_time_model_id"):
+                time_model_id = getattr(state, attribute, None)
+                if time_model_id is not None and time_model_id not in time_models:
+                    raise ValueError(
+                        f"The time model {time_model_id} of state {state.ID} is not a valid time model of {time_models}."
+                    )
         return states
 
     @field_validator("process_data")
@@ -734,6 +740,12 @@ class ProductionSystemAdapter(ABC, BaseModel):
                 raise ValueError(
                     f"The time model {process.time_model_id} of process {process.ID} is not a valid time model of {time_models}."
                 )
+            for attribute in ("loading_time_model_id", "unloading_time_model_id"):
+                time_model_id = getattr(process, attribute, None)
+                if time_model_id and time_model_id not in time_models:
+                    raise ValueError(
+                        f"The time model {time_model_id} of process {process.ID} is not a valid time model of {time_models}."
+                    )
         return processes
 
     @field_validator("resource_data")
-- 
2.43.0


From 88381339171921a1ca596f42c8c6f066551ce364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 40/49] fix: unknown successor processes in the process graph
 of a product are reported

---
 prodsys/adapters/adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 67c3e72..ddc8bda 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -800,7 +800,9 @@ class ProductionSystemAdapter(ABC, BaseModel):
             ):
                 required_processes = set(util.flatten(product.processes))
             elif isinstance(product.processes, dict):
-                required_processes = set(product.processes.keys())
+                required_processes = set(product.processes.keys()) | set(
+                    util.flatten(list(product.processes.values()))
+                )
             if required_processes - all_processes != set():
                 raise ValueError(
                     f"The processes {required_processes - all_processes} of product {product.ID} are not a valid processes of {all_processes}."
-- 
2.43.0


From 0ddc68261c07b5dd018a164c22c228422f90136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 41/49] fix: faulty parts of a configuration are reported as
 validation errors by the validation of dependent parts

---
 prodsys/adapters/adapter.py | 51 +++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index ddc8bda..211973f 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -72,6 +72,25 @@ def get_set_of_IDs(list_of_objects: List[Any]) -> Set[str]:
     return set([obj.ID for obj in list_of_objects])
 
 
+def get_validated_data(values: dict, name: str) -> List[Any]:
+    """
+    Returns the already validated data with the given name.
+
+    Args:
+        values (dict): Already validated data of the adapter
+        name (str): Name of the data, e.g. "process_data"
+
+    Raises:
+        ValueError: If the data is missing because its own validation failed
+
+    Returns:
+        List[Any]: Validated data
+    """
+    if name not in values:
+        raise ValueError(f"The {name} is missing or faulty.")
+    return values[name]
+
+
 def get_default_queues_for_resource(
     resource: resource_data_module.ProductionResourceData,
     queue_capacity: Union[float, int] = 0.0,
@@ -716,7 +735,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_states(cls, states: List[state_data_module.STATE_DATA_UNION], info: ValidationInfo):
         values = info.data
         for state in states:
-            time_models = get_set_of_IDs(values["time_model_data"])
+            time_models = get_set_of_IDs(get_validated_data(values, "time_model_data"))
             if state.time_model_id not in time_models:
                 raise ValueError(
                     f"The time model {state.time_model_id} of state {state.ID} is not a valid time model of {time_models}."
@@ -735,7 +754,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
         for process in processes:
             if isinstance(process, processes_data_module.CompoundProcessData) or isinstance(process, processes_data_module.RequiredCapabilityProcessData):
                 continue
-            time_models = get_set_of_IDs(values["time_model_data"])
+            time_models = get_set_of_IDs(get_validated_data(values, "time_model_data"))
             if process.time_model_id not in time_models:
                 raise ValueError(
                     f"The time model {process.time_model_id} of process {process.ID} is not a valid time model of {time_models}."
@@ -752,20 +771,20 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_resources(cls, resources: List[resource_data_module.RESOURCE_DATA_UNION], info: ValidationInfo):
         values = info.data
         for resource in resources:
-            processes = get_set_of_IDs(values["process_data"])
+            processes = get_set_of_IDs(get_validated_data(values, "process_data"))
             for process in resource.process_ids:
                 if process not in processes:
                     raise ValueError(
                         f"The process {process} of resource {resource.ID} is not a valid process of {processes}."
                     )
-            states = get_set_of_IDs(values["state_data"])
+            states = get_set_of_IDs(get_validated_data(values, "state_data"))
             for state in resource.state_ids:
                 if state not in states:
                     raise ValueError(
                         f"The state {state} of resource {resource.ID} is not a valid state of {states}."
                     )
             if isinstance(resource, resource_data_module.ProductionResourceData):
-                queues = get_set_of_IDs(values["queue_data"])
+                queues = get_set_of_IDs(get_validated_data(values, "queue_data"))
                 for queue in resource.input_queues + resource.output_queues:
                     if queue not in queues:
                         raise ValueError(
@@ -785,7 +804,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_products(cls, products: List[product_data_module.ProductData], info: ValidationInfo):
         values = info.data
         for product in products:
-            all_processes = get_set_of_IDs(values["process_data"])
+            all_processes = get_set_of_IDs(get_validated_data(values, "process_data"))
             if product.transport_process not in all_processes:
                 raise ValueError(
                     f"The transport process {product.transport_process} of product {product.ID} is not a valid process of {all_processes}."
@@ -814,10 +833,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_sinks(cls, sinks: List[sink_data_module.SinkData], info: ValidationInfo):
         values = info.data
         for sink in sinks:
-            try:
-                products = get_set_of_IDs(values["product_data"])
-            except KeyError:
-                raise ValueError("Product data is missing or faulty.")
+            products = get_set_of_IDs(get_validated_data(values, "product_data"))
             if sink.product_type not in products:
                 raise ValueError(
                     f"The product type {sink.product_type} of sink {sink.ID} is not a valid product of {products}."
@@ -825,9 +841,9 @@ class ProductionSystemAdapter(ABC, BaseModel):
             if not sink.input_queues:
                 input_queue = get_default_queue_for_sink(sink)
                 sink.input_queues = list(get_set_of_IDs([input_queue]))
-                values["queue_data"] += [input_queue]
+                get_validated_data(values, "queue_data").extend([input_queue])
                 continue
-            queues = get_set_of_IDs(values["queue_data"])
+            queues = get_set_of_IDs(get_validated_data(values, "queue_data"))
             for q in sink.input_queues:
                 if q not in queues:
                     raise ValueError(
@@ -846,15 +862,12 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_sources(cls, sources: List[source_data_module.SourceData], info: ValidationInfo):
         values = info.data
         for source in sources:
-            time_models = get_set_of_IDs(values["time_model_data"])
+            time_models = get_set_of_IDs(get_validated_data(values, "time_model_data"))
             if source.time_model_id not in time_models:
                 raise ValueError(
                     f"The time model {source.time_model_id} of source {source.ID} is not a valid time model of {time_models}."
                 )
-            try:
-                products = get_set_of_IDs(values["product_data"])
-            except KeyError:
-                raise ValueError("Product data is missing or faulty.")
+            products = get_set_of_IDs(get_validated_data(values, "product_data"))
             if source.product_type not in products:
                 raise ValueError(
                     f"The product type {source.product_type} of source {source.ID} is not a valid product of {products}."
@@ -862,9 +875,9 @@ class ProductionSystemAdapter(ABC, BaseModel):
             if not source.output_queues:
                 output_queue = get_default_queue_for_source(source)
                 source.output_queues = list(get_set_of_IDs([output_queue]))
-                values["queue_data"] += [output_queue]
+                get_validated_data(values, "queue_data").extend([output_queue])
                 continue
-            queues = get_set_of_IDs(values["queue_data"])
+            queues = get_set_of_IDs(get_validated_data(values, "queue_data"))
             for q in source.output_queues:
                 if q not in queues:
                     raise ValueError(
-- 
2.43.0


From 586c182f0aeda70e621df995fa6de4fd593d4030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:30 +0000
Subject: [PATCH 42/49] fix: dangling references of states, processes, products
 and auxiliaries are reported by the validation

---
 prodsys/adapters/adapter.py | 49 +++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 211973f..899596c 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from abc import ABC, abstractmethod
 from hashlib import md5
 from typing import List, Any, Set, Optional, Tuple, Union
-from pydantic import BaseModel, ConfigDict, field_validator, ValidationInfo
+from pydantic import BaseModel, ConfigDict, Field, field_validator, ValidationInfo
 
 import logging
 logger = logging.getLogger(__name__)
@@ -319,7 +319,9 @@ class ProductionSystemAdapter(ABC, BaseModel):
     sink_data: List[sink_data_module.SinkData] = []
     source_data: List[source_data_module.SourceData] = []
     scenario_data: Optional[scenario_data_module.ScenarioData] = None
-    auxiliary_data: Optional[List[auxiliary_data_module.AuxiliaryData]] = []
+    auxiliary_data: Optional[List[auxiliary_data_module.AuxiliaryData]] = Field(
+        default=[], validate_default=True
+    )
 
 
     valid_configuration: bool = True
@@ -751,7 +753,21 @@ class ProductionSystemAdapter(ABC, BaseModel):
     @field_validator("process_data")
     def check_processes(cls, processes: List[processes_data_module.PROCESS_DATA_UNION], info: ValidationInfo):
         values = info.data
+        process_IDs = get_set_of_IDs(processes)
+        for state in get_validated_data(values, "state_data"):
+            for attribute in ("process_id", "origin_setup", "target_setup"):
+                process_id = getattr(state, attribute, None)
+                if process_id is not None and process_id not in process_IDs:
+                    raise ValueError(
+                        f"The process {process_id} of state {state.ID} is not a valid process of {process_IDs}."
+                    )
         for process in processes:
+            for attribute in ("process_ids", "reworked_process_ids"):
+                for process_id in getattr(process, attribute, None) or []:
+                    if process_id not in process_IDs:
+                        raise ValueError(
+                            f"The process {process_id} of process {process.ID} is not a valid process of {process_IDs}."
+                        )
             if isinstance(process, processes_data_module.CompoundProcessData) or isinstance(process, processes_data_module.RequiredCapabilityProcessData):
                 continue
             time_models = get_set_of_IDs(get_validated_data(values, "time_model_data"))
@@ -885,6 +901,35 @@ class ProductionSystemAdapter(ABC, BaseModel):
                     )
         return sources
 
+    @field_validator("auxiliary_data")
+    def check_auxiliaries(cls, auxiliaries: Optional[List[auxiliary_data_module.AuxiliaryData]], info: ValidationInfo):
+        values = info.data
+        auxiliary_IDs = get_set_of_IDs(auxiliaries or [])
+        for product in get_validated_data(values, "product_data"):
+            for auxiliary_ID in product.auxiliaries or []:
+                if auxiliary_ID not in auxiliary_IDs:
+                    raise ValueError(
+                        f"The auxiliary {auxiliary_ID} of product {product.ID} is not a valid auxiliary of {auxiliary_IDs}."
+                    )
+        for auxiliary in auxiliaries or []:
+            processes = get_set_of_IDs(get_validated_data(values, "process_data"))
+            for process in [
+                auxiliary.transport_process,
+                *auxiliary.relevant_processes,
+                *auxiliary.relevant_transport_processes,
+            ]:
+                if process not in processes:
+                    raise ValueError(
+                        f"The process {process} of auxiliary {auxiliary.ID} is not a valid process of {processes}."
+                    )
+            queues = get_set_of_IDs(get_validated_data(values, "queue_data"))
+            for storage in auxiliary.storages:
+                if storage not in queues:
+                    raise ValueError(
+                        f"The storage {storage} of auxiliary {auxiliary.ID} is not a valid queue of {queues}."
+                    )
+        return auxiliaries
+
     @abstractmethod
     def read_data(self, file_path: str, scenario_file_path: Optional[str] = None):
         """
-- 
2.43.0


From 7bc806f689d22acee7a74d060f85a6d116b3bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 43/49] fix: hash of auxiliaries reports dangling references
 and does not depend on the order of queues and processes

---
 prodsys/models/auxiliary_data.py | 37 +++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/prodsys/models/auxiliary_data.py b/prodsys/models/auxiliary_data.py
index aebe15e..eaf2d61 100644
--- a/prodsys/models/auxiliary_data.py
+++ b/prodsys/models/auxiliary_data.py
@@ -50,20 +50,27 @@ class AuxiliaryData(CoreAsset):
         Returns:
             str: Hash of the auxiliary component.
         """
-        transport_processes_hash = ""
-        storages_hashes = []
-        relevant_processes_hashes = []
-        relevant_transport_processes_hashes = []
+        def get_hash(reference_id: str, references: list, *args) -> str:
+            for reference in references:
+                if reference.ID == reference_id:
+                    return reference.hash(*args)
+            raise ValueError(
+                f"Reference with ID {reference_id} not found for auxiliary {self.ID}."
+            )
+
+        transport_processes_hash = get_hash(
+            self.transport_process, adapter.process_data, adapter
+        )
+        storages_hashes = [
+            get_hash(storage, adapter.queue_data) for storage in self.storages
+        ]
+        relevant_processes_hashes = sorted(
+            get_hash(process, adapter.process_data, adapter)
+            for process in self.relevant_processes
+        )
+        relevant_transport_processes_hashes = sorted(
+            get_hash(process, adapter.process_data, adapter)
+            for process in self.relevant_transport_processes
+        )
 
-        for queue in adapter.queue_data:
-            if queue.ID in self.storages:
-                storages_hashes.append(queue.hash())
-        for process in adapter.process_data:
-            if process.ID in self.relevant_processes:
-                relevant_processes_hashes.append(process.hash(adapter))
-            if process.ID in self.relevant_transport_processes:
-                relevant_transport_processes_hashes.append(process.hash(adapter))
-            if process.ID == self.transport_process:
-                transport_processes_hash = process.hash(adapter)
-        
         return md5("".join([*map(str, [self.auxiliary_type, self.quantity_in_storages, transport_processes_hash, *storages_hashes, *self.quantity_in_storages, *relevant_processes_hashes, *relevant_transport_processes_hashes])]).encode("utf-8")).hexdigest()
\ No newline at end of file
-- 
2.43.0


From c19d385659a1b1bc08f04b37c363621251f3c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 44/49] fix: hash of resources keeps the capacity of each
 process with its process

---
 prodsys/models/resource_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 8caf9b9..6305420 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -135,14 +135,17 @@ class ResourceData(CoreAsset, Locatable):
             else:
                 raise ValueError(f"Process with ID {process_id} not found for resource {self.ID}.")
 
+        # sort processes together with their capacities
+        processes = sorted(zip(process_hashes, self.process_capacities))
+
         return md5((
             "".join(
                 [
                     base_class_hash,
                     str(self.capacity), 
                     self.controller, 
-                    *sorted(process_hashes), 
-                    *map(str, self.process_capacities), 
+                    *[process_hash for process_hash, _ in processes], 
+                    *[str(process_capacity) for _, process_capacity in processes], 
                     *sorted(state_hashes)
                 ]
             )
-- 
2.43.0


From aeb156699b59ba2a21aa66d5231df726c0f52a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:39 +0000
Subject: [PATCH 45/49] fix: concurrent batches of a resource take each other's
 process slots

---
 prodsys/simulation/control.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 71368fa..0c884a9 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -442,8 +442,9 @@ class BatchController(Controller):
         possible_states = resource.get_processes(process)
         while True:
             free_states = resource.get_free_processes(process)
-            if free_states:
-                return free_states
+            required_states = min(self.get_batch_size(resource), len(possible_states))
+            if len(free_states) >= required_states:
+                return free_states[:required_states]
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": resource.data.ID, "event": "Waiting for free process"})
             yield events.AnyOf(
                 self.env,
@@ -528,13 +529,13 @@ class BatchController(Controller):
                 simulation_product = product.product_router.product_factory.get_product(product_data.ID)
                 products.append(simulation_product)
 
-            for simulation_product in products:
-                production_states: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            production_states: List[state.State] = yield from self.wait_for_free_process(resource, process)
 
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
-            yield self.env.process(self.run_process(production_states, products, process))
+            yield from self.run_process(production_states, products, process)
             for state in production_states:
-                state.process = None
+                if state.process is not None and not state.process.is_alive: # another batch can already use the state
+                    state.process = None
 
             product_put_events = self.put_product_to_output_queue(resource, products)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put products to queue"})
-- 
2.43.0


From bdab505986a7fec3537c59a984ec33626b72a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:09 +0000
Subject: [PATCH 46/49] fix: dynamic throughput time KPIs name the product
 instead of its row

---
 prodsys/util/post_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index fd05ab1..91b193a 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -320,7 +320,7 @@ class PostProcessor:
                     name=performance_indicators.KPIEnum.DYNAMIC_THROUGHPUT_TIME,
                     context=context,
                     value=values["Throughput_time"],
-                    product=index,
+                    product=values["Product"],
                     product_type=values["Product_type"],
                     start_time=values["Start_time"],
                     end_time=values["End_time"],
-- 
2.43.0


From e345a62293c2c67111b3b4f32eef59c1991a5a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 47/49] fix: time after an interruption is reported as
 productive or lost in the resource states

---
 prodsys/util/post_processing.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 91b193a..191a95c 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -457,7 +457,7 @@ class PostProcessor:
         )
         negative_condition = (
             (df["State_type"] == "Process State")
-            & (df["Activity"] == "end state")
+            & (df["Activity"].isin(["end state", "start interrupt"]))
             & (df["State Type"] != state.StateTypeEnum.setup)
             & (df["State Type"] != state.StateTypeEnum.breakdown)
             & (df["State Type"] != state.StateTypeEnum.charging)
@@ -500,9 +500,10 @@ class PostProcessor:
             | (df["State_sorting_Index"] == 4)
             | ((df["State_sorting_Index"] == 5) & df["Used_Capacity"] != 0)
         )
-        DOWN_CONDITION = ((df["State_sorting_Index"] == 7) | (
-            df["State_sorting_Index"] == 8
-        )) & (df["State Type"] == state.StateTypeEnum.breakdown)
+        DOWN_CONDITION = (df["State_sorting_Index"] == 7) | (
+            (df["State_sorting_Index"] == 8)
+            & (df["State Type"] == state.StateTypeEnum.breakdown)
+        )
         SETUP_CONDITION = ((df["State_sorting_Index"] == 8)) & (
             df["State Type"] == state.StateTypeEnum.setup
         )
@@ -542,7 +543,7 @@ class PostProcessor:
         )
         negative_condition = (
             (df["State_type"] == "Process State")
-            & (df["Activity"] == "end state")
+            & (df["Activity"].isin(["end state", "start interrupt"]))
             & (df["State Type"] != state.StateTypeEnum.setup)
             & (df["State Type"] != state.StateTypeEnum.breakdown)
             & (df["State Type"] != state.StateTypeEnum.charging)
@@ -592,9 +593,10 @@ class PostProcessor:
             | (df["State_sorting_Index"] == 4)
             | ((df["State_sorting_Index"] == 5) & df["Used_Capacity"] != 0)
         )
-        DOWN_CONDITION = ((df["State_sorting_Index"] == 7) | (
-            df["State_sorting_Index"] == 8
-        )) & (df["State Type"] == state.StateTypeEnum.breakdown)
+        DOWN_CONDITION = (df["State_sorting_Index"] == 7) | (
+            (df["State_sorting_Index"] == 8)
+            & (df["State Type"] == state.StateTypeEnum.breakdown)
+        )
         SETUP_CONDITION = ((df["State_sorting_Index"] == 8)) & (
             df["State Type"] == state.StateTypeEnum.setup
         )
@@ -673,7 +675,7 @@ class PostProcessor:
         )
         negative_condition = (
             (df["State_type"] == "Process State")
-            & (df["Activity"] == "end state")
+            & (df["Activity"].isin(["end state", "start interrupt"]))
             & (df["State Type"] != state.StateTypeEnum.setup)
             & (df["State Type"] != state.StateTypeEnum.breakdown)
             & (df["State Type"] != state.StateTypeEnum.charging)
@@ -721,9 +723,10 @@ class PostProcessor:
                 | (df["State_sorting_Index"] == 4)
                 | ((df["State_sorting_Index"] == 5) & df["Used_Capacity"] != 0)
             )
-            downtime_condition = ((df["State_sorting_Index"] == 7) | (
-                df["State_sorting_Index"] == 8
-            )) & (df["State Type"] == state.StateTypeEnum.breakdown)
+            downtime_condition = (df["State_sorting_Index"] == 7) | (
+                (df["State_sorting_Index"] == 8)
+                & (df["State Type"] == state.StateTypeEnum.breakdown)
+            )
             setup_condition = ((df["State_sorting_Index"] == 8)) & (
                 df["State Type"] == state.StateTypeEnum.setup
             )
-- 
2.43.0


From 9a744119847e962622eadd633771154c9c016ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 48/49] fix: queue with a fractional capacity reports room for
 a slot it refuses to reserve

---
 prodsys/simulation/store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/store.py b/prodsys/simulation/store.py
index f1f22f8..9eaa90c 100644
--- a/prodsys/simulation/store.py
+++ b/prodsys/simulation/store.py
@@ -76,7 +76,7 @@ class Queue(store.FilterStore):
             bool: True if the queue is full, False otherwise.
         """
         logger.debug({"ID": self.data.ID, "sim_time": self.env.now, "event": f"queue has {len(self.items)} items and {self._pending_put} pending puts for capacity {self.capacity}"})
-        return (self.capacity - self._pending_put - len(self.items)) <= 0
+        return self._pending_put + 1 + len(self.items) > self.capacity
     
     def reserve(self) -> None:
         """
-- 
2.43.0


From 32071860f76265f151f3b8d7a9f9a864ccebb01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:48 +0000
Subject: [PATCH 49/49] fix: dynamic work in progress KPIs fail on every log

---
 prodsys/util/post_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 191a95c..e30ad51 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -1164,7 +1164,7 @@ class PostProcessor:
         df = df.loc[df["WIP_Increment"] != 0]
 
         KPIs = []
-        df["next_Time"] = df["Time"].groupby(by="Product_type").shift(-1)
+        df["next_Time"] = df.groupby(by="Product_type")["Time"].shift(-1)
         df["next_Time"] = df["next_Time"].fillna(df["Time"])
         for index, row in df.iterrows():
             if row["Product_type"] == "Total":
-- 
2.43.0


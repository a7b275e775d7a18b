# P11: a vehicle moves along its route hop by hop
TC = "prodsys/simulation/control.py::TransportController."
LOC = "ProductionResource | Store | Sink | Source | Node"
fields("TransportController", env="SimEnvironment")
fn(TC + "run_transport", props=["P11"], nofuzz=True, may_raise=["Exception"], params={"route": f"list[{LOC}]", "product": "Product", "transport_state": "TransportState"},
   requires=["distinct(transport_state.resource.charging_states)"],
   gen=dict(env="self.env", ghost={"hop": ("int", "0")}, stable=["route[]"], rely=["distinct(transport_state.resource.charging_states)"],
      on_call={"TransportController.run_process": dict(
         check=[("next place of the route", "same(target, old(caller_route[hop + 1]))"), ("loading on the first hop only", "iff(initial_transport_step, hop == 0)"), ("unloading on the last hop only", "iff(last_transport_step, hop == old(len(caller_route)) - 2)"),
                ("as empty run or delivery", "iff(empty_transport, caller_empty_transport) and same(product, caller_product) and same(input_state, caller_transport_state)")],
         set=[("hop", "hop + 1")])}),
   loops={"*": ["hop == it", "len(route) == old(len(route))", "distinct(transport_state.resource.charging_states)"]},
   ensures=[("every hop of the route was made", "hop == ite(old(len(route)) > 0, old(len(route)) - 1, 0)")])
# taking from and putting into queues: one product, once, on the right side
NF = dict(nofuzz=True, noframe=True, inline=True, may_raise=["Exception"], ret="list[SimEvent]")
fn(TC + "put_product_to_input_queue", props=["P11", "P01"], params={"locatable": "ProductionResource | Sink | Source | Store", "product": "Product"}, **NF,
   gen=dict(ghost={"puts": ("int", "0")}, on_call={"Queue.put": dict(set=[("puts", "puts + 1")], check=[("the transported item, into a queue of the target's input side", "same(item, caller_product.product_data) and ite(isinstance(caller_locatable, Store), same(self, caller_locatable), self in caller_locatable.input_queues and not isinstance(self, Store))")])}),
   ensures=[("put exactly once (a source takes nothing)", "puts == ite(isinstance(locatable, Source), 0, 1) and len(result) == puts")])
fn(TC + "get_next_product_for_process", props=["P11"], params={"resource": "ProductionResource | Sink | Source | Store", "product": "Product"}, **NF,
   gen=dict(ghost={"gets": ("int", "0")}, on_call={"Queue.get": dict(set=[("gets", "gets + 1")], check=[("from the output side of the origin", "ite(isinstance(caller_resource, Store), same(self, caller_resource), self in caller_resource.output_queues and not isinstance(self, Store))")])}),
   ensures=[("a store gives it once, a sink nothing", "implies(isinstance(resource, Store), gets == 1 and len(result) == 1) and implies(isinstance(resource, Sink), gets == 0 and len(result) == 0)"), ("every own output queue is asked", "implies(isinstance(resource, ProductionResource) or isinstance(resource, Source), len(result) >= 1)")])
PC = "prodsys/simulation/control.py::ProductionController."
fn(PC + "get_next_product_for_process", props=["P03"], params={"resource": "ProductionResource", "product": "Product"}, **NF,
   gen=dict(ghost={"gets": ("int", "0")}, on_call={"Queue.get": dict(set=[("gets", "gets + 1")], check=[("from an own input queue that holds the product", "self in caller_resource.input_queues and not isinstance(self, Store) and caller_product.product_data in self.items")])}),
   ensures=[("taken exactly once", "gets == 1 and len(result) == 1")])
fn(PC + "put_product_to_output_queue", props=["P03", "P01"], params={"resource": "ProductionResource", "products": "list[Product]"}, **NF,
   gen=dict(ghost={"puts": ("int", "0")}, on_call={"Queue.put": dict(set=[("puts", "puts + 1")], check=[("into an own output queue", "self in caller_resource.output_queues and not isinstance(self, Store)"), ("products in order, each once", "same(item, caller_products[puts].product_data)")])}),
   loops={"*": ["puts == it", "len(events) == it", "len(products) == old(len(products))"]},
   ensures=[("every product is put exactly once", "puts == len(products) and len(result) == len(products)")])
# one request, one execution: take, work, put back, announce (in this order, for the product of the request)
ST = {"taken": ("int", "0"), "ran": ("int", "0"), "put": ("int", "0")}
SANE = ["distinct(resource.charging_states) and distinct(self.resource.charging_states)", "distinct(resource.output_queues)", "not same(product.processes_needing_rework, product.product_router.resource_factory.process_factory.processes)", "not same(product.blocking_rework_process_mappings, product.non_blocking_rework_process_mappings)",
   "all(distinct(s.resource.charging_states) for s in resource.production_states)", "product is not None and resource is not None and process is not None and isinstance(resource, ProductionResource)"]
ROOM = "all(implies(not isinstance(q, Store), q.capacity - q._pending_put - len(q.items) >= 1) for q in resource.output_queues)"
fn(PC + "start_process", props=["P03"], nofuzz=True, may_raise=["Exception"],
   gen=dict(env="self.env", ghost=ST, rely=["len(self.requests) >= 1", "all(r.product is not None and r.resource is not None and r.process is not None and isinstance(r.resource, ProductionResource) for r in self.requests)"] + SANE + [f"implies(put == 1, {ROOM})"],
      on_call={"ProductionController.get_next_product_for_process": dict(check=[("taken first, once", "taken == 0")], set=[("taken", "1")]),
               "ProductionController.run_process": dict(check=[("worked on after it was taken, once", "taken == 1 and ran == 0")], set=[("ran", "1")]),
               "ProductionController.put_product_to_output_queue": dict(check=[("put back after the work, once", "ran == 1 and put == 0 and len(products) == 1")], set=[("put", "1")])}),
   loops={"*": ["taken == 1", "ran == 0", "put == 0"] + SANE},
   ensures=[("the request is executed exactly once", "taken == 1 and ran == 1 and put == 1")])
fields("TransportResquest", origin="ProductionResource | Store | Sink | Source", target="ProductionResource | Store | Sink | Source")
RF = "prodsys/simulation/route_finder.py::RouteFinder."
fields("TransportResquest", resource="TransportResource")
fields("TransportResource", controller="TransportController")
fn(RF + "get_route_origin_and_target_locatables", props=["P11"], nofuzz=True, params={"request": "TransportResquest"},
   ensures=[("from where the vehicle is to the pick-up place, or from there to the target", "ite(route_to_origin, same(result[0], request.resource.controller._current_locatable) and same(result[1], request.origin), same(result[0], request.origin) and same(result[1], request.target))")])

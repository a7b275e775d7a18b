# P12: handing out and returning auxiliaries
R = "prodsys/simulation/router.py::"
fn(R + "Router.get_auxiliary", props=["P12"], nofuzz=True, requires=["processing_request.product is not None"], may_raise=["Exception"],
   modifies=["processing_request.auxiliary", "processing_request.resource", "processing_request.route", ("Auxiliary.reserved", "a", "True"), ("Auxiliary.got_free", "a", "True"), ("Auxiliary.current_product", "a", "True")] + [(f"AuxiliaryInfo.{x}", "a", "True") for x in ("resource_ID", "state_ID", "event_time", "product_ID", "activity", "state_type")],
   gen=dict(env="processing_request.product.env", ghost={"taken": ("int", "0")}, stable=["processing_request.product", "possible_auxiliaries[]"],
      on_call={"Auxiliary.reserve": dict(check=[("only a free one, once", "taken == 0 and not self.reserved and self.current_product is None")], set=[("taken", "taken + 1")])},
      at_yield=[("nothing is taken while waiting", "other", "taken == 0")]),
   loops={"*": ["taken == 0"]},
   ensures=[("one auxiliary is taken", "taken == 1 and processing_request.auxiliary is not None"), ("it is unavailable to everybody else", "processing_request.auxiliary.reserved and not processing_request.auxiliary.got_free.triggered"),
            ("it belongs to the product", "same(processing_request.auxiliary.current_product, processing_request.product)"),
            ("it goes where the product is", "same(processing_request.resource, processing_request.product.current_locatable)")])
fn(R + "Router.route_auxiliary_to_store", props=["P12", "P01"], nofuzz=True, params={"auxiliary": "Auxiliary"}, may_raise=["Exception"],
   gen=dict(env="auxiliary.env", ghost={"places": ("int", "0")}, stable=["auxiliary.storage"],
      on_call={"Queue.reserve": dict(check=[("in its own storage, once", "same(self, caller_auxiliary.storage) and places == 0")], set=[("places", "places + 1")])}),
   loops={"*": ["places == 0"]},
   ensures=[("one place in its storage is reserved", "places == 1")])
# the router's flows: every registered heuristic permutes its candidates (P10); the agent heuristic may also empty the list and is not covered
callable_field("routing_heuristic", R + "random_routing_heuristic")
OK = "all(r.product is not None and isinstance(r.resource, ProductionResource) and distinct(r.resource.input_queues) for r in possible_production_requests)"
fn(R + "Router.get_routed_production_request", props=["P09", "P01", "P10"], nofuzz=True, may_raise=["Exception"],
   requires=[f"{OK}"], 
   gen=dict(env="possible_production_requests[0].product.env", ghost={"places": ("int", "0")}, rely=[f"{OK}"], stable=["possible_production_requests[]"],
      on_call={"ProductionResource.reserve_internal_input_queues": dict(set=[("places", "places + 1")])},
      at_yield=[("nothing is reserved while waiting", "other", "places == 0")]),
   loops={"*": ["places == 0", f"{OK}"]},
   ensures=[("a place at the chosen machine is reserved", "implies(result is not None, places == 1)")])
fn("prodsys/simulation/process.py::Process.matches_request", props=[], virtual=True, trusted=True, ret="bool", modifies=["request.route"], note="the implementations are under contracts of their own")
fn(R + "Router.get_possible_production_requests", props=["P09"], nofuzz=True, may_raise=["Exception"],
   gen=dict(ghost={"matched": ("int", "0")}, on_call={"matches_request": dict(set=[("matched", "ite(result, 1, 0)")]), "set_process": dict(check=[("only for a process that matches", "matched == 1")])}),
   ensures=[("every candidate offers the process it is asked for", "all(r.resource in self.resource_factory.resources and isinstance(r.resource, ProductionResource) and r.process in r.resource.processes and same(r.product, product) for r in result)")],
   loops={"*": ["all(r.resource in self.resource_factory.resources and isinstance(r.resource, ProductionResource) and r.process in r.resource.processes and same(r.product, product) for r in possible_requests)"]})

T = "all(r.resource in self.resource_factory.resources and isinstance(r.resource, TransportResource) and r.process in r.resource.processes and same(r.product, item_to_transport) and same(r.target, target) and same(r.origin, item_to_transport.current_locatable) for r in transport_requests)"
fn(R + "Router.get_transport_requests_to_target", props=["P09", "P11"], nofuzz=True, may_raise=["Exception"], bounded="a cache keyed by tuples; judged in simulated runs", params={"item_to_transport": "Product | Auxiliary", "target": "Resource | Store | Sink | Source | Node", "route_cache": "dict[tuple[str, str], TransportResquest]"}, modifies=["route_cache[]"],
   ensures=[("every candidate moves the item from where it is to the target with a process it offers", T.replace("transport_requests)", "result)"))],
   loops={"*": [T]})
fn(R + "Router.route_product_to_storage", props=["P01", "P09"], nofuzz=True, may_raise=["ValueError", "Exception"], requires=["isinstance(product.current_locatable, ProductionResource)"],
   gen=dict(env="product.env", ghost={"places": ("int", "0")}, stable=["potential_to_transport_requests[]"],
      on_call={"Queue.reserve": dict(check=[("one place in one store that has room", "places == 0 and isinstance(self, Store) and not self.full")], set=[("places", "places + 1")])},
      rely=["all(r.product is not None for r in potential_to_transport_requests)"]),
   loops={"*": ["places == 0", "all(r.product is not None for r in potential_to_transport_requests)"]},
   ensures=[("one place is reserved", "places == 1")])

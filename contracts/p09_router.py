# P09/P10/P12: what the router offers and to whom
R = "prodsys/simulation/router.py::"
fields("AuxiliaryRequest", process="TransportProcess", product="Product?", auxiliary="Auxiliary?", resource="Resource | Store | Sink | Source | Node?")
fn(R + "get_item_to_transport", props=["P09", "P12"], params={"request_for_transport": "Request | AuxiliaryRequest | ToTransportRequest"}, nofuzz=True,
   ensures=[("the carrier of a request for a carrier, the product otherwise", "same(result, request_for_transport.auxiliary) if isinstance(request_for_transport, AuxiliaryRequest) else same(result, request_for_transport.product)")])
fn(R + "get_env_from_requests", props=["P09"], params={"requests": "list[Request | AuxiliaryRequest]"}, nofuzz=True, requires=["all(r.product is not None or isinstance(r, AuxiliaryRequest) and r.auxiliary is not None for r in requests)"],
   raises=[("ValueError", "len(requests) == 0", None)], ensures=[("the environment of the product of the first request", "implies(requests[0].product is not None, same(result, requests[0].product.env))"),
            ("or else of its carrier", "implies(requests[0].product is None, same(result, requests[0].auxiliary.env))")])
fn(R + "Router.get_sink", props=["P09"], nofuzz=True, raises=[("IndexError", "not any(x.data.product_type == _product_type for x in self.sink_factory.sinks)", None)],
   ensures=[("a sink of that product type", "result.data.product_type == _product_type and any(same(result, x) for x in self.sink_factory.sinks)")])
fn(R + "Router.get_production_request", props=["P09"], nofuzz=True,
   ensures=[("a new request for the next process of the product at that resource", "fresh(result) and same(result.process, product.next_prodution_process) and same(result.product, product) and same(result.resource, resource)")])
fn(R + "Router.get_transport_request", props=["P09", "P11"], nofuzz=True, params={"item_to_transport": "Product | Auxiliary", "target": "Resource | Store | Sink | Source | Node"},
   ensures=[("a new request of the item from where it is to the target", "fresh(result) and same(result.process, item_to_transport.transport_process) and same(result.product, item_to_transport) and same(result.resource, transport_resource) and same(result.origin, item_to_transport.current_locatable) and same(result.target, target) and result.route is None")])
fn(R + "Router.check_store_product", props=["P09", "P01"], nofuzz=True, requires=["isinstance(product.current_locatable, ProductionResource)"],
   ensures=[("never stored without a store", "implies(not any(isinstance(q, Store) for q in product.current_locatable.output_queues), not result)"),
            ("always stored when the own output queues are full", "implies(any(isinstance(q, Store) for q in product.current_locatable.output_queues) and all(q.full for q in product.current_locatable.output_queues if not isinstance(q, Store)), result)")])
fn(R + "Router.get_input_queue_state_change_events", props=["P09"], nofuzz=True, bounded="nested loops over the queues of several requests; judged in simulated runs", params={"possible_requests": "list[Request]"},
   ensures=[("every queue of every candidate is watched", "all(any(same(e, q.state_change) for e in result) for r in possible_requests if isinstance(r.resource, ProductionResource) for q in r.resource.input_queues)")])
fn(R + "Router.get_possible_auxiliaries", props=["P12", "P09"], nofuzz=True, bounded="route search inside a comprehension condition; judged in simulated runs", requires=["processing_request.product is not None"], modifies=["processing_request.route"],
   ensures=[("only auxiliaries of a type the product asks for", "all(a.data.auxiliary_type in processing_request.product.product_data.auxiliaries for a in result)"),
            ("only existing auxiliaries", "all(a in self.auxiliary_factory.auxiliaries for a in result)")])

# P10: routing heuristics and candidate filters
R = "prodsys/simulation/router.py::"
spec('''
def queue_len(r): return sum([len(q.items) for q in r.input_queues])
def has_room(q): return q.capacity - q._pending_put - len(q.items) >= 1
''')
fn(R + "FIFO_routing_heuristic", props=["P10"], ensures=[("order kept", "possible_requests == old(possible_requests)")])
fn(R + "random_routing_heuristic", props=["P10"], requires=["all(r.resource is not None for r in possible_requests)"], modifies=["possible_requests[]"], ensures=[("same candidates", "perm(possible_requests, old(possible_requests))"), ("same number", "len(possible_requests) == len(old(possible_requests))")])
fn(R + "shortest_queue_routing_heuristic", props=["P10"], modifies=["possible_requests[]"],
   requires=["all(isinstance(r.resource, Resource) for r in possible_requests)", ("candidate list is no queue list", "all(not same(possible_requests, r.resource.input_queues) for r in possible_requests if isinstance(r.resource, ProductionResource))")],
   ensures=[("same candidates", "perm(possible_requests, old(possible_requests))"), ("same number", "len(possible_requests) == len(old(possible_requests))"),
            ("least queued work first", "implies(old(all(isinstance(r.resource, ProductionResource) for r in possible_requests)), all(queue_len(possible_requests[0].resource) <= queue_len(r.resource) for r in possible_requests))"),
            ("least waiting requests first", "implies(not old(all(isinstance(r.resource, ProductionResource) for r in possible_requests)), all(len(possible_requests[0].resource.get_controller().requests) <= len(r.resource.get_controller().requests) for r in possible_requests))")])
fn(R + "Router.get_reachable_production_requests", props=["P10"], requires=["all(r.resource is not None for r in production_requests)"],
   ensures=[("exactly the candidates whose resource is a reachable target, in order", "result == [r for r in production_requests if r.resource.data.ID in [t.target.data.ID for t in transport_requests]]")])
fn(R + "Router.get_requests_with_non_blocked_resources", props=["P09", "P10"],
   requires=["all(r.product is not None for r in requests)"],
   ensures=[("exactly the candidates that can take an item, in order", "result == [r for r in requests if isinstance(r.resource, TransportResource) or (isinstance(r.resource, ProductionResource) and not any(q.full for q in r.resource.input_queues)) or (isinstance(r.resource, Store) and not r.resource.full)]")])
fn(R + "Router.get_free_auxiliary", props=["P10", "P12"],
   ensures=[("exactly the unreserved ones that belong to no product, in order", "result == [a for a in possible_auxiliaries if not a.reserved and a.current_product is None]")])

# P03: sequencing policies and request bookkeeping
C = "prodsys/simulation/control.py::"
fn("prodsys/simulation/process.py::Process.get_expected_process_time", props=[], trusted=True, virtual=True, pure=True, ret="float",
   note="the expected time of a process is a fixed function of the process and the places; the implementations are under contracts of their own")
def sorted_by(key): return [("same requests", "perm(requests, old(requests))"), ("same number", "len(requests) == len(old(requests))"),
   ("non-decreasing keys", f"all(implies(i < j, {key.format(x='requests[i]')} <= {key.format(x='requests[j]')}) for i in range(len(requests)) for j in range(len(requests)))"),
   ("ties in arrival order", f"all(implies(i < j and {key.format(x='requests[i]')} == {key.format(x='requests[j]')}, any(a < b and same(old(requests)[a], requests[i]) and same(old(requests)[b], requests[j]) for a in range(len(old(requests))) for b in range(len(old(requests))))) for i in range(len(requests)) for j in range(len(requests)))")]
fn(C + "FIFO_control_policy", props=["P03"], ensures=[("arrival order kept", "requests == old(requests)")])
fn(C + "LIFO_control_policy", props=["P03"], modifies=["requests[]"],
   ensures=[("newest first, the others behind it in order", "implies(len(old(requests)) > 0, requests == [old(requests)[len(old(requests)) - 1]] + old(requests)[:len(old(requests)) - 1])"), ("same number", "len(requests) == len(old(requests))")])
fn(C + "SPT_control_policy", props=["P03"], nofuzz=True, modifies=["requests[]"], requires=["all(r.process is not None for r in requests)"], ensures=sorted_by("{x}.process.get_expected_process_time()"))
fields("TransportResquest", origin="ProductionResource | Store | Sink | Source", target="ProductionResource | Store | Sink | Source", resource="TransportResource", process="TransportProcess | LinkTransportProcess")
def loc(x, m): return f"place_of({x}, '{m}')"
spec('''
def place_of(l, mode): return ite(isinstance(l, ProductionResource) or isinstance(l, Store), ite(mode == 'target', l.data.input_location, l.data.output_location), l.data.location)
def in_len(l): return ite(isinstance(l, ProductionResource), sum([len(q.items) for q in l.input_queues]), ite(isinstance(l, Store), len(l.items), 0))
def out_len(l): return ite(isinstance(l, ProductionResource) or isinstance(l, Source), sum([len(q.items) for q in l.output_queues]), ite(isinstance(l, Store), len(l.items), 0))
''')
ANYLOC = "Resource | Store | Sink | Source | Node"
fn(C + "get_location", props=["P03", "P11"], inline=True, params={"locatable": ANYLOC, "mode": "str"}, ret="list[float]", nofuzz=True, ensures=[("input side as target, output side as origin, else its place", "same(result, place_of(locatable, mode))")])
fn(C + "SPT_transport_control_policy", props=["P03"], nofuzz=True, modifies=["requests[]"],
   ensures=sorted_by("{x}.process.get_expected_process_time(place_of({x}.origin, 'origin'), place_of({x}.target, 'target'))"))
fn(C + "nearest_origin_and_longest_target_queues_transport_control_policy", props=["P03"], nofuzz=True, modifies=["requests[]"],
   ensures=sorted_by("({x}.process.get_expected_process_time(place_of({x}.resource, 'origin'), place_of({x}.origin, 'origin')), -out_len({x}.target))"))
fn(C + "nearest_origin_and_shortest_target_input_queues_transport_control_policy", props=["P03"], nofuzz=True, modifies=["requests[]"],
   ensures=sorted_by("({x}.process.get_expected_process_time(place_of({x}.resource, 'origin'), place_of({x}.origin, 'origin')), in_len({x}.target))"))
for cl, i_, o_ in (("resources.py::Resource", "sum([len(q.items) for q in self.input_queues])", "sum([len(q.items) for q in self.output_queues])"), ("source.py::Source", "0", "sum([len(q.items) for q in self.output_queues])"),
                   ("sink.py::Sink", "0", "0"), ("store.py::Store", "len(self.items)", "len(self.items)")):
    rec = dict(recv=["ProductionResource"]) if "Resource" in cl else {}
    fn(f"prodsys/simulation/{cl}.get_input_queue_length", props=["P03"], inline=True, nofuzz=True, ensures=[("items waiting at its input", f"result == {i_}")], **rec)
    fn(f"prodsys/simulation/{cl}.get_output_queue_length", props=["P03"], inline=True, nofuzz=True, ensures=[("items waiting at its output", f"result == {o_}")], **rec)
PM = "prodsys/simulation/process.py::"
field("Process.time_model", "TimeModel?")
fn("prodsys/simulation/time_model.py::TimeModel.get_expected_time", props=[], trusted=True, virtual=True, pure=True, ret="float", note="fixed function of the time model and the places; the implementations are under contracts of their own")
for cl in ("ProductionProcess", "CapabilityProcess", "ReworkProcess"):
    fn(PM + cl + ".get_expected_process_time", props=["P03", "P07"], nofuzz=True, requires=["self.time_model is not None"], ensures=[("expected time of its time model", "result == self.time_model.get_expected_time()")])
fields("Controller", resource="Resource", requested="SimEvent")
fields("ProductionController", resource="ProductionResource")
fields("TransportController", resource="TransportResource")
fn(C + "Controller.request", props=["P03"], nofuzz=True, params={"process_request": "Request"}, modifies=["self.requests[]", "self.requested.triggered"],
   requires=["process_request.product is not None"],
   ensures=[("appended once, behind the others", "self.requests == old(self.requests) + [process_request]"), ("the controller is woken", "self.requested.triggered")])
for cl in ("ProductionController", "BatchController"):
    fn(C + cl + ".handle_rework_required", props=["P03", "P08"], nofuzz=True, requires=[("own lists", "not same(product.processes_needing_rework, product.product_router.resource_factory.process_factory.processes)"), ("two collections", "not same(product.blocking_rework_process_mappings, product.non_blocking_rework_process_mappings)")], params={"process": "ProductionProcess | CapabilityProcess | ReworkProcess"}, may_raise=["ValueError"], modifies=[f"product.{x}[]" for x in ("processes_needing_rework", "blocking_rework_process_mappings", "non_blocking_rework_process_mappings")],
       gen=dict(ghost={"added": ("int", "0")},
          on_call={"Product.add_needed_rework": dict(check=[("only for processes that can fail and are no rework", "not isinstance(caller_process, ReworkProcess) and caller_process.process_data.failure_rate is not None and caller_process.process_data.failure_rate > 0"), ("the processed product and process", "same(self, caller_product) and same(failed_process, caller_process)")], set=[("added", "added + 1")])}),
       ensures=[("at most one rework per execution", "added <= 1")])
fields("TransportController", _current_locatable="ProductionResource | TransportResource | Store | Sink | Source | Node")
T_ = "prodsys/simulation/control.py::TransportController."
fn(T_ + "update_location", props=["P11"], nofuzz=True, params={"locatable": "ProductionResource | TransportResource | Store | Sink | Source | Node"}, modifies=["self._current_locatable", "self.resource.data.location"],
   ensures=[("is where it went", "same(self._current_locatable, locatable) and same(self.resource.data.location, location)")])
fn(T_ + "get_target_location", props=["P11"], nofuzz=True, params={"target": "ProductionResource | Store | Sink | Source | Node"}, ret="list[float]",
   ensures=[("last hop: pick-up at the output side, delivery at the input side", "implies(last_transport_step, same(result, place_of(target, ite(empty_transport, 'origin', 'target'))))"),
            ("intermediate hop: the place itself", "implies(not last_transport_step, same(result, target.data.location))")])

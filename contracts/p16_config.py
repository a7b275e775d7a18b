
# P16: validation of configurations
A = "prodsys/adapters/adapter.py::"
ADP = A + "ProductionSystemAdapter."
spec("""
def ids(l): return set([o.ID for o in l])
def placed(a, x): return any(o.ID == x for o in a.node_data) or any(o.ID == x for o in a.resource_data) or any(o.ID == x for o in a.source_data) or any(o.ID == x for o in a.sink_data)
""")
fields("ValidationInfo", data="dict[str, list[CoreAsset]]")
BY = "walks over collections of mixed types; decided by the bounded driver"
def p16(key, **kw): fn(key, props=["P16"], nofuzz=True, **kw)
p16(A + "get_set_of_IDs", params={"list_of_objects": "list[CoreAsset]"}, ret="set[str]", ensures=[("exactly the IDs", "result == ids(list_of_objects)")])
p16(A + "get_validated_data", params={"values": "dict[str, list[CoreAsset]]"}, ret="list[CoreAsset]", raises=[("ValueError", "name not in values", None)], ensures=[("the part itself", "same(result, values[name])")])
KNOWN = "any(o.ID == {x} for o in info.data[{k!r}])"
def known(x, k): return KNOWN.format(x=x, k=k)
PI = {"info": "ValidationInfo"}
p16(ADP + "check_states", params=PI, raises=[("ValueError", "len(states) > 0 and ('time_model_data' not in info.data or any(not " + known("s.time_model_id", "time_model_data") + " or isinstance(s, (BreakDownStateData, ProcessBreakDownStateData)) and not " + known("s.repair_time_model_id", "time_model_data") + " or isinstance(s, ChargingStateData) and s.battery_time_model_id is not None and not " + known("s.battery_time_model_id", "time_model_data") + " for s in states))", None)],
    ensures=[("unchanged", "same(result, states)")])
p16(A + "assert_production_processes_available", raises=[("ValueError", "any(not any(a.ID == r.ID for a in available) for r in required)", None)])
p16(A + "assert_transport_processes_available", raises=[("ValueError", "any(not any(a.ID == r.ID for a in available) for r in required)", None)])
p16(A + "assert_capability_processes_available", raises=[("ValueError", "any(not any(a.capability == r.capability for a in available) for r in required)", None)])
HASPROC = "'process_data' in info.data"
def some(*cs): return " or ".join(cs)
p16(ADP + "check_processes", params=PI, may_raise=["ValueError"], ensures=[("unchanged", "same(result, processes)"),
    ("no dangling process of a breakdown", "all(implies(isinstance(s, ProcessBreakDownStateData) and s.process_id is not None, any(o.ID == s.process_id for o in processes)) for s in info.data['state_data'])"),
    ("no dangling process of a setup", "all(implies(isinstance(s, SetupStateData), any(o.ID == s.origin_setup for o in processes) and any(o.ID == s.target_setup for o in processes)) for s in info.data['state_data'])"),
    ("no dangling part of a compound", "all(implies(isinstance(p, CompoundProcessData), all(any(o.ID == x for o in processes) for x in p.process_ids)) for p in processes)"),
    ("no dangling time model", "all(implies(not isinstance(p, (CompoundProcessData, RequiredCapabilityProcessData)), " + known("p.time_model_id", "time_model_data") + ") for p in processes)")])
WR = "writes the parts it completes while it reads them; decided by the bounded driver over dangling references, default queues and sizes"
for nm, par in (("check_resources", "resources"), ("check_sources", "sources"), ("check_sinks", "sinks"), ("check_products", "products")):
    p16(ADP + nm, bounded=WR, params=PI, may_raise=["ValueError"], ensures=[("the same parts", f"same(result, {par})")])
p16(ADP + "check_auxiliaries", bounded="the obligations that nothing dangles on acceptance stay undecided; the bounded driver removes every reference in turn", params={**PI, "auxiliaries": "list[AuxiliaryData]?"}, requires=[("products are products", "implies('product_data' in info.data, all(isinstance(p, ProductData) for p in info.data['product_data']))")], may_raise=["ValueError"], ensures=[("unchanged", "same(result, auxiliaries)"),
    ("no dangling transport process", "auxiliaries is None or all(" + known("a.transport_process", "process_data") + " for a in auxiliaries)"),
    ("no dangling relevant process", "auxiliaries is None or all(all(" + known("x", "process_data") + " for x in a.relevant_processes) for a in auxiliaries)"),
    ("no dangling relevant transport process", "auxiliaries is None or all(all(" + known("x", "process_data") + " for x in a.relevant_transport_processes) for a in auxiliaries)"),
    ("no dangling storage", "auxiliaries is None or all(all(" + known("x", "queue_data") + " for x in a.storages) for a in auxiliaries)")])
for nm, cond in (("production", "isinstance(p, (ProductionProcessData, ReworkProcessData))"), ("transport", "isinstance(p, TransportProcessData) and not (isinstance(p, LinkTransportProcessData) and bool(p.capability))"),
                 ("capability", "(isinstance(p, CapabilityProcessData) or (isinstance(p, (RequiredCapabilityProcessData, LinkTransportProcessData)) and bool(p.capability)))"), ("compound", "isinstance(p, CompoundProcessData)"), ("required_capability", "isinstance(p, RequiredCapabilityProcessData)")):
    p16(A + f"get_{nm}_processes_from_ids", params={"process_ids": "list[str]"}, loops={"*": ["all(q in adapter_object.process_data and q.ID in process_ids and " + cond.replace("(p,", "(q,").replace("p.", "q.") + " for q in processes)"]},
        ensures=[("only such processes", "all(p in adapter_object.process_data and p.ID in process_ids and " + cond + " for p in result)"), *([] if nm in ("compound", "required_capability") else [("none is left out", f"all(implies(p.ID in process_ids and {cond}, any(q.ID == p.ID for q in result)) for p in adapter_object.process_data)")])])
p16(A + "get_location_of_locatable", ensures=[("all its places, once each", "locatable.location in result")])
p16(A + "assert_no_redudant_locations", bounded=BY, may_raise=["ValueError"], ensures=[])
p16(A + "assert_all_links_available", requires=[("links are pairs", "all(implies(isinstance(p, LinkTransportProcessData), all(len(l) == 2 for l in p.links)) for p in adapter.process_data)")], may_raise=["ValueError"], ensures=[("no link leads nowhere", "not any(isinstance(p, LinkTransportProcessData) and any(not placed(adapter, l[0]) or not placed(adapter, l[1]) for l in p.links) for p in adapter.process_data)")])
p16(A + "get_possible_transport_processes_IDs", ensures=[("the transport processes", "result == [p.ID for p in adapter_object.process_data if isinstance(p, TransportProcessData)]")])
p16(A + "get_default_queues_for_resource", params={"queue_capacity": "float"}, ensures=[("one queue each", "len(result[0]) == 1 and len(result[1]) == 1 and result[0][0].capacity == queue_capacity and result[1][0].capacity == queue_capacity")])
p16(A + "get_default_queue_for_source", params={"queue_capacity": "float"}, ensures=[("as asked", "result.capacity == queue_capacity")])
p16(A + "get_default_queue_for_sink", params={"queue_capacity": "float"}, ensures=[("as asked", "result.capacity == queue_capacity")])
p16(A + "remove_queues_from_resource", inline=True, modifies=["machine.input_queues", "machine.output_queues"], ensures=[("no queues left", "machine.input_queues == [] and machine.output_queues == []")])
p16(A + "remove_queues_from_resources", modifies=[("ProductionResourceData.input_queues", "r", "r in machines"), ("ProductionResourceData.output_queues", "r", "r in machines")], ensures=[("no queues left", "all(m.input_queues == [] and m.output_queues == [] for m in machines)")])
p16(A + "add_default_queues_to_sources", noframe=True, params={"queue_capacity": "float"}, loops={"*": ["all(len(s.output_queues) > 0 for s in adapter.source_data[:it])", "all(implies(len(old(s.output_queues)) > 0, same(s.output_queues, old(s.output_queues))) for s in adapter.source_data)"]}, modifies=[("SourceData.output_queues", "r", "r in adapter.source_data"), "adapter.queue_data[]"], ensures=[("every source has a queue", "all(len(s.output_queues) > 0 for s in adapter.source_data)"), ("those with a queue keep it", "all(implies(len(old(s.output_queues)) > 0, same(s.output_queues, old(s.output_queues))) for s in adapter.source_data)")])
p16(A + "add_default_queues_to_sinks", noframe=True, params={"queue_capacity": "float"}, loops={"*": ["all(len(s.input_queues) > 0 for s in adapter.sink_data[:it])", "all(implies(len(old(s.input_queues)) > 0, same(s.input_queues, old(s.input_queues))) for s in adapter.sink_data)"]}, modifies=[("SinkData.input_queues", "r", "r in adapter.sink_data"), "adapter.queue_data[]"], ensures=[("every sink has a queue", "all(len(s.input_queues) > 0 for s in adapter.sink_data)"), ("those with a queue keep it", "all(implies(len(old(s.input_queues)) > 0, same(s.input_queues, old(s.input_queues))) for s in adapter.sink_data)")])
p16(A + "check_for_clean_compound_processes", bounded=BY, ensures=[])
p16(ADP + "validate_configuration", bounded=BY, may_raise=["ValueError"], ensures=[])
p16("prodsys/models/resource_data.py::ResourceData.check_process_capacity", bounded=BY, params={"values": "dict[str, any]"}, ensures=[])

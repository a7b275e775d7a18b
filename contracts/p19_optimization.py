# P19: validity of configurations, reconfiguration cost, variation operators
U, O, M, A = "prodsys/optimization/util.py::", "prodsys/optimization/optimization.py::", "prodsys/optimization/adapter_manipulation.py::", "prodsys/adapters/adapter.py::"
spec('''
def machines(a): return [r for r in a.resource_data if isinstance(r, ProductionResourceData)]
def vehicles(a): return [r for r in a.resource_data if isinstance(r, TransportResourceData)]
''')
def p19(key, **kw): fn(key, props=["P19"], nofuzz=True, **kw)
p19(A + "get_production_resources", ensures=[("exactly the machines, in order", "result == machines(adapter)")])
p19(A + "get_transport_resources", ensures=[("exactly the vehicles, in order", "result == vehicles(adapter)")])
p19(O + "valid_num_machines", requires=["configuration.scenario_data is not None"], ensures=[("within the limit exactly", "result == (len(machines(configuration)) <= configuration.scenario_data.constraints.max_num_machines)")])
p19(O + "valid_transport_capacity", requires=["configuration.scenario_data is not None"], ensures=[("within the limit and not empty exactly", "result == (0 < len(vehicles(configuration)) <= configuration.scenario_data.constraints.max_num_transport_resources)")])
p19(U + "adjust_process_capacities", modifies=[("ResourceData.process_capacities", "r", "r in adapter_object.resource_data")],
    ensures=[("capacities aligned with processes", "all(len(r.process_capacities) == len(r.process_ids) and all(c == r.capacity for c in r.process_capacities) for r in adapter_object.resource_data)")])
for nm, c, sp in (("remove_machine", "ProductionResourceData", "machines"), ("remove_transport_resource", "TransportResourceData", "vehicles")):
    p19(M + nm, modifies=["adapter_object.resource_data[]"], ensures=[
        ("reports no change exactly when there is nothing to remove", f"result == (len(old({sp}(adapter_object))) > 0)"),
        ("untouched when nothing was done", "result or adapter_object.resource_data == old(adapter_object.resource_data)"),
        ("exactly one fewer", "not result or len(adapter_object.resource_data) == len(old(adapter_object.resource_data)) - 1"),
        ("nothing new", "all(r in old(adapter_object.resource_data) for r in adapter_object.resource_data)")])
p19(M + "update_production_resource_location", params={"new_location": "list[float]"}, requires=["len(new_location) == 2", "len(resource.location) == 2", "resource.input_location is not None and len(resource.input_location) == 2", "resource.output_location is not None and len(resource.output_location) == 2"],
    modifies=["resource.location", "resource.input_location", "resource.output_location"],
    ensures=[("moved there", "resource.location == new_location"), ("the places for input and output move along", "all(resource.input_location[k] - old(resource.input_location[k]) == new_location[k] - old(resource.location[k]) and resource.output_location[k] - old(resource.output_location[k]) == new_location[k] - old(resource.location[k]) for k in range(2))")])
BY = "{0}; decided by the bounded driver over generated configurations"
for nm, why in (("change_control_policy", "deep copies and random choices over mixed lists"), ("change_routing_policy", "deep copies"), ("add_transport_resource", "identifiers of uuid1"), ("add_auxiliary", "random choices over ranges"),
                ("remove_auxiliary", "random choices over ranges"), ("move_machine", "deep copies"), ("get_mutation_operations", "a list of functions"), ("crossover", "identifiers of uuid1")):
    p19(M + nm, bounded=BY.format(why))
for nm, why in (("get_grouped_processes_of_machine", "groups of mixed types"), ("get_num_of_process_modules", "groups of mixed types"), ("get_required_auxiliaries", "updates of sets"), ("add_setup_states_to_machine", "writes identifiers while it reads them"), ("get_weights", "a pydantic type adapter")):
    p19(U + nm, bounded=BY.format(why))
for nm, why in (("valid_positions", "comparison of sets of positions"), ("check_valid_configuration", "calls of the above"), ("assert_required_auxiliaries_available", "updates of sets"), ("get_reconfiguration_cost", "calls of the above"), ("get_process_module_cost", "groups of mixed types"), ("get_auxiliary_cost", "nested sums"), ("valid_reconfiguration_cost", "calls of the above")):
    p19(O + nm, bounded=BY.format(why))

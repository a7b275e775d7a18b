# P14: lookups by identifier and type
F = "prodsys/factories/"
def get_one(key, lst, idx, exc="IndexError", **kw):
    fn(F + key, props=["P14"], raises=[(exc, f"not any({idx} == ID for x in self.{lst})", None)],
       ensures=[("the object with exactly that identifier", f"any(same(result, x) for x in self.{lst}) and {idx.replace('x.', 'result.', 1)} == ID")], **kw)
def get_many(key, lst, idx, **kw):
    fn(F + key, props=["P14"], ensures=[("exactly the objects with one of these identifiers", f"result == [x for x in self.{lst} if {idx} in IDs]")], **kw)
def get_typed(key, expr, **kw):
    fn(F + key, props=["P14"], ensures=[("exactly the objects asked for, in order", f"result == {expr}")], **kw)
fields("NodeFactory", nodes="list[Node]")
get_one("time_model_factory.py::TimeModelFactory.get_time_model", "time_models", "x.time_model_data.ID")
get_many("time_model_factory.py::TimeModelFactory.get_time_models", "time_models", "x.time_model_data.ID")
get_one("process_factory.py::ProcessFactory.get_process", "processes", "x.process_data.ID", exc="ValueError")
get_many("state_factory.py::StateFactory.get_states", "states", "x.state_data.ID")
get_one("queue_factory.py::QueueFactory.get_queue", "queues", "x.data.ID")
get_many("queue_factory.py::QueueFactory.get_queues", "queues", "x.data.ID")
get_one("node_factory.py::NodeFactory.get_node", "nodes", "x.data.ID")
get_one("resource_factory.py::ResourceFactory.get_resource", "resources", "x.data.ID")
get_many("resource_factory.py::ResourceFactory.get_resources", "resources", "x.data.ID")
get_typed("resource_factory.py::ResourceFactory.get_resources_with_process", "[x for x in self.resources if target_process.process_data.ID in x.data.process_ids]")
get_typed("resource_factory.py::ResourceFactory.get_transport_resources", "[x for x in self.resources if isinstance(x, TransportResource)]")
get_typed("resource_factory.py::ResourceFactory.get_production_resources", "[x for x in self.resources if isinstance(x, ProductionResource)]")
fn(F + "resource_factory.py::ResourceFactory.get_controller_of_resource", props=["P14"],
   ensures=[("a controller of that resource", "implies(result is not None, result.resource == _resource and any(same(result, c) for c in self.controllers))"),
            ("none only if there is none", "implies(result is None, not any(c.resource == _resource for c in self.controllers))")])
fn(F + "resource_factory.py::ResourceFactory.get_queues_for_resource", props=["P14"],
   raises=[("ValueError", "resource_data.input_queues is None or len(resource_data.input_queues) == 0 or resource_data.output_queues is None or len(resource_data.output_queues) == 0", None)],
   ensures=[("its input queues", "result[0] == [q for q in self.queue_factory.queues if q.data.ID in resource_data.input_queues]"), ("its output queues", "result[1] == [q for q in self.queue_factory.queues if q.data.ID in resource_data.output_queues]")])
get_one("source_factory.py::SourceFactory.get_source", "sources", "x.data.ID")
get_many("source_factory.py::SourceFactory.get_sources", "sources", "x.data.ID")
get_typed("source_factory.py::SourceFactory.get_sources_with_product_type", "[x for x in self.sources if __product_type == x.data.product_type]")
get_one("sink_factory.py::SinkFactory.get_sink", "sinks", "x.data.ID")
get_many("sink_factory.py::SinkFactory.get_sinks", "sinks", "x.data.ID")
get_typed("sink_factory.py::SinkFactory.get_sinks_with_product_type", "[x for x in self.sinks if __product_type == x.data.product_type]")
get_one("auxiliary_factory.py::AuxiliaryFactory.get_auxiliary", "auxiliaries", "x.data.ID")
fn(F + "process_factory.py::ProcessFactory.get_processes_in_order", props=["P14"],
   loops={"*": ["all(p.process_data.ID in IDs for p in processes)", "all(p in self.processes for p in processes)"]},
   ensures=[("only requested processes", "all(p.process_data.ID in IDs and p in self.processes for p in result)")])
fn(F + "link_transport_process_updater.py::LinkTransportProcessUpdater.get_node_resource_source_sink", props=["P14", "P11"],
   ensures=[("the place with exactly that identifier", "implies(result is not None, result.data.ID == ID)"),
            ("none only if there is none", "implies(result is None, not any(x.data.ID == ID for x in self.node_factory.nodes) and not any(x.data.ID == ID for x in self.resource_factory.resources) and not any(x.data.ID == ID for x in self.source_factory.sources) and not any(x.data.ID == ID for x in self.sink_factory.sinks))")])
fields("LinkTransportProcessUpdater", process_factory="ProcessFactory", source_factory="SourceFactory", sink_factory="SinkFactory", resource_factory="ResourceFactory", node_factory="NodeFactory")

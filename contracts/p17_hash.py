# P17: the hash of a configuration depends on contents only
D = "prodsys/models/"
def p17(key, **kw): fn(D + key, props=["P17"], nofuzz=True, **kw)
def dig(*xs): return 'md5((' + " + ".join(xs) + ').encode("utf-8")).hexdigest()'
p17("time_model_data.py::FunctionTimeModelData.hash", ensures=[("its parameters and nothing else", "result == " + dig("str(self.distribution_function)", "str(self.location)", "str(self.scale)"))])
p17("time_model_data.py::ManhattanDistanceTimeModelData.hash", ensures=[("its parameters and nothing else", "result == " + dig("str(self.speed)", "'_'", "str(self.reaction_time)"))])
p17("time_model_data.py::DistanceTimeModelData.hash", ensures=[("its parameters and nothing else", "result == " + dig("str(self.speed)", "str(self.reaction_time)", "str(self.metric)"))])
p17("queue_data.py::QueueData.hash", ensures=[("its capacity and nothing else", "result == " + dig("str(self.capacity)"))])
for nm in ("SequentialTimeModelData", "SampleTimeModelData", "ScheduledTimeModelData"):
    p17(f"time_model_data.py::{nm}.hash", pure=True, bounded="joins a list of unknown length; the bounded driver changes every attribute in turn")
p17("core_asset.py::Locatable.hash", ensures=[("its place and nothing else", "result == " + dig("str(self.location)"))])
p17("core_asset.py::InLocatable.hash", ensures=[("its places and nothing else", "result == " + dig("str(self.location)", "str(self.input_location)"))])
p17("core_asset.py::OutLocatable.hash", ensures=[("its places and nothing else", "result == " + dig("str(self.location)", "str(self.output_location)"))])
p17("core_asset.py::InOutLocatable.hash", ensures=[("its places and nothing else", "result == " + dig("str(self.location)", "str(self.input_location)", "str(self.output_location)"))])
p17("queue_data.py::StoreData.hash", ensures=[("its places and its capacity and nothing else", "result == " + dig("InOutLocatable.hash(self)", "QueueData.hash(self)"))])
TM = "adapter.time_model_data"
def miss(x, l): return f"not any(o.ID == {x} for o in {l})"
p17("state_data.py::StateData.hash", raises=[("ValueError", miss("self.time_model_id", TM), None)], ensures=[("its type and the contents of its time model, not their names", "any(t.ID == self.time_model_id and result == " + dig("self.type", "t.hash()") + f" for t in {TM})")])
p17("state_data.py::BreakDownStateData.hash", raises=[("ValueError", miss("self.time_model_id", TM) + " or " + miss("self.repair_time_model_id", TM), None)], ensures=[("the contents of its time models, not their names", "any(any(t.ID == self.time_model_id and u.ID == self.repair_time_model_id and result == " + dig(dig("self.type", "t.hash()"), "u.hash()") + f" for u in {TM}) for t in {TM})")])
p17("state_data.py::ChargingStateData.hash", raises=[("ValueError", miss("self.time_model_id", TM) + " or " + miss("self.battery_time_model_id", TM), None)], ensures=[("the contents of its time models, not their names", "any(any(t.ID == self.time_model_id and u.ID == self.battery_time_model_id and result == " + dig(dig("self.type", "t.hash()"), "u.hash()") + f" for u in {TM}) for t in {TM})")])
p17("processes_data.py::ProcessData.hash", raises=[("ValueError", miss("self.time_model_id", TM), None)], ensures=[("the contents of its time model, not its name", "any(t.ID == self.time_model_id and result == " + dig("t.hash()") + f" for t in {TM})")])
p17("processes_data.py::ProductionProcessData.hash", raises=[("ValueError", miss("self.time_model_id", TM), None)], ensures=[("its failure rate and the contents of its time model, not its name", "any(t.ID == self.time_model_id and result == " + dig(dig("t.hash()"), "str(self.failure_rate)") + f" for t in {TM})")])
p17("processes_data.py::CapabilityProcessData.hash", raises=[("ValueError", miss("self.time_model_id", TM), None)], ensures=[("its capability, its failure rate and the contents of its time model, not its name", "any(t.ID == self.time_model_id and result == " + dig(dig("t.hash()"), "self.capability", "str(self.failure_rate)") + f" for t in {TM})")])
p17("processes_data.py::RequiredCapabilityProcessData.hash", ensures=[("its capability and nothing else", "result == " + dig("self.capability"))])
EMPTY = "''"
LD, UD = "bool(self.loading_time_model_id)", "bool(self.unloading_time_model_id)"
def pick(x, v): return f"{v}.ID == {x}"
p17("processes_data.py::TransportProcessData.hash", raises=[("ValueError", miss("self.time_model_id", TM) + f" or {LD} and " + miss("self.loading_time_model_id", TM) + f" or {UD} and " + miss("self.unloading_time_model_id", TM), None)],
    ensures=[("the contents of its time model when there is no handling time", f"{LD} or {UD} or any(t.ID == self.time_model_id and result == " + dig(dig("t.hash()")) + f" for t in {TM})"),
             ("the contents of its loading time model too", f"not {LD} or {UD} or any(any(t.ID == self.time_model_id and u.ID == self.loading_time_model_id and result == " + dig(dig("t.hash()"), "u.hash()") + f" for u in {TM}) for t in {TM})"),
             ("the contents of its unloading time model too", f"not {UD} or {LD} or any(any(t.ID == self.time_model_id and u.ID == self.unloading_time_model_id and result == " + dig(dig("t.hash()"), "u.hash()") + f" for u in {TM}) for t in {TM})"),
             ("the contents of both handling time models, in this order", f"not ({LD} and {UD}) or any(any(any(t.ID == self.time_model_id and u.ID == self.loading_time_model_id and v.ID == self.unloading_time_model_id and result == " + dig(dig("t.hash()"), "u.hash()", "v.hash()") + f" for v in {TM}) for u in {TM}) for t in {TM})")])
for nm in ("CompoundProcessData", "LinkTransportProcessData"):
    p17(f"processes_data.py::{nm}.hash", pure=True, may_raise=["ValueError"], bounded="sorts and joins lists of unknown length; the bounded driver changes every attribute in turn")
p17("product_data.py::ProductData.hash", pure=True, may_raise=["ValueError", "NotImplementedError"], bounded="joins a list of unknown length; the bounded driver changes every attribute in turn")
PS = "adapter.process_data"
p17("state_data.py::SetupStateData.hash", params={"adapter": "ProductionSystemAdapter"}, may_raise=["ValueError"], ensures=[("the contents of its processes, in this order, not their names", "any(any(any(t.ID == self.time_model_id and p.ID == self.origin_setup and q.ID == self.target_setup for q in " + PS + ") for p in " + PS + ") for t in " + TM + ")")])
p17("state_data.py::ProcessBreakDownStateData.hash", may_raise=["ValueError"], ensures=[("nothing dangles when a hash is returned", "any(t.ID == self.time_model_id for t in " + TM + ") and any(t.ID == self.repair_time_model_id for t in " + TM + ") and any(p.ID == self.process_id for p in " + PS + ")")])
for cl, f, qs in (("Source", "source_data", "output_queues"), ("Sink", "sink_data", "input_queues")):
    p17(f"{f}.py::{cl}Data.hash", may_raise=["ValueError", "NotImplementedError"], ensures=[("nothing dangles when a hash is returned", ("any(t.ID == self.time_model_id for t in " + TM + ") and " if cl == "Source" else "") + f"any(p.product_type == self.product_type for p in adapter.product_data) and all(any(q.ID == x for q in adapter.queue_data) for x in self.{qs})")])
p17("resource_data.py::ResourceData.hash", may_raise=["ValueError", "NotImplementedError", "TypeError"], ensures=[("nothing dangles when a hash is returned", "all(any(s.ID == x for s in adapter.state_data) for x in self.state_ids) and all(any(p.ID == x for p in adapter.process_data) for x in self.process_ids)")])
p17("resource_data.py::ProductionResourceData.hash", may_raise=["ValueError", "NotImplementedError", "TypeError"], ensures=[("nothing dangles when a hash is returned", "all(any(q.ID == x for q in adapter.queue_data) for x in self.input_queues) and all(any(q.ID == x for q in adapter.queue_data) for x in self.output_queues)")])

# P02: capacity, production slots, setup
R = "prodsys/simulation/resources.py::Resource."
spec('''
def slot_free(s): return s.process is None or not s.process.is_alive
def slots_of(r, pid): return [s for s in r.production_states if s.state_data.ID == pid]
def setup_id(r): return ite(r.reserved_setup is not None, r.reserved_setup.process_data.ID, r.current_setup.process_data.ID)
''')
fn(R + "reserve_setup", props=["P02"], modifies=["self.reserved_setup"], ensures=[("reserved for exactly this process", "same(self.reserved_setup, process)")])
fn(R + "unreserve_setup", props=["P02"], modifies=["self.reserved_setup"], ensures=[("no setup reserved", "self.reserved_setup is None")])
fn(R + "in_setup", props=["P02"], inline=True, ensures=[("in setup exactly while a setup is reserved", "iff(result, self.reserved_setup is not None)")])
fn(R + "capacity_current_setup", props=["P02"],
   requires=[("reserving needs a current setup", "implies(self.reserved_setup is not None, self.current_setup is not None)")],
   ensures=[("unlimited by setup while nothing is set up", "implies(self.current_setup is None, result == self.capacity)"),
            ("number of slots of the (reserved or current) setup", "implies(self.current_setup is not None, result == len([s for s in self.production_states if s.state_data.ID == setup_id(self)]))")])
fn(R + "full", props=["P02"],
   requires=[("reserving needs a current setup", "implies(self.reserved_setup is not None, self.current_setup is not None)")],
   ensures=[("no capacity while a setup is reserved", "implies(self.reserved_setup is not None, result)"),
            ("full exactly when running and reserved work uses up the slots", "implies(self.reserved_setup is None, iff(result, len(self.controller.running_processes) + self.controller.reserved_requests_count >= self.capacity_current_setup))")])
fn(R + "get_process", props=["P02"], raises=[("ValueError", "not any(s.state_data.ID == process.process_data.ID for s in self.production_states)", None)],
   ensures=[("a slot of the process", "result in self.production_states and result.state_data.ID == process.process_data.ID")])
fn(R + "get_processes", props=["P02"], raises=[("ValueError", "not any(s.state_data.ID == process.process_data.ID for s in self.production_states)", None)],
   ensures=[("exactly the slots of the process", "result == [s for s in self.production_states if s.state_data.ID == process.process_data.ID]")])
fn(R + "get_free_process", props=["P02"], 
   ensures=[("an idle slot of the process", "implies(result is not None, result in self.production_states and result.state_data.ID == process.process_data.ID and slot_free(result))"),
            ("none only if every slot is busy", "implies(result is None, all(implies(s.state_data.ID == process.process_data.ID, not slot_free(s)) for s in self.production_states))")])
fn(R + "get_free_processes", props=["P02"],
   ensures=[("exactly the idle slots of the process", "result == [s for s in self.production_states if s.state_data.ID == process.process_data.ID and slot_free(s)]")])
fn(R + "add_production_state", props=["P02"], modifies=["self.production_states[]", "input_state.resource", "input_state.state_info"],
   ensures=[("one more slot, the given one", "self.production_states == old(self.production_states) + [input_state]"), ("slot belongs to the resource", "same(input_state.resource, self)")])

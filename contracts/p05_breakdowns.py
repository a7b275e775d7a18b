# P05: breakdowns, repairs, batteries
R = "prodsys/simulation/resources.py::Resource."
S = "prodsys/simulation/state.py::"
fn(S + "ChargingState.add_battery_usage_time", props=["P05"], modifies=["self.battery_usage_time_since_charging"],
   ensures=[("usage accumulates", "self.battery_usage_time_since_charging == old(self.battery_usage_time_since_charging) + time")])
fn(R + "consider_battery_usage", props=["P05"], modifies=[("ChargingState.battery_usage_time_since_charging", "s", "s in self.charging_states")],
   requires=[("no battery is listed twice", "all(implies(i != j, not same(self.charging_states[i], self.charging_states[j])) for i in range(len(self.charging_states)) for j in range(len(self.charging_states)))")],
   ensures=[("every battery of the resource is used", "all(s.battery_usage_time_since_charging == old(s.battery_usage_time_since_charging) + amount for s in self.charging_states)")])
fields("Resource", production_states="list[ProductionState | TransportState]", states="list[BreakDownState | ProcessBreakDownState]")
fn(S + "ChargingState.requires_charging", props=["P05"], nofuzz=True,
   gen=dict(ghost={"battery": ("float", "0.0"), "draws": ("int", "0")}, on_call={"TimeModel.get_next_time": dict(check=[("the battery time", "same(self, me.battery_time_model)")], set=[("battery", "result"), ("draws", "draws + 1")])}),
   ensures=[("exactly when ninety percent of the battery time is used up", "draws == 1 and iff(result, self.battery_usage_time_since_charging >= 0.9 * battery)")])
fn(R + "charge", props=["P05"], nofuzz=True,
   gen=dict(ghost={"need": ("int", "0"), "asked": ("int", "0")},
      on_call={"ChargingState.requires_charging": dict(set=[("need", "ite(result, 1, 0)"), ("asked", "asked + 1")]),
               "ChargingState.prepare_for_run": dict(check=[("only a battery that requires it", "need == 1")], set=[("need", "2")])},
      at_yield=[("only batteries that require it are charged", "other", "need == 2")], set_at_yield=[("need", "other", "0")]),
   loops={"*": ["need == 0"]})
fn(R + "activate", props=["P05"], modifies=["self.active.triggered"], may_raise=["RuntimeError"],
   requires=["not self.active.triggered"],
   ensures=[("available again exactly if no breakdown is active", "iff(self.active.triggered, not any(isinstance(s, BreakDownState) and s.active_breakdown for s in self.states))")])
# every slot and changeover of a resource is listed once and runs its own process
spec('''
def own_processes(r): return all(i == j or not same(r.setup_states[i], r.setup_states[j]) and (r.setup_states[i].process is None or r.setup_states[j].process is None or not same(r.setup_states[i].process, r.setup_states[j].process)) for i in range(len(r.setup_states)) for j in range(len(r.setup_states))) and all(i == j or not same(r.production_states[i], r.production_states[j]) and (r.production_states[i].process is None or r.production_states[j].process is None or not same(r.production_states[i].process, r.production_states[j].process)) for i in range(len(r.production_states)) for j in range(len(r.production_states))) and all((r.setup_states[i].process is None or r.production_states[j].process is None or not same(r.setup_states[i].process, r.production_states[j].process)) for i in range(len(r.setup_states)) for j in range(len(r.production_states)))
''')
def NODUPL(l): return f"all(implies(i != j, not same({l}[i], {l}[j])) for i in range(len({l})) for j in range(len({l})))"
fn(R + "interrupt_states", props=["P05", "P04"], modifies=["self.active", ("SetupState.interrupted", "s", "True"), ("ProductionState.interrupted", "s", "True"), ("TransportState.interrupted", "s", "True"), ("SimProcess.interrupts", "p", "True")],
   requires=["own_processes(self)"],
   ensures=[("unavailable", "not self.active.triggered"), ("the signal of a running breakdown is kept", "implies(not old(self.active.triggered), same(self.active, old(self.active)))"),
            ("every running activity is interrupted", "all(implies(s.process is not None and s.process.is_alive, s.interrupted) for s in self.setup_states + self.production_states)"),
            ("nothing else is", "all(implies(s.process is None or not s.process.is_alive, iff(s.interrupted, old(s.interrupted))) for s in self.setup_states + self.production_states)")])
fn(S + "State.deactivate", props=["P05"], modifies=["self.active"], ensures=[("blocked", "not self.active.triggered"), ("by a signal of its own", "fresh(self.active)")])
fn(S + "State.activate", props=["P05"], modifies=["self.active.triggered"], raises=[("RuntimeError", "old(self.active.triggered)", None)], ensures=[("enabled", "self.active.triggered")])
for c in ("ProductionState", "TransportState", "SetupState", "ChargingState"):
    fn(S + c + ".activate_state", props=["P05", "P04"], modifies=["self.active"], ensures=[("enabled from the start", "self.active.triggered"), ("by a signal of its own", "fresh(self.active)")])
    fn(S + c + ".prepare_for_run", props=["P04"], modifies=["self.finished_process"], ensures=[("not yet finished", "not self.finished_process.triggered"), ("a completion signal of its own", "fresh(self.finished_process)")])
fn(S + "BreakDownState.process_state", props=["P05", "P06"], nofuzz=True, may_raise=["RuntimeError", "ValueError"],
   requires=["own_processes(self.resource)", "not self.active_breakdown"],
   gen=dict(ghost={"down": ("int", "0"), "drawn": ("float", "0.0"), "logged": ("int", "0"), "repaired": ("int", "0")},
      on_call={"Resource.interrupt_states": dict(check=[("the breakdown is marked first", "me.active_breakdown and same(self, me.resource)"), ("once per breakdown", "down == 0")], set=[("down", "1")]),
               "TimeModel.get_next_time": dict(check=[("the repair time", "same(self, me.repair_time_model)")], assume=["result >= 0.0"], set=[("drawn", "result"), ("repaired", "0")]),
               "StateInfo.log_start_state": dict(check=[("now", "start_time == me.env.now"), ("expected end", "expected_end_time == me.env.now + drawn"), ("kind", "state_type == StateTypeEnum.breakdown"), ("once", "logged == 0 and down == 1")], set=[("logged", "1")]),
               "StateInfo.log_end_state": dict(check=[("now", "end_time == me.env.now"), ("kind", "state_type == StateTypeEnum.breakdown"), ("after its start and its repair", "logged == 1 and repaired == 1")], set=[("logged", "0")]),
               "Resource.activate": dict(check=[("the breakdown is over", "not me.active_breakdown and repaired == 1 and same(self, me.resource)"), ("once", "down == 1")], set=[("down", "0")])},
      rely=["own_processes(self.resource)", "implies(self.active_breakdown, not self.resource.active.triggered)"],
      stable=["self.active_breakdown", "self.resource"],
      at_yield=[("stays down for the drawn repair time", "timeout", "ev.delay == drawn and self.active_breakdown and down == 1 and logged == 1 and not self.resource.active.triggered"),
                ("waits for the next breakdown only when repaired and reported", "other", "down == 0 and logged == 0 and not self.active_breakdown")],
      on_timeout={"repaired": "1"}),
   loops={"*": ["down == 0", "logged == 0", "not self.active_breakdown"]})
fields("ProcessBreakDownState", production_states="list[ProductionState]")
ALLB = "all({c} for s in self.production_states) and all({c} for s in self.resource.setup_states)"
spec('''
def own_slots(b): return all(i == j or not same(b.resource.setup_states[i], b.resource.setup_states[j]) and (b.resource.setup_states[i].process is None or b.resource.setup_states[j].process is None or not same(b.resource.setup_states[i].process, b.resource.setup_states[j].process)) for i in range(len(b.resource.setup_states)) for j in range(len(b.resource.setup_states))) and all(i == j or not same(b.production_states[i], b.production_states[j]) and (b.production_states[i].process is None or b.production_states[j].process is None or not same(b.production_states[i].process, b.production_states[j].process)) for i in range(len(b.production_states)) for j in range(len(b.production_states))) and all((b.resource.setup_states[i].process is None or b.production_states[j].process is None or not same(b.resource.setup_states[i].process, b.production_states[j].process)) for i in range(len(b.resource.setup_states)) for j in range(len(b.production_states)))
''')
spec('''
def own_signals(b): return all(i == j or not same(b.resource.setup_states[i].active, b.resource.setup_states[j].active) for i in range(len(b.resource.setup_states)) for j in range(len(b.resource.setup_states))) and all(i == j or not same(b.production_states[i].active, b.production_states[j].active) for i in range(len(b.production_states)) for j in range(len(b.production_states))) and all(not same(b.resource.setup_states[i].active, b.production_states[j].active) for i in range(len(b.resource.setup_states)) for j in range(len(b.production_states)))
''')
fn(S + "ProcessBreakDownState.process_state", props=["P05", "P06"], nofuzz=True, may_raise=["RuntimeError", "ValueError"],
   requires=["own_slots(self)"],
   gen=dict(ghost={"down": ("int", "0"), "drawn": ("float", "0.0"), "logged": ("int", "0"), "repaired": ("int", "0")},
      on_call={"TimeModel.get_next_time": dict(check=[("the repair time, once", "same(self, me.repair_time_model) and down == 0")], assume=["result >= 0.0"], set=[("drawn", "result"), ("repaired", "0"), ("down", "1")]),
               "StateInfo.log_start_state": dict(check=[("now", "start_time == me.env.now"), ("expected end", "expected_end_time == me.env.now + drawn"), ("kind", "state_type == StateTypeEnum.process_breakdown"), ("once", "logged == 0 and down == 1")], set=[("logged", "1")]),
               "StateInfo.log_end_state": dict(check=[("now", "end_time == me.env.now"), ("kind", "state_type == StateTypeEnum.process_breakdown"), ("after its start and its repair", "logged == 1 and repaired == 1")], set=[("logged", "0"), ("down", "0")])},
      rely=["own_slots(self)"],
      resume=["implies(down == 1, " + ALLB.format(c="not s.active.triggered") + ")", "own_signals(self)"],
      stable=["self.resource", "self.production_states"],
      at_yield=[("blocks every slot of its process and every changeover for the drawn repair time", "timeout", "ev.delay == drawn and down == 1 and logged == 1 and " + ALLB.format(c="not s.active.triggered")),
                ("and interrupts the running ones", "timeout", ALLB.format(c="implies(s.process is not None and s.process.is_alive, s.interrupted)")),
                ("waits for the next breakdown only when repaired and reported", "other", "down == 0 and logged == 0"),
                ("with everything it blocked enabled again", "other", "implies(drawn > 0.0, " + ALLB.format(c="s.active.triggered") + ")")],
      on_timeout={"repaired": "1"}),
   loops={"*": ["own_slots(self)", "down == 0", "logged == 0", "implies(drawn > 0.0, " + ALLB.format(c="s.active.triggered") + ")"]})

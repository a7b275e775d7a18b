# P04: work sessions (production, setup, transport, charging) conserve the drawn work through interruptions
S = "prodsys/simulation/state.py::"
fields("SetupStateData", origin_setup="str", target_setup="str")
fields("State", active="SimEvent", resource="Resource", state_info="StateInfo", finished_process="SimEvent")
fields("Resource", active="SimEvent")
def interrupting(cls):
    fn(S + cls + ".update_done_in", props=["P04"], modifies=["self.done_in"], requires=["self.env.now >= self.start"],
       ensures=[("what is left", "self.done_in == max(0, old(self.done_in) - (self.env.now - self.start))")])
    fn(S + cls + ".interrupt_process", props=["P04", "P05"], modifies=["self.interrupted", "self.process.interrupts"], nofuzz=True,
       ensures=[("a running, not yet interrupted session is interrupted", "implies(self.process is not None and self.process.is_alive and not old(self.interrupted), self.interrupted and self.process.interrupts == old(self.process.interrupts) + 1)"),
                ("anything else is left alone", "implies(self.process is None or not self.process.is_alive or old(self.interrupted), iff(self.interrupted, old(self.interrupted)))"),
                ("no second interrupt", "implies(self.process is not None and (not self.process.is_alive or old(self.interrupted)), self.process.interrupts == old(self.process.interrupts))")])
def session(cls, drawn0, extra_calls=None, req=(), kind="production", ensures=(), may=(), loops=(), props=(), time_check=()):
    calls = {"TimeModel.get_next_time": dict(check=list(time_check), set=[("drawn", "drawn + result"), ("draws", "draws + 1")], assume=["result >= 0.0"]),
             "StateInfo.log_start_state": dict(check=[("now", "start_time == me.env.now"), ("expected end", "expected_end_time == me.env.now + me.done_in"), ("the remaining work is still to be done", "work + me.done_in == drawn"), ("kind", f"state_type == StateTypeEnum.{kind}"), ("not while logged as running", "logged == 0 or logged == 2")], set=[("logged", "1")]),
             "StateInfo.log_start_interrupt_state": dict(check=[("now", "start_time == me.env.now"), ("kind", f"state_type == StateTypeEnum.{kind}"), ("only while running", "logged == 1")], set=[("logged", "3")]),
             "StateInfo.log_end_interrupt_state": dict(check=[("now", "end_time == me.env.now"), ("expected end", "expected_end_time == me.env.now + me.done_in"), ("kind", f"state_type == StateTypeEnum.{kind}"), ("only while interrupted", "logged == 3")], set=[("logged", "2")]),
             "StateInfo.log_end_state": dict(check=[("now", "end_time == me.env.now"), ("kind", f"state_type == StateTypeEnum.{kind}"), ("only when all drawn work is done", "work == drawn"), ("only while running or without any work", "logged == 1 or (logged == 0 and drawn == 0)")], set=[("logged", "4")])}
    calls.update(extra_calls or {})
    fn(S + cls + ".process_state", props=list(props) + ["P04", "P06"] if kind != "charging" else ["P04", "P05", "P06"] + list(props), nofuzz=True, may_raise=["RuntimeError", "ValueError", "Interrupt"] + list(may),
       requires=["not self.finished_process.triggered"] + list(req),
       gen=dict(ghost={"work": ("float", "0.0"), "drawn": ("float", drawn0), "draws": ("int", "0"), "logged": ("int", "0"), "given": ("float", drawn0)},
          on_call=calls,
          rely=["iff(old(self.resource is None), self.resource is None)"],
          resume=["iff(self.interrupted, old(self.interrupted))", "implies(not self.interrupted, same(self.active, old(self.active)) and same(self.resource.active, old(self.resource.active)))"],
          interrupt=["self.interrupted", "implies(logged != 0, not old(self.interrupted))"],
          stable=["self.done_in", "self.start", "self.resource"],
          at_yield=[("works only while available", "timeout", "self.active.triggered and self.resource.active.triggered"),
                    ("works for the remaining time", "timeout", "ev.delay == self.done_in and self.done_in >= 0.0 and self.start == self.env.now"),
                    ("not interrupted while working", "timeout", "not self.interrupted"),
                    ("an interrupted session waits for both the slot and the resource", "cond", "len(ev.events) >= 0")],
          join=["not self.interrupted", "self.active.triggered", "self.resource.active.triggered", "logged == 0", "logged == 1"],
          on_timeout={"work": "work + elapsed"}),
       loops={"*": ["logged == 0", "logged == 0 or logged == 1", "logged == 3", "self.interrupted", "self.done_in >= 0.0",
                    "implies(logged == 0, work == 0.0 and self.done_in == drawn)",
                    "implies(logged == 0, not self.interrupted)", "implies(logged == 0, self.active.triggered and self.resource.active.triggered)",
                    "implies(logged == 1 and self.interrupted, work + self.done_in - (self.env.now - self.start) == drawn and self.env.now - self.start <= self.done_in and self.start <= self.env.now)",
                    "implies(logged == 1 and not self.interrupted, self.done_in == 0.0 and work == drawn)",
                    "implies(logged == 3, work + self.done_in == drawn)"] + list(loops)},
       ensures=[("exactly the drawn work was done", "work == drawn"), ("and its end is logged", "logged == 4"), ("the end is signalled", "self.finished_process.triggered")] + list(ensures))
for c in ("ProductionState", "TransportState", "SetupState", "ChargingState"): interrupting(c)
NODUP = "all(implies(i != j, not same(self.resource.charging_states[i], self.resource.charging_states[j])) for i in range(len(self.resource.charging_states)) for j in range(len(self.resource.charging_states)))"
session("ProductionState", "ite(time is None, 0.0, time)", req=["implies(time is not None, time >= 0.0)", NODUP],
        loops=["draws == ite(given == 0.0, 1, 0)"], ensures=[("one draw unless the time is given", "draws == ite(given == 0.0, 1, 0)")])
session("SetupState", "0.0", kind="setup", ensures=[("one draw", "draws == 1")], loops=["draws == 1"])
session("ChargingState", "0.0", kind="charging", ensures=[("one draw", "draws == 1"), ("a charged battery starts over", "self.battery_usage_time_since_charging == 0")], loops=["draws == 1"])
TDR = "draws == 1 + ite(self.loading_time_model is not None and initial_transport_step and not empty_transport, 1, 0) + ite(self.unloading_time_model is not None and last_transport_step and not empty_transport, 1, 0)"
session("TransportState", "0.0", kind="transport", req=[NODUP], props=["P11"], loops=[TDR],
        time_check=[("from where the vehicle is to where it is sent", "implies(draws == 0, same(self, me.time_model) and origin == me.resource.data.location and target == caller_target)"),
                    ("then only loading and unloading", "implies(draws > 0, same(self, me.loading_time_model) or same(self, me.unloading_time_model))")],
        ensures=[("loading time exactly when the load is picked up, unloading time exactly when it is delivered", TDR)])

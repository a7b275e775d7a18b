# P06: event log
L = "prodsys/simulation/logger.py::EventLogger."
for m in ("observe_terminal_product_states", "observe_terminal_auxiliary_states", "observe_resource_states"):
    fn(L + m, props=["P06"], nofuzz=True, bounded="replaces bound methods by wrappers with setattr (monkey patching); decided by the event-log driver", modifies=[])
A = "prodsys/simulation/auxiliary.py::AuxiliaryInfo."
Pi = "prodsys/simulation/product.py::ProductInfo."
SI = "prodsys/simulation/state.py::StateInfo."
PF = ["self.resource_ID", "self.state_ID", "self.event_time", "self.product_ID", "self.activity", "self.state_type"]
def info(key, idexpr, act, stype):
    fn(key, props=["P06"], modifies=PF, nofuzz=True,
       ensures=[("when", "self.event_time == event_time"), ("where", "self.resource_ID == resource.data.ID and self.state_ID == resource.data.ID"),
                ("whom", f"self.product_ID == {idexpr}"), ("what", f"self.activity == StateEnum.{act}"), ("kind", f"self.state_type == {stype}")])
info(A + "log_create_auxiliary", "_product.data.ID", "created_auxiliary", "StateTypeEnum.store")
info(A + "log_start_auxiliary_usage", "_product.data.ID", "started_auxiliary_usage", "StateTypeEnum.production")
info(A + "log_end_auxiliary_usage", "_product.data.ID", "finished_auxiliary_usage", "StateTypeEnum.production")
info(A + "log_start_process", "_product.data.ID", "start_state", "state_type")
info(A + "log_end_process", "_product.data.ID", "end_state", "state_type")
info(Pi + "log_create_product", "_product.product_data.ID", "created_product", "StateTypeEnum.source")
info(Pi + "log_finish_product", "_product.product_data.ID", "finished_product", "StateTypeEnum.sink")
info(Pi + "log_start_process", "_product.product_data.ID", "start_state", "state_type")
info(Pi + "log_end_process", "_product.product_data.ID", "end_state", "state_type")
fields("StateInfo", _event_time="float", _expected_end_time="float", _activity="StateEnum?", _state_type="StateTypeEnum?", _product_ID="str", _target_ID="str", _origin_ID="str", _empty_transport="bool?")
fn(SI + "log_transport", props=["P06"], nofuzz=True, modifies=["self._origin_ID", "self._target_ID", "self._state_type", "self._empty_transport"],
   ensures=[("from where", "self._origin_ID == ite(origin is None, 'Loading station', origin.data.ID)"), ("to where", "self._target_ID == target.data.ID"), ("kind", "self._state_type == state_type"), ("loaded or empty", "self._empty_transport == empty_transport")])
fn(SI + "log_product", props=["P06"], nofuzz=True, modifies=["self._product_ID", "self._state_type"], ensures=[("whom", "self._product_ID == _product.product_data.ID"), ("kind", "self._state_type == state_type")])
fn(SI + "log_auxiliary", props=["P06"], nofuzz=True, modifies=["self._product_ID", "self._state_type"], ensures=[("whom", "self._product_ID == _auxiliary.data.ID"), ("kind", "self._state_type == state_type")])
def sinfo(key, when, act, exp):
    fn(key, props=["P06"], modifies=["self._event_time", "self._activity", "self._state_type"] + (["self._expected_end_time"] if exp else []), nofuzz=True,
       ensures=[("when", f"self._event_time == {when}"), ("what", f"self._activity == StateEnum.{act}"), ("kind", "self._state_type == state_type")] + ([("expected end", "self._expected_end_time == expected_end_time")] if exp else []))
sinfo(SI + "log_start_state", "start_time", "start_state", True)
sinfo(SI + "log_start_interrupt_state", "start_time", "start_interrupt", False)
sinfo(SI + "log_end_interrupt_state", "end_time", "end_interrupt", True)
sinfo(SI + "log_end_state", "end_time", "end_state", False)

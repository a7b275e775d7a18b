# P12: auxiliaries
A = "prodsys/simulation/auxiliary.py::Auxiliary."
fields("Auxiliary", current_product="Product?", got_free="SimEvent", finished_process="SimEvent", auxiliary_router="Router?", current_locatable="Resource | Store | Sink | Source | Node")
fn(A + "init_got_free", props=["P12"], nofuzz=True, modifies=["self.got_free", "self.reserved", "self.finished_process"],
   ensures=[("free", "not self.reserved"), ("signal armed", "fresh(self.got_free) and not self.got_free.triggered")])
fn(A + "reserve", props=["P12"], nofuzz=True, modifies=["self.reserved", "self.got_free"] + ["self.auxiliary_info." + x for x in ("resource_ID", "state_ID", "event_time", "product_ID", "activity", "state_type")],
   ensures=[("unavailable", "self.reserved"), ("signal armed", "fresh(self.got_free) and not self.got_free.triggered"), ("recorded", "self.auxiliary_info.activity == StateEnum.started_auxiliary_usage and self.auxiliary_info.event_time == self.env.now and self.auxiliary_info.product_ID == self.data.ID")])
fn(A + "release_auxiliary_from_product", props=["P12"], nofuzz=True,
   modifies=["self.reserved", "self.current_product", "self.got_free.triggered"] + ["self.auxiliary_info." + x for x in ("resource_ID", "state_ID", "event_time", "product_ID", "activity", "state_type")],
   raises=[("RuntimeError", "self.got_free.triggered", None)], exc_modifies=["self.reserved", "self.current_product"],
   ensures=[("free again", "not self.reserved"), ("belongs to no product", "self.current_product is None"), ("availability announced once", "self.got_free.triggered"),
            ("recorded", "self.auxiliary_info.activity == StateEnum.finished_auxiliary_usage and self.auxiliary_info.event_time == self.env.now and self.auxiliary_info.product_ID == self.data.ID")])
fn(A + "update_location", props=["P12"], nofuzz=True, params={"locatable": "Resource | Store | Sink | Source | Node"}, modifies=["self.current_locatable"], ensures=[("is where it was put", "same(self.current_locatable, locatable)")])

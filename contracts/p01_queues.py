# P01: queue capacity and slot reservation accounting
Q = "prodsys/simulation/store.py::Queue."
spec('''
def q_inv(q): return iff(isinf(q.capacity), q.data.capacity == 0) and implies(q.data.capacity != 0, q.capacity == q.data.capacity) and q.data.capacity >= 0 and q.data.capacity <= 10**9
def q_room(q): return q.capacity - q._pending_put - len(q.items) >= 1
''')
fn(Q + "__init__", props=["P01"], params={"env": "sim.Environment"}, modifies=["self.env", "self.data", "self._pending_put", "self.state_change", "self.capacity", "self.items"],
   ensures=[("zero capacity means unlimited", "iff(isinf(self.capacity), data.capacity == 0) and implies(data.capacity != 0, self.capacity == data.capacity)"),
            ("nothing reserved", "self._pending_put == 0"), ("empty", "len(self.items) == 0"),
            ("signal armed", "fresh(self.state_change) and not self.state_change.triggered"),
            ("data kept", "same(self.data, data) and same(self.env, env)")],
   requires=["data.capacity >= 0 and data.capacity <= 10**9"], inline=True)
fn(Q + "reserve", props=["P01"], modifies=["self._pending_put"], exc_modifies=["self._pending_put"],
   raises=[("RuntimeError", "self._pending_put + 1 + len(self.items) > self.capacity", None)],
   ensures=[("one slot", "self._pending_put == old(self._pending_put) + 1"),
            ("within capacity", "self._pending_put + len(self.items) <= self.capacity")])
fn(Q + "unreserve", props=["P01"], modifies=["self._pending_put"], ensures=[("one slot released", "self._pending_put == old(self._pending_put) - 1")])
fn(Q + "full", props=["P01"], inline=True, requires=[("queue size", "0 <= self._pending_put and self._pending_put <= 10**9")],
   ensures=[("full exactly when a reservation would be refused", "iff(result, self._pending_put + 1 + len(self.items) > self.capacity)"),
            ("an unlimited queue is never full", "implies(isinf(self.capacity), not result)")])
fn(Q + "put", props=["P01"], modifies=["self._pending_put", "self.items[]", "self.state_change", "old(self.state_change).triggered"],
   params={"item": "Product"}, ret="StorePut",
   raises=[("RuntimeError", "self.state_change.triggered", None)],
   ensures=[("releases exactly one reservation", "self._pending_put == old(self._pending_put) - 1"),
            ("wakes waiters once", "old(self.state_change).triggered"),
            ("re-armed", "not self.state_change.triggered and fresh(self.state_change)")])
fn(Q + "get", props=["P01"], modifies=["self.items[]", "self.state_change", "old(self.state_change).triggered"],
   ret="FilterStoreGet", fuzz=dict(hints={"filter": "(lambda item: True)"}), raises=[("RuntimeError", "self.state_change.triggered", None)],
   ensures=[("reservations untouched", "self._pending_put == old(self._pending_put)"),
            ("wakes waiters once", "old(self.state_change).triggered"),
            ("re-armed", "not self.state_change.triggered and fresh(self.state_change)")])
R = "prodsys/simulation/resources.py::ProductionResource."
fn(R + "reserve_internal_input_queues", props=["P01"],
   requires=[("queues distinct", "distinct(self.input_queues)"), ("room", "all(implies(not isinstance(q, Store), q_room(q)) for q in self.input_queues)")],
   modifies=[("Queue._pending_put", "q", "q in self.input_queues and not isinstance(q, Store)")],
   ensures=[("one slot in each own input queue", "all(implies(not isinstance(q, Store), q._pending_put == old(q._pending_put) + 1) for q in self.input_queues)")])
fn(R + "adjust_pending_put_of_output_queues", props=["P01"],
   requires=[("queues distinct", "distinct(self.output_queues)"), ("batch", "batch_size >= 0"),
             ("room", "all(implies(not isinstance(q, Store), q.capacity - q._pending_put - len(q.items) >= batch_size) for q in self.output_queues)")],
   modifies=[("Queue._pending_put", "q", "q in self.output_queues and not isinstance(q, Store)")],
   ensures=[("one slot per batch member in each own output queue", "all(implies(not isinstance(q, Store), q._pending_put == old(q._pending_put) + batch_size) for q in self.output_queues)")])
field("Queue.state_change", "SimEvent")

from seed import make
S="prodsys/simulation/"
make("s05","P04",[(S+"state.py","""                self.start = self.env.now
                self.state_info.log_start_state(
                        self.start, self.start + self.done_in, StateTypeEnum.setup""","""                self.start = self.start or self.env.now
                self.state_info.log_start_state(
                        self.start, self.start + self.done_in, StateTypeEnum.setup""")],
 "a changeover interrupted twice, or a second changeover in the same state object", "the remaining changeover time is measured from the first start, so work is credited that was never done",
'''
import sys
from types import SimpleNamespace as N
from prodsys.simulation import sim, state
from simpy import events
env = sim.Environment()
s = state.SetupState.model_construct(env=env)
end = []
class Info:
    def __getattr__(self, n): return lambda *a, **k: end.append((n, env.now))
res = N(active=events.Event(env).succeed(), production_states=[], data=N(ID="R"))
object.__setattr__(s, "__dict__", dict(env=env, state_data=N(ID="S"), time_model=N(get_next_time=lambda: 10.0), resource=res, state_info=Info(), start=0.0, done_in=0.0, interrupted=False,
    active=events.Event(env).succeed(), finished_process=events.Event(env), process=None))
def breakdowns():
    for start, stop in ((4, 6), (9, 14)):
        yield env.timeout(start - env.now)
        res.active = events.Event(env); s.interrupt_process()
        yield env.timeout(stop - env.now)
        res.active.succeed()
def run():
    yield env.timeout(1)
    s.process = env.process(s.process_state()); yield s.process
env.process(breakdowns()); env.process(run())
sim.VERBOSE = 0
env.run(100)
t = [x for n, x in end if n == "log_end_state"]
print("changeover of 10 with interruptions 4-6 and 9-14 started at 1 ended at", t)
sys.exit(0 if t == [18.0] else 1)
''')
make("s07","P05",[(S+"state.py","return self.battery_usage_time_since_charging >= ","return self.battery_usage_time_since_charging > ")],
 "usage that reaches ninety percent of the battery time exactly", "a vehicle whose usage has reached exactly the limit goes on working instead of charging",
'''
import sys
from types import SimpleNamespace as N
from prodsys.simulation import state
s = N(battery_usage_time_since_charging=9.0, battery_time_model=N(get_next_time=lambda: 10.0))
t = N(battery_usage_time_since_charging=8.99, battery_time_model=N(get_next_time=lambda: 10.0))
f = state.ChargingState.requires_charging
print(f(s), f(t)); sys.exit(0 if f(s) and not f(t) else 1)
''')
make("s09","P12",[("prodsys/factories/auxiliary_factory.py","storage.ID == storage_id","storage.ID.startswith(storage_id)")],
 "an auxiliary storage whose identifier is a prefix of that of an earlier queue", "auxiliaries are created in another storage than the configured one",
'''
import sys
from types import SimpleNamespace as N
from prodsys.factories.auxiliary_factory import AuxiliaryFactory
got = []
def add(data, storage):
    got.append(storage.ID); return N(auxiliary_info=N(log_create_auxiliary=lambda **k: None), current_locatable=storage)
f = N(add_auxiliary=add, env=N(now=0))
a = N(queue_data=[N(ID="store_10"), N(ID="store_1"), N(ID="store_2")], auxiliary_data=[N(quantity_in_storages=[2, 1], storages=["store_1", "store_2"])])
AuxiliaryFactory.create_auxiliary(f, a)
print(got); sys.exit(0 if got == ["store_1", "store_1", "store_2"] else 1)
''')
make("s10","P14",[("prodsys/factories/source_factory.py","__product_type == s.data.product_type","__product_type in s.data.product_type")],
 "two product types of which one identifier contains the other", "the sources of another product type are returned as well",
'''
import sys
from types import SimpleNamespace as N
from prodsys.factories.source_factory import SourceFactory
ss = [N(data=N(product_type=p)) for p in ("A", "A_2", "B")]
got = SourceFactory.get_sources_with_product_type(N(sources=ss), "A")
print(len(got)); sys.exit(0 if got == [ss[0]] else 1)
''')
make("s11","P08",[(S+"proces_models.py","all((n.marking for n in node.predecessors))" if 0 else "not node.predecessors or all(n.marking for n in node.predecessors)","not node.predecessors or all(n.marking or n is self.current_marking for n in node.predecessors)")],
 "the first decision of a product with a precedence graph", "successors of the chosen starting process are offered before it is executed",
'''
import sys
from prodsys.simulation.proces_models import PrecedenceGraphProcessModel, PrecendeGraphNode
from types import SimpleNamespace as N
m = PrecedenceGraphProcessModel()
def node(i):
    n = PrecendeGraphNode.model_construct(process=N(process_data=N(ID=i)), successors=[], predecessors=[], marking=False); return n
a, b, c = node("a"), node("b"), node("c")
a.successors = [b]; b.predecessors = [a]; b.successors = [c]; c.predecessors = [b]
m.nodes.extend([a, b, c])
got = [p.process_data.ID for p in m.get_next_possible_processes()]
print(got); sys.exit(0 if got == ["a"] else 1)
''')
make("s16","P03",[(S+"control.py","        requests.insert(0, requests.pop())","        requests[0], requests[-1] = requests[-1], requests[0]")],
 "three or more waiting requests under last-in-first-out", "the oldest request is moved to the end and later served as if it were the newest",
'''
import sys
from prodsys.simulation.control import LIFO_control_policy
q, served = [], []
for i in range(4):
    q.append(i); LIFO_control_policy(q)
print(q); sys.exit(0 if q == [3, 2, 1, 0] else 1)
''')
make("s18","P06",[(S+"state.py","            self._origin_ID = origin.data.ID\n","            self._origin_ID = self._target_ID or origin.data.ID\n")],
 "a vehicle that does not start its next run where its last one ended (for instance another slot of the same vehicle moved it)", "the logged origin is the last target of the slot instead of the place the run starts at",
'''
import sys
from types import SimpleNamespace as N
from prodsys.simulation.state import StateInfo, StateTypeEnum
i = StateInfo(ID="s", resource_ID="r")
P = lambda x: N(data=N(ID=x))
i.log_transport(P("A"), P("B"), StateTypeEnum.transport, True); a = (i._origin_ID, i._target_ID)
i.log_transport(P("C"), P("D"), StateTypeEnum.transport, False); b = (i._origin_ID, i._target_ID)
print(a, b); sys.exit(0 if (a, b) == (("A", "B"), ("C", "D")) else 1)
''')
make("s19","P18",[("prodsys/util/post_processing.py",'''        max = df_finished_product.groupby(by="Product")["Time"].max()''','''        max = df_finished_product.groupby(by="Product")["Time"].max().round()''')],
 "completion times that are not whole minutes", "the throughput time of a product is not the span between its creation and completion",
'''
import sys
import pandas as pd
from prodsys.util.post_processing import PostProcessor
rows = []
def e(t, act, st="Source", res="source", state="Source"):
    rows.append({"Time": t, "Resource": res, "State": state, "State Type": st, "Activity": act, "Product": "P_0", "Expected End Time": None, "Target location": None, "Origin location": None, "Empty Transport": None})
e(1.0, "created product"); e(2.0, "start state", "Production", "R", "S"); e(5.25, "end state", "Production", "R", "S"); e(6.25, "finished product", "Sink", "sink", "Sink")
df = PostProcessor(df_raw=pd.DataFrame(rows)).df_throughput
got = df["Throughput_time"].tolist(); print(got); sys.exit(0 if got == [5.25] else 1)
''')
make("s20","P19",[("prodsys/optimization/optimization.py","    machine_cost = max(\n        0,\n        (num_machines - num_machines_before)","    machine_cost = max(\n        0,\n        abs(num_machines - num_machines_before)")],
 "a configuration with fewer machines than the baseline", "removing machines is priced like adding them",
'''
import sys
from types import SimpleNamespace as N
from prodsys.optimization import optimization as o
from prodsys.models.resource_data import ProductionResourceData
class A:
    def __init__(self, n):
        self.n = n
o.adapters = N(get_production_resources=lambda a: [0] * a.n, get_transport_resources=lambda a: [0])
o.get_num_of_process_modules = lambda a: {}
o.get_process_module_cost = lambda *a: 0
def A(n): return N(n=n, auxiliary_data=[], scenario_data=N(info=N(machine_cost=7, transport_resource_cost=3)))
got = [o.get_reconfiguration_cost(A(n), A(3)) for n in (1, 3, 5)]
print(got); sys.exit(0 if got == [0, 0, 14] else 1)
''')
make("s21","P20",[("app/dao/queue_dao.py","            adapter.queue_data.pop(idx)","            adapter.queue_data.pop(min(idx, len(adapter.queue_data) - 2))")],
 "deleting the last queue of a configuration", "the queue before the addressed one is deleted",
'''
import sys
from types import SimpleNamespace as N
from app.dao import queue_dao
a = N(queue_data=[N(ID=x) for x in "abc"])
queue_dao.prodsys_backend = N(get_adapter=lambda p, q: a, update_adapter=lambda *k: None)
queue_dao.delete("p", "a", "c"); one = [q.ID for q in a.queue_data]
queue_dao.delete("p", "a", "a"); two = [q.ID for q in a.queue_data]
print(one, two); sys.exit(0 if (one, two) == (["a", "b"], ["b"]) else 1)
''')

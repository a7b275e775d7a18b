from seed import make
S="prodsys/simulation/"
make("s01","P01",[(S+"store.py","        if self._pending_put + len(self.items) > self.capacity:","        if self._pending_put > self.capacity:")],
 "a bounded queue holding items while another reservation arrives", "reserving a place in a full queue that holds items is accepted, so more is admitted than the capacity",
'''
import sys
from prodsys.simulation import sim, store
from prodsys.models import queue_data
env = sim.Environment()
q = store.Queue(env, queue_data.QueueData(ID="Q", description="", capacity=2))
for x in "ab":
    q.reserve(); q.put(x)
try: q.reserve()
except RuntimeError: sys.exit(0)
print("third reservation accepted in a queue of capacity 2 with 2 items"); sys.exit(1)
''')
make("s02","P02",[(S+"resources.py","            current_setup_ID = self.reserved_setup.process_data.ID","            current_setup_ID = self.current_setup.process_data.ID")],
 "a changeover under way between processes with a different number of slots", "the parallel slots offered during a changeover are those of the old process",
'''
import sys
from types import SimpleNamespace as N
from prodsys.simulation.resources import Resource
P = lambda i: N(process_data=N(ID=i))
st = [N(state_data=N(ID="A"))] * 1 + [N(state_data=N(ID="B"))] * 3
r = N(current_setup=P("A"), reserved_setup=P("B"), capacity=3, production_states=st)
c = Resource.capacity_current_setup.fget(r)
print("slots while changing over from A to B:", c); sys.exit(0 if c == 3 else 1)
''')
make("s03","P07",[(S+"time_model.py","            return itertools.cycle(relative_schedule)","            return itertools.chain(relative_schedule[:1], itertools.cycle(relative_schedule[1:] or relative_schedule))")],
 "a cyclic schedule read beyond its first round", "from the second round on a cyclic schedule skips its first entry",
"""
import sys
from prodsys.models import time_model_data as d
from prodsys.simulation.time_model import ScheduledTimeModel
t = ScheduledTimeModel(time_model_data=d.ScheduledTimeModelData(ID="t", description="", schedule=[1.0, 3.0, 4.0], absolute=False, cyclic=True))
got = [t.get_next_time() for _ in range(7)]
print(got); sys.exit(0 if got == [1.0, 3.0, 4.0, 1.0, 3.0, 4.0, 1.0] else 1)
""")
make("s04","P13",[("prodsys/factories/product_factory.py","        self.finished_products.append(product)\n        self.remove_product(product)","        if product not in self.products[:-1] or product.product_data.ID not in [p.product_data.ID for p in self.finished_products[-5:]]:\n            self.finished_products = self.finished_products[-999:] + [product]\n        self.remove_product(product)")],
 "more than a thousand finished products in one run", "finished products beyond the thousandth push earlier ones out of the tracking",
'''
import sys
from types import SimpleNamespace as N
from prodsys.factories.product_factory import ProductFactory
f = ProductFactory(None, None)
ps = [N(product_data=N(ID=f"p{i}")) for i in range(1005)]
for p in ps:
    f.products.append(p); f.register_finished_product(p)
print(len(f.finished_products), len(f.products)); sys.exit(0 if len(f.finished_products) == 1005 and not f.products else 1)
''')
make("s06","P10",[(S+"router.py","sum([len(q.items) for q in x.resource.input_queues])","max([len(q.items) for q in x.resource.input_queues], default=0)")],
 "a candidate machine with two input queues whose fill adds up", "the shortest-queue heuristic prefers a machine with more waiting products",
'''
import sys
from types import SimpleNamespace as N
from prodsys.simulation import router, resources
import random
def R(name, fills):
    r = resources.ProductionResource.model_construct(); object.__setattr__(r, "__dict__", {"input_queues": [N(items=[0] * n) for n in fills], "data": N(ID=name)})
    return N(resource=r)
for s in range(20):
    random.seed(s); reqs = [R("two", [3, 3]), R("one", [4])]
    router.shortest_queue_routing_heuristic(reqs)
    if reqs[0].resource.data.ID != "one": print("prefers the machine with 6 waiting products over 4"); sys.exit(1)
''')

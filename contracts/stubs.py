"""TRUSTED environment of the verified code: simpy, random and numpy behaviour as python text (executed by inlining)
or as contracts (contracts/trusted.py).  Nothing of this is verified; every use is listed in the evidence."""

class SimEvent:
    env: SimEnvironment
    triggered: bool
    callbacks: list
    value: object
    is_alive: bool
    def __init__(self, env):
        self.env = env
        self.triggered = False
    def succeed(self, value=None):
        if self.triggered:
            raise RuntimeError("already triggered")
        self.triggered = True
        return self

class SimTimeout(SimEvent):
    delay: float
    def __init__(self, env, delay, value=None):
        if delay < 0:
            raise ValueError("Negative delay")
        self.env = env
        self.delay = delay
        self.triggered = False

class SimProcess(SimEvent):
    is_alive: bool
    interrupts: int
    def __init__(self, env, generator):
        self.env = env
        self.triggered = False
        self.is_alive = True
        self.interrupts = 0
    def interrupt(self, cause=None):
        if not self.is_alive:
            raise RuntimeError("process has terminated")
        self.interrupts += 1

class AllOf(SimEvent):
    events: list[SimEvent]
    def __init__(self, env, events: list[SimEvent]):
        self.env = env
        self.events = events
        self.triggered = False

class AnyOf(SimEvent):
    events: list[SimEvent]
    def __init__(self, env, events: list[SimEvent]):
        self.env = env
        self.events = events
        self.triggered = False

class SimEnvironment:
    now: float
    active_process: SimProcess
    def __init__(self):
        self.now = 0.0
    def event(self):
        return SimEvent(self)
    def timeout(self, delay, value=None):
        return SimTimeout(self, delay)
    def process(self, generator):
        return SimProcess(self, generator)

class StorePut(SimEvent):
    item: object
class FilterStoreGet(SimEvent):
    item: object

class FilterStore:
    env: SimEnvironment
    capacity: float
    items: list[object]
    def __init__(self, env, capacity=float("inf")):
        self.env = env
        self.capacity = capacity
        self.items = []
    def put(self, item) -> StorePut: ...
    def get(self, filter=None) -> FilterStoreGet: ...

class SimRequest(SimEvent):
    n: int
    def __enter__(self): return self

class SimResource:
    capacity: int
    count: int
    def request(self) -> SimRequest: ...

class ListIterator:
    seq: list[float]
    pos: int
    cyclic: bool
    def __init__(self, seq, cyclic):
        self.seq = seq
        self.pos = 0
        self.cyclic = cyclic
    def __next__(self):
        if self.pos < len(self.seq):
            v = self.seq[self.pos]
            self.pos = self.pos + 1
            return v
        if self.cyclic and len(self.seq) > 0:
            self.pos = 1
            return self.seq[0]
        raise StopIteration

def cycle(seq: list[float]) -> ListIterator:
    return ListIterator(seq, True)
def list_iter(seq: list[float]) -> ListIterator:
    return ListIterator(seq, False)

def random() -> float: ...

class ValidationInfo:
    """pydantic: the parts of a configuration that were validated already (a part that failed is missing)"""
    data: dict

# P09: matching requests to offered processes; request fields
fields("Request", process="CompoundProcess | RequiredCapabilityProcess | ProductionProcess | TransportProcess | CapabilityProcess | LinkTransportProcess | ReworkProcess", product="Product", resource="Resource")
fields("ToTransportRequest", process="Process?", product="Product | Auxiliary", resource="Resource | Store | Sink")
fields("ReworkRequest", process="ProductionProcess | CapabilityProcess | CompoundProcess", product="Product", resource="Resource?")
fields("TransportResquest", product="Product | Auxiliary")
P = "prodsys/simulation/process.py::"
fields("ProductionProcess", process_data="ProductionProcessData")
fields("CapabilityProcess", process_data="CapabilityProcessData")
fields("TransportProcess", process_data="TransportProcessData | LinkTransportProcessData")
fields("LinkTransportProcess", process_data="LinkTransportProcessData")
fields("CompoundProcess", process_data="CompoundProcessData", contained_processes_data="list[ProductionProcessData | TransportProcessData | CapabilityProcessData | RequiredCapabilityProcessData | LinkTransportProcessData | ReworkProcessData]")
fields("RequiredCapabilityProcess", process_data="RequiredCapabilityProcessData")
fields("ReworkProcess", process_data="ReworkProcessData", reworked_process_ids="list[str]")
spec('''
def has_cap(d): return isinstance(d, CapabilityProcessData) or isinstance(d, RequiredCapabilityProcessData) or isinstance(d, LinkTransportProcessData) and bool(d.capability)
def asks_cap(p): return isinstance(p, CapabilityProcess) or isinstance(p, RequiredCapabilityProcess) or isinstance(p, LinkTransportProcess) and bool(p.process_data.capability)
def cap_among(c, ds): return any(has_cap(d) and d.capability == c for d in ds)
''')
fn(P + "is_process_data_with_capability", props=["P09"], ensures=[("exactly the data with a capability", "iff(result, has_cap(process_data))")],
   params={"process_data": "ProductionProcessData | TransportProcessData | CapabilityProcessData | RequiredCapabilityProcessData | LinkTransportProcessData | ReworkProcessData"})
fn(P + "is_process_with_capability", props=["P09"], inline=True, params={"process": "CompoundProcess | RequiredCapabilityProcess | ProductionProcess | TransportProcess | CapabilityProcess | LinkTransportProcess | ReworkProcess"},
   ensures=[("exactly the processes with a capability", "iff(result, asks_cap(process))")])
ANYREQ = ["request.process is not None"]
fn(P + "ProductionProcess.matches_request", props=["P09"], params={"request": "Request"},
   ensures=[("same process or contained in the requested compound", "iff(result, isinstance(request.process, ProductionProcess) and request.process.process_data.ID == self.process_data.ID or isinstance(request.process, CompoundProcess) and self.process_data.ID in request.process.process_data.process_ids)")])
fn(P + "CapabilityProcess.matches_request", props=["P09"], params={"request": "Request"},
   ensures=[("same capability or one of the requested compound", "iff(result, asks_cap(request.process) and request.process.process_data.capability == self.process_data.capability or isinstance(request.process, CompoundProcess) and cap_among(self.process_data.capability, request.process.contained_processes_data))")])
fn(P + "CompoundProcess.matches_request", props=["P09"], params={"request": "Request"},
   ensures=[("a plain process it contains", "implies(isinstance(request.process, ProductionProcess) or isinstance(request.process, TransportProcess) and not asks_cap(request.process), iff(result, request.process.process_data.ID in self.process_data.process_ids))"),
            ("a capability it contains", "implies(asks_cap(request.process), iff(result, cap_among(request.process.process_data.capability, self.contained_processes_data)))"),
            ("a compound sharing a process or capability", "implies(isinstance(request.process, CompoundProcess), iff(result, any((isinstance(d, ProductionProcessData) or isinstance(d, TransportProcessData)) and d.ID in self.process_data.process_ids or has_cap(d) and cap_among(d.capability, self.contained_processes_data) for d in request.process.contained_processes_data)))"),
            ("nothing else", "implies(isinstance(request.process, ReworkProcess), not result)")])
fn(P + "TransportProcess.matches_request", props=["P09", "P11"], params={"request": "TransportResquest"}, modifies=["request.route"],
   ensures=[("same transport or contained in the requested compound", "iff(result, isinstance(request.process, TransportProcess) and request.process.process_data.ID == self.process_data.ID or isinstance(request.process, CompoundProcess) and self.process_data.ID in request.process.process_data.process_ids)"),
            ("route is origin to target", "implies(result, request.route is not None and len(request.route) == 2 and same(request.route[0], request.origin) and same(request.route[1], request.target))"),
            ("unmatched requests get no route", "implies(not result, same(request.route, old(request.route)))")])
fn(P + "ReworkProcess.matches_request", props=["P09", "P08"], params={"request": "Request | ReworkRequest"},
   ensures=[("the rework process itself", "implies(not isinstance(request, ReworkRequest), iff(result, isinstance(request.process, ReworkProcess) and request.process.process_data.ID == self.process_data.ID))"),
            ("reworks the failed process", "implies(isinstance(request, ReworkRequest) and (isinstance(request.process, ProductionProcess) or isinstance(request.process, CapabilityProcess)), iff(result, request.process.process_data.ID in self.reworked_process_ids))"),
            ("reworks a part of the failed compound", "implies(isinstance(request, ReworkRequest) and isinstance(request.process, CompoundProcess), iff(result, any(i in request.process.process_data.process_ids for i in self.reworked_process_ids)))"),
            ("never reworks another rework", "implies(isinstance(request, ReworkRequest) and isinstance(request.process, ReworkProcess), not result)")])

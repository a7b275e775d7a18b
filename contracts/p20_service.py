# P20: the in-memory backend and the data access functions of the web service
B = "app/backends/in_memory.py::InMemoryBackend."
AD = "JsonProductionSystemAdapter"
fields("InMemoryBackend", database="dict[str, Project]")
fields("Project", adapters=f"list[{AD}]", performances="dict[str, Performance]", post_processor="PostProcessor?", ID="str")
fields("app/dependencies.py", prodsys_backend="InMemoryBackend")
spec('''
def has_adapter(p, i): return any(a.ID == i for a in p.adapters)
def one_each(l): return all(implies(i != j, l[i].ID != l[j].ID) for i in range(len(l)) for j in range(len(l)))
def only_key(new, old_, k): return all(implies(x != k, x in new and new[x] == old_[x]) for x in old_) and all(implies(x != k, x in old_) for x in new)
''')
NOP = "project_id not in self.database"
NOA = "project_id not in self.database or not has_adapter(self.database[project_id], adapter_id)"
H = "HTTPException"
P_ = "self.database[project_id]"
fn(B + "get_projects", props=["P20"], nofuzz=True, ensures=[("all projects", "result == [self.database[k] for k in self.database]")])
fn(B + "get_project", props=["P20"], nofuzz=True, raises=[(H, NOP, None)], ensures=[("the project of that ID", "same(result, self.database[project_id])")])
fn(B + "create_project", props=["P20"], inline=True, nofuzz=True, raises=[(H, "project.ID in old(self.database)", None)], modifies=["self.database[]"], exc_modifies=[],
   ensures=[("stored", "project.ID in self.database and same(self.database[project.ID], project) and same(result, project)"), ("the others stay", "only_key(self.database, old(self.database), project.ID)")])
fn(B + "delete_project", props=["P20"], inline=True, nofuzz=True, raises=[(H, "project_id not in old(self.database)", None)], modifies=["self.database[]"], exc_modifies=[],
   ensures=[("gone", "project_id not in self.database"), ("the others stay", "only_key(self.database, old(self.database), project_id)")])
fn(B + "update_project", props=["P20"], nofuzz=True, raises=[(H, "project_id not in old(self.database) or (project.ID != project_id and project.ID in old(self.database))", None)], modifies=["self.database[]"], exc_modifies=[],
   ensures=[("stored", "project.ID in self.database and same(self.database[project.ID], project)"),
            ("the others stay", "all(implies(x != project.ID and x != project_id, x in self.database and same(self.database[x], old(self.database)[x])) for x in old(self.database)) and all(implies(x != project.ID, x in old(self.database) and x != project_id) for x in self.database)")])
fn(B + "get_adapters", props=["P20"], nofuzz=True, raises=[(H, NOP, None)], ensures=[("its configurations", f"same(result, {P_}.adapters)")])
fn(B + "get_adapter", props=["P20"], nofuzz=True, raises=[(H, NOA, None)], ensures=[("the configuration of that ID", f"result.ID == adapter_id and result in {P_}.adapters")])
fn(B + "create_adapter", props=["P20"], nofuzz=True, raises=[(H, f"project_id not in self.database or any(a.ID == adapter.ID for a in old({P_}.adapters))", None)], modifies=[f"{P_}.adapters[]"], exc_modifies=[],
   ensures=[("added behind the others", f"{P_}.adapters == old({P_}.adapters) + [adapter] and same(result, adapter)")])
fn(B + "update_adapter", props=["P20"], nofuzz=True, requires=[("one configuration per ID", f"implies(project_id in self.database, one_each({P_}.adapters))")],
   raises=[(H, f"project_id not in self.database or not any(a.ID == adapter_id for a in old({P_}.adapters)) or (adapter.ID != adapter_id and any(a.ID == adapter.ID for a in old({P_}.adapters)))", None)],
   modifies=[f"{P_}.adapters[]"], exc_modifies=[],
   ensures=[("replaces exactly the addressed one", f"len({P_}.adapters) == len(old({P_}.adapters)) and all(same({P_}.adapters[i], ite(old({P_}.adapters)[i].ID == adapter_id, adapter, old({P_}.adapters)[i])) for i in range(len({P_}.adapters)))")])
fn(B + "delete_adapter", props=["P20"], nofuzz=True, requires=[("one configuration per ID", f"implies(project_id in self.database, one_each({P_}.adapters))")],
   raises=[(H, f"project_id not in self.database or not any(a.ID == adapter_id for a in old({P_}.adapters))", None)],
   modifies=[f"{P_}.adapters[]", f"{P_}.performances[]"], exc_modifies=[],
   ensures=[("removes exactly the addressed one", f"len({P_}.adapters) == len(old({P_}.adapters)) - 1 and not has_adapter({P_}, adapter_id)"),
            ("the others stay in order", f"one_each({P_}.adapters) and all(same({P_}.adapters[i], old({P_}.adapters)[i]) or same({P_}.adapters[i], old({P_}.adapters)[i + 1]) for i in range(len({P_}.adapters)))"), ("and its performance", f"adapter_id not in {P_}.performances"),
            ("the other performances stay", f"only_key({P_}.performances, old({P_}.performances), adapter_id)")])
NOF = NOA + f" or adapter_id not in old({P_}.performances)"
fn(B + "get_performance", props=["P20"], nofuzz=True, ret="Performance", raises=[(H, NOF, None)], ensures=[("its performance", f"same(result, {P_}.performances[adapter_id])")])
fn(B + "create_performance", props=["P20"], nofuzz=True, ret="Performance", raises=[(H, NOA + f" or adapter_id in old({P_}.performances)", None)], modifies=[f"{P_}.performances[]"], exc_modifies=[],
   ensures=[("stored", f"same({P_}.performances[adapter_id], performance)"), ("the others stay", f"only_key({P_}.performances, old({P_}.performances), adapter_id)")])
fn(B + "update_performance", props=["P20"], nofuzz=True, ret="Performance", raises=[(H, NOF, None)], modifies=[f"{P_}.performances[]"], exc_modifies=[],
   ensures=[("stored", f"same({P_}.performances[adapter_id], performance)"), ("the others stay", f"only_key({P_}.performances, old({P_}.performances), adapter_id)")])
fn(B + "delete_performance", props=["P20"], nofuzz=True, raises=[(H, NOF, None)], modifies=[f"{P_}.performances[]"], exc_modifies=[],
   ensures=[("gone", f"adapter_id not in {P_}.performances"), ("the others stay", f"only_key({P_}.performances, old({P_}.performances), adapter_id)")])
for nm, cond, post in (("get", "old({P}.post_processor) is None", "same(result, {P}.post_processor)"), ("create", "old({P}.post_processor) is not None", "same({P}.post_processor, post_processor)"),
                       ("update", "old({P}.post_processor) is None", "same({P}.post_processor, post_processor)"), ("delete", "old({P}.post_processor) is None", "{P}.post_processor is None")):
    fn(B + nm + "_post_processor", props=["P20"], nofuzz=True, raises=[(H, NOA + " or " + cond.format(P=P_), None)], modifies=[] if nm == "get" else [f"{P_}.post_processor"], exc_modifies=[],
       ensures=[("exactly this result", post.format(P=P_))])

# data access functions: one family per kind of part
PD = "processes_data.ProductionProcessData"
for mod, one, lst, ty in (("queue", "queue", "queue_data", None), ("sink", "sink", "sink_data", None), ("source", "source", "source_data", None), ("product", "product", "product_data", None),
                          ("resources", "resource", "resource_data", None), ("process", "process", "process_data", None), ("state", "state", "state_data", None), ("time_model", "time_model", "time_model_data", None)):
    D = f"app/dao/{mod}_dao.py::"
    DB = "prodsys_backend.database"
    MISS = f"project_id not in {DB} or not has_adapter({DB}[project_id], adapter_id)"
    REQ = [("one configuration per ID", f"implies(project_id in {DB}, one_each({DB}[project_id].adapters))"), ("one part per ID", f"implies(project_id in {DB}, all(one_each(x.{lst}) for x in {DB}[project_id].adapters))")]
    HAS = f"{MISS} or not any(x.ID == adapter_id and any(q.ID == {one}_id for q in x.{lst}) for x in old({DB}[project_id].adapters))"
    G = dict(ghost={"a": (AD + "?", "None")}, on_call={"get_adapter": dict(check=[("the addressed configuration", f"project_id == caller_project_id and adapter_id == caller_adapter_id")], set=[("a", "result")])})
    MOD = [f"{DB}[project_id].adapters[]"]
    SAMEA = ("the addressed configuration", f"a.ID == adapter_id and a in {DB}[project_id].adapters")
    KEEP = ("the other configurations stay", f"{DB}[project_id].adapters == old({DB}[project_id].adapters)")
    fn(D + "get_all", props=["P20"], ret="list[CapabilityProcessData | CompoundProcessData | LinkTransportProcessData | ProductionProcessData | RequiredCapabilityProcessData | ReworkProcessData | TransportProcessData]" if mod == "process" else None, nofuzz=True, gen=G, raises=[(H, MISS, None)], ensures=[SAMEA, ("all its parts", f"same(result, a.{lst})")])
    TAKEN = f"{MISS} or any(x.ID == adapter_id and any(q.ID == {one}.ID for q in x.{lst}) for x in old({DB}[project_id].adapters))"
    fn(D + "get", props=["P20"], nofuzz=True, gen=G, requires=REQ, raises=[(H, HAS, None)], ensures=[SAMEA, ("the part of that ID", f"result.ID == {one}_id and result in a.{lst}")])
    fn(D + "add", props=["P20"], nofuzz=True, gen=G, requires=REQ, raises=[(H, TAKEN, None)], modifies=MOD + [f"a.{lst}[]"], exc_modifies=[],
       ensures=[SAMEA, KEEP, ("added behind the others", f"a.{lst} == old(a.{lst}) + [{one}] and same(result, {one})")])
    fn(D + "update", props=["P20"], nofuzz=True, gen=G, requires=REQ, raises=[(H, HAS, None)], modifies=MOD + [f"a.{lst}[]"], exc_modifies=[],
       ensures=[SAMEA, KEEP, ("replaces exactly the addressed one", f"same(result, {one}) and len(a.{lst}) == len(old(a.{lst})) and any(q.ID == {one}_id for q in old(a.{lst})) and all(same(a.{lst}[i], ite(old(a.{lst})[i].ID == {one}_id, {one}, old(a.{lst})[i])) for i in range(len(a.{lst})))")])
    fn(D + "delete", props=["P20"], nofuzz=True, gen=G, requires=REQ, raises=[(H, f"a is None or not any(q.ID == {one}_id for q in a.{lst})", None)], modifies=MOD + [f"a.{lst}[]"], exc_modifies=[],
       ensures=[SAMEA, KEEP, ("removes exactly the addressed one", f"len(a.{lst}) == len(old(a.{lst})) - 1 and all(q.ID != {one}_id for q in a.{lst})"),
                ("the others stay in order", f"one_each(a.{lst}) and all(same(a.{lst}[i], old(a.{lst})[i]) or same(a.{lst}[i], old(a.{lst})[i + 1]) for i in range(len(a.{lst})))")])
# scenario of a configuration
D = "app/dao/scenario_dao.py::"
DB = "prodsys_backend.database"
REQ = [("one configuration per ID", f"implies(project_id in {DB}, one_each({DB}[project_id].adapters))")]
MISS = f"project_id not in {DB} or not has_adapter({DB}[project_id], adapter_id)"
A1 = f"a.ID == adapter_id and a in {DB}[project_id].adapters"
fields(AD, scenario_data="ScenarioData?")
NOSC = f"{MISS} or not any(x.ID == adapter_id and x.scenario_data is not None for x in old({DB}[project_id].adapters))"
AMOD = [f"{DB}[project_id].adapters[]"]
fn(D + "get", props=["P20"], nofuzz=True, gen=G, requires=REQ, raises=[(H, NOSC, None)], ensures=[(SAMEA[0], A1), ("its scenario", "same(result, a.scenario_data)"), ("its scenario.", f"any(x.ID == adapter_id and same(x.scenario_data, result) for x in {DB}[project_id].adapters)")])
fn(D + "update", props=["P20"], inline=True, nofuzz=True, gen=G, requires=REQ, raises=[(H, MISS, None)], modifies=AMOD + [("ProductionSystemAdapter.scenario_data", "v", f"project_id in {DB} and v.ID == adapter_id and v in {DB}[project_id].adapters")], exc_modifies=[],
   ensures=[KEEP, ("stored", "same(a.scenario_data, scenario) and same(result, scenario)"), ("stored there", f"all(implies(x.ID == adapter_id, same(x.scenario_data, scenario)) for x in {DB}[project_id].adapters) and same(result, scenario)")])
fn(D + "delete", props=["P20"], nofuzz=True, gen=G, requires=REQ, raises=[(H, NOSC, None)], modifies=AMOD + ["a.scenario_data"], exc_modifies=[], ensures=[KEEP, (SAMEA[0], A1), ("gone", "a.scenario_data is None")])
GS = dict(ghost={"s": ("ScenarioData?", "None")}, on_call={"get": dict(check=[("of the addressed configuration", "project_id == caller_project_id and adapter_id == caller_adapter_id")], set=[("s", "result")]),
          "update": dict(check=[("the addressed scenario is written back", "project_id == caller_project_id and adapter_id == caller_adapter_id and same(scenario, s)")])})
SMOD = AMOD + [("ProductionSystemAdapter.scenario_data", "v", f"project_id in {DB} and v.ID == adapter_id and v in {DB}[project_id].adapters")]
for fld, par, nm in (("constraints", "scenario_constraints", "constraints"), ("options", "scenario_options", "options"), ("info", "scenario_info", "info"), ("objectives", "objectives", "objectives")):
    fn(D + "get_" + nm, props=["P20"], nofuzz=True, gen=GS, requires=REQ, may_raise=[H], ensures=[("of the addressed scenario", f"same(result, s.{fld})")])
    fn(D + "update_" + nm, props=["P20"], nofuzz=True, gen=GS, requires=REQ, may_raise=[H], modifies=SMOD + [f"s.{fld}"],
       ensures=[("replaced", f"same(s.{fld}, {par}) and same(result, s)")])
OBJ = "KPIEnum"
fn(D + "add_objective", props=["P20"], nofuzz=True, gen=GS, requires=REQ, may_raise=[H], modifies=SMOD + ["s.objectives[]"],
   ensures=[("added behind the others", "s.objectives == old(s.objectives) + [objective] and all(o.name != objective.name for o in old(s.objectives))")])
fn(D + "update_objective", props=["P20"], nofuzz=True, gen=GS, requires=REQ, may_raise=[H], modifies=SMOD + ["s.objectives[]"],
   ensures=[("replaces the first of that name", "len(s.objectives) == len(old(s.objectives)) and any(o.name == objective.name for o in old(s.objectives)) and all(same(s.objectives[i], old(s.objectives)[i]) or (same(s.objectives[i], objective) and old(s.objectives)[i].name == objective.name) for i in range(len(s.objectives))) and objective in s.objectives")])
fn(D + "delete_objective", props=["P20"], nofuzz=True, gen=GS, requires=REQ, may_raise=[H], modifies=SMOD + ["s.objectives[]"],
   ensures=[("removes one of that name", "len(s.objectives) == len(old(s.objectives)) - 1 and any(o.name == objective_name for o in old(s.objectives))"), ("the others stay in order", "all(same(s.objectives[i], old(s.objectives)[i]) or same(s.objectives[i], old(s.objectives)[i + 1]) for i in range(len(s.objectives)))")])

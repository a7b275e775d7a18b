# P08: process plans
M = "prodsys/simulation/proces_models.py::"
fn(M + "ListProcessModel.get_next_possible_processes", props=["P08"], requires=["0 <= self.current_marking and self.current_marking <= len(self.process_list)"],
   ensures=[("complete exactly after the last process", "iff(result is None, self.current_marking == len(self.process_list))"),
            ("only the next process of the list", "implies(result is not None, len(result) == 1 and same(result[0], self.process_list[self.current_marking]))")])
fn(M + "ListProcessModel.update_marking_from_transition", props=["P08"], modifies=["self.current_marking"], ensures=[("exactly one step", "self.current_marking == old(self.current_marking) + 1")])
fields("PrecendeGraphNode", successors="list[PrecendeGraphNode]", predecessors="list[PrecendeGraphNode]", marking="bool")
fn(M + "PrecendeGraphNode.update_marking", props=["P08"], modifies=["self.marking"], ensures=[("executed", "self.marking")])
spec("""
def node_ready(n): return not n.marking and (len(n.predecessors) == 0 or all(p.marking for p in n.predecessors))
""")
fn(M + "PrecedenceGraphProcessModel.set_initial_marking", props=["P08"], modifies=["self.current_marking"], raises=[("ValueError", "not any(len(n.predecessors) == 0 for n in self.nodes)", None)],
   ensures=[("starts at a process without predecessors", "self.current_marking is not None and self.current_marking in self.nodes and len(self.current_marking.predecessors) == 0")])
fn(M + "PrecedenceGraphProcessModel.get_next_possible_processes", props=["P08"], modifies=["self.current_marking"], raises=[("ValueError", "self.current_marking is None and not any(len(n.predecessors) == 0 for n in self.nodes)", None)],
   ensures=[("exactly the unfinished processes whose predecessors are all finished", "result == [node.process for node in self.nodes if not node.marking and (not node.predecessors or all(n.marking for n in node.predecessors))]")])
fn(M + "PrecedenceGraphProcessModel.update_marking_from_transition", props=["P08"], raises=[("IndexError", "not any(n.process == chosen_process for n in self.nodes)", None)],
   modifies=["self.current_marking", ("PrecendeGraphNode.marking", "n", "n in self.nodes and n.process == chosen_process")],
   ensures=[("a node of the chosen process is finished", "self.current_marking is not None and self.current_marking in self.nodes and self.current_marking.process == chosen_process and self.current_marking.marking"),
            ("nothing is un-finished", "all(implies(old(n.marking), n.marking) for n in self.nodes)"),
            ("no other process is finished", "all(implies(n.process != chosen_process, n.marking == old(n.marking)) for n in self.nodes)")])
fn(M + "PrecedenceGraphProcessModel.get_node_process_ids", props=["P08"], ensures=[("the identifiers of all processes in the plan", "result == [n.process.process_data.ID for n in self.nodes]")])
fn(M + "get_predecessor_processes", props=["P08"], ret="list[str]", ensures=[("exactly the processes that precede it", "result == [k for k in adjacency_matrix.keys() if target_process_id in adjacency_matrix[k]]")])
fn(M + "get_predecessors_adjacency_matrix", props=["P08"], requires=["all(list(adjacency_matrix.keys())[i] in adjacency_matrix for i in range(len(adjacency_matrix)))"],
   bounded="the proof of the nested dictionary-of-lists loop does not finish within the time limit; decided by exhaustive-style random inputs",
   ensures=[("one entry per process", "all(k in result for k in adjacency_matrix.keys()) and all(k in adjacency_matrix for k in result.keys())"),
            ("each with exactly its predecessors", "all(result[k] == [p for p in adjacency_matrix.keys() if k in adjacency_matrix[p]] for k in adjacency_matrix.keys())")])
fn(M + "get_adjacency_matrix_from_edges", props=["P08", "P15"], bounded="uses a recursive generator over nested heterogeneous lists (util.flatten)",
   ensures=[("exactly the listed edges", "all(result[k] == [e[1] for e in edges if e[0] == k] for k in result.keys())"),
            ("every process of an edge", "all(e[0] in result and e[1] in result for e in edges)")], requires=["all(len(e) == 2 for e in edges)"])
# the flow of a product through its plan
PR = "prodsys/simulation/product.py::Product."
ANYP = "ProductionProcess | CapabilityProcess | RequiredCapabilityProcess | CompoundProcess | ReworkProcess"
field("Product.next_prodution_process", ANYP + " | None")
fields("Product", process_model="ListProcessModel | PrecedenceGraphProcessModel", processes_needing_rework=f"list[{ANYP}]", executed_production_processes="list[str]",
   blocking_rework_process_mappings=f"list[tuple[{ANYP}, list[ReworkProcess]]]", non_blocking_rework_process_mappings=f"list[tuple[{ANYP}, list[ReworkProcess]]]")
fields("ListProcessModel", process_list=f"list[{ANYP}]")
fields("PrecendeGraphNode", process=ANYP)
fn(M + "ProcessModel.get_next_possible_processes", props=[], virtual=True, trusted=True, ret=f"list[{ANYP}]?", modifies=["self.current_marking"], may_raise=["ValueError"], note="both implementations are under contracts of their own")
fn(M + "ProcessModel.update_marking_from_transition", props=[], virtual=True, trusted=True, modifies=["self.current_marking", ("PrecendeGraphNode.marking", "n", "True")], note="both implementations are under contracts of their own")
fn(PR + "set_next_production_process", props=["P08"], nofuzz=True, may_raise=["IndexError", "ValueError"],
   modifies=["self.next_prodution_process", "self.executed_production_processes[]", "self.process_model.current_marking", ("PrecendeGraphNode.marking", "n", "True")],
   gen=dict(ghost={"offered": (f"list[{ANYP}]?", "None"), "asked": ("int", "0"), "advanced": ("int", "0")},
      on_call={"get_next_possible_processes": dict(check=[("of its own plan, once", "same(self, me.process_model) and asked == 0 and advanced == 0")], set=[("offered", "result"), ("asked", "asked + 1")]),
               "update_marking_from_transition": dict(check=[("of its own plan, once, with the next process", "same(self, me.process_model) and advanced == 0 and same(chosen_process, me.next_prodution_process)")], set=[("advanced", "advanced + 1")])}),
   ensures=[("a blocking rework comes first", "implies(len(self.blocking_rework_process_mappings) > 0, advanced == 0 and any(self.next_prodution_process in m[1] for m in self.blocking_rework_process_mappings))"),
            ("then the plan", "implies(len(self.blocking_rework_process_mappings) == 0, asked == 1 and iff(offered is not None and len(offered) > 0, advanced == 1) and implies(advanced == 1, self.next_prodution_process in offered))"),
            ("then the other reworks", "implies(len(self.blocking_rework_process_mappings) == 0 and advanced == 0 and len(self.non_blocking_rework_process_mappings) > 0, any(self.next_prodution_process in m[1] for m in self.non_blocking_rework_process_mappings))"),
            ("done exactly when nothing is left", "iff(self.next_prodution_process is None, len(self.blocking_rework_process_mappings) == 0 and len(self.non_blocking_rework_process_mappings) == 0 and advanced == 0)"),
            ("the execution of the plan is recorded", "self.executed_production_processes == ite(advanced == 1, old(self.executed_production_processes) + [self.next_prodution_process.process_data.ID], old(self.executed_production_processes))")])
FAILED = "ProductionProcess | CapabilityProcess"
spec('''
def reworks(p, f): return isinstance(p, ReworkProcess) and f.process_data.ID in p.reworked_process_ids
''')
fields("ProcessFactory", processes="list[ProductionProcess | CapabilityProcess | CompoundProcess | RequiredCapabilityProcess | TransportProcess | LinkTransportProcess | ReworkProcess]")
fn("prodsys/simulation/router.py::Router.get_rework_processes", props=["P08", "P09"], nofuzz=True, params={"failed_process": FAILED}, ret="list[ReworkProcess]",
   ensures=[("exactly the rework processes for it, in order", "result == [p for p in self.resource_factory.process_factory.processes if reworks(p, failed_process)]"), ("a new list", "fresh(result)")])
REG = "self.blocking_rework_process_mappings"; NREG = "self.non_blocking_rework_process_mappings"
RW = "[p for p in self.product_router.resource_factory.process_factory.processes if reworks(p, failed_process)]"
fn(PR + "add_needed_rework", props=["P08"], nofuzz=True, params={"failed_process": FAILED},
   modifies=["self.processes_needing_rework[]", "self.blocking_rework_process_mappings[]", "self.non_blocking_rework_process_mappings[]"], exc_modifies=["self.processes_needing_rework[]"],
   requires=[("own lists", "not same(self.processes_needing_rework, self.product_router.resource_factory.process_factory.processes)"), ("two collections", f"not same({REG}, {NREG})")],
   raises=[("ValueError", f"not any(reworks(p, failed_process) for p in self.product_router.resource_factory.process_factory.processes)", None)],
   ensures=[("the failed process needs rework", "self.processes_needing_rework == old(self.processes_needing_rework) + [failed_process]"),
            ("a blocking rework blocks the plan", f"implies(any(reworks(p, failed_process) and p.blocking for p in self.product_router.resource_factory.process_factory.processes), len({NREG}) == len(old({NREG})) and len({REG}) == len(old({REG})) + 1 and same({REG}[len({REG}) - 1][0], failed_process) and {REG}[len({REG}) - 1][1] == {RW})"),
            ("any other waits for the end of the plan", f"implies(not any(reworks(p, failed_process) and p.blocking for p in self.product_router.resource_factory.process_factory.processes), len({REG}) == len(old({REG})) and len({NREG}) == len(old({NREG})) + 1 and same({NREG}[len({NREG}) - 1][0], failed_process) and {NREG}[len({NREG}) - 1][1] == {RW})"),
            ("the others stay", f"{REG}[:len(old({REG}))] == old({REG}) and {NREG}[:len(old({NREG}))] == old({NREG})")])
fn(PR + "register_rework", props=["P08"], nofuzz=True, modifies=["self.processes_needing_rework[]", f"{REG}[]", f"{NREG}[]"],
   requires=[("own lists", f"not same({REG}, {NREG})"), ("the rework is pending", f"any(rework_process in m[1] for m in {REG}) or any(rework_process in m[1] for m in {NREG})"),
             ("every pending rework has its failed process", f"all(m[0] in self.processes_needing_rework for m in {REG}) and all(m[0] in self.processes_needing_rework for m in {NREG})"),
             ("a failed process waits in one of the two lists only", f"all(not same({REG}[i][0], {NREG}[j][0]) for i in range(len({REG})) for j in range(len({NREG})))")],
   ensures=[("one failed process is settled", "len(self.processes_needing_rework) == len(old(self.processes_needing_rework)) - 1"),
            ("one pending rework is settled", f"len({REG}) + len({NREG}) == len(old({REG})) + len(old({NREG})) - 1"),
            ("none is added", f"all(m in old({REG}) for m in {REG}) and all(m in old({NREG}) for m in {NREG})"),
            ("a pending blocking rework is settled first", f"implies(any(rework_process in m[1] for m in old({REG})), len({REG}) < len(old({REG})))")])

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=text), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))


S = "prodsys/simulation/"

prop("P01", "Queue capacity and slot reservation accounting",
     """A queue or store never accepts a reservation that would make its stored items plus outstanding reservations
     exceed its capacity, where a configured capacity of zero means unlimited: such a request is refused with an error,
     and a queue reports itself full exactly when no further slot can be reserved. Every reservation adds one slot and
     every put releases exactly one, gets never touch reservations, and each put and each get wakes everybody waiting
     for a change of that queue exactly once and re-arms the signal. Resources reserve one slot in each of their own
     (non-store) input queues per admitted product, and one slot per batch member in each own output queue.""",
     ["schedules", "inputs", "histories"],
     "for every capacity, every number of stored items and outstanding reservations, and every interleaving of reserve, release, put and get",
     """Tests simulate a handful of fixed systems with default (unbounded or rarely filled) queues, so the boundary
     between accept and refuse and every other state of the counter is not reached.""",
     [S + "store.py", S + "resources.py"],
     [("reserve/unreserve/full/put/get of Queue", S + "store.py"),
      ("reserve_internal_input_queues, adjust_pending_put_of_output_queues", S + "resources.py")],
     [("pending puts", "slots promised but not yet filled", "Queue._pending_put"),
      ("items", "products currently stored", "Queue.items"),
      ("state change event", "signal for waiting routers", "Queue.state_change")],
     ["Queue.full", "RuntimeError raised by reserve"])

prop("P02", "Resources admit work only within their capacity",
     """The number of parallel process slots a resource offers equals its capacity when nothing is set up, and otherwise the number of
     its process slots that belong to the process being set up (if a changeover is under way) or else currently set up;
     a resource counts as full exactly while it is being set up or when running plus reserved work uses up all slots.
     Looking up process slots returns exactly the slots of the requested process (only the idle ones when free slots are
     asked for) and fails with an error if the process is not offered by the resource; a finished changeover leaves the
     requested process set up and nothing reserved.""",
     ["inputs", "histories", "configurations"],
     "for every set of process slots, setup situation, number of running and reserved requests, and requested process",
     """Tests run a few resources with one or two processes; they assert coarse KPI bands and cannot reach every
     combination of setup, reservation, idle and busy slots.""",
     [S + "resources.py", "prodsys/factories/resource_factory.py"],
     [("capacity_current_setup, full, in_setup, get_process(es), get_free_process(es), setup", S + "resources.py"),
      ("register_production_states*", "prodsys/factories/resource_factory.py")],
     [("current/reserved setup", "which process the resource is set up for", "Resource"),
      ("running processes, reserved count", "admitted work", "Controller")],
     ["Resource.full", "Resource.capacity_current_setup"])

prop("P03", "Controllers serve every accepted request once in policy order",
     """A controller keeps every request it is given until it is started, starts each at most once, and never invents one.
     The sequencing policies only reorder the waiting requests: first-in-first-out leaves the arrival order, last-in-first-out
     serves the newest first, and the shortest-time policies serve in non-decreasing order of expected time (ties in
     arrival order); the queue-length policies order by the documented distance and queue-length keys.
     A process of a product may only be marked for rework if it is not itself a rework process and can fail.""",
     ["schedules", "inputs", "histories"],
     "for every list of waiting requests (any length, any expected times, ties included) and every policy",
     """Only the FIFO policy on short queues is simulated by the tests; orderings for arbitrary request lists are never asserted.""",
     [S + "control.py"],
     [("request, control policies, rework_required/determine_need_for_rework", S + "control.py")],
     [("requests", "waiting requests in service order", "Controller.requests")],
     ["order of Controller.requests after the policy ran"])

prop("P04", "Interrupted work takes exactly its drawn working time",
     """However often production, setup, charging or transport work is interrupted by a breakdown and however long each interruption lasts,
     the time spent actually working adds up to exactly the working time that was drawn for it: no progress is lost or counted twice,
     and no production, setup or transport work is done while the resource or the process is down. Work ends with exactly one completion signal, an
     interruption is accepted only for running, not yet interrupted work, and the remaining time is never negative.""",
     ["schedules", "fault_sequences", "inputs"],
     "for every drawn time, every start time, and every number and timing of interruptions and recoveries",
     """The stable tests contain no system in which a breakdown hits a running process at a checked moment; the number and
     timing of interruptions is unbounded.""",
     [S + "state.py"],
     [("process_state, update_done_in, interrupt_process of ProductionState, SetupState, ChargingState, TransportState", S + "state.py")],
     [("done_in", "remaining working time", "State.done_in"), ("interrupted", "set while interrupted", "State.interrupted"),
      ("start", "start of the current working interval", "State.start")],
     ["event log", "simulation clock at completion"])

prop("P05", "Breakdowns stop a resource and repairs bring it back",
     """When a breakdown starts, the resource becomes unavailable and every running, not already interrupted production and setup activity of it
     is interrupted; when a repair ends, the resource becomes available again exactly if no other breakdown of it is
     still active. A process breakdown blocks and interrupts only the slots of its own process and the setups, lasts
     exactly one drawn repair time and then re-enables every slot it blocked, and a battery-powered resource needs
     charging exactly when the usage since the last charge reaches ninety percent of the battery time.""",
     ["schedules", "fault_sequences"],
     "for every number of overlapping breakdowns, every set of active and idle states, and every battery usage",
     "No stable test contains overlapping breakdowns or batteries, and the set of overlap patterns is unbounded.",
     [S + "state.py", S + "resources.py"],
     [("BreakDownState/ProcessBreakDownState.process_state, requires_charging", S + "state.py"),
      ("interrupt_states, activate, requires_charging, consider_battery_usage", S + "resources.py")],
     [("active", "availability event of resource/state", "Resource.active, State.active"),
      ("active_breakdown", "a breakdown is running", "BreakDownState.active_breakdown")],
     ["Resource.active.triggered", "event log"])

prop("P06", "Every logged event describes what happened",
     """Each state change, product event and auxiliary event is written to the log with the time it happened, the resource, state,
     product and origin/target it concerns, the matching activity, and the expected end equal to start plus remaining
     time; work of positive duration logs a start with the work type of its state and completing it logs exactly one end.
     Log entries are written in the order of the calls, one entry per call, and an entry never changes after it is written.""",
     ["schedules", "inputs", "histories"],
     "for every sequence of state, product and auxiliary log calls with every combination of arguments",
     "Tests read aggregate KPIs from the log; they never compare individual entries with the calls that made them.",
     [S + "logger.py", S + "state.py", S + "product.py", S + "auxiliary.py"],
     [("StateInfo/ProductInfo/AuxiliaryInfo log_* methods", S + "state.py"),
      ("post_monitor_*_info, register_patch", S + "logger.py")],
     [("event data", "list of log rows", "EventLogger.event_data")],
     ["event log data frame"])

prop("P07", "Time models yield exactly the times they are configured for",
     """Sampled times come from the configured sample set or distribution buffer in order, negative draws are replaced by the
     small positive default, and a travel time equals the chosen distance metric divided by speed plus reaction time. A schedule
     replays its entries in order, as differences if they are absolute times, starts over if it is cyclic, and signals its end
     otherwise; a source emits exactly one product per positive inter-arrival time and stops at the end signal.
     Expected times equal the configured mean values.""",
     ["inputs", "histories", "configurations"],
     "for every schedule, sample list, speed, reaction time, metric and pair of locations, and every number of draws",
     "Tests use constant and a few normal time models over a fixed horizon with loose KPI bands.",
     [S + "time_model.py", S + "source.py", "prodsys/util/statistical_functions.py"],
     [("get_next_time/get_expected_time of all time models", S + "time_model.py"),
      ("create_product_loop", S + "source.py")],
     [("statistics buffer / schedule iterator", "pending draws", "FunctionTimeModel, ScheduledTimeModel")],
     ["return values of get_next_time and get_expected_time"])

prop("P08", "Products follow their process plan",
     """A product is only ever offered processes all of whose predecessors in its plan are finished and that are not yet finished themselves;
     sequential plans are executed in exactly the given order; the plan is complete exactly when every process has been
     executed. The different ways to write a plan (list, edges, adjacency matrix) describe the same precedence when they
     list the same relations.""",
     ["inputs", "histories", "configurations"],
     "for every precedence graph or list of any size and every order of completing offered processes",
     "Tests only contain linear plans of at most three steps and one small graph.",
     [S + "proces_models.py", S + "product.py", "prodsys/factories/product_factory.py"],
     [("ListProcessModel, PrecedenceGraphProcessModel, conversions", S + "proces_models.py"),
      ("get_process_model / create_*", "prodsys/factories/product_factory.py")],
     [("node marking", "which processes are done", "PrecedenceGraphNode.marking")],
     ["get_next_possible_processes"])

prop("P09", "Work is matched only to resources that offer it",
     """A request is matched to an offered process exactly when the offered process is the requested one, has the requested capability,
     is one of the processes a compound process contains, or (for transports) the same transport or one with the same
     non-empty capability, and link transports only when a route exists. Routing only ever considers requests for resources offering such a process,
     never a production resource whose own input queues are all full, and a product is sent to a sink of its own type.""",
     ["inputs", "configurations", "histories"],
     "for every set of resources, processes of any type, requests and queue fill levels",
     "Tests contain few resources and mostly plain process identities; mismatches show up only for mixes of process types and full queues.",
     [S + "process.py", S + "router.py"],
     [("matches_request of every process class", S + "process.py"),
      ("possible request construction and filters", S + "router.py")],
     [],
     ["requests produced for routing", "matches_request results"])

prop("P10", "Routing heuristics only reorder the candidates",
     """Every routing heuristic and every sorting helper returns the same candidates it was given, without loss, duplication or addition:
     first-come heuristics keep the order and the shortest-queue heuristic puts a candidate with the least
     waiting work first. Candidate filters return exactly the candidates that satisfy their condition, in the original order.""",
     ["inputs", "histories"],
     "for every list of candidate requests and every queue situation",
     "Tests only observe end-of-run KPIs with one or two alternatives.",
     [S + "router.py"],
     [("FIFO_routing_heuristic, random_routing_heuristic, shortest_queue_routing_heuristic and filters", S + "router.py")],
     [], ["order of the candidate list"])

prop("P11", "Transport moves along valid links and reports true places",
     """Every route found for a transport starts at the requested origin, ends at the requested target, and each hop is a configured link
     of the transport process (links can be used in both directions); if no such path exists no route is reported. A transport takes the travel time between
     its actual start and target plus loading time only when it picks the load up and unloading time only when it
     delivers it, and afterwards the vehicle is located at the target.""",
     ["inputs", "configurations", "schedules"],
     "for every set of nodes and links, every origin and target, and every combination of loading, unloading, empty and loaded moves",
     "Two small fixed link networks are simulated by the tests; routes are never compared with the configured links.",
     [S + "route_finder.py", S + "state.py", S + "control.py", S + "process.py"],
     [("find_route, graph construction", S + "route_finder.py"),
      ("TransportState.process_state / handling times", S + "state.py"),
      ("TransportController movement", S + "control.py")],
     [("location", "current place of vehicle", "TransportResource.data.location")],
     ["route of LinkTransportProcess", "transport start/end events"])

prop("P12", "Auxiliaries are used by one product at a time",
     """An auxiliary (carrier, tool) is handed out only while it is not reserved, reserving it makes it unavailable to everybody else until it is released,
     and a released auxiliary is free again, belongs to no product and announces its availability exactly once. Exactly the
     configured number of auxiliaries of each type is created per storage, each with a unique identity.""",
     ["schedules", "histories", "configurations"],
     "for every set of auxiliaries, storages and quantities and every order of reserving and releasing",
     "Two tests use a handful of auxiliaries with one schedule each.",
     [S + "auxiliary.py", S + "router.py", "prodsys/factories/auxiliary_factory.py"],
     [("reserve, release_auxiliary", S + "auxiliary.py"), ("add_auxiliary, create_auxiliary", "prodsys/factories/auxiliary_factory.py")],
     [("reserved", "auxiliary is in use", "Auxiliary.reserved"), ("current product", "user of the auxiliary", "Auxiliary.current_product")],
     ["Auxiliary.reserved", "got_free event"])

prop("P13", "Products are created, tracked and finished exactly once",
     """Every product a source creates has an identity no other product has and is tracked as in-progress until it finishes; finishing moves it
     from the in-progress to the finished collection exactly once, so that at any time created products are split into
     these two without loss or duplication. Looking a product, resource, source or sink up returns the one that was asked for.""",
     ["schedules", "histories", "inputs"],
     "for every interleaving of creations and completions of any number of products and types",
     "Tests only compare totals at the end of one fixed run.",
     ["prodsys/factories/product_factory.py", S + "sink.py", S + "source.py"],
     [("create_product, register_finished_product, get_product*", "prodsys/factories/product_factory.py")],
     [("products/finished_products/counter", "tracking collections", "ProductFactory")],
     ["ProductFactory.products", "ProductFactory.finished_products"])

prop("P14", "Lookups by ID return exactly the configured objects",
     """Looking up time models, processes, states, queues, nodes, resources, sources or sinks by identifier returns exactly the object(s) with
     that exact identifier (in the requested order where an order is promised), never one whose identifier is merely
     similar, and an unknown process is refused with an error; lookups by product type return exactly the objects of that type.""",
     ["inputs", "configurations"],
     "for every collection of objects and every identifier, including identifiers that are prefixes of each other",
     "Tests use few, clearly distinct identifiers.",
     ["prodsys/factories/time_model_factory.py", "prodsys/factories/process_factory.py", "prodsys/factories/state_factory.py",
      "prodsys/factories/queue_factory.py", "prodsys/factories/node_factory.py", "prodsys/factories/resource_factory.py",
      "prodsys/factories/sink_factory.py", "prodsys/factories/source_factory.py"],
     [("get_* methods of the factories", "prodsys/factories")],
     [], ["return values of the factory getters"])

prop("P15", "Simulations are reproducible and isolated",
     """Running a simulation draws from random state derived only from its seed, and afterwards (also if it fails) the caller's global random state is
     exactly what it was before. Two runs of the same configuration with the same seed therefore behave identically,
     independent of anything the caller did with the random generators in between.""",
     ["histories", "inputs", "crash_points"],
     "for every seed, every state of the global generators and every failure point inside the guarded section",
     "Tests never inspect the random state nor compare two runs with interleaved foreign draws or exceptions.",
     [S + "sim.py", "prodsys/util/runner.py", "prodsys/util/util.py"],
     [("temp_seed", S + "sim.py"), ("temp_seed, run", "prodsys/util/runner.py"), ("set_seed", "prodsys/util/util.py")],
     [("generator state", "numpy and random global state", "random, numpy.random")],
     ["random.getstate(), numpy.random.get_state()"])

prop("P16", "Configuration validation accepts exactly consistent systems",
     """A configuration is accepted exactly if every reference in it (time models, states, processes, queues, products) names an existing object, missing queues of
     resources, sources and sinks are completed by new default queues that belong to them alone (the input queues of sinks are unlimited; an empty loading or unloading time model means none), and the physical
     validation rejects exactly the systems in which two objects share a location, a required process is offered nowhere, or a link names an unknown place.
     Validation never changes an already complete configuration.""",
     ["inputs", "configurations"],
     "for every configuration with any number of objects and any dangling or duplicate reference",
     "Tests only load valid configurations.",
     ["prodsys/adapters/adapter.py", "prodsys/models/resource_data.py", "prodsys/models/core_asset.py"],
     [("check_* validators, assert_* functions, add_default_queues_*", "prodsys/adapters/adapter.py"),
      ("check_process_capacity, validate_batch_size", "prodsys/models/resource_data.py")],
     [], ["ValidationError/ValueError or acceptance"])

prop("P17", "Configuration identity hash means equal behaviour",
     """Two configurations, or two of their parts, get the same identity hash exactly when they agree in everything that influences simulated behaviour, irrespective of
     the names and the order of their parts: renaming objects or reordering collections without a sequence meaning never changes it, and changing any
     functional attribute (times, capacities, locations, queues, states, controller, sequencing policy, routing) always changes it.
     A dangling reference is reported as an error, never hashed. Seed and scenario are not part of the identity, a referenced part counts by its contents, and
     the order of the storages of an auxiliary and of a process list is a sequence.""",
     ["inputs", "configurations"],
     "for every pair of configurations that differ in names/order only, and every pair that differ in one functional attribute",
     "Tests compare two hashes of one example each.",
     ["prodsys/models", "prodsys/adapters/adapter.py"],
     [("hash methods of the data models", "prodsys/models"), ("ProductionSystemAdapter.hash", "prodsys/adapters/adapter.py")],
     [], ["hash()"])

prop("P18", "KPIs agree with the event log they are computed from",
     """For every event log, work in progress equals products created minus products finished at each moment, a product's throughput time is the span
     between its creation and its completion, output counts the finished products, and the time a resource spends in its states adds up to
     the observed time, so that state shares sum to one hundred percent. A warm-up cut-off always lies inside the observed series.""",
     ["inputs", "histories"],
     "for every well-formed event log: any number of products, resources, state sequences and gaps",
     "Tests check a few KPI values with wide tolerances on fixed runs.",
     ["prodsys/util/post_processing.py", "prodsys/util/warm_up_post_processing.py"],
     [("df_throughput, df_WIP, df_resource_states, KPI lists", "prodsys/util/post_processing.py"),
      ("mser5, threshold_stabilization, static_ratio", "prodsys/util/warm_up_post_processing.py")],
     [], ["PostProcessor properties"])

prop("P19", "Optimization explores only consistent, constraint-respecting systems",
     """A configuration is judged valid exactly if it respects the scenario's limits on machines, vehicles, processes per machine, positions, availability and reconfiguration cost,
     and that cost is the sum of the prices of added machines, vehicles, process modules and auxiliaries and never negative. Every variation step
     changes only what it names, keeps every process assignment referring to existing processes and process capacities aligned with processes, leaves the
     system untouched when it reports that it did nothing, and crossover redistributes machines and vehicles without losing or duplicating one.""",
     ["inputs", "configurations", "histories"],
     "for every configuration, scenario and every random choice made by the operators",
     "No stable test touches the optimization package.",
     ["prodsys/optimization/adapter_manipulation.py", "prodsys/optimization/optimization.py", "prodsys/optimization/util.py"],
     [("mutation operators, crossover", "prodsys/optimization/adapter_manipulation.py"),
      ("check_valid_configuration, get_reconfiguration_cost, evaluate", "prodsys/optimization/optimization.py")],
     [], ["adapter data after an operator", "check_valid_configuration result"])

prop("P20", "The service keeps one consistent copy of each project",
     """In the web service, a created project, configuration, part or performance can be read back unchanged until it is updated or deleted; creating an
     existing one and reading, updating or deleting a missing one is refused with an error and changes nothing. An update (that keeps the ID or gives an unused one) replaces
     exactly the addressed object, a deletion removes exactly it, and everything else stays as it was.""",
     ["histories", "inputs"],
     "for every sequence of create, read, update and delete requests over any number of projects and objects",
     "No stable test touches the service.",
     ["app/backends/in_memory.py", "app/dao"],
     [("CRUD methods", "app/backends/in_memory.py"), ("get/add/update/delete", "app/dao")],
     [("database", "projects by ID", "InMemoryBackend.database")],
     ["HTTP 404/409", "returned objects"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")

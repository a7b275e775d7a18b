# P07: time models, statistics buffers, source loop
T = "prodsys/simulation/time_model.py::"
U = "prodsys/util/statistical_functions.py::"
fn(U + "get_constant_list", props=["P07"], params={"time_model_data": "FunctionTimeModelData"}, requires=["time_model_data.batch_size >= 0"],
   ensures=[("as many values as a batch", "len(result) == time_model_data.batch_size"), ("each is the configured constant", "all(x == time_model_data.location for x in result)"), ("new list", "fresh(result)")])
for n in ("exponential", "normal", "lognormal"):
    fn(U + f"get_{n}_list", props=["P07"], params={"time_model_data": "FunctionTimeModelData"}, requires=["time_model_data.batch_size >= 0", "time_model_data.location > 0", "time_model_data.scale >= 0"],
       ensures=[("as many values as a batch", "len(result) == time_model_data.batch_size"), ("new list", "fresh(result)")])
fn(T + "FunctionTimeModel._fill_buffer", props=["P07"], requires=["self.time_model_data.batch_size >= 1", "self.time_model_data.location > 0", "self.time_model_data.scale >= 0"],
   modifies=["self.statistics_buffer"], fuzz=dict(hints={"FunctionTimeModelData.location": "choice([1.0, 2.5, 10.0])"}),
   ensures=[("a full batch of new draws", "len(self.statistics_buffer) == self.time_model_data.batch_size and fresh(self.statistics_buffer)"),
            ("constant times are exactly the configured time", "implies(self.time_model_data.distribution_function == FunctionTimeModelEnum.Constant, all(x == self.time_model_data.location for x in self.statistics_buffer))")])
fn(T + "FunctionTimeModel.get_next_time", props=["P07"], requires=["self.time_model_data.batch_size >= 1", "self.time_model_data.location > 0", "self.time_model_data.scale >= 0"],
   modifies=["self.statistics_buffer", "self.statistics_buffer[]"], fuzz=dict(hints={"FunctionTimeModelData.location": "choice([1.0, 2.5, 10.0])", "FunctionTimeModel.statistics_buffer": "[choice([-1.0, 0.0, 1.0, 2.0]) for _ in range(rnd.randint(0, 3))]"}),
   ensures=[("never negative", "result >= 0"),
            ("the next buffered draw, negative draws replaced by the small default", "implies(len(old(self.statistics_buffer)) > 0, result == ite(old(self.statistics_buffer)[-1] < 0, 0.1, old(self.statistics_buffer)[-1]))"),
            ("exactly one draw used", "implies(len(old(self.statistics_buffer)) > 0, same(self.statistics_buffer, old(self.statistics_buffer)) and self.statistics_buffer == old(self.statistics_buffer)[:-1])"),
            ("a refilled buffer yields one of its draws", "implies(len(old(self.statistics_buffer)) == 0, len(self.statistics_buffer) == self.time_model_data.batch_size - 1)"),
            ("constant after refill", "implies(len(old(self.statistics_buffer)) == 0, self.time_model_data.distribution_function == FunctionTimeModelEnum.Constant, result == self.time_model_data.location)")])
fn(T + "FunctionTimeModel.get_expected_time", props=["P07"], ensures=[("the configured mean", "result == self.time_model_data.location")])
fn(T + "SampleTimeModel.get_next_time", props=["P07"], requires=["len(self.time_model_data.samples) >= 1"], ensures=[("one of the configured samples", "result in self.time_model_data.samples")])
fn(T + "SampleTimeModel.get_expected_time", props=["P07"], requires=["len(self.time_model_data.samples) >= 1"],
   ensures=[("mean of the samples", "result == sum(self.time_model_data.samples) / len(self.time_model_data.samples)")])
fn(T + "SequentialTimeModel.get_next_time", props=["P07"], requires=["len(self.time_model_data.sequence) >= 1"], ensures=[("one of the configured values", "result in self.time_model_data.sequence")])
fn(T + "SequentialTimeModel.get_expected_time", props=["P07"], requires=["len(self.time_model_data.sequence) >= 1"],
   ensures=[("mean of the sequence", "result == sum(self.time_model_data.sequence) / len(self.time_model_data.sequence)")])
spec('''
def rel_entry(d, i): return ite(d.absolute and i > 0, d.schedule[i] - d.schedule[i - 1], d.schedule[i])
''')
fn(T + "ScheduledTimeModel.get_expected_time", props=["P07"], requires=["len(self.time_model_data.schedule) >= 1"],
   ensures=[("mean of a schedule of differences", "implies(not self.time_model_data.absolute, result == sum(self.time_model_data.schedule) / len(self.time_model_data.schedule))"),
            ("mean of the differences of an absolute schedule", "implies(self.time_model_data.absolute, result == sum([self.time_model_data.schedule[0]] + [self.time_model_data.schedule[i] - self.time_model_data.schedule[i - 1] for i in range(1, len(self.time_model_data.schedule))]) / len(self.time_model_data.schedule))")])
LOC = dict(hints={"origin": "[choice([0.0, 1.0, -2.0, 3.5]), choice([0.0, 1.0, -2.0, 3.5])]", "target": "[choice([0.0, 1.0, -2.0, 3.5]), choice([0.0, 1.0, -2.0, 3.5])]"})
LOCN = dict(hints={k: f"choice([None, {v}])" for k, v in LOC["hints"].items()})
PT = ["len(origin) == 2 and len(target) == 2"]
PTN = ["implies(origin is not None, len(origin) == 2) and implies(target is not None, len(target) == 2)", "self.time_model_data.speed > 0"]
fn(T + "DistanceTimeModel.calculate_distance", props=["P07"], requires=PT, fuzz=LOC, may_raise=[],
   ensures=[("never negative", "result >= 0"),
            ("manhattan metric", "implies(self.time_model_data.metric == 'manhattan', result == abs(origin[0] - target[0]) + abs(origin[1] - target[1]))"),
            ("euclidean metric", "implies(self.time_model_data.metric == 'euclidian', result * result == (origin[0] - target[0]) * (origin[0] - target[0]) + (origin[1] - target[1]) * (origin[1] - target[1]))")])
for m in ("get_next_time", "get_expected_time"):
    fn(T + "DistanceTimeModel." + m, props=["P07"], requires=PTN, fuzz=LOCN, raises=[("ValueError", "origin is None or target is None", None)],
       ensures=[("distance over speed plus reaction time", "implies(self.time_model_data.metric == 'manhattan', result == (abs(origin[0] - target[0]) + abs(origin[1] - target[1])) / self.time_model_data.speed + self.time_model_data.reaction_time)")])
    fn(T + "ManhattanDistanceTimeModel." + m, props=["P07"], requires=PTN + ["origin is not None and target is not None"], fuzz=LOCN,
       ensures=[("distance over speed plus reaction time", "result == (abs(origin[0] - target[0]) + abs(origin[1] - target[1])) / self.time_model_data.speed + self.time_model_data.reaction_time")])
# callers see every time model through this contract; each implementation is under its own contract above
fn(T + "TimeModel.get_next_time", props=[], trusted=True, virtual=True, ret="float", note="implementations modify their own buffers only (their own contracts); a distance model used without places is a configuration error (not modelled)")
field("ScheduledTimeModel._time_value_iterator", "ListIterator")
fn(T + "ScheduledTimeModel._get_time_value_iterator", props=["P07"], nofuzz=True, ret="ListIterator", requires=["len(self.time_model_data.schedule) >= 1"],
   ensures=[("replays the (relative) schedule in order", "len(result.seq) == len(self.time_model_data.schedule) and all(result.seq[i] == rel_entry(self.time_model_data, i) for i in range(len(self.time_model_data.schedule)))"),
            ("from its beginning", "result.pos == 0"), ("again and again exactly if cyclic", "iff(result.cyclic, self.time_model_data.cyclic)")])
fn(T + "ScheduledTimeModel.get_next_time", props=["P07"], nofuzz=True, requires=["len(self._time_value_iterator.seq) >= 1", "self._time_value_iterator.pos >= 0"],
   modifies=["self._time_value_iterator.pos"],
   ensures=[("next entry", "implies(old(self._time_value_iterator.pos) < len(self._time_value_iterator.seq), result == self._time_value_iterator.seq[old(self._time_value_iterator.pos)] and self._time_value_iterator.pos == old(self._time_value_iterator.pos) + 1)"),
            ("starts over when cyclic", "implies(old(self._time_value_iterator.pos) >= len(self._time_value_iterator.seq), self._time_value_iterator.cyclic, result == self._time_value_iterator.seq[0] and self._time_value_iterator.pos == 1)"),
            ("otherwise signals its end", "implies(old(self._time_value_iterator.pos) >= len(self._time_value_iterator.seq), not self._time_value_iterator.cyclic, result == -1)")])
fn("prodsys/simulation/source.py::Source.create_product_loop", props=["P07", "P13"],
   may_raise=["RuntimeError", "ValueError", "KeyError", "IndexError"],
   gen=dict(ghost={"slept": ("int", "0"), "made": ("int", "0"), "drawn": ("float", "1.0"), "draws": ("int", "0"), "put": ("int", "0"), "started": ("int", "0")},
      on_call={"TimeModel.get_next_time": dict(set=[("drawn", "result"), ("draws", "draws + 1")]),
               "ProductFactory.create_product": dict(check=[("only after the drawn time elapsed", "slept == made + 1 and draws == slept"), ("of the configured type", "same(product_data, me.product_data)")], set=[("made", "made + 1"), ("put", "0")]),
               "Queue.put": dict(set=[("put", "put + 1")])},
      at_yield=[("waits exactly the drawn, positive time", "timeout", "ev.delay == drawn and drawn > 0 and draws == slept + 1"),
                ("each elapsed inter-arrival time created exactly one product", None, "made == slept"),
                ("the new product was put into every output queue", "cond", "put == len(self.output_queues)")],
      on_timeout={"slept": "slept + 1"}),
   loops={"*": [("one product per elapsed time", "made == slept and draws == slept"), "drawn > 0"]},
   ensures=[("ends only on the end signal", "drawn <= 0"), ("and then has created one product per elapsed time", "made == slept")])

# P15: draws come from generators seeded with the configured seed, and the caller's generators are left as they were, also on failure
SAME = ["rng_py() == old(rng_py())", "rng_np() == old(rng_np())"]
def keeps(key, draw=None, seed=None, **kw):
    fn("prodsys/" + key, props=["P15"], opaque=True, noframe=True, nofuzz=True, may_raise=["BaseException"],
       ensures=[("the caller's random state is untouched", SAME[0]), ("the caller's numpy random state is untouched", SAME[1])], exc_ensures=SAME,
       gen=dict(touch=[seed] if seed else [], at_draw=[("the generator is derived from the seed", f"derived_py(rng_py(), old({seed}))"), ("the numpy generator is derived from the seed", f"derived_np(rng_np(), old({seed}))")] if seed else []), **kw)
keeps("simulation/sim.py::Environment.run", seed="self.seed")
keeps("util/runner.py::Runner.initialize_simulation", seed="self.adapter.seed")
keeps("util/runner.py::Runner.run")
fn("prodsys/util/util.py::set_seed", props=["P15"], nofuzz=True, modifies=[], noframe=True, may_raise=["ValueError"],
   ensures=[("random is seeded with the seed", "rng_py() == seeded_py(seed)"), ("numpy is seeded with the seed", "rng_np() == seeded_np(seed)")])
fields("Runner", adapter="ProductionSystemAdapter", env="Environment")

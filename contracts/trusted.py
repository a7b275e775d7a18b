# contracts of trusted (external) functions
S = "contracts/stubs.py::"
fn(S + "FilterStore.put", trusted=True, modifies=["self.items[]"], ret="StorePut",
   ensures=[("capacity respected", "implies(len(old(self.items)) <= self.capacity, len(self.items) <= self.capacity)"), ("fresh", "fresh(result)")])
fn(S + "FilterStore.get", trusted=True, modifies=["self.items[]"], ret="FilterStoreGet",
   ensures=[("only removes", "len(self.items) <= len(old(self.items))"), ("fresh", "fresh(result)")])
fn(S + "SimResource.request", trusted=True, ret="SimRequest", ensures=["fresh(result)"])

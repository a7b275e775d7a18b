# P18: analyses of the event log. The computations are pandas/numpy expressions (outside the verifier's language); the dispatch of the cut-off rules is proved,
# everything else is decided by the bounded driver kpis.
W = "prodsys/util/warm_up_post_processing.py::"
for nm in ("mser5", "threshold_stabilization", "static_ratio"):
    fn(W + nm, props=[], params={"data": "opaque", "df": "opaque", "column": "str"}, trusted=True, pure=True, ret="int", note="numpy/pandas body; decided by the bounded driver kpis", nofuzz=True)
fn(W + "get_warm_up_cutoff_index", props=["P18"], params={"df": "opaque", "column": "str", "method": "str"}, nofuzz=True,
   ensures=[("mser5", "method != 'mser5' or result == mser5(df, column)"), ("threshold", "method != 'threshold_stabilization' or result == threshold_stabilization(df, column)"),
            ("static", "method != 'static_ratio' or result == static_ratio(df, column)")],
   raises=[("ValueError", "method not in ('mser5', 'threshold_stabilization', 'static_ratio')", None)])

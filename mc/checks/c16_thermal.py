"""C16: coolant loops, cold plates, refrigerators, heat exchangers, hoses, pumps and manifolds."""
import itertools

import numpy as np

from mc import catalog as C
from mc.cat_thermal import THERMAL as ENTRIES
from mc.omx import om

PROPERTY = "C16"
LEVEL = "exploration"
RULE = C.VALUE_RULE + " Guards: every placement of an out-of-range value among the analysis points is refused, every in-range vector is not."
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
_shards, _run = C.value_check(ENTRIES)


def shards(tier):
    return _shards(tier) + [("guards", dict(guards=4 if tier == "thorough" else 3))]


def run(ctx, prm):
    if "guards" in prm:
        return guards(ctx, prm["guards"])
    return _run(ctx, prm)


def guards(ctx, n):
    """FlowSplit refuses a fraction outside [0, 1]; a heat exchanger refuses a non-positive cold-side flow."""
    table = {e.name: e for e in ENTRIES}
    e = table["FlowSplit"]
    p = e.build({}, n)
    for fr in itertools.product([-0.2, 0.0, 0.4, 1.0, 1.0001], repeat=n):
        bad = any(v < 0 or v > 1 for v in fr)
        e.put(p, {}, dict(mdot_in=np.ones(n), mdot_split_fraction=np.array(fr)))
        try:
            p.run_model()
            raised = False
        except Exception:
            raised = True
        ctx.ev()
        ctx.state(("split", fr))
        ctx.true("FlowSplit:range", raised == bad, f"split fraction {fr}: {'accepted' if bad else 'refused'}", fractions=fr)
    e = table["HXGroup"]
    p = e.build({}, n)
    base = {k: (np.full(n, i.values[0]) if i.vec else i.values[0]) for k, i in e.ins({}).items()}
    for md in itertools.product([1.5, 0.2, -0.1], repeat=n):
        e.put(p, {}, dict(base, mdot_cold=np.array(md)))
        try:
            p.run_model()
            raised = False
        except om.AnalysisError:
            raised = True
        ctx.ev()
        ctx.state(("hx", md))
        ctx.true("HXGroup:reverse-flow", raised == (min(md) < 0), f"cold-side mass flow {md}: {'accepted' if not raised else 'refused'}", mdot=md)

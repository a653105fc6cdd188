"""C03: an analysis point's result depends only on that point's inputs."""
from mc import catalog as C, generic as G, registry as R

PROPERTY = "C03"
LEVEL = "exploration"
RULE = (
    "cases: (analysis, configuration, scalar assignment, ordered multiset of analysis points); the vectorised analysis over "
    "every enumerated order (all rotations, the reversal, every adjacent pair, a repeated point) is compared with the "
    "single-point analyses of the same points. Non-trivial: a distinct (analysis, configuration, scalars, order)."
)
BOUNDS = "up to 9 analysis points (thorough 21) drawn from the whole alphabet, up to 3 scalar assignments per configuration"
ASSUMPTIONS = ["integrated quantities (state of charge, fuel used) couple points by definition; they are decided by their own properties"]


def shards(tier):
    return [
        (f"{k}[{C.cfg_id(e.cfgs[i])}]", dict(entry=k, icfg=i))
        for k, e in R.table().items()
        if e.nodes and e.vectorized
        for i in (range(len(e.cfgs)) if tier == "thorough" else R.spread_cfgs(e.cfgs, 16))
    ]


def run(ctx, prm):
    e = R.table()[prm["entry"]]
    G.explore_nodes(ctx, e, e.cfgs[prm["icfg"]], 21 if ctx.tier == "thorough" else 9)

"""C04: results depend only on the current inputs and options, never on what was run before."""
from mc import catalog as C, generic as G, registry as R

PROPERTY = "C04"
LEVEL = "model_checking"
RULE = (
    "operations: run with input set A / B / C, linearise, set up again, run a second independent analysis of the same kind "
    "(other size, options and inputs). Every operation sequence up to the depth occurs in the driven history (de Bruijn word), and every sequence of that many input sets run and linearised in turn, and every change of a single input by 1e-5 of itself, or of the order of the points, and back. "
    "Reference model: the state is the current input set alone; after every operation values, derivatives and inputs must equal "
    "those of a fresh analysis given only that input set. State = (analysis, configuration, last depth operations)."
)
BOUNDS = "6 operations, depth 3 (thorough 4) per configuration; every catalogue entry, up to 4 (thorough 16) configurations each"
ASSUMPTIONS = ["results after different histories may differ by the stated solver tolerance for iterative analyses"]


def shards(tier):
    n = 16 if tier == "thorough" else 4
    return [
        (f"{k}[{C.cfg_id(e.cfgs[i])}]", dict(entry=k, icfg=i)) for k, e in R.table().items() if e.history for i in R.spread_cfgs(e.cfgs, n)
    ]


def run(ctx, prm):
    e = R.table()[prm["entry"]]
    depth = (e.hdepth or 3) + (1 if ctx.tier == "thorough" else 0)
    G.explore_history(ctx, e, e.cfgs[prm["icfg"]], depth)

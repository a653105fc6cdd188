"""C02: the derivatives the library reports are the derivatives of the values it computes."""
from mc import catalog as C, generic as G, registry as R

PROPERTY = "C02"
LEVEL = "exploration"
RULE = (
    "cases: (analysis, configuration, input point, input, direction); input points are all assignments of the input "
    "alphabets with at most k deviations from the base (k as large as the per-entry budget allows). The total derivative "
    "reported by the model along each direction is compared with a fourth-order central difference of the values; an entry "
    "is skipped only where one-sided differences disagree (a kink). Non-trivial: a distinct (analysis, configuration, point)."
)
BOUNDS = "catalogue configurations and alphabets in mc/cat_*.py; per-entry budget of points (x6 in thorough); vector inputs in alternating directions, array inputs per element up to 8"
ASSUMPTIONS = [
    "truncation error of the stencil is estimated from two step sizes and quadrupled",
    "points within one step of a kink are skipped (counted in n_deriv_entries_at_kinks_skipped)",
]


def shards(tier):
    return [(f"{k}[{C.cfg_id(e.cfgs[i])}]", dict(entry=k, icfg=i)) for k, e in R.table().items() if e.deriv for i in (range(len(e.cfgs)) if tier == "thorough" else R.spread_cfgs(e.cfgs, e.dcfgs or 10**6))]


def run(ctx, prm):
    e = R.table()[prm["entry"]]
    G.explore_derivs(ctx, e, e.cfgs[prm["icfg"]], e.dbudget * (6 if ctx.tier == "thorough" else 1))

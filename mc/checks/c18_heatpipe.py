"""C18: heat pipes."""
import itertools
import warnings

import numpy as np

from mc import catalog as C
from mc.cat_heatpipe import HEATPIPE as ENTRIES

PROPERTY = "C18"
LEVEL = "exploration"
RULE = C.VALUE_RULE + " Warnings: every placement of values on either side of each documented limit warns exactly when some point is beyond it."
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
_shards, _run = C.value_check(ENTRIES)


def shards(tier):
    return _shards(tier) + [("warnings", dict(warn=4 if tier == "thorough" else 3))]


def run(ctx, prm):
    if "warn" in prm:
        return warn(ctx, prm["warn"])
    return _run(ctx, prm)


def fires(p, text):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        p.run_model()
    return sum(text in str(m.message) for m in w)


def warn(ctx, n):
    table = {e.name: e for e in ENTRIES}
    # temperature range of the saturation fit
    e = table["HeatPipeVaporTempDrop"]
    p = e.build({}, n)
    base = {k: (np.full(n, i.values[0]) if i.vec else i.values[0]) for k, i in e.ins({}).items()}
    for T in itertools.product([40.0, -10.0, 100.0, -10.1, 100.1, -9.0, 8.0, 99.0], repeat=n):
        e.put(p, {}, dict(base, temp=np.array(T)))
        got = fires(p, "temperature range") > 0
        want = min(T) < -10.001 or max(T) > 100.001
        edge = min(abs(t - b) for t in T for b in (-10.0, 100.0)) < 1e-9  # rounding of the unit conversion decides
        ctx.ev()
        ctx.state(("T", T))
        if want or not edge:
            ctx.true("HeatPipeVaporTempDrop:range-warning", got == want, f"temperatures {T}: {'warned' if got else 'silent'}", temp=T)
    # heat above the warning threshold, in the component and in the assembled pipe
    from openconcept.thermal.heat_pipe import QMaxWarning
    from mc.omx import om

    for thr in (None, 0.5, 1.0):
        kw = {} if thr is None else dict(q_max_warn=thr)
        lim = 0.75 if thr is None else thr
        p = om.Problem(reports=False)
        p.model.add_subsystem("c", QMaxWarning(num_nodes=n, **kw), promotes=["*"])
        p.setup(check=False)
        qm = np.array([1000.0, 4000.0, 500.0, 2500.0][:n])
        p.set_val("q_max", qm, units="W")
        for fr in itertools.product([0.1, 0.98, 1.02, 5.0], repeat=n):
            p.set_val("q", np.array(fr) * lim * qm, units="W")
            got = fires(p, "maximum heat transfer") > 0
            ctx.ev()
            ctx.state(("w", thr, fr))
            ctx.true("QMaxWarning:threshold", got == (max(fr) > 1), f"threshold {thr}, heat/limit {fr}: {'warned' if got else 'silent'}", threshold=thr, fractions=fr)
        for npipes in (1.0, 6.0):
            p = table["HeatPipe"].build(kw, n)
            p.set_val("T_evap", np.array([30.0, 60.0, 85.0, 10.0][:n]), units="degC")
            p.set_val("inner_diam", 0.02, units="m")
            p.set_val("n_pipes", npipes)
            p.set_val("q", 1.0, units="W")
            p.run_model()
            qm = p.get_val("q_max", units="W").copy()
            for fr in itertools.product([0.1, 0.98, 1.02], repeat=n):
                p.set_val("q", np.array(fr) * lim * qm, units="W")
                got = fires(p, "maximum heat transfer") > 0
                ctx.ev()
                ctx.state(("pipe", thr, npipes, fr))
                ctx.true("HeatPipe:threshold", got == (max(fr) > 1), f"{npipes} pipes, threshold {thr}, heat/limit {fr}: {'warned' if got else 'silent'}", threshold=thr, fractions=fr)

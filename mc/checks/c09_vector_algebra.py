"""C09: element-wise and concatenation utilities compute the declared expression, also under complex step"""
import numpy as np
import openmdao.api as om

from mc.cat_util import VECTOR as ENTRIES
from mc import catalog as C
from mc.catalog import by_name, cfg_id, value_check

PROPERTY = "C09"
LEVEL = "exploration"
RULE = C.VALUE_RULE + " Every declaration is also run under complex step, one input at a time: real parts and exact directional derivatives against the same reference."
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
shards, _values = value_check(ENTRIES)
TABLE = by_name(ENTRIES)
H = 1e-30


def run(ctx, prm):
    _values(ctx, prm)
    e = TABLE[prm["entry"]]
    complex_step(ctx, e, e.cfgs[prm["icfg"]])


def complex_step(ctx, e, cfg):
    """One input at a time perturbed by an imaginary step: the real part of the results is that of the expression and the
    imaginary part its exact directional derivative (by the reference, which is complex-safe)."""
    ins = e.ins(cfg)
    p = om.Problem(reports=False)
    p.model.add_subsystem("c", e.make(cfg, 1), promotes=["*"])
    if e.prep:
        e.prep(p.model, cfg)
    p.setup(check=False, force_alloc_complex=True)
    p.set_solver_print(level=-1)
    x = {k: np.asarray(i.values[0], dtype=float) for k, i in ins.items()}
    cid = cfg_id(cfg)
    e.put(p, cfg, x)
    p.run_model()
    p.set_complex_step_mode(True)
    for w, i in ins.items():
        d = 1.0 + 0.25 * np.arange(x[w].size).reshape(x[w].shape)
        z = dict(x)
        z[w] = x[w] + 1j * H * d
        p.set_val(w, z[w], units=i.units)
        p.run_model()
        ctx.ev()
        ctx.step()
        for o, (want, u) in e.ref(cfg, z).items():
            got = np.asarray(p.get_val(o, units=u))
            want = np.asarray(want) * np.ones(got.shape) if np.size(want) == 1 else np.asarray(want).reshape(got.shape)
            f = np.zeros(got.shape) if not np.iscomplexobj(got) else got.imag / H
            ctx.close(f"{e.name}[{cid}]:{o}:complex-step-value", got.real, want.real, e.rtol, e.atol, f"{e.name} {o} under a complex step of {w}", cfg=cfg, inputs=x)
            ctx.close(f"{e.name}[{cid}]:{o}:complex-step", f, np.imag(want) / H, e.rtol, e.atol, f"{e.name} d({o})/d({w}) by complex step", cfg=cfg, inputs=x)
        p.set_val(w, x[w], units=i.units)

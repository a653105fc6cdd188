"""OpenMDAO driving helpers (everything goes through the public Problem API)."""
import warnings

import numpy as np
import openmdao.api as om

warnings.filterwarnings("ignore")


def problem(sub, setup=True, promotes=("*",), defaults=None, force_alloc_complex=False, name="c"):
    p = om.Problem(reports=False)
    p.model.add_subsystem(name, sub, promotes=list(promotes))
    for k, (v, u) in (defaults or {}).items():
        p.model.set_input_defaults(k, val=v, units=u)
    if setup:
        p.setup(check=False, force_alloc_complex=force_alloc_complex)
    return p


def io_meta(p):
    """promoted name -> (io, units, shape)."""
    out = {}
    p.final_setup()
    m = p.model
    for io in ("input", "output"):
        for abs_name, meta in m._var_allprocs_abs2meta[io].items():
            if abs_name.startswith("_auto_ivc"):
                continue
            prom = m._var_allprocs_abs2prom[io][abs_name] if hasattr(m, "_var_allprocs_abs2prom") else m._resolver.abs2prom(abs_name, io)
            out[prom] = (io, meta["units"], meta["shape"])
    return out


def dense_totals(p, of, wrt):
    return p.compute_totals(of=list(of), wrt=list(wrt), return_format="flat_dict")

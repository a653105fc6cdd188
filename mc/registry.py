"""Every catalogue, by the property that owns it."""
import importlib

CATALOGUES = [
    ("mc.cat_propulsion", "COMPONENTS"),
    ("mc.cat_propulsion", "STORAGE"),
    ("mc.cat_util", "VECTOR"),
    ("mc.cat_util", "SCALAR"),
    ("mc.cat_aero", "ATMOS"),
    ("mc.cat_aero", "AERO"),
    ("mc.cat_aero", "DRAG"),
    ("mc.cat_aero", "GEOMETRY"),
    ("mc.cat_aero", "SIZING"),
    ("mc.cat_weights", "WEIGHTS"),
    ("mc.cat_mission", "KINEMATICS"),
    ("mc.cat_mesh", "MESH"),
    ("mc.cat_mesh", "WAVE"),
    ("mc.cat_thermal", "THERMAL"),
    ("mc.cat_ducts", "DUCTS"),
    ("mc.cat_heatpipe", "HEATPIPE"),
    ("mc.cat_hydrogen", "HYDROGEN"),
    ("mc.cat_systems", "SYSTEMS"),
]


def entries():
    """[(catalogue label, Entry)] over every catalogue."""
    out = []
    for mod, lst in CATALOGUES:
        for e in getattr(importlib.import_module(mod), lst):
            out.append((lst, e))
    return out


def table():
    d = {}
    for lst, e in entries():
        key = f"{lst}.{e.name}"
        assert key not in d, key
        d[key] = e
    return d


def spread_cfgs(cfgs, n):
    """Indices of a deterministic spread of at most n configurations (first and last included)."""
    m = len(cfgs)
    if n <= 1:
        return [0]
    if m <= n:
        return list(range(m))
    return sorted({round(i * (m - 1) / (n - 1)) for i in range(n)})

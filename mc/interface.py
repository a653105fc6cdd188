"""What the public face of an analysis is: names, roles, shapes, units and defaults of its inputs, outputs and options."""
import importlib
import inspect
import pkgutil
import re

import numpy as np

from mc.omx import om

BASE_OPTIONS = set(om.Group().options) | set(om.ExplicitComponent().options) | set(om.ImplicitComponent().options) | set(om.IndepVarComp().options)


def classes():
    """Every analysis class of the library (tests and examples excluded), by dotted name."""
    import openconcept
    from openmdao.core.system import System

    out = {}
    for m in pkgutil.walk_packages(openconcept.__path__, "openconcept."):
        if ".tests" in m.name or ".examples" in m.name:
            continue
        mod = importlib.import_module(m.name)
        for n, c in vars(mod).items():
            if inspect.isclass(c) and issubclass(c, System) and c.__module__.startswith("openconcept") and not n.startswith("_"):
                out[f"{c.__module__}.{n}"] = c
    return out


def plain(v):
    """Option defaults as comparable plain data."""
    if isinstance(v, np.ndarray):
        return ["array"] + v.tolist()
    if isinstance(v, (np.integer, np.floating)):
        return v.item()
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if inspect.isclass(v) or callable(v):
        return "<" + getattr(v, "__name__", "callable") + ">"
    return "<undefined>" if "ReqNotSet" in repr(v) or "UNDEFINED" in repr(v).upper() else "<" + type(v).__name__ + ">"


def options(cls):
    o = cls()
    out = {}
    for k in o.options:
        if k in BASE_OPTIONS and k not in ("num_nodes",):
            continue
        meta = o.options._dict[k]
        out[k] = plain(meta["val"])
    return out


def documented_outputs(cls):
    """Names listed under Outputs in the class documentation (None when there is no such section)."""
    doc = cls.__doc__
    if not doc or any(doc == b.__doc__ for b in cls.__mro__[1:]):
        return None
    cur, out = None, []
    for line in inspect.cleandoc(doc).split("\n"):
        s = line.strip()
        if s in ("Inputs", "Outputs", "Options"):
            cur = s
            continue
        m = re.match(r"^([\w|\.:, ]+?)\s*:\s*\S", line)
        if cur == "Outputs" and m and not line.startswith(" "):
            out += [x.strip() for x in m.group(1).split(",")]
        elif line and not line.startswith(" ") and re.match(r"^[A-Z][a-z ]+$", s):
            cur = None
    return out or None


def observe(comp, prep=None):
    """{name: (role, [units], shape, default or None)} of one set up analysis; inputs fed from inside are not part of it."""
    p = om.Problem(reports=False)
    p.model.add_subsystem("c", comp)
    if prep:
        prep(p.model)
    p.setup(check=False)
    p.set_solver_print(level=-1)
    try:
        p.final_setup()
        ready = True
    except Exception:  # ambiguous promoted inputs: the user must choose units and value
        ready = False
    m, c = p.model, p.model.c
    res = c._resolver if hasattr(c, "_resolver") else None
    prom = (lambda a, io: res.abs2prom(a, io)) if res else (lambda a, io: c._var_allprocs_abs2prom[io][a])
    face = {}
    internal = set()
    for a, meta in m._var_allprocs_abs2meta["output"].items():
        if a.startswith("c."):
            n = prom(a, "output")
            face[n] = ["output", [meta["units"]], list(meta["shape"]), None, [bound(meta["lower"]), bound(meta["upper"])]]
            internal.add(n)
            if ready and "openmdao:indep_var" in meta["tags"]:  # a setting: independent of everything, free to be set
                face[n][3] = np.asarray(p.get_val("c." + n, units=meta["units"]), dtype=float)
    conns = m._conn_global_abs_in2out
    manual = getattr(c, "_manual_connections", {})
    for a, meta in m._var_allprocs_abs2meta["input"].items():
        if not a.startswith("c."):
            continue
        n = prom(a, "input")
        if n in internal or n in manual or (a in conns and not conns[a].startswith("_auto_ivc")):
            continue
        f = face.setdefault(n, ["input", [], list(meta["shape"]), None, [None, None]])
        if meta["units"] not in f[1]:
            f[1].append(meta["units"])
    for n, f in face.items():
        if f[0] == "input" and len(f[1]) == 1 and ready:
            try:
                v = np.asarray(p.get_val("c." + n, units=f[1][0]), dtype=float)
            except Exception:
                continue
            f[3] = v
    return face


def bound(v):
    """A declared bound as a number (uniform), a list, or None when there is none to speak of."""
    if v is None:
        return None
    f = np.ravel(np.asarray(v, dtype=float))
    if not f.size or np.all(np.abs(f) >= 1e29):
        return None
    return float(f[0]) if np.all(f == f[0]) else f.tolist()


def symbol(s1, s2, n1, n2):
    """Shape as a function of the number of analysis points, from two sizes."""
    if len(s1) != len(s2):
        return None
    out = []
    for a, b in zip(s1, s2):
        if a == b:
            out.append(int(a))
        elif a == n1 and b == n2:
            out.append("n")
        else:
            k, r = divmod(b - a, n2 - n1)
            if r:
                return None
            out.append([int(k), int(a - k * n1)])
    return out


def shape_at(sym, n):
    return [n if s == "n" else (s[0] * n + s[1] if isinstance(s, list) else s) for s in sym]


def default_of(v):
    """A default as [value] when uniform, the full list when short, else None."""
    if v is None:
        return None
    f = np.ravel(v)
    if f.size and np.all(f == f[0]):
        return [float(f[0])]
    return None if f.size > 40 else f.tolist()

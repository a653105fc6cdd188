"""Vector utilities: sums, products, concatenation, splitting, selection, extrema, interpolation, differencing."""
import itertools

import numpy as np

from mc.catalog import Entry, In, S, V


def arr(shape, k):
    """A fixed, irregular, sign-mixed array (no zeros)."""
    n = int(np.prod(shape))
    a = 0.7 + ((np.arange(n) * 7 + 3 * k) % 11) * 0.35
    s = np.where((np.arange(n) + k) % 3 == 0, -1.0, 1.0)
    return (a * s).reshape(shape)


def shp(vs, length):
    return (vs,) if length == 1 else (vs, length)


def alph(shape, k, n=3):
    return [arr(shape, k), arr(shape, k + 5) * 10.0, -0.01 * arr(shape, k + 9)][:n]


# ------------------------------------------------------------------ add/subtract
def mk_add(cfg, nn):
    from openconcept.utilities import AddSubtractComp

    vs, L = cfg["vs"], cfg["length"]
    names = [f"in{i}" for i in range(cfg["n"])]
    vsarg = list(vs) if isinstance(vs, tuple) else vs
    sf = None if cfg["sf"] is None else list(cfg["sf"][: cfg["n"]])
    kw = {} if cfg["units"] is None else dict(units=cfg["units"])
    if cfg["n"] == 1 and cfg["sf"] is None:
        names = names[0]  # a single input may be given by its name alone
    if cfg["api"] == "ctor":
        return AddSubtractComp("out", names, vsarg, L, 1.0, sf, **kw)
    c = AddSubtractComp()
    c.add_equation("out", names, vec_size=vsarg, length=L, scaling_factors=sf, **kw)
    if cfg["api"] == "two":
        c.add_equation("out2", ["b0", "b1"], vec_size=2, scaling_factors=[1, -3], units="kg")
    return c


def vss(cfg):
    return list(cfg["vs"]) if isinstance(cfg["vs"], tuple) else [cfg["vs"]] * cfg["n"]


def ins_add(cfg):
    d = {f"in{i}": S(alph(shp(v, cfg["length"]), i), OTHER.get(cfg["units"])) for i, v in enumerate(vss(cfg))}
    if cfg["api"] == "two":
        d["b0"], d["b1"] = S(alph((2,), 3, 2), "kg"), S(alph((2,), 4, 2), "g")
    return d


OTHER = {None: None, "m": "ft", "kg": "lbm", "N": "lbf", "m/s": "kn", "W": "hp", "kg/s": "lbm/min", "N*m**2": "lbf*ft**2"}


def ref_add(cfg, x):
    vs = vss(cfg)
    sf = [1.0] * cfg["n"] if cfg["sf"] is None else cfg["sf"]
    out = np.zeros(shp(max(vs), cfg["length"]))
    for i in range(cfg["n"]):
        out = out + sf[i] * x[f"in{i}"]
    r = {"out": (out, OTHER.get(cfg["units"]))}
    if cfg["api"] == "two":
        r["out2"] = (x["b0"] - 3 * x["b1"] / 1000.0, "kg")
    return r


def add_cfgs():
    out = []
    for n in (1, 2, 3):
        vsl = [1, 3] + [t for t in itertools.product((1, 3), repeat=n) if n > 1 and len(set(t)) > 1]
        for vs, L in itertools.product(vsl, (1, 2)):
            for sf, un, api in ((None, None, "ctor"), ((-1.0, 2.5, 0.5), "m", "add"), ((1, -1, -1), "kg", "ctor")):
                out.append(dict(n=n, vs=vs, length=L, sf=sf, units=un, api=api))
    for vs, L in ((4, 1), ((1, 4), 3), ((4, 1), 1)):
        out.append(dict(n=2, vs=vs, length=L, sf=(2.0, -0.25), units="m", api="two"))
    return out


# ------------------------------------------------------------------ multiply/divide
def mk_mul(cfg, nn):
    from openconcept.utilities import ElementMultiplyDivideComp

    vs, L, n = cfg["vs"], cfg["length"], cfg["n"]
    names = [f"in{i}" for i in range(n)]
    vsarg = list(vs) if isinstance(vs, tuple) else vs
    div = None if cfg["div"] is None else list(cfg["div"])
    un = None if cfg["units"] is None else list(cfg["units"][:n])
    if cfg["n"] == 1 and cfg["div"] != (True,):
        names = names[0]
    if cfg["api"] == "ctor":
        return ElementMultiplyDivideComp("out", names, vsarg, L, scaling_factor=cfg["sf"], divide=div, input_units=un)
    c = ElementMultiplyDivideComp()
    c.add_equation("out", names, vec_size=vsarg, length=L, scaling_factor=cfg["sf"], divide=div, input_units=un)
    if cfg["api"] == "two":
        c.add_equation("out2", ["b0", "b1"], vec_size=2, divide=[True, False], input_units=["s", "m"], scaling_factor=-2)
    return c


def ins_mul(cfg):
    un = cfg["units"] or (None,) * cfg["n"]
    div = cfg["div"] or (False,) * cfg["n"]
    d = {f"in{i}": S(alph(shp(v, cfg["length"]), i), OTHER.get(un[i])) for i, v in enumerate(vss(cfg))}
    for i in range(cfg["n"]):
        if not div[i]:  # factors may vanish, entirely or in one place
            z = d[f"in{i}"].values[0].copy()
            z.flat[-1] = 0.0
            d[f"in{i}"].values[1:1] = [np.zeros_like(z), z]
    if cfg["api"] == "two":
        d["b0"], d["b1"] = S(alph((2,), 3, 2), "s"), S(alph((2,), 4, 2), "m")
    return d


def ref_mul(cfg, x):
    out = np.ones(shp(max(vss(cfg)), cfg["length"]))
    un = cfg["units"] or (None,) * cfg["n"]
    div = cfg["div"] or (False,) * cfg["n"]
    us = "1"
    for i in range(cfg["n"]):
        a = x[f"in{i}"]
        out = out / a if div[i] else out * a
        o = OTHER.get(un[i])
        if o is not None:
            us += ("/(" if div[i] else "*(") + o + ")"
    r = {"out": (out * cfg["sf"], None if us == "1" else us)}
    if cfg["api"] == "two":
        r["out2"] = (-2.0 * x["b1"] / x["b0"], "m/s")
    return r


def mul_cfgs():
    out = []
    for n in (1, 2, 3):
        for div in [None] + list(itertools.product((False, True), repeat=n)):
            for vs in [1, 3] + [t for t in itertools.product((1, 3), repeat=n) if n > 1 and len(set(t)) > 1]:
                L = 2 if (isinstance(vs, tuple) and vs[0] == 1) else 1
                un = (None, ("m", "kg", "N"), (None, "m", "kg"), ("m", None, "W"))[(n + (sum(div) if div else 0)) % 4]
                out.append(dict(n=n, vs=vs, length=L, sf=1 if div is None else -2.5, div=div, units=un, api="ctor" if div else "add"))
    for un in itertools.product((None, "m", "W"), repeat=3):
        out.append(dict(n=3, vs=(1, 4, 4), length=1, sf=3.0, div=(False, True, False), units=un, api="two"))
        out.append(dict(n=3, vs=2, length=3, sf=1.0, div=(True, False, True), units=un, api="ctor"))
    for n, al in ((2, (None, "m", "kg/s", "N*m**2")), (3, ("kg/s", "N*m**2"))):  # composite units, on either side
        for un, div in itertools.product(itertools.product(al, repeat=n), itertools.product((False, True), repeat=n)):
            out.append(dict(n=n, vs=1, length=1, sf=1, div=div, units=un, api="ctor"))
    return out


# ------------------------------------------------------------------ concatenate / split
def mk_cat(cfg, nn):
    from openconcept.utilities import VectorConcatenateComp

    sz, L = list(cfg["sizes"]), cfg["length"]
    names = [f"in{i}" for i in range(len(sz))]
    kw = {} if cfg["units"] is None else dict(units=cfg["units"])
    if len(sz) == 1 and cfg["units"] is None:
        names = names[0]
    if cfg["api"] == "ctor":
        return VectorConcatenateComp("out", names, sz, L, **kw)
    c = VectorConcatenateComp()
    c.add_relation("out", names, sz, L, **kw)
    c.add_relation("out2", ["b0", "b1"], [2, 1], units="kg")
    return c


def ins_cat(cfg):
    u = OTHER.get(cfg["units"])
    d = {f"in{i}": S(alph(shp(v, cfg["length"]), i), u) for i, v in enumerate(cfg["sizes"])}
    if cfg["api"] != "ctor":
        d["b0"], d["b1"] = S(alph((2,), 3, 2), "lbm"), S(alph((1,), 4, 2), "lbm")
    return d


def ref_cat(cfg, x):
    r = {"out": (np.concatenate([x[f"in{i}"] for i in range(len(cfg["sizes"]))]), OTHER.get(cfg["units"]))}
    if cfg["api"] != "ctor":
        r["out2"] = (np.concatenate([x["b0"], x["b1"]]), "lbm")
    return r


def mk_split(cfg, nn):
    from openconcept.utilities import VectorSplitComp

    sz, L = list(cfg["sizes"]), cfg["length"]
    names = [f"out{i}" for i in range(len(sz))]
    kw = {} if cfg["units"] is None else dict(units=cfg["units"])
    if cfg["api"] == "ctor":
        return VectorSplitComp(names, "in", sz, L, **kw)
    c = VectorSplitComp()
    c.add_relation(names, "in", sz, L, **kw)
    c.add_relation(["p", "q"], "b", [2, 1], units="kg")
    return c


def ins_split(cfg):
    n = sum(cfg["sizes"])
    d = {"in": S(alph(shp(n, cfg["length"]), 1), OTHER.get(cfg["units"]))}
    if cfg["api"] != "ctor":
        d["b"] = S(alph((3,), 2, 2), "lbm")
    return d


def ref_split(cfg, x):
    r, k = {}, 0
    for i, n in enumerate(cfg["sizes"]):
        r[f"out{i}"] = (x["in"][k : k + n], OTHER.get(cfg["units"]))
        k += n
    if cfg["api"] != "ctor":
        r["p"], r["q"] = (x["b"][:2], "lbm"), (x["b"][2:], "lbm")
    return r


cs_cfgs = [
    dict(sizes=s, length=L, units=u, api=api)
    for k in (1, 2, 3)
    for s in itertools.product((1, 2, 3), repeat=k)
    for L, u, api in ((1, None, "ctor"), (1, "m/s", "add"), (2, "N", "ctor"), (3, None, "add"))
]
split_cfgs = [c for c in cs_cfgs if len(c["sizes"]) > 1]

VECTOR = [
    Entry("AddSubtractComp", mk_add, ins_add, ref_add, add_cfgs(), vectorized=False, rtol=1e-12, atol=1e-13, hdepth=2, dbudget=3),
    Entry("ElementMultiplyDivideComp", mk_mul, ins_mul, ref_mul, mul_cfgs(), vectorized=False, rtol=1e-12, hdepth=2, dbudget=3),
    Entry("VectorConcatenateComp", mk_cat, ins_cat, ref_cat, cs_cfgs, vectorized=False, rtol=1e-13, hdepth=2, dbudget=3),
    Entry("VectorSplitComp", mk_split, ins_split, ref_split, split_cfgs, vectorized=False, rtol=1e-13, hdepth=2, dbudget=3),
]


# ------------------------------------------------------------------ selection, extrema, interpolation, labels, differences
def mk_sel(cfg, nn):
    from openconcept.utilities import SelectorComp

    return SelectorComp(num_nodes=nn, input_names=["a", "b", "c"][: cfg["k"]], units=cfg["units"])


def ins_sel(cfg):
    k = cfg["k"]
    d = {n: V([1.0 + j, -2.5 * (j + 1), 100.0 * j], OTHER.get(cfg["units"])) for j, n in enumerate(["a", "b", "c"][:k])}
    d["selector"] = V([s + o for s in range(k) for o in (0.0, 0.3, -0.3)], deriv=False)
    return d


def ref_sel(cfg, x):
    k = cfg["k"]
    s = np.rint(x["selector"]).astype(int)
    A = np.stack([x[n] for n in ["a", "b", "c"][:k]])
    return {"result": (A[s, np.arange(A.shape[1])], OTHER.get(cfg["units"]))}


def mk_ext(cls):
    def f(cfg, nn):
        import openconcept.utilities as u

        return getattr(u, cls)(num_nodes=cfg["n"], units=cfg["units"])

    return f


def ext_vals(n):
    out = []
    for t in itertools.product((-3.0, 0.0, 1.5, 7.25), repeat=min(n, 3)):
        out.append(np.array(list(t) + [0.5] * (n - len(t))))
    return out[7:] + out[:7]


def ins_ext(cfg):
    return {"array": S(ext_vals(cfg["n"]), OTHER.get(cfg["units"]))}


ext_cfgs = [dict(n=n, units=u) for n in (1, 2, 3, 5) for u in (None, "kg")]


def mk_lin(cfg, nn):
    from openconcept.utilities import LinearInterpolator

    return LinearInterpolator(num_nodes=cfg["n"], units=cfg["units"])


def ref_lin(cfg, x):
    t = np.arange(cfg["n"]) / (cfg["n"] - 1.0)
    return {"vec": (x["start_val"] * (1 - t) + x["end_val"] * t, OTHER.get(cfg["units"]))}


def mk_dvl(cfg, nn):
    from openconcept.utilities import DVLabel

    return DVLabel([["a", "A", np.ones(cfg["n"]), cfg["units"]], ["b", "B", 3.0, None], ["c", "C", np.zeros((2, cfg["n"])), "kg"]])


def ins_dvl(cfg):
    n = cfg["n"]
    return {"a": S(alph((n,), 1), OTHER.get(cfg["units"])), "b": S([1.0, -4.0]), "c": S(alph((2, n), 2), "lbm")}


def ref_dvl(cfg, x):
    return {"A": (x["a"], OTHER.get(cfg["units"])), "B": (x["b"], None), "C": (x["c"], "lbm")}


def fd_weights(xs, x):
    """Weights of f'(x) of the interpolating polynomial through abscissae xs."""
    xs = np.asarray(xs, dtype=float)
    n = len(xs)
    A = np.vander(xs - x, n, increasing=True).T
    b = np.zeros(n)
    b[1] = 1.0
    return np.linalg.solve(A, b)


def mk_diff(cfg, nn):
    from openconcept.utilities.math.derivatives import FirstDerivative

    c = {k: v for k, v in cfg.items() if k not in ("n",)}
    return FirstDerivative(num_intervals=cfg["n"], **c)


def diff_nseg(cfg):
    return len(cfg["segment_names"]) if cfg.get("segment_names") else 1


def ins_diff(cfg):
    nn = 2 * cfg["n"] + 1
    k = diff_nseg(cfg)
    d = {"q": S([arr((nn * k,), j) * s for j, s in ((0, 1.0), (3, 20.0), (7, -1.0))], OTHER.get(cfg.get("quantity_units")))}
    tu = "min" if cfg.get("diff_units") else None
    if cfg.get("segment_names"):
        for j, s in enumerate(cfg["segment_names"]):
            d[s + "|dt"] = S([0.7 + 0.3 * j, 2.0], tu)
    else:
        d["dt"] = S([0.7, 2.0, 13.0], tu)
    return d


def ref_diff(cfg, x):
    """Derivative of the polynomial through the nearest order+1 points of the same segment."""
    n, order = cfg["n"], cfg.get("order", 4)
    nn, w = 2 * n + 1, order + 1
    segs = list(cfg["segment_names"]) if cfg.get("segment_names") else [None]
    out = []
    for j, s in enumerate(segs):
        q = x["q"][j * nn : (j + 1) * nn]
        dt = float(x["dt"] if s is None else x[s + "|dt"])
        for i in range(nn):
            lo = min(max(i - w // 2, 0), nn - w)
            idx = np.arange(lo, lo + w)
            out.append(fd_weights(idx.astype(float), float(i)) @ q[idx] / dt)
    u, du = OTHER.get(cfg.get("quantity_units")), ("min" if cfg.get("diff_units") else None)
    un = f"{u}/{du}" if u and du else (f"1/{du}" if du else u)
    return {"dqdt": (np.array(out), un)}


diff_cfgs = [
    dict(n=n, order=o, **({"segment_names": s} if s else {}), **({"quantity_units": q} if q else {}), **({"diff_units": d} if d else {}))
    for n in (1, 2, 3, 5)
    for o in (2, 4)
    if not (o == 4 and n < 2)
    for s in (None, ["a"], ["a", "b"], ["p", "q", "r"])
    for q, d in ((None, None), ("m", "s"), (None, "s"), ("kg", None))
]


# ------------------------------------------------------------------ dictionary-driven inputs
DATA = {
    "ac": {
        "aero": {"CLmax": {"value": 1.75}, "polar": {"e": {"value": 0.8}, "CD0": {"value": 0.0205, "units": None}}},
        "geom": {
            "wing": {"S_ref": {"value": 26.0, "units": "m**2"}, "AR": {"value": 9}, "twist": {"value": np.array([[1.0, -2.0], [0.5, 3.0]]), "units": "deg"}},
            "length": {"value": np.float64(10.5), "units": "ft"},
        },
        "n": {"value": np.array([4.0, 5.0, 6.0])},
    }
}
NAMES = ["ac|aero|CLmax", "ac|aero|polar|e", "ac|aero|polar|CD0", "ac|geom|wing|S_ref", "ac|geom|wing|AR", "ac|geom|wing|twist", "ac|geom|length", "ac|n"]

SCALAR = [
    Entry("SelectorComp", mk_sel, ins_sel, ref_sel, [dict(k=k, units=u) for k in (1, 2, 3) for u in (None, "W")], rtol=1e-13),
    Entry("MaxComp", mk_ext("MaxComp"), ins_ext, lambda c, x: {"max": (np.max(x["array"]), OTHER.get(c["units"]))}, ext_cfgs, vectorized=False, rtol=1e-13, dbudget=70),
    Entry("MinComp", mk_ext("MinComp"), ins_ext, lambda c, x: {"min": (np.min(x["array"]), OTHER.get(c["units"]))}, ext_cfgs, vectorized=False, rtol=1e-13, dbudget=70),
    Entry("LinearInterpolator", mk_lin, lambda c: {"start_val": S([1.0, -5.0, 0.0, 3e5], OTHER.get(c["units"])), "end_val": S([2.0, 0.0, -7.5, 1e-3], OTHER.get(c["units"]))}, ref_lin,
          [dict(n=n, units=u) for n in (2, 3, 4, 7, 11) for u in (None, "m")], vectorized=False, rtol=1e-12, atol=1e-12),
    Entry("DVLabel", mk_dvl, ins_dvl, ref_dvl, [dict(n=n, units=u) for n in (1, 2, 4) for u in (None, "N")], vectorized=False, rtol=1e-13),
    Entry("FirstDerivative", mk_diff, ins_diff, ref_diff, diff_cfgs, vectorized=False, rtol=1e-10, atol=1e-10, dbudget=6, hdepth=2),
]

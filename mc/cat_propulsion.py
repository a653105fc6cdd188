"""Propulsion and electrical storage."""
import itertools

import numpy as np
from scipy.interpolate import make_interp_spline

from mc.catalog import Entry, S, V

ETA = [{}, dict(efficiency=0.95), dict(efficiency=0.5)]
COST = dict(weight_inc=0.0123, weight_base=7.0, cost_inc=3.25, cost_base=11.0)


def opt(cfg, **defaults):
    d = dict(defaults)
    d.update(cfg)
    return d


# ---------------------------------------------------------------- splitter
def ref_split(cfg, x):
    o = opt(cfg, rule="fraction", efficiency=1.0, weight_inc=0.0, weight_base=0.0, cost_inc=0.0, cost_base=0.0)
    P, eta = x["power_in"], o["efficiency"]
    if o["rule"] == "fraction":
        A = P * x["power_split_fraction"]
    else:
        A = np.minimum(P, x["power_split_amount"])
    return {
        "power_out_A": (A * eta, "W"),
        "power_out_B": ((P - A) * eta, "W"),
        "heat_out": (P * (1 - eta), "W"),
        "component_cost": (x["power_rating"] * o["cost_inc"] + o["cost_base"], "USD"),
        "component_weight": (x["power_rating"] * o["weight_inc"] + o["weight_base"], "kg"),
        "component_sizing_margin": (P / x["power_rating"], None),
    }


def ins_split(cfg):
    d = {"power_in": V([1e5, 0.0, 2.5, 3e4, 9.9e4, 1e6], "W"), "power_rating": S([2e5, 1.0, 5e6], "W")}
    if cfg.get("rule", "fraction") == "fraction":
        d["power_split_fraction"] = V([0.3, 0.0, 0.5, 0.99, 1.0, 1.2])
    else:
        d["power_split_amount"] = V([4e4, 0.0, 1e5, 99999.0, 100001.0, 2e6], "W")
    return d


def _mk(cls, path):
    def make(cfg, nn):
        import importlib

        C = getattr(importlib.import_module(path), cls)
        return C(num_nodes=nn, **cfg)

    return make


def mk(path, cls, nodes=True):
    def make(cfg, nn):
        import importlib

        C = getattr(importlib.import_module(path), cls)
        return C(num_nodes=nn, **cfg) if nodes else C(**cfg)

    return make


split_cfgs = [dict(rule=r, **e, **c) for r in ("fraction", "fixed") for e in ETA for c in ({}, COST)] + [{}]


def ref_motor(cfg, x):
    o = opt(cfg, efficiency=1.0, weight_inc=1 / 5000, weight_base=0.0, cost_inc=100 / 745, cost_base=1.0)
    L = x["throttle"] * x["elec_power_rating"]
    return {
        "shaft_power_out": (L * o["efficiency"], "W"),
        "heat_out": (L - L * o["efficiency"], "W"),
        "elec_load": (L, "W"),
        "component_cost": (x["elec_power_rating"] * o["cost_inc"] + o["cost_base"], "USD"),
        "component_weight": (x["elec_power_rating"] * o["weight_inc"] + o["weight_base"], "kg"),
        "component_sizing_margin": (x["throttle"], None),
    }


def ref_gen(cfg, x):
    o = opt(cfg, efficiency=1.0, weight_inc=1 / 5000, weight_base=0.0, cost_inc=100 / 745, cost_base=1.0)
    P = x["shaft_power_in"]
    return {
        "elec_power_out": (P * o["efficiency"], "W"),
        "heat_out": (P - P * o["efficiency"], "W"),
        "component_cost": (x["elec_power_rating"] * o["cost_inc"] + o["cost_base"], "USD"),
        "component_weight": (x["elec_power_rating"] * o["weight_inc"] + o["weight_base"], "kg"),
        "component_sizing_margin": (P * o["efficiency"] / x["elec_power_rating"], None),
    }


def ref_shaft(cfg, x):
    o = opt(cfg, psfc=0.6 * 1.68965774e-7, weight_inc=0.0, weight_base=0.0, cost_inc=1.04, cost_base=0.0)
    P = x["throttle"] * x["shaft_power_rating"]
    return {
        "shaft_power_out": (P, "W"),
        "fuel_flow": (P * o["psfc"], "kg/s"),
        "component_cost": (x["shaft_power_rating"] * o["cost_inc"] + o["cost_base"], "USD"),
        "component_weight": (x["shaft_power_rating"] * o["weight_inc"] + o["weight_base"], "kg"),
        "component_sizing_margin": (x["throttle"], None),
    }


THR = V([0.5, 0.0, 0.01, 0.2, 0.75, 1.0, 1.1])
RAT = [2.5e5, 1.0, 7.45e4, 3e6]

# ---------------------------------------------------------------- propeller maps (tables from the cited sources)
J3 = np.linspace(0.2, 2.8, 14)
CP3 = np.array([0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8])
ETA3 = np.array(
    [
        [0.45, 0.6, 0.72, 0.75, 0.70, 0.65, 0.6, 0.55, 0.5, 0.45, 0.40, 0.35, 0.3, 0.25],
        [0.35, 0.6, 0.74, 0.83, 0.86, 0.88, 0.9, 0.9, 0.88, 0.85, 0.83, 0.8, 0.75, 0.7],
        [0.2, 0.35, 0.55, 0.7, 0.8, 0.85, 0.87, 0.9, 0.91, 0.92, 0.9, 0.9, 0.88, 0.87],
        [0.12, 0.22, 0.36, 0.51, 0.66, 0.75, 0.8, 0.85, 0.87, 0.88, 0.91, 0.905, 0.902, 0.9],
        [0.07, 0.15, 0.29, 0.36, 0.45, 0.65, 0.73, 0.77, 0.83, 0.85, 0.87, 0.875, 0.88, 0.895],
        [0.05, 0.12, 0.25, 0.32, 0.38, 0.50, 0.61, 0.72, 0.77, 0.79, 0.83, 0.85, 0.86, 0.865],
        [0.04, 0.11, 0.19, 0.26, 0.33, 0.40, 0.51, 0.61, 0.71, 0.74, 0.78, 0.815, 0.83, 0.85],
        [0.035, 0.085, 0.16, 0.22, 0.28, 0.35, 0.41, 0.52, 0.605, 0.69, 0.74, 0.775, 0.8, 0.82],
        [0.03, 0.06, 0.13, 0.19, 0.24, 0.31, 0.35, 0.46, 0.52, 0.63, 0.71, 0.75, 0.78, 0.8],
    ]
)
J4 = np.linspace(0.0, 4.0, 9)
CP4 = np.linspace(0.0, 2.5, 13)
ETA4 = np.array(
    [
        [0.28, 0.51, 0.65, 0.66, 0.65, 0.64, 0.63, 0.62, 0.61],
        [0.20, 0.50, 0.71, 0.82, 0.81, 0.70, 0.68, 0.67, 0.66],
        [0.19, 0.49, 0.72, 0.83, 0.86, 0.85, 0.75, 0.70, 0.69],
        [0.18, 0.45, 0.71, 0.82, 0.865, 0.875, 0.84, 0.79, 0.72],
        [0.17, 0.42, 0.69, 0.815, 0.87, 0.885, 0.878, 0.84, 0.80],
        [0.155, 0.40, 0.65, 0.81, 0.865, 0.89, 0.903, 0.873, 0.83],
        [0.13, 0.38, 0.61, 0.78, 0.85, 0.88, 0.91, 0.90, 0.86],
        [0.12, 0.34, 0.58, 0.73, 0.83, 0.876, 0.904, 0.91, 0.88],
        [0.10, 0.31, 0.53, 0.71, 0.81, 0.87, 0.895, 0.91, 0.882],
        [0.08, 0.25, 0.44, 0.62, 0.75, 0.84, 0.88, 0.89, 0.87],
        [0.06, 0.18, 0.35, 0.50, 0.68, 0.79, 0.86, 0.86, 0.85],
        [0.05, 0.14, 0.25, 0.40, 0.55, 0.70, 0.79, 0.80, 0.72],
        [0.04, 0.12, 0.19, 0.29, 0.40, 0.50, 0.60, 0.60, 0.50],
    ]
)
ETA4[:, 0] = 0.0
CPS3 = np.linspace(0.0, 0.60, 25)
ST3 = np.array([2.5, 3.0, 2.55, 2.0, 1.85, 1.5, 1.25, 1.05, 0.95, 0.86, 0.79, 0.70, 0.62, 0.53, 0.45, 0.38, 0.32, 0.28, 0.24, 0.21, 0.18, 0.16, 0.14, 0.12, 0.10])
CPS4 = np.linspace(0.0, 1.0, 41)
ST4 = np.concatenate([ST3, [0.09], np.full(15, 0.08)])
ST4[6:] *= 1.2


def spline1(xk, yk, x):
    return make_interp_spline(xk, yk, k=3, axis=0)(x)


def eta_map(blades, cp, J):
    cpk, Jk, d = (CP3, J3, ETA3) if blades == 3 else (CP4, J4, ETA4)
    sj = make_interp_spline(Jk, d, k=3, axis=1)
    out = []
    for c, j in zip(np.ravel(cp), np.ravel(J)):
        out.append(float(make_interp_spline(cpk, sj(j), k=3)(c)))
    return np.array(out)


def static_map(blades, cp):
    k, d = (CPS3, ST3) if blades == 3 else (CPS4, ST4)
    return spline1(k, d, np.ravel(cp))


def prop_ref(blades, P, D, rpm, rho, U, rating_hp=None):
    n = rpm / 60.0
    cp = P / rho / n**3 / D**5
    J = U / (n * D)
    cts = static_map(blades, cp) * cp
    with np.errstate(divide="ignore", invalid="ignore"):
        ctd = np.where(J > 0, eta_map(blades, cp, J) * cp / np.where(J > 0, J, 1.0), 0.0)
    w = np.clip((J - 0.1) / 0.1, 0.0, 1.0)
    ct = (1 - w) * cts + w * ctd
    return cp, J, ct * rho * n**2 * D**4


def ref_prop(cfg, x):
    blades = cfg.get("num_blades", 4)
    cp, J, T = prop_ref(blades, x["shaft_power_in"], x["diameter"], x["rpm"], x["fltcond|rho"], x["fltcond|Utrue"])
    D_ft = x["diameter"] / 0.3048
    W = 0.108 * (D_ft * x["power_rating"] * np.sqrt(blades)) ** 0.782
    return {
        "cp": (cp, None),
        "J": (J, None),
        "prop_Vtip": (np.pi * x["diameter"] * x["rpm"] / 60.0, None),
        "thrust": (T, "N"),
        "component_weight": (W, "lb"),
    }


def ins_prop(cfg):
    return {
        "shaft_power_in": V([3e5, 1e4, 0.0, 1.5e5, 6e5], "W"),
        "rpm": V([2000.0, 1700.0, 2300.0], "rpm"),
        "fltcond|rho": V([1.225, 0.4, 0.9], "kg/m**3"),
        # advance ratios in the static, blended and dynamic regimes, both sides of each boundary
        "fltcond|Utrue": V([60.0, 0.0, 1.0, 6.0, 7.0, 9.5, 11.0, 13.0, 15.5, 16.5, 18.0, 120.0, 200.0], "m/s"),
        "diameter": S([2.3, 2.0, 3.0], "m"),
        "power_rating": S([850.0, 300.0], "hp"),
    }


# ---------------------------------------------------------------- battery
def ref_batt(cfg, x):
    o = opt(cfg, efficiency=1.0, specific_power=5000.0, specific_energy=300.0, cost_inc=50.0, cost_base=1.0)
    W, L = x["battery_weight"], x["elec_load"]
    e = x.get("specific_energy", o["specific_energy"])
    return {
        "heat_out": (L * (1 - o["efficiency"]), "W"),
        "component_cost": (W * o["cost_inc"] + o["cost_base"], "USD"),
        "component_sizing_margin": (L / (o["specific_power"] * W), None),
        "max_energy": (W * e, "W*h"),
    }


def ref_soc(cfg, x):
    from mc.checks.c01_integrators import refM

    d = ref_batt(cfg, x)
    L = np.atleast_1d(x["elec_load"])
    nn = len(L)
    E = d["max_energy"][0] * 3600.0
    dt = x["duration"] / max(nn - 1, 1)
    soc = x["SOC_initial"] - dt * refM("simpson", nn).dot(L) / E
    d["SOC"] = (soc, None)
    d["SOC_final"] = (soc[-1:], None)
    return d


batt_cfgs = [{}, dict(efficiency=0.9), dict(efficiency=0.97, specific_power=1200.0, specific_energy=250.0, cost_inc=7.0, cost_base=100.0)]
mcfgs = [dict(**e, **c) for e in ETA for c in ({}, COST)]
scfgs = [dict(**e, **c) for e in ({}, dict(psfc=0.7e-7)) for c in ({}, COST)]

P = "openconcept.propulsion"


def scfg_specific(cfg):
    d = {"battery_weight": S([500.0, 1.0, 20.0, 3000.0], "kg"), "elec_load": V([1e5, 0.0, 2.5, 1e4, 3e6, -2e4], "W")}
    d["specific_energy"] = S([300.0, 150.0, 750.0], "W*h/kg")
    return d


def ins_soc(cfg):
    d = scfg_specific(cfg)
    d["duration"] = S([600.0, 0.0, 30.0, 7200.0], "s")
    d["SOC_initial"] = S([1.0, 0.3, 0.0])
    return d


COMPONENTS = [
    Entry("PowerSplit", mk(P, "PowerSplit"), ins_split, ref_split, split_cfgs),
    Entry("SimpleMotor", mk(P, "SimpleMotor"), {"throttle": THR, "elec_power_rating": S(RAT, "W")}, ref_motor, mcfgs),
    Entry("SimpleGenerator", mk(P, "SimpleGenerator"), {"shaft_power_in": V([1e5, 0.0, 1.0, 3e4, 2e6], "W"), "elec_power_rating": S(RAT, "W")}, ref_gen, mcfgs),
    Entry("SimpleTurboshaft", mk(P, "SimpleTurboshaft"), {"throttle": THR, "shaft_power_rating": S(RAT, "W")}, ref_shaft, scfgs),
    Entry("SimplePropeller", mk(P, "SimplePropeller"), ins_prop, ref_prop, [{}, dict(num_blades=4), dict(num_blades=3)], rtol=1e-8, dtol=1e-5, defaults=True),
]
STORAGE = [
    Entry("SimpleBattery", mk("openconcept.energy_storage", "SimpleBattery"), scfg_specific, ref_batt, batt_cfgs),
    Entry("SOCBattery", mk("openconcept.energy_storage", "SOCBattery"), ins_soc, ref_soc, batt_cfgs, nodes=False, odd=True),
]

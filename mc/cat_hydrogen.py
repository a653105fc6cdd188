"""Liquid hydrogen tank: capsule-shaped vacuum tank walls, insulation and the liquid remaining."""
import numpy as np

from mc.catalog import Entry, S, V
from mc.cat_propulsion import mk

P = "openconcept.energy_storage.hydrogen."
PI = np.pi


def area(r, L):
    return 4 * PI * r**2 + 2 * PI * r * L  # sphere (two hemispheres) + cylinder


def volume(r, L):
    return 4.0 / 3 * PI * r**3 + PI * r**2 * L


def inner(cfg, p, r, L, sf=2.0, ys=470.2e6, rho=2699.0):
    t = p * r * cfg.get("safety_factor", sf) / cfg.get("yield_stress", ys)  # hoop stress of the cylinder
    return t, t * area(r, L) * cfg.get("density", rho)


def outer(cfg, p, r, L):
    q = p * cfg.get("safety_factor", 2.0) / cfg.get("youngs_modulus", 8e10)
    t_cyl = (q * L * r**1.5 / 0.92) ** 0.4  # buckling of the cylinder under external pressure
    t_sph = r * np.sqrt(q / 0.365)  # and of the hemispheres
    t = cfg.get("stiffening_multiplier", 0.8) * max(float(t_cyl), float(t_sph))
    return t, t * area(r, L) * cfg.get("density", 2699.0)


def ref_inner(cfg, x):
    t, w = inner(cfg, x["design_pressure_differential"], x["radius"], x["length"])
    return {"thickness": (t, "m"), "weight": (w, "kg")}


def ref_outer(cfg, x):
    t, w = outer(cfg, x["design_pressure_differential"], x["radius"], x["length"])
    return {"thickness": (t, "m"), "weight": (w, "kg")}


def mli(cfg, r, L, n):
    return (cfg.get("foil_layer_areal_weight", 18e-3) + cfg.get("spacer_layer_areal_weight", 12e-3)) * n * area(r, L)


def ref_mli(cfg, x):
    return {"weight": (mli(cfg, x["radius"], x["length"], x["N_layers"]), "kg")}


def tank(cfg, x):
    i = dict(safety_factor=cfg.get("inner_safety_factor", 1.5), yield_stress=cfg.get("inner_yield_stress", 413.7e6), density=cfg.get("inner_density", 2796.0))
    o = dict(safety_factor=cfg.get("outer_safety_factor", 2.0), youngs_modulus=cfg.get("outer_youngs_modulus", 8e10), density=cfg.get("outer_density", 2699.0), stiffening_multiplier=cfg.get("stiffening_multiplier", 0.8))
    r, L = x["radius"], x["length"]
    w = inner(i, x["max_expected_operating_pressure"], r, L)[1] + outer(o, x["environment_design_pressure"], r + x["vacuum_gap"], L)[1] + mli({}, r, L, x["N_layers"])
    return cfg.get("weight_fudge_factor", 1.1) * w


def ref_vac(cfg, x):
    return {"weight": (tank(cfg, x), "kg")}


def ref_init(cfg, x):
    rho, V0 = cfg.get("LH2_density", 70.85), volume(x["radius"], x["length"])
    m = cfg.get("fill_level_init", 0.95) * V0 * rho - x["delta_m_liq"]
    return {"m_liq": (m, "kg"), "fill_level": (m / rho / V0, None)}


def ref_tank(cfg, x):
    from mc.checks.c01_integrators import refM

    md = np.atleast_1d(x["m_dot_liq"])
    used = x["integ.duration"] / max(len(md) - 1, 1) * refM("simpson", len(md)).dot(md)
    d = ref_init(cfg, dict(x, delta_m_liq=used))
    w = tank(cfg, x)
    d["tank_weight"] = (w, "kg")
    d["total_weight"] = (d["m_liq"][0] + w, "kg")
    return d


R = S([1.0, 0.2, 2.75], "m")
L = S([0.5, 0.0, 3.0, 12.0], "m")
WALLS = dict(max_expected_operating_pressure=S([3e5, 1e4, 2e6], "Pa"), environment_design_pressure=S([101325.0, 2e4], "Pa"), vacuum_gap=S([0.05, 0.0, 0.3], "m"), N_layers=S([20.0, 1.0, 60.0]))
OPT = [dict(weight_fudge_factor=1.35), dict(stiffening_multiplier=0.5), dict(inner_safety_factor=3.1), dict(inner_yield_stress=2e8), dict(inner_density=1500.0),
       dict(outer_safety_factor=1.2), dict(outer_youngs_modulus=2e11), dict(outer_density=7800.0)]
ALL = {k: v for d in OPT for k, v in d.items()}

HYDROGEN = [
    Entry("PressureVesselWallThickness", mk(P + "structural", "PressureVesselWallThickness", nodes=False), dict(design_pressure_differential=S([3e5, 1e4, 2e6], "Pa"), radius=R, length=L), ref_inner,
          [{}, dict(safety_factor=1.1), dict(yield_stress=2e8), dict(density=1500.0)], vectorized=False),
    Entry("VacuumWallThickness", mk(P + "structural", "VacuumWallThickness", nodes=False), dict(design_pressure_differential=S([101325.0, 1e3, 5e5], "Pa"), radius=R, length=L), ref_outer,
          [{}, dict(safety_factor=1.1), dict(stiffening_multiplier=1.0), dict(youngs_modulus=2e11), dict(density=1500.0)], vectorized=False),
    Entry("MLIWeight", mk(P + "structural", "MLIWeight", nodes=False), dict(radius=R, length=L, N_layers=S([20.0, 1.0, 60.0])), ref_mli, [{}, dict(foil_layer_areal_weight=0.05), dict(spacer_layer_areal_weight=0.003)], vectorized=False),
    Entry("VacuumTankWeight", mk(P + "structural", "VacuumTankWeight", nodes=False), dict(radius=R, length=L, **WALLS), ref_vac, [{}, *OPT, ALL], vectorized=False, budget=600, dbudget=60, dcfgs=3),
    Entry("InitialLH2MassModification", mk(P + "LH2_tank_no_boil_off", "InitialLH2MassModification"), dict(radius=R, length=L, delta_m_liq=V([30.0, 0.0, -4.0, 400.0], "kg")), ref_init,
          [{}, dict(fill_level_init=0.4), dict(LH2_density=66.0)]),
    Entry("LH2TankNoBoilOff", mk(P + "LH2_tank_no_boil_off", "LH2TankNoBoilOff"), {"radius": R, "length": L, "m_dot_liq": V([0.05, 0.0, 0.4, -0.1, 0.002], "kg/s"), "integ.duration": S([100.0, 0.0, 3600.0], "s"), **WALLS}, ref_tank,
          [{}, dict(fill_level_init=0.4), dict(LH2_density=66.0), *OPT, dict(ALL, fill_level_init=0.7)], nodes=False, odd=True, budget=900, dbudget=12, dcfgs=3),
]

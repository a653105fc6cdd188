"""Heat pipes: ammonia properties, wall sizing, thermal resistance, vapour temperature drop and heat transfer limit."""
import numpy as np
from scipy.interpolate import CubicSpline

from mc.catalog import Entry, S, V
from mc.cat_propulsion import mk

P = "openconcept.thermal.heat_pipe"
G = 9.80665

# ammonia vapour-liquid equilibrium: temperature degC, liquid and vapour density kg/m^3, pressure kPa
AMMONIA = np.array([
    (-75, 730.94, 0.078241, 7.93), (-70, 725.27, 0.11141, 10.92), (-65, 719.53, 0.15552, 15.61), (-60, 713.78, 0.21321, 21.90),
    (-55, 707.91, 0.28596, 30.16), (-50, 702, 0.38158, 40.87), (-45, 696.04, 0.4994, 54.54), (-40, 689.99, 0.64508, 71.77),
    (-35, 683.85, 0.82318, 93.19), (-30, 677.64, 1.0386, 119.6), (-25, 671.37, 1.2969, 151.6), (-20, 665.03, 1.6039, 190.2),
    (-15, 658.54, 1.9659, 236.3), (-10, 651.98, 2.3874, 290.8), (-5, 645.33, 2.8827, 354.8), (0, 638.57, 3.4528, 429.4),
    (5, 631.67, 4.1086, 515.7), (10, 624.69, 4.8593, 614.9), (15, 617.55, 5.7153, 728.3), (20, 610.28, 6.6876, 857.1),
    (25, 602.85, 7.7882, 1003.0), (30, 595.24, 9.031, 1166.0), (35, 588.16, 10.431, 1350.0), (40, 579.48, 12.006, 1554.0),
    (45, 571.3, 13.775, 1781.0), (50, 562.87, 15.761, 2032.0), (60, 545.23, 20.5, 2613.0), (70, 526.32, 26.5, 3312.0),
    (80, 505.71, 34.1, 4144.0), (90, 482.9, 43.9, 5123.0), (100, 456.93, 56.8, 6264.0)])
_SPL = CubicSpline(AMMONIA[:, 0], AMMONIA[:, 1:], bc_type="natural")


def ammonia(T):
    y = np.asarray(_SPL(T))
    return y[..., 0], y[..., 1], y[..., 2] * 1e3  # kg/m^3, kg/m^3, Pa


def ref_ammonia(cfg, x):
    rl, rv, p = ammonia(x["temp"])
    return {"rho_liquid": (rl, "kg/m**3"), "rho_vapor": (rv, "kg/m**3"), "vapor_pressure": (p, "Pa")}


def resistance(cfg, D, t, q, dT, vapor):
    le, lc = cfg.get("length_evap", 0.25), cfg.get("length_cond", 0.25)
    kw, tk, kk = cfg.get("wall_conduct", 196.0), cfg.get("wick_thickness", 0.0), cfg.get("wick_conduct", 4.0)
    shell = lambda r_out, r_in, k, L: np.log(r_out / r_in) / (2 * np.pi * k * L)  # cylinder of length L
    ri, ro, rw = D / 2, D / 2 + t, D / 2 - tk
    R = sum(shell(ri, rw, kk, L) + shell(ro, ri, kw, L) for L in (le, lc))
    return R + (dT / q if vapor else 0.0)


def ref_res(cfg, x):
    n = np.ones_like(x["q"])
    return {"thermal_resistance": (n * resistance(cfg, x["inner_diam"], x["wall_thickness"], x["q"], x["delta_T"], cfg.get("vapor_resistance", False)), "K/W")}


def vapor_drop(cfg, q, T, rho, p, D, L):
    u = q / cfg.get("latent_heat", 1371.2e3) / rho / (np.pi / 4 * D**2)
    mu = cfg.get("visc_base", 9e-6) + cfg.get("visc_inc", 4e-8) * T
    f = 0.3164 / (rho * u * D / mu) ** 0.25
    dp = f * L / D * 0.5 * rho * u**2
    return dp * 35.976 / p  # slope of the saturation line, T = 35.976 ln(p) + const


def ref_drop(cfg, x):
    return {"delta_T": (vapor_drop(cfg, x["q"], x["temp"], x["rho_vapor"], x["vapor_pressure"], x["inner_diam"], x["length"]), "K")}


def wall(cfg, p, D, L):
    """p in Pa"""
    t = p * D * cfg.get("stress_safety_factor", 4.0) / (cfg.get("yield_stress", 572.0) * 1e6)
    return t, np.pi * D * t * L * cfg.get("rho_wall", 2810.0)


def ref_weight(cfg, x):
    t, w = wall(cfg, x["design_pressure"], x["inner_diam"], x["length"])
    return {"wall_thickness": (t, "m"), "heat_pipe_weight": (w, "kg")}


def qmax(cfg, D, T, rl, rv):
    s = cfg.get("surface_tension_base", 0.026) + cfg.get("surface_tension_incr", -2.3e-4) * T
    d = rl - rv
    Bo = D * np.sqrt(G * d / s)
    K = (rl / rv) ** 0.14 * np.tanh(np.sqrt(np.sqrt(Bo))) ** 2
    A = np.pi / 4 * D**2
    buoy = G * np.cos(np.radians(cfg.get("theta", 0.0))) * s * d
    return K * A * cfg.get("latent_heat", 1371.2e3) * buoy**0.25 / (rl**-0.25 + rv**-0.25) ** 2


def ref_qmax(cfg, x):
    return {"q_max": (qmax(cfg, x["inner_diam"], x["temp"], x["rho_liquid"], x["rho_vapor"]), "W")}


def ref_qgroup(cfg, x):
    rl, rv, p = ammonia(x["temp"])
    pd = ammonia(x["design_temp"])[2]
    t, w = wall(cfg, pd, x["inner_diam"], x["length"])
    return {"q_max": (qmax(cfg, x["inner_diam"], x["temp"], rl, rv), "W"), "wall_thickness": (t, "m"), "heat_pipe_weight": (w, "kg")}


def ref_pipe(cfg, x):
    T, D, L, n = x["T_evap"], x["inner_diam"], x["length"], x["n_pipes"]
    rl, rv, p = ammonia(T)
    t, w = wall(cfg, ammonia(x["T_design"])[2], D, L)
    q1 = x["q"] / n
    R = resistance(cfg, D, t, q1, vapor_drop({}, q1, T, rv, p, D, L), True)
    return {"q_max": (n * qmax(dict(theta=cfg.get("theta", 0.0)), D, T, rl, rv), "W"), "weight": (n * w, "kg"), "T_cond": (T - q1 * R, "degC")}


_MID = [float(a) for a in AMMONIA[:, 0]] + [float(a) for a in 0.5 * (AMMONIA[1:, 0] + AMMONIA[:-1, 0])] + [float(a) for a in 0.75 * AMMONIA[1:, 0] + 0.25 * AMMONIA[:-1, 0]]
PIPE = dict(length_evap=0.1, length_cond=0.45)
WALL = dict(yield_stress=300.0, rho_wall=7800.0, stress_safety_factor=2.0)
DIAM = S([0.02, 0.008, 0.06], "m")
LENG = S([6.6, 0.5, 30.0], "m")
TDEG = [41.0, -8.0, 3.0, 77.0, 97.0]

HEATPIPE = [
    Entry("AmmoniaProperties", mk(P, "AmmoniaProperties"), dict(temp=V(_MID, "degC")), ref_ammonia, rtol=1e-8),
    Entry("HeatPipeThermalResistance", mk(P, "HeatPipeThermalResistance"),
          dict(inner_diam=DIAM, wall_thickness=S([1.25e-3, 2e-4, 8e-3], "m"), q=V([800.0, 1.0, 2e4], "W"), delta_T=V([0.3, 0.0, 6.0], "K")), ref_res,
          [{}, dict(vapor_resistance=True), PIPE, dict(wick_thickness=1e-3), dict(wall_conduct=50.0), dict(wick_thickness=5e-4, wick_conduct=11.0, wall_conduct=50.0, vapor_resistance=True, **PIPE)]),
    Entry("HeatPipeVaporTempDrop", mk(P, "HeatPipeVaporTempDrop"),
          dict(q=V([800.0, 1.0, 2e4], "W"), temp=V([40.0, -9.0, 99.0], "degC"), rho_vapor=V([12.0, 2.4, 50.0], "kg/m**3"), vapor_pressure=V([1.5e6, 3e5, 6e6], "Pa"), inner_diam=DIAM, length=LENG), ref_drop,
          [{}, dict(latent_heat=1.0e6), dict(visc_base=2e-5, visc_inc=1e-7)]),
    Entry("HeatPipeWeight", mk(P, "HeatPipeWeight", nodes=False), dict(design_pressure=S([1e6, 3e5, 6e6], "Pa"), inner_diam=DIAM, length=LENG), ref_weight,
          [{}, WALL, dict(yield_stress=300.0), dict(rho_wall=7800.0), dict(stress_safety_factor=2.0)], vectorized=False),
    Entry("QMaxAnalyticalPart", mk(P, "QMaxAnalyticalPart"), dict(inner_diam=DIAM, temp=V([40.0, -40.0, 95.0], "degC"), rho_liquid=V([580.0, 700.0, 460.0], "kg/m**3"), rho_vapor=V([12.0, 0.5, 55.0], "kg/m**3")), ref_qmax,
          [{}, dict(theta=30.0), dict(theta=89.0), dict(latent_heat=1.0e6, surface_tension_base=0.03, surface_tension_incr=-1e-4)]),
    Entry("QMaxHeatPipe", mk(P, "QMaxHeatPipe"), dict(temp=V(TDEG, "degC"), design_temp=S([80.0, 33.0, -12.0], "degC"), inner_diam=DIAM, length=LENG), ref_qgroup,
          [{}, dict(theta=60.0), WALL], rtol=1e-8, defaults=True),
    Entry("HeatPipe", mk(P, "HeatPipe"), dict(q=V([2e3, 50.0, 9e4], "W"), T_evap=V(TDEG, "degC"), inner_diam=DIAM, length=LENG, T_design=S([80.0, 33.0], "degC"), n_pipes=S([1.0, 7.0, 2.5])), ref_pipe,
          [{}, dict(theta=60.0), dict(wick_thickness=1e-3), dict(wick_thickness=5e-4, wick_conduct=11.0, wall_conduct=50.0, **PIPE, **WALL)], rtol=1e-8, dcfgs=2, defaults=True),
]

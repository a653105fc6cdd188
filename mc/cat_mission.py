"""Flight-mechanics components used by the mission phases."""
import numpy as np

from mc.cat_propulsion import mk
from mc.catalog import Entry, S, V

G = 9.80665
PH = "openconcept.mission.phases"
KN, LB, DEG = 1e3, 0.45359237, np.pi / 180


def si(**fac):
    """The reference model is written in SI units; the alphabets are in other units."""

    def deco(ref):
        return lambda cfg, x: ref(cfg, {k: v * fac.get(k.split("|")[-1], 1.0) for k, v in x.items()})

    return deco



@si(drag=1e3, thrust=1e3, weight=1e3)
def ref_gamma(cfg, x):
    return {"gamma": (np.arcsin((x["thrust"] - x["drag"]) / (x["weight"] * G)), "rad")}


def ref_flip(cfg, x):
    return {"vec_out": ((-1 if cfg.get("negative") else 1) * x["vec_in"][::-1], cfg.get("units"))}


def ref_gs(cfg, x):
    vs, U = x["fltcond|vs"], x["fltcond|Utrue"]
    sing = vs / U
    neg = U**2 < vs**2
    gs = np.sqrt(np.where(neg, 0.01, U**2 - vs**2))
    return {"fltcond|groundspeed": (gs, "m/s"), "fltcond|cosgamma": (gs / U, None), "fltcond|singamma": (np.where(neg, 1.0, sing), None)}


@si(weight=1e3, drag=KN, lift=KN, thrust=KN)
def ref_hacc(cfg, x):
    m = x["weight"]
    normal = np.maximum(m * G - x["lift"], 0.0)
    return {"accel_horiz": ((x["thrust"] - x["drag"] - x["braking"] * normal) / m - G * x["fltcond|singamma"], "m/s**2")}


@si(weight=1e3, lift=1e3)
def ref_vacc(cfg, x):
    m = x["weight"]
    a = (x["lift"] * x["fltcond|cosgamma"] + (x["thrust"] - x["drag"]) * x["fltcond|singamma"]) / m - G
    return {"accel_vert": (np.clip(a, -G, 2.5 * G), "m/s**2")}


@si(weight=LB, S_ref=0.3048**2)
def ref_cl(cfg, x):
    return {"fltcond|CL": (x["weight"] * G * x["fltcond|cosgamma"] / (x["fltcond|q"] * x["ac|geom|wing|S_ref"]), None)}


@si(gamma=DEG)
def ref_trans(cfg, x):
    U, g = x["fltcond|Utrue"], x["gamma"]
    h_obs, n = cfg.get("h_obstacle", 10.66), cfg.get("load_factor", 1.2)
    R = U**2 / (n - 1) / G
    h = R * (1 - np.cos(g))
    s = R * np.sin(g)
    if h > h_obs:
        h = h_obs
        s = np.sqrt(R**2 - (R - h_obs) ** 2)
    return {"s_transition": (s, "m"), "h_transition": (h, "m"), "t_transition": (s / U, "s")}


@si(gamma=DEG)
def ref_tclimb(cfg, x):
    s = (cfg.get("h_obstacle", 10.66) - x["h_transition"]) / np.tan(x["gamma"])
    return {"s_climb": (s, "m"), "t_climb": (s / x["fltcond|Utrue"], "s")}


W = [5000.0, 1.0, 79000.0, 5001.5]
KINEMATICS = [
    Entry("ClimbAngleComp", mk(PH, "ClimbAngleComp"), {"drag": V([6.0, 0.0, 4.0, 9.0], "kN"), "weight": V([5.0, 3.0, 4.4], "t"), "thrust": V([9.0, 0.0, 1.0, 29.0, 6.0], "kN")}, ref_gamma),
    Entry(
        "FlipVectorComp", mk(PH, "FlipVectorComp"), lambda c: {"vec_in": V([1.0, -2.0, 0.0, 1e5, 3.5, 7.25, -0.125], c.get("units"))}, ref_flip,
        cfgs=[dict(), dict(negative=True), dict(negative=False, units="m/s"), dict(negative=True, units="m/s**2")], nodes=False,
    ),
    Entry("Groundspeeds", mk(PH, "Groundspeeds"), {"fltcond|vs": V([3.0, 0.0, -7.0, 40.0, 59.9, 61.0, -120.0], "m/s"), "fltcond|Utrue": V([60.0, 0.5, 250.0, 41.0, 59.95], "m/s")}, ref_gs, rtol=1e-9),
    Entry(
        "HorizontalAcceleration", mk(PH, "HorizontalAcceleration"),
        {"weight": V([5.0, 0.5, 79.0], "t"), "drag": V([5.0, 0.0, 400.0], "kN"), "lift": V([13.0, 0.0, 49.0, 900.0], "kN"), "thrust": V([22.0, 0.0, 400.0], "kN"), "fltcond|singamma": V([0.05, 0.0, -0.3]), "braking": V([0.03, 0.0, 0.4])},
        ref_hacc, atol=1e-9, rtol=1e-8,
    ),
    Entry(
        "VerticalAcceleration", mk(PH, "VerticalAcceleration"),
        {"weight": V([5.0, 2.0, 79.0], "t"), "drag": V([1200.0, 0.0, 9000.0], "N"), "lift": V([52.0, 0.0, 49.033, 170.0, 260.0], "kN"), "thrust": V([5000.0, 0.0, 9e4], "N"), "fltcond|singamma": V([0.05, 0.0, -0.3]), "fltcond|cosgamma": V([1.0, 0.9, 0.0])},
        ref_vacc, atol=1e-9, rtol=1e-8,
    ),
    Entry("SteadyFlightCL", mk(PH, "SteadyFlightCL"), {"weight": V(W, "lbm"), "fltcond|q": V([3000.0, 0.5, 2e4], "Pa"), "ac|geom|wing|S_ref": S([25.0, 0.3, 125.0], "ft**2"), "fltcond|cosgamma": V([0.99, 1.0, 0.0, 0.5])}, ref_cl),
    Entry(
        "TakeoffTransition", mk(PH, "TakeoffTransition", nodes=False), {"fltcond|Utrue": S([65.0, 20.0, 81.0, 140.0], "m/s"), "gamma": S([4.0, 0.0, 0.5, 8.0, 15.0, 25.0, -2.0], "deg")}, ref_trans,
        cfgs=[dict(), dict(h_obstacle=15.24), dict(load_factor=1.15, h_obstacle=10.668)], vectorized=False, atol=1e-9, rtol=1e-8,
    ),
    Entry(
        "TakeoffClimb", mk(PH, "TakeoffClimb", nodes=False), {"h_transition": S([6.0, 0.0, 10.66, 10.0], "m"), "gamma": S([4.0, 0.5, 15.0, 40.0, -2.0], "deg"), "fltcond|Utrue": S([65.0, 20.0, 140.0], "m/s")}, ref_tclimb,
        cfgs=[dict(), dict(h_obstacle=15.24)], vectorized=False,
    ),
]

"""Atmosphere, airspeeds, drag/lift/stall, maximum lift, parasite drag build-up, planform geometry, tails, costs."""
import itertools

import numpy as np

from mc.cat_propulsion import mk, opt
from mc.catalog import Entry, In, S, V

G = 9.80665
RAIR = 287.058


# ------------------------------------------------------------------ atmosphere
def hermite(h, h0, h1, f0, f1, g0, g1):
    """Cubic with values f0,f1 and slopes g0,g1 at h0,h1."""
    L = h1 - h0
    t = (h - h0) / L
    return f0 * (1 + 2 * t) * (1 - t) ** 2 + g0 * L * t * (1 - t) ** 2 + f1 * t**2 * (3 - 2 * t) + g1 * L * t**2 * (t - 1)


def p_std(h):
    h = np.asarray(h, dtype=float)
    tro = lambda z: 101325.0 * (1 - 0.0065 * z / 288.16) ** 5.2561
    dtro = lambda z: -101325.0 * 5.2561 * 0.0065 / 288.16 * (1 - 0.0065 * z / 288.16) ** 4.2561
    k = 9.81 / (288 * 216.65)
    st = lambda z: 22632.0 * np.exp(-k * (z - 11000.0))
    mid = hermite(h, 10500.0, 11500.0, tro(10500.0), st(11500.0), dtro(10500.0), -k * st(11500.0))
    return np.where(h <= 10500.0, tro(np.minimum(h, 10500.0)), np.where(h > 11500.0, st(h), mid))


def T_std(h):
    h = np.asarray(h, dtype=float)
    mid = hermite(h, 10500.0, 11500.0, 288.16 - 0.0065 * 10500, 216.65, -0.0065, 0.0)
    return np.where(h <= 10500.0, 288.16 - 0.0065 * h, np.where(h > 11500.0, 216.65, mid))


H = [3000.0, 0.0, -300.0, 1500.0, 8000.0, 10499.9, 10500.0, 10500.1, 10700.0, 11000.0, 11250.0, 11499.9, 11500.0, 11500.1, 13000.0, 18000.0, 25000.0]
DT = [0.0, 15.0, -20.0, 35.0]
FT = 0.3048


def ref_atmos(cfg, x):
    h = x["fltcond|h"] * FT
    p, T = p_std(h), T_std(h) + x["fltcond|TempIncrement"]
    rho = p / RAIR / T
    a = np.sqrt(1.4 * RAIR * T)
    r = {"fltcond|p": (p, "Pa"), "fltcond|T": (T, "degK"), "fltcond|rho": (rho, "kg/m**3"), "fltcond|a": (a, "m/s")}
    if cfg.get("true_airspeed_in"):
        U = x["fltcond|Utrue"]
        r["fltcond|Ueas"] = (U * np.sqrt(rho / 1.225), "m/s")
    else:
        U = x["fltcond|Ueas"] * np.sqrt(1.225 / rho)
        r["fltcond|Utrue"] = (U, "m/s")
    r["fltcond|q"] = (0.5 * rho * U**2, "Pa")
    r["fltcond|M"] = (U / a, None)
    return r


def ins_atmos(cfg):
    d = {"fltcond|h": V([h / FT for h in H], "ft"), "fltcond|TempIncrement": V(DT, "degC")}
    d["fltcond|Utrue" if cfg.get("true_airspeed_in") else "fltcond|Ueas"] = V([70.0, 1.0, 30.0, 250.0, 330.0], "m/s")
    return d


AT = "openconcept.atmospherics"
ATMOS = [
    Entry("ComputeAtmosphericProperties", mk(AT, "ComputeAtmosphericProperties"), ins_atmos, ref_atmos,
          [dict(), dict(true_airspeed_in=True)], rtol=1e-8, dbudget=160),
    Entry("TemperatureComp", mk(AT, "TemperatureComp"), {"fltcond|h": V(H, "m"), "fltcond|TempIncrement": V(DT, "degC")},
          lambda c, x: {"fltcond|T": (T_std(x["fltcond|h"]) + x["fltcond|TempIncrement"], "degK")}, rtol=1e-8),
    Entry("PressureComp", mk(AT, "PressureComp"), {"fltcond|h": V([h / 1000 for h in H], "km")}, lambda c, x: {"fltcond|p": (p_std(x["fltcond|h"] * 1000), "Pa")}, rtol=1e-8),
    Entry("DensityComp", mk(AT, "DensityComp"), {"fltcond|p": V([1e5, 2e4, 5.5e3], "Pa"), "fltcond|T": V([288.0, 216.0, 310.0], "degK")},
          lambda c, x: {"fltcond|rho": (x["fltcond|p"] / RAIR / x["fltcond|T"], "kg/m**3")}),
    Entry("SpeedOfSoundComp", mk(AT, "SpeedOfSoundComp"), {"fltcond|T": V([288.0, 216.0, 310.0], "degK")}, lambda c, x: {"fltcond|a": (np.sqrt(1.4 * RAIR * x["fltcond|T"]), "m/s")}),
    Entry("MachNumberComp", mk(AT, "MachNumberComp"), {"fltcond|a": V([340.0, 295.0], "m/s"), "fltcond|Utrue": V([100.0, 0.0, 300.0], "kn")},
          lambda c, x: {"fltcond|M": (x["fltcond|Utrue"] * 1852 / 3600 / x["fltcond|a"], None)}),
    Entry("DynamicPressureComp", mk(AT, "DynamicPressureComp"), {"fltcond|rho": V([1.225, 0.4, 0.03], "kg/m**3"), "fltcond|Utrue": V([100.0, 0.0, 300.0], "kn")},
          lambda c, x: {"fltcond|q": (0.5 * x["fltcond|rho"] * (x["fltcond|Utrue"] * 1852 / 3600) ** 2, "Pa")}),
    Entry("TrueAirspeedComp", mk(AT, "TrueAirspeedComp"), {"fltcond|rho": V([1.225, 0.4, 0.03], "kg/m**3"), "fltcond|Ueas": V([100.0, 1.0, 300.0], "kn")},
          lambda c, x: {"fltcond|Utrue": (x["fltcond|Ueas"] * np.sqrt(1.225 / x["fltcond|rho"]), "kn")}),
    Entry("EquivalentAirspeedComp", mk(AT, "EquivalentAirspeedComp"), {"fltcond|rho": V([1.225, 0.4, 0.03], "kg/m**3"), "fltcond|Utrue": V([100.0, 1.0, 300.0], "kn")},
          lambda c, x: {"fltcond|Ueas": (x["fltcond|Utrue"] * np.sqrt(x["fltcond|rho"] / 1.225), "kn")}),
]


# ------------------------------------------------------------------ simple aero
def ref_drag(cfg, x):
    q, Sr, CL = x["fltcond|q"], x["ac|geom|wing|S_ref"] * FT**2, x["fltcond|CL"]
    return {"drag": (q * Sr * (x["CD0"] + CL**2 / (np.pi * x["e"] * x["ac|geom|wing|AR"])), "N")}


def ins_drag(cfg):
    return {
        "fltcond|CL": V([0.5, 0.0, -0.3, 1.2]), "fltcond|q": V([5e3, 0.0, 1.2e4], "Pa"), "ac|geom|wing|S_ref": S([300.0, 1.0, 1350.0], "ft**2"),
        "CD0": (V if cfg.get("vec_CD0") else S)([0.02, 0.0, 0.055]), "e": S([0.8, 1.0]), "ac|geom|wing|AR": S([9.0, 5.5, 14.0]),
    }


def ref_flapcl(cfg, x):
    o = opt(cfg, flap_chord_frac=0.2, wing_area_flapped_frac=0.9, slat_chord_frac=0.1, slat_span_frac=0.8, fudge_factor=1.0)
    d, sw, t = x["flap_extension"], np.deg2rad(x["ac|geom|wing|c4sweep"]), x["ac|geom|wing|toverc"]
    base = 1 + 2.33 * t - 77.9 * t**2 + 1120 * t**3 - 3430 * t**4
    k2 = 0.4 + 0.0234 * d - 2.04e-4 * d**2
    dcl = base * 4 * o["flap_chord_frac"] * k2 * (1.36 * k2 - 0.389 * k2**2)
    fl = dcl * o["wing_area_flapped_frac"] * (1 - 0.08 * np.cos(sw) ** 2) * np.cos(sw) ** 0.75
    sl = 7.11 * o["slat_chord_frac"] * o["slat_span_frac"] ** 2 * np.cos(sw) ** 2
    return {"CL_max_flap": (o["fudge_factor"] * (x["CL_max_clean"] + fl + sl), None)}


AE = "openconcept.aerodynamics"
AERO = [
    Entry("PolarDrag", mk(AE, "PolarDrag"), ins_drag, ref_drag, [dict(), dict(vec_CD0=True)]),
    Entry("Lift", mk(AE, "Lift"), {"fltcond|CL": V([0.5, 0.0, -0.3, 1.2]), "fltcond|q": V([5e3, 0.0, 1.2e4], "Pa"), "ac|geom|wing|S_ref": S([300.0, 1.0, 1350.0], "ft**2")},
          lambda c, x: {"lift": (x["fltcond|q"] * x["fltcond|CL"] * x["ac|geom|wing|S_ref"] * FT**2, "N")}),
    Entry("StallSpeed", mk(AE, "StallSpeed", False), {"weight": S([5000.0, 3e5, 10.0], "lbm"), "ac|geom|wing|S_ref": S([30.0, 125.0, 1.0], "m**2"), "CLmax": S([1.5, 2.4, 0.9])},
          lambda c, x: {"Vstall_eas": (np.sqrt(2 * x["weight"] * 0.45359237 * G / (1.225 * x["ac|geom|wing|S_ref"] * x["CLmax"])), "m/s")}, vectorized=False),
    Entry("CleanCLmax", mk(AE, "CleanCLmax", False), {"ac|aero|airfoil_Cl_max": S([1.75, 1.2, 2.3]), "ac|geom|wing|c4sweep": S([25.0, 0.0, -15.0, 45.0], "deg")},
          lambda c, x: {"CL_max_clean": (c.get("fudge_factor", 1.0) * 0.9 * x["ac|aero|airfoil_Cl_max"] * np.cos(np.deg2rad(x["ac|geom|wing|c4sweep"])), None)}, [dict(), dict(fudge_factor=1.13)], vectorized=False),
    Entry("FlapCLmax", mk(AE, "FlapCLmax", False),
          {"flap_extension": S([15.0, 0.0, 40.0]), "ac|geom|wing|c4sweep": S([25.0, 0.0, 45.0], "deg"), "CL_max_clean": S([1.4, 1.1]), "ac|geom|wing|toverc": S([0.12, 0.08, 0.18])},
          ref_flapcl, [dict(), dict(flap_chord_frac=0.3, wing_area_flapped_frac=0.6, slat_chord_frac=0.0, fudge_factor=0.95), dict(slat_span_frac=0.5, fudge_factor=1.2)], vectorized=False),
]


# ------------------------------------------------------------------ parasite drag
def cf(x, L, lam):
    T = x["fltcond|T"]
    mu = 1.458e-6 * T**1.5 / (T + 100.4)
    Re = x["fltcond|rho"] * x["fltcond|Utrue"] * L / mu
    turb = lambda r: 0.523 / np.log(0.06 * r) ** 2
    c = turb(Re)
    if lam > 0:
        rl = Re * lam
        c = c + lam * (1.32824 / np.sqrt(rl) - turb(rl))
    return c


def mac_trap(Sr, AR, t):
    b = np.sqrt(Sr * AR)
    cr = 2 * Sr / (b * (1 + t))
    return 2.0 / 3.0 * cr * (1 + t + t**2) / (1 + t)


def flap_cd(o, x):
    cfc = o["flap_chord_frac"]
    k = 5.75e-4 * cfc**2 - 7.45e-5 * cfc + 1.23e-5
    return k * x["ac|aero|takeoff_flap_deg"] ** 2 * np.cos(np.deg2rad(x["ac|geom|wing|c4sweep"])) * o["wing_area_flapped_frac"] * o["Q_flap"]


JT = dict(include_wing=True, configuration="clean", drag_fudge_factor=1.0, FF_nacelle=1.25 * 1.2, Q_fuselage=1.0, Q_tail=1.05, Q_wing=1.0, flap_chord_frac=0.2, Q_flap=1.25,
          wing_area_flapped_frac=0.9, fuselage_laminar_frac=0.0, hstab_laminar_frac=0.15, vstab_laminar_frac=0.15, wing_laminar_frac=0.15, nacelle_laminar_frac=0.0)


def ref_pd(cfg, x):
    o = opt(cfg, **JT)
    Sw = x["ac|geom|wing|S_ref"]
    fr = x["ac|geom|fuselage|length"] / x["ac|geom|fuselage|height"]
    CD = x["ac|geom|fuselage|S_wet"] / Sw * o["Q_fuselage"] * (1 + 2.2 / fr + 3.8 / fr**3) * cf(x, x["ac|geom|fuselage|length"], o["fuselage_laminar_frac"])
    ff = lambda t, Q: Q * (1 + 2.7 * t + 100 * t**4)
    for s in ("hstab", "vstab"):
        MAC = mac_trap(*[x[f"ac|geom|{s}|{k}"] for k in ("S_ref", "AR", "taper")])
        CD = CD + 2 * x[f"ac|geom|{s}|S_ref"] / Sw * ff(x[f"ac|geom|{s}|toverc"], o["Q_tail"]) * cf(x, MAC, o[f"{s}_laminar_frac"])
    if o["include_wing"]:
        MAC = mac_trap(*[x[f"ac|geom|wing|{k}"] for k in ("S_ref", "AR", "taper")])
        CD = CD + 2 * ff(x["ac|geom|wing|toverc"], o["Q_wing"]) * cf(x, MAC, o["wing_laminar_frac"])
    CD = CD + x["ac|propulsion|num_engines"] * x["ac|geom|nacelle|S_wet"] / Sw * o["FF_nacelle"] * cf(x, x["ac|geom|nacelle|length"], o["nacelle_laminar_frac"])
    if o["configuration"] == "takeoff":
        CD = CD + flap_cd(o, x) + 0.02
    return {"CD0": (o["drag_fudge_factor"] * CD, None)}


def ins_flow():
    return {"fltcond|Utrue": V([220.0, 40.0, 270.0], "m/s"), "fltcond|rho": V([0.4, 1.225, 0.2], "kg/m**3"), "fltcond|T": V([220.0, 288.0, 310.0], "degK")}


def ins_pd(cfg):
    o = opt(cfg, **JT)
    d = ins_flow()
    d.update({
        "ac|geom|fuselage|length": S([38.0, 20.0], "m"), "ac|geom|fuselage|height": S([3.76, 2.0], "m"), "ac|geom|fuselage|S_wet": S([450.0, 100.0], "m**2"),
        "ac|geom|wing|S_ref": S([125.0, 60.0], "m**2"), "ac|geom|nacelle|length": S([4.3, 2.0], "m"), "ac|geom|nacelle|S_wet": S([28.0, 9.0], "m**2"), "ac|propulsion|num_engines": S([2.0, 3.0]),
    })
    for k, s in enumerate(("hstab", "vstab") + (("wing",) if o["include_wing"] else ())):
        d[f"ac|geom|{s}|toverc"] = S([0.12 - 0.01 * k, 0.09])
        if s != "wing":
            d[f"ac|geom|{s}|S_ref"] = S([32.0 - 6 * k, 10.0], "m**2")
        d[f"ac|geom|{s}|AR"] = S([6.0 - k, 9.4])
        d[f"ac|geom|{s}|taper"] = S([0.2 + 0.1 * k, 0.9])
    if o["configuration"] == "takeoff":
        d["ac|aero|takeoff_flap_deg"] = S([15.0, 0.0, 35.0], "deg")
        d["ac|geom|wing|c4sweep"] = S([25.0, 0.0], "deg")
    return d


BW = dict(configuration="clean", drag_fudge_factor=1.0, FF_nacelle=1.25 * 1.2, flap_chord_frac=0.2, Q_flap=1.25, wing_area_flapped_frac=0.0, nacelle_laminar_frac=0.0)


def ref_bwb(cfg, x):
    o = opt(cfg, **BW)
    CD = x["ac|propulsion|num_engines"] * x["ac|geom|nacelle|S_wet"] / x["ac|geom|wing|S_ref"] * o["FF_nacelle"] * cf(x, x["ac|geom|nacelle|length"], o["nacelle_laminar_frac"])
    if o["configuration"] == "takeoff":
        CD = CD + flap_cd(o, x) + 0.01
    return {"CD0": (o["drag_fudge_factor"] * CD, None)}


def ins_bwb(cfg):
    d = ins_flow()
    d.update({"ac|geom|wing|S_ref": S([800.0, 60.0], "m**2"), "ac|geom|nacelle|length": S([4.3, 2.0], "m"), "ac|geom|nacelle|S_wet": S([28.0, 9.0], "m**2"), "ac|propulsion|num_engines": S([2.0, 3.0])})
    if cfg.get("configuration") == "takeoff":
        d["ac|aero|takeoff_flap_deg"] = S([15.0, 0.0, 35.0], "deg")
        d["ac|geom|wing|c4sweep"] = S([25.0, 0.0], "deg")
    return d


PD = "openconcept.aerodynamics.drag_jet_transport"
ODD = dict(drag_fudge_factor=1.07, FF_nacelle=1.3, flap_chord_frac=0.3, Q_flap=1.4, wing_area_flapped_frac=0.7, nacelle_laminar_frac=0.2)
DRAG = [
    Entry("ParasiteDragCoefficient_JetTransport", mk(AE, "ParasiteDragCoefficient_JetTransport"), ins_pd, ref_pd,
          [dict(include_wing=w, configuration=c, **k) for w in (True, False) for c in ("clean", "takeoff")
           for k in ({}, dict(Q_fuselage=1.1, Q_tail=1.2, Q_wing=1.15, fuselage_laminar_frac=0.05, hstab_laminar_frac=0.0, vstab_laminar_frac=0.3, wing_laminar_frac=0.5, **ODD))],
          defaults=True, budget=300, dbudget=40, rtol=1e-10),
    Entry("ParasiteDragCoefficient_BWB", mk(AE, "ParasiteDragCoefficient_BWB"), ins_bwb, ref_bwb,
          [dict(configuration=c, **k) for c in ("clean", "takeoff") for k in ({}, ODD)], defaults=True, budget=300, dbudget=30, rtol=1e-10),
    Entry("SkinFrictionCoefficient", mk(PD, "SkinFrictionCoefficient_JetTransport"), dict(ins_flow(), L=S([5.0, 0.5, 60.0], "m")),
          lambda c, x: {"Cf": (cf(x, x["L"], c.get("laminar_frac", 0.0)), None)}, [dict(), dict(laminar_frac=0.3), dict(laminar_frac=1.0)]),
    Entry("FuselageFormFactor", mk(PD, "FuselageFormFactor_JetTransport", False), {"ac|geom|fuselage|length": S([38.0, 20.0], "ft"), "ac|geom|fuselage|height": S([3.76, 2.0, 8.0], "ft")},
          lambda c, x: {"FF_fuselage": (c.get("Q_fuselage", 1.0) * (1 + 2.2 * x["ac|geom|fuselage|height"] / x["ac|geom|fuselage|length"] + 3.8 * (x["ac|geom|fuselage|height"] / x["ac|geom|fuselage|length"]) ** 3), None)},
          [dict(), dict(Q_fuselage=1.2)], vectorized=False),
    Entry("WingFormFactor", mk(PD, "WingFormFactor_JetTransport", False), {"toverc": S([0.12, 0.05, 0.2])}, lambda c, x: {"FF_wing": (c.get("Q", 1.0) * (1 + 2.7 * x["toverc"] + 100 * x["toverc"] ** 4), None)}, [dict(), dict(Q=1.2)], vectorized=False),
    Entry("FlapDrag", mk(PD, "FlapDrag_JetTransport", False), {"flap_extension": S([15.0, 0.0, 35.0], "deg"), "ac|geom|wing|c4sweep": S([25.0, 0.0, 40.0], "deg")},
          lambda c, x: {"CD_flap": (flap_cd(opt(c, flap_chord_frac=0.2, Q_flap=1.25, wing_area_flapped_frac=0.9), {"ac|aero|takeoff_flap_deg": x["flap_extension"], "ac|geom|wing|c4sweep": x["ac|geom|wing|c4sweep"]}), None)},
          [dict(), dict(flap_chord_frac=0.35, Q_flap=1.1, wing_area_flapped_frac=0.5)], vectorized=False),
]

# ------------------------------------------------------------------ geometry
GE = "openconcept.geometry"


def secs(n, k):
    """Section geometry sets: monotone y, positive chords."""
    y = -np.cumsum(np.array([3.0 + 2 * ((i + k) % 3) for i in range(n - 1)]))[::-1]
    c = np.array([1.5 + 1.1 * i + 0.4 * ((i * 2 + k) % 3) for i in range(n)])
    xle = np.array([6.0 - 1.7 * i + 0.5 * ((i + k) % 2) for i in range(n)])
    if k == 2:
        c = c[::-1].copy()
    if k == 3:
        xle = -xle
    if k == 4:  # straight
        c, xle = np.full(n, 3.7), np.zeros(n)
    if k == 5:  # not monotonic
        c = np.array([2.0 + 2.5 * (i % 2) + 0.2 * i for i in range(n)])
        xle = np.array([1.0 + 3.0 * (i % 2) - 0.3 * i for i in range(n)])
    if k == 6:  # pointed tip, straight quarter chord line
        c = 1.3 * np.arange(n)
        xle = 2.0 - c / 4
    return y, c, xle


def ins_sec(cfg, xle=True):
    n = cfg["num_sections"]
    d = {"y_sec": S([secs(n, k)[0] for k in range(3)], "m"), "chord_sec": S([secs(n, k)[1] / FT for k in range(7)], "ft")}
    if xle:
        d["x_LE_sec"] = S([secs(n, k)[2] for k in range(7)], "m")
    return d


def cut(cfg, x):
    n = cfg["num_sections"]
    a = cfg.get("idx_sec_start", 0)
    b = cfg.get("idx_sec_end", None)
    b = n - 1 if b is None else b
    y = np.concatenate([np.ravel(x["y_sec"]), [0.0]])[a : b + 1]
    c = np.ravel(x["chord_sec"])[a : b + 1] * FT
    xl = np.ravel(x["x_LE_sec"])[a : b + 1] if "x_LE_sec" in x else None
    return y, c, xl


def ref_area(cfg, x):
    y, c, _ = cut(cfg, x)
    f = cfg.get("chord_frac_end", 1.0) - cfg.get("chord_frac_start", 0.0)
    return {"S": (2 * f * sum((c[i] + c[i + 1]) / 2 * (y[i + 1] - y[i]) for i in range(len(c) - 1)), "m**2")}


def ref_sweep(cfg, x):
    y, c, xl = cut(cfg, x)
    q = xl + c / 4
    A = [(c[i] + c[i + 1]) / 2 * (y[i + 1] - y[i]) for i in range(len(c) - 1)]
    # the angle whose cosine is the mean cosine, through its half angle (accurate near zero)
    hs = [np.sin(np.arctan((q[i] - q[i + 1]) / (y[i + 1] - y[i])) / 2) ** 2 for i in range(len(c) - 1)]
    return {"c4sweep": (2 * np.arcsin(np.sqrt(np.dot(A, hs) / np.sum(A))), "rad")}


def ref_mac(cfg, x):
    y, c, xl = cut(cfg, x)
    # Gauss-Legendre quadrature of the defining integrals (exact for these polynomials)
    t, w = np.polynomial.legendre.leggauss(4)
    Sx = M = X = 0.0
    for i in range(len(c) - 1):
        s = (t + 1) / 2
        ww = w / 2 * (y[i + 1] - y[i])
        cc = c[i] + s * (c[i + 1] - c[i])
        xx = xl[i] + s * (xl[i + 1] - xl[i]) + cc / 4
        Sx += np.sum(ww * cc)
        M += np.sum(ww * cc**2)
        X += np.sum(ww * cc * xx)
    return {"MAC": (M / Sx, "m"), "x_c4MAC": (X / Sx, "m")}


sec_cfgs = [dict(num_sections=n, **k) for n in (2, 3, 4, 5) for k in ({}, dict(idx_sec_start=1), dict(idx_sec_end=n - 2), dict(idx_sec_start=1, idx_sec_end=n - 2))
            if (k.get("idx_sec_end", n - 1) - k.get("idx_sec_start", 0)) >= 1]

GEOMETRY = [
    Entry("WingMACTrapezoidal", mk(GE, "WingMACTrapezoidal", False), {"S_ref": S([26.0, 125.0, 1.0], "m**2"), "AR": S([9.0, 5.0, 14.0]), "taper": S([0.5, 0.05, 1.0, 1.3])},
          lambda c, x: {"MAC": (mac_trap(x["S_ref"], x["AR"], x["taper"]), "m")}, vectorized=False),
    Entry("WingSpan", mk(GE, "WingSpan", False), {"S_ref": S([26.0, 125.0, 1.0], "m**2"), "AR": S([9.0, 5.0, 14.0])}, lambda c, x: {"span": (np.sqrt(x["S_ref"] * x["AR"]), "m")}, vectorized=False),
    Entry("WingAspectRatio", mk(GE, "WingAspectRatio", False), {"S_ref": S([26.0, 125.0, 1.0], "m**2"), "span": S([30.0, 100.0], "ft")}, lambda c, x: {"AR": ((x["span"] * FT) ** 2 / x["S_ref"], None)}, vectorized=False),
    Entry("WingAreaFromSections", mk(GE, "WingAreaFromSections", False), lambda c: ins_sec(c, False), ref_area,
          sec_cfgs + [dict(num_sections=3, chord_frac_start=0.1, chord_frac_end=0.65), dict(num_sections=4, idx_sec_start=1, chord_frac_start=0.2)], vectorized=False),
    Entry("WingSweepFromSections", mk(GE, "WingSweepFromSections", False), ins_sec, ref_sweep, sec_cfgs, vectorized=False, atol=1e-7),
    Entry("WingMACFromSections", mk(GE, "WingMACFromSections", False), ins_sec, ref_mac, sec_cfgs, vectorized=False),
    Entry("CylinderSurfaceArea", mk(GE, "CylinderSurfaceArea", False), {"L": S([10.0, 3.0], "ft"), "D": S([2.0, 0.5], "m")}, lambda c, x: {"A": (np.pi * x["L"] * FT * x["D"], "m**2")}, vectorized=False),
]

# ------------------------------------------------------------------ tails and costs
ST = "openconcept.stability.tail_volume_coefficient_sizing"


def ref_cost(cfg, x):
    o = opt(cfg, n_components=1, n_batteries=None, airframe_cost_per_kg=266.0, fuel_cost_per_kg=2.5 / 3.08, electricity_cost_per_MJ=0.01, aircraft_life_years=15, aircraft_daily_cycles=5,
            battery_replacement_cycles=1500, OEM_premium=1.1)
    n, nb = o["n_components"], o["n_batteries"] or 0
    w = sum(x[f"component_{i+1}_weight"] for i in range(n))
    c = sum(x[f"component_{i+1}_NR_cost"] for i in range(n))
    air = (x["OEW"] - w) * o["airframe_cost_per_kg"] * o["OEM_premium"]
    tot = air + c * o["OEM_premium"]
    fuel = x["fuel_burn"] * o["fuel_cost_per_kg"]
    r = {"airframe_NR_cost": (air, "USD"), "total_NR_cost": (tot, "USD"), "fuel_cost": (fuel, "USD")}
    trip = tot / (o["aircraft_daily_cycles"] * 365 * o["aircraft_life_years"])
    energy = fuel
    if o["n_batteries"] is not None:
        el = sum(x[f"battery_{i+1}_energy_used"] for i in range(nb)) * o["electricity_cost_per_MJ"]
        bat = sum(x[f"battery_{i+1}_NR_cost"] for i in range(nb)) / o["battery_replacement_cycles"]
        r["electricity_cost"], r["trip_battery_cost"] = (el, "USD"), (bat, "USD")
        energy = energy + el
        trip = trip + bat
    r["trip_energy_cost"] = (energy, "USD")
    r["trip_direct_operating_cost"] = (energy + trip, "USD")
    return r


def ins_cost(cfg):
    d = {"OEW": S([2500.0, 9e4], "kg"), "fuel_burn": S([300.0, 0.0, 5000.0], "kg")}
    for i in range(cfg.get("n_components", 1)):
        d[f"component_{i+1}_weight"] = S([200.0 + 30 * i, 0.0], "kg")
        d[f"component_{i+1}_NR_cost"] = S([3e5 + 1e4 * i, 0.0], "USD")
    for i in range(cfg.get("n_batteries") or 0):
        d[f"battery_{i+1}_NR_cost"] = S([5e4 + 1e3 * i, 0.0], "USD")
        d[f"battery_{i+1}_energy_used"] = S([900.0 + 20 * i, 0.0], "MJ")
    return d


cost_odd = dict(airframe_cost_per_kg=310.0, fuel_cost_per_kg=1.1, electricity_cost_per_MJ=0.03, aircraft_life_years=20, aircraft_daily_cycles=3, battery_replacement_cycles=900, OEM_premium=1.25)
SIZING = [
    Entry("HStabVolumeCoefficientSizing", mk(ST, "HStabVolumeCoefficientSizing", False),
          {"ac|geom|wing|S_ref": S([125.0, 26.0], "m**2"), "ac|geom|wing|MAC": S([4.0, 1.5], "m"), "ac|geom|hstab|c4_to_wing_c4": S([17.0, 5.0], "m")},
          lambda c, x: {"ac|geom|hstab|S_ref": (c.get("C_ht", 1.0) * x["ac|geom|wing|MAC"] * x["ac|geom|wing|S_ref"] / x["ac|geom|hstab|c4_to_wing_c4"], "m**2")}, [dict(), dict(C_ht=0.9)], vectorized=False),
    Entry("VStabVolumeCoefficientSizing", mk(ST, "VStabVolumeCoefficientSizing", False),
          {"ac|geom|wing|S_ref": S([125.0, 26.0], "m**2"), "ac|geom|wing|AR": S([9.45, 5.0]), "ac|geom|vstab|c4_to_wing_c4": S([17.0, 5.0], "m")},
          lambda c, x: {"ac|geom|vstab|S_ref": (c.get("C_vt", 0.09) * np.sqrt(x["ac|geom|wing|AR"] * x["ac|geom|wing|S_ref"]) * x["ac|geom|wing|S_ref"] / x["ac|geom|vstab|c4_to_wing_c4"], "m**2")},
          [dict(), dict(C_vt=0.08)], vectorized=False),
    Entry("TurbopropOperatingCost", mk("openconcept.costs.costs_commuter", "TurbopropOperatingCost", False), ins_cost, ref_cost,
          [dict(n_components=n, n_batteries=b, **k) for n in (1, 2, 3) for b in (None, 1, 2) for k in ({}, cost_odd)], vectorized=False, budget=2000, dbudget=20),
]

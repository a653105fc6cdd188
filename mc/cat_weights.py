"""Empty weight buildups: small turboprops, series hybrid twin, jet transport, blended wing body.

Reference formulas: Raymer (1992) ch. 15, Torenbeek/General Dynamics in Roskam part V, FLOPS, Bradley's BWB
regressions; lb, ft, ft2, hp, lbf, kn, psi throughout.
"""
import numpy as np

from mc.catalog import Entry, S
from mc.cat_propulsion import mk, opt

W = "openconcept.weights"
KG = 1 / 0.45359237

A = {
    "ac|weights|MTOW": S([7394.0, 1.8e5, 1.05e4], "lb"),
    "ac|weights|MLW": S([7000.0, 1.5e5], "lb"),
    "ac|weights|W_fuel_max": S([2000.0, 4.6e4, 500.0], "lb"),
    "ac|geom|wing|S_ref": S([193.75, 1345.0], "ft**2"),
    "ac|geom|wing|AR": S([8.9, 12.0], None),
    "ac|geom|wing|c4sweep": S([0.02, 0.44, 0.0, -0.3], "rad"),
    "ac|geom|wing|taper": S([0.622, 1.0, 0.16], None),
    "ac|geom|wing|toverc": S([0.16, 0.1], None),
    "ac|q_cruise": S([135.4, 40.0], "lb*ft**-2"),
    "ac|geom|hstab|S_ref": S([47.5, 350.0], "ft**2"),
    "ac|geom|vstab|S_ref": S([31.36, 284.0], "ft**2"),
    "ac|geom|hstab|AR": S([4.13, 6.16], None),
    "ac|geom|hstab|c4sweep": S([0.1, 0.52, 0.0], "rad"),
    "ac|geom|hstab|c4_to_wing_c4": S([17.9, 56.0], "ft"),
    "ac|geom|vstab|AR": S([1.2, 1.94], None),
    "ac|geom|vstab|c4sweep": S([0.2, 0.61, 0.0], "rad"),
    "ac|geom|vstab|toverc": S([0.12, 0.08], None),
    "ac|geom|vstab|c4_to_wing_c4": S([20.0, 52.0], "ft"),
    "ac|geom|fuselage|length": S([27.39, 124.75], "ft"),
    "ac|geom|fuselage|height": S([5.555, 13.0], "ft"),
    "ac|geom|fuselage|width": S([4.58, 12.0], "ft"),
    "ac|geom|fuselage|S_wet": S([392.0, 4500.0], "ft**2"),
    "ac|geom|maingear|length": S([4.0, 6.0], "ft"),
    "ac|geom|nosegear|length": S([3.0, 4.5], "ft"),
    "ac|geom|maingear|num_wheels": S([4.0, 12.0], None),
    "ac|geom|maingear|num_shock_struts": S([2.0, 4.0], None),
    "ac|geom|nosegear|num_wheels": S([2.0, 1.0], None),
    "ac|aero|Vstall_land": S([115.0, 61.0], "kn"),
    "ac|aero|Mach_max": S([0.82, 0.5], None),
    "ac|propulsion|engine|rating": S([2.7e4, 9e4], "lbf"),
    "ac|propulsion|num_engines": S([2.0, 1.0, 4.0], None),
    "ac|num_passengers_max": S([6.0, 189.0], None),
    "ac|num_flight_deck_crew": S([2.0, 1.0], None),
    "ac|num_cabin_crew": S([4.0, 0.0], None),
    "ac|cabin_pressure": S([8.95, 5.0], "psi"),
    "P_TO": S([850.0, 1700.0], "hp"),
    "W_engine": S([475.0, 5e3], "lb"),
    "W_propeller": S([150.0, 300.0], "lb"),
    "W_motors": S([210.0, 0.0], "lb"),
    "W_generator": S([90.0, 400.0], "lb"),
    "W_fuelsystem": S([120.0, 900.0], "lb"),
    "ac|geom|V_pressurized": S([3000.0, 2.5e4], "ft**3"),
    "HstabConst": S([1.2, 1.4], None),
    "K_ws": S([0.05, 0.3], None),
    "ac|geom|centerbody|S_cabin": S([2000.0, 3500.0], "ft**2"),
    "ac|geom|centerbody|S_aftbody": S([700.0, 1500.0], "ft**2"),
    "ac|geom|centerbody|taper_aftbody": S([0.6, 0.3], None),
}


def pick(*names, inch=False, **over):
    d = {n: A[n] for n in names}
    d.update(over)
    if inch:
        for n in ("ac|geom|maingear|length", "ac|geom|nosegear|length"):
            if n in d:
                d[n] = S([90.0, 130.0], "inch")
    return d


# ---------------------------------------------------------------- small turboprops
N_SMALL = 3.8 * 1.5


def wing_small(o, x):
    n = o.get("n_ult", N_SMALL)
    L = x["ac|geom|wing|c4sweep"]
    return (0.036 * x["ac|geom|wing|S_ref"] ** 0.758 * x["ac|weights|W_fuel_max"] ** 0.0035 * (x["ac|geom|wing|AR"] / np.cos(L) ** 2) ** 0.6
            * x["ac|q_cruise"] ** 0.006 * x["ac|geom|wing|taper"] ** 0.04 * (100 * x["ac|geom|wing|toverc"] / np.cos(L)) ** -0.3 * (n * x["ac|weights|MTOW"]) ** 0.49)


def emp_small(o, x):
    return 0.04 * (o.get("n_ult", N_SMALL) * (x["ac|geom|hstab|S_ref"] + x["ac|geom|vstab|S_ref"]) ** 2) ** 0.75


def fus_small(o, x):
    n = o.get("n_ult", N_SMALL)
    L, h, w = (x["ac|geom|fuselage|" + k] for k in ("length", "height", "width"))
    shell = 0.052 * x["ac|geom|fuselage|S_wet"] ** 1.086 * (n * x["ac|weights|MTOW"]) ** 0.177 * x["ac|geom|hstab|c4_to_wing_c4"] ** -0.051 * (L / h) ** -0.072 * x["ac|q_cruise"] ** 0.241
    return shell + 11.9 * (np.pi * (w + h) / 2 * L * 0.8 * 8) ** 0.271


def gear_small(o, x):
    nW = o.get("n_ult", N_SMALL) * x["ac|weights|MLW"]
    return 0.095 * nW**0.768 * (x["ac|geom|maingear|length"] / 12) ** 0.409 + 0.125 * nW**0.566 * (x["ac|geom|nosegear|length"] / 12) ** 0.845


def fuelsys_small(o, x):
    return 2.49 * (x["ac|weights|W_fuel_max"] / o.get("Kfsp", 6.55)) ** 0.726 * 0.5**0.363


def equip_small(o, x, Wfs=None):
    Wfs = x["W_fuelsystem"] if Wfs is None else Wfs
    M, N = x["ac|weights|MTOW"], x["ac|num_passengers_max"]
    b = np.sqrt(x["ac|geom|wing|S_ref"] * x["ac|geom|wing|AR"])
    av = 2.117 * 110**0.933
    return (0.23 * M**0.666 + 0.2673 * (x["ac|geom|fuselage|length"] * b) ** 0.937 + av + 12.57 * (Wfs + av) ** 0.51
            + 0.265 * M**0.52 * N**0.68 * av**0.17 * 0.95 + 30 + 1.2 * N + 0.412 * N**1.145 * M**0.489 + 0.003 * M)


def small_empty(extra):
    def ref(cfg, x):
        w = dict(W_wing=wing_small({}, x), W_fuselage=fus_small({}, x), W_nacelle=2.5 * x["P_TO"] ** 0.5, W_empennage=emp_small({}, x), W_gear=gear_small({}, x))
        fs = fuelsys_small({}, x)
        eq = equip_small({}, x, fs)
        st = sum(w.values())
        oew = 1.6 * st + fs + eq + 20 * KG + sum(x[k] for k in extra)
        out = {k: (v, "lb") for k, v in w.items()}
        out.update({"W_fuelsystem": (fs, "lb"), "W_equipment": (eq, "lb"), "W_structure": (st, "lb"), "W_structure_adjusted": (1.6 * st, "lb"), "OEW": (oew, "lb")})
        return out

    return ref


def one(name, fn):
    return lambda cfg, x: {name: (fn(cfg, x), "lb")}


WING_S = ["ac|weights|MTOW", "ac|weights|W_fuel_max"] + ["ac|geom|wing|" + k for k in ("S_ref", "AR", "c4sweep", "taper", "toverc")] + ["ac|q_cruise"]
EMP_S = ["ac|geom|hstab|S_ref", "ac|geom|vstab|S_ref"]
FUS_S = ["ac|weights|MTOW", "ac|geom|fuselage|length", "ac|geom|fuselage|height", "ac|geom|fuselage|width", "ac|geom|fuselage|S_wet", "ac|geom|hstab|c4_to_wing_c4", "ac|q_cruise"]
GEAR_S = ["ac|weights|MLW", "ac|geom|maingear|length", "ac|geom|nosegear|length"]
EQ_S = ["ac|weights|MTOW", "ac|num_passengers_max", "ac|geom|fuselage|length", "ac|geom|wing|AR", "ac|geom|wing|S_ref"]
NULT = [{}, dict(n_ult=3.75), dict(n_ult=9.0)]


def uniq(*ls):
    out = []
    for l in ls:
        for k in l:
            if k not in out:
                out.append(k)
    return out


ALL_S = uniq(WING_S, EMP_S, FUS_S, GEAR_S, EQ_S, ["P_TO"])


def E(cls, ins, ref, cfgs=({},), path=W, **kw):
    return Entry(cls, mk(path, cls, nodes=False), ins, ref, cfgs=cfgs, vectorized=False, nodes=False, rtol=1e-10, budget=kw.pop("budget", 600), **kw)


SMALL = [
    E("WingWeight_SmallTurboprop", pick(*WING_S), one("W_wing", wing_small), NULT),
    E("EmpennageWeight_SmallTurboprop", pick(*EMP_S), one("W_empennage", emp_small), NULT),
    E("FuselageWeight_SmallTurboprop", pick(*FUS_S), one("W_fuselage", fus_small), NULT),
    E("NacelleWeight_SmallSingleTurboprop", pick("P_TO"), one("W_nacelle", lambda o, x: 2.5 * np.sqrt(x["P_TO"]))),
    E("NacelleWeight_MultiTurboprop", pick("P_TO"), one("W_nacelle", lambda o, x: 0.14 * x["P_TO"])),
    E("LandingGearWeight_SmallTurboprop", pick(*GEAR_S), one("W_gear", gear_small), NULT),
    E("FuelSystemWeight_SmallTurboprop", pick("ac|weights|W_fuel_max"), one("W_fuelsystem", fuelsys_small), [{}, dict(Kfsp=6.0)]),
    E("EquipmentWeight_SmallTurboprop", pick(*EQ_S, "W_fuelsystem"), one("W_equipment", lambda o, x: equip_small(o, x))),
    E("SingleTurboPropEmptyWeight", pick(*ALL_S, "W_engine", "W_propeller"), small_empty(["W_engine", "W_propeller"]), defaults=True, dbudget=10),
    E("TwinSeriesHybridEmptyWeight", pick(*ALL_S, "W_engine", "W_propeller", "W_motors", "W_generator"), small_empty(["W_engine", "W_propeller", "W_motors", "W_generator"]), defaults=True, dbudget=10),
]

# ---------------------------------------------------------------- jet transport
NJ = 2.5 * 1.5
NL = 2.8 * 1.5


def wing_jet(o, x):
    Sw = x["ac|geom|wing|S_ref"]
    return (0.0051 * (x["ac|weights|MTOW"] * o.get("n_ult", NJ)) ** 0.557 * Sw**0.649 * x["ac|geom|wing|AR"] ** 0.5 * x["ac|geom|wing|toverc"] ** -0.4
            * (1 + x["ac|geom|wing|taper"]) ** 0.1 / np.cos(x["ac|geom|wing|c4sweep"]) * (o.get("control_surface_area_frac", 0.1) * Sw) ** 0.1)


def hconst(o, x):
    return 1 + x["ac|geom|fuselage|height"] * o.get("fuselage_width_frac", 0.5) / np.sqrt(x["ac|geom|hstab|S_ref"] * x["ac|geom|hstab|AR"])


def hstab_jet(o, x, hc=None):
    hc = x["HstabConst"] if hc is None else hc
    Lt = x["ac|geom|hstab|c4_to_wing_c4"]
    return (0.0379 * o.get("K_uht", 1.0) * hc**-0.25 * x["ac|weights|MTOW"] ** 0.639 * o.get("n_ult", NJ) ** 0.1 * x["ac|geom|hstab|S_ref"] ** 0.75
            / Lt * (0.3 * Lt) ** 0.704 / np.cos(x["ac|geom|hstab|c4sweep"]) * x["ac|geom|hstab|AR"] ** 0.166 * (1 + o.get("elevator_area_frac", 0.2)) ** 0.1)


def vstab_jet(o, x):
    Lt = x["ac|geom|vstab|c4_to_wing_c4"]
    return (0.0026 * (2.0 if o.get("T_tail") else 1.0) ** 0.225 * x["ac|weights|MTOW"] ** 0.556 * o.get("n_ult", NJ) ** 0.536 * Lt**-0.5 * x["ac|geom|vstab|S_ref"] ** 0.5
            * Lt**0.875 / np.cos(x["ac|geom|vstab|c4sweep"]) * x["ac|geom|vstab|AR"] ** 0.35 * x["ac|geom|vstab|toverc"] ** -0.5)


def kws(o, x):
    t = x["ac|geom|wing|taper"]
    return 0.75 * (1 + 2 * t) / (1 + t) * np.sqrt(x["ac|geom|wing|S_ref"] * x["ac|geom|wing|AR"]) * np.tan(x["ac|geom|wing|c4sweep"]) / x["ac|geom|fuselage|length"]


def fus_jet(o, x, k=None):
    k = x["K_ws"] if k is None else k
    L = x["ac|geom|fuselage|length"]
    return (0.328 * o.get("K_door", 1) * o.get("K_lg", 1) * (x["ac|weights|MTOW"] * o.get("n_ult", NJ)) ** 0.5 * L**0.25 * x["ac|geom|fuselage|S_wet"] ** 0.302
            * (1 + k) ** 0.04 * (L / x["ac|geom|fuselage|height"]) ** 0.1)


def mlg(o, x):
    return (0.0106 * o.get("kneeling_gear_parameter", 1) * x["ac|weights|MLW"] ** 0.888 * o.get("n_land_ult", NL) ** 0.25 * x["ac|geom|maingear|length"] ** 0.4
            * x["ac|geom|maingear|num_wheels"] ** 0.321 * x["ac|geom|maingear|num_shock_struts"] ** -0.5 * x["ac|aero|Vstall_land"] ** 0.1)


def nlg(o, x):
    return 0.032 * o.get("kneeling_gear_parameter", 1) * x["ac|weights|MLW"] ** 0.646 * o.get("n_land_ult", NL) ** 0.2 * x["ac|geom|nosegear|length"] ** 0.5 * x["ac|geom|nosegear|num_wheels"] ** 0.45


def engsys(x, We):
    T, N = x["ac|propulsion|engine|rating"], x["ac|propulsion|num_engines"]
    return dict(
        W_thrust_rev=0.034 * T * N,
        W_eng_control=0.26 * N * np.sqrt(T),
        W_fuelsystem=1.07 * x["ac|weights|W_fuel_max"] ** 0.58 * N**0.43 * x["ac|aero|Mach_max"] ** 0.34,
        W_eng_start=9.33 * (We / 1000) ** 1.078 * N,
    )


def furnish(o, x):
    n = x["ac|num_passengers_max"]
    return (55 * x["ac|num_flight_deck_crew"] + 32 * n + 15 * x["ac|num_cabin_crew"] + o.get("K_lav", 0.7) * n**1.33 + o.get("K_buf", 4.0) * n**1.12
            + 109 * (n * (1 + x["ac|cabin_pressure"]) / 100) ** 0.505 + 0.771e-3 * x["ac|weights|MTOW"])


def equip_jet(o, x, V, fs):
    M, npil, neng = x["ac|weights|MTOW"], x["ac|num_flight_deck_crew"], x["ac|propulsion|num_engines"]
    ppl = npil + x["ac|num_cabin_crew"] + x["ac|num_passengers_max"]
    av = o.get("coeff_avionics", 0.5) * (npil * (15 + 0.032e-3 * M) + neng * (5 + 0.006e-3 * M) + (0.15e-3 + 0.012) * M)
    return dict(
        W_flight_controls=o.get("coeff_fc", 1.2 * 0.64) * M ** (2 / 3),
        W_avionics=av,
        W_electrical=1163 * ((fs + av) / 1000) ** 0.506,
        W_ac_pressurize_antiice=469 * (V * ppl / 1e4) ** 0.419,
        W_oxygen=7 * ppl**0.702,
        W_APU=o.get("APU_weight_frac", 0.0085) * M,
    )


def lb(d):
    return {k: (v, "lb") for k, v in d.items()}


def total(o, x, structure, fudge, tfudge, V):
    We = x["ac|propulsion|engine|rating"] / 5.5
    out = dict(structure)
    st = fudge * (o.get("wing_weight_multiplier", 1.0) * structure["W_wing"] + sum(v for k, v in structure.items() if k != "W_wing"))
    rest = dict(W_engines=We * x["ac|propulsion|num_engines"])
    rest.update(engsys(x, We))
    rest["W_furnishings"] = furnish(o, x)
    rest.update(equip_jet(o, x, V, rest["W_fuelsystem"]))
    out.update(rest)
    out["W_structure"] = st
    out["OEW"] = tfudge * (st + sum(rest.values()))
    return lb(out)


def jet_empty(cfg, x):
    o = cfg
    og = dict(n_land_ult=o.get("n_land_ult", NL))
    st = dict(
        W_wing=wing_jet(o, x), W_hstab=hstab_jet(o, x, hconst(o, x)), W_vstab=vstab_jet(o, x), W_fuselage=fus_jet(o, x, kws(o, x)),
        W_mlg=mlg(dict(og, kneeling_gear_parameter=o.get("kneeling_main_gear_parameter", 1)), x),
        W_nlg=nlg(dict(og, kneeling_gear_parameter=o.get("kneeling_nose_gear_parameter", 1)), x),
        W_nacelle=0.065 * x["ac|propulsion|engine|rating"] * x["ac|propulsion|num_engines"],
    )
    V = np.pi / 4 * x["ac|geom|fuselage|height"] ** 2 * x["ac|geom|fuselage|length"] * o.get("cabin_length_frac", 0.75)
    return total(o, x, st, o.get("structural_fudge", 1.2), o.get("total_fudge", 1.15), V)


def bwb_empty(cfg, x):
    o = cfg
    og = dict(n_land_ult=o.get("n_land_ult", NL))
    st = dict(
        W_wing=wing_jet(o, x), W_cabin=cabin(o, x), W_aftbody=aft(o, x),
        W_mlg=mlg(dict(og, kneeling_gear_parameter=o.get("kneeling_main_gear_parameter", 1)), x),
        W_nlg=nlg(dict(og, kneeling_gear_parameter=o.get("kneeling_nose_gear_parameter", 1)), x),
        W_nacelle=0.065 * x["ac|propulsion|engine|rating"] * x["ac|propulsion|num_engines"],
    )
    return total(o, x, st, o.get("structural_fudge", 1.0), o.get("total_fudge", 1.0), x["ac|geom|V_pressurized"])


def cabin(o, x):
    return 1.803246 * x["ac|weights|MTOW"] ** 0.166552 * x["ac|geom|centerbody|S_cabin"] ** 1.061158


def aft(o, x):
    return 0.53 * (1 + 0.05 * x["ac|propulsion|num_engines"]) * x["ac|geom|centerbody|S_aftbody"] * x["ac|weights|MTOW"] ** 0.2 * (x["ac|geom|centerbody|taper_aftbody"] + 0.5)


WING_J = ["ac|weights|MTOW"] + ["ac|geom|wing|" + k for k in ("S_ref", "AR", "c4sweep", "taper", "toverc")]
H_J = ["ac|weights|MTOW", "ac|geom|hstab|S_ref", "ac|geom|hstab|AR", "ac|geom|hstab|c4sweep", "ac|geom|hstab|c4_to_wing_c4"]
V_J = ["ac|weights|MTOW", "ac|geom|vstab|S_ref", "ac|geom|vstab|AR", "ac|geom|vstab|c4sweep", "ac|geom|vstab|toverc", "ac|geom|vstab|c4_to_wing_c4"]
KWS = ["ac|geom|wing|taper", "ac|geom|wing|S_ref", "ac|geom|wing|AR", "ac|geom|wing|c4sweep", "ac|geom|fuselage|length"]
FUS_J = ["ac|weights|MTOW", "ac|geom|fuselage|length", "ac|geom|fuselage|S_wet", "ac|geom|fuselage|height"]
MLG = ["ac|weights|MLW", "ac|geom|maingear|length", "ac|geom|maingear|num_wheels", "ac|geom|maingear|num_shock_struts", "ac|aero|Vstall_land"]
NLG = ["ac|weights|MLW", "ac|geom|nosegear|length", "ac|geom|nosegear|num_wheels"]
ENG = ["ac|propulsion|engine|rating", "ac|propulsion|num_engines", "ac|aero|Mach_max", "ac|weights|W_fuel_max"]
FURN = ["ac|num_passengers_max", "ac|num_flight_deck_crew", "ac|num_cabin_crew", "ac|cabin_pressure", "ac|weights|MTOW"]
EQ_J = ["ac|weights|MTOW", "ac|num_passengers_max", "ac|num_cabin_crew", "ac|num_flight_deck_crew", "ac|propulsion|num_engines"]
LAND = [{}, dict(n_land_ult=3.0), dict(kneeling_gear_parameter=1.15), dict(n_land_ult=4.5, kneeling_gear_parameter=1.126)]
GROUP_OPTS = [
    {}, dict(structural_fudge=1.4), dict(total_fudge=1.3), dict(wing_weight_multiplier=1.7), dict(n_ult=5.0), dict(n_land_ult=5.0), dict(control_surface_area_frac=0.25),
    dict(kneeling_main_gear_parameter=1.126), dict(kneeling_nose_gear_parameter=1.15), dict(K_lav=1.11), dict(K_buf=1.02), dict(coeff_fc=0.44), dict(coeff_avionics=0.9), dict(APU_weight_frac=0.004),
    dict(structural_fudge=1.1, total_fudge=1.05, wing_weight_multiplier=0.9, n_ult=4.5, K_lav=0.31, K_buf=5.68, coeff_fc=0.64, coeff_avionics=1.0, APU_weight_frac=0.01),
]
JET_OPTS = GROUP_OPTS + [dict(fuselage_width_frac=0.8), dict(K_uht=1.143), dict(elevator_area_frac=0.35), dict(T_tail=True), dict(K_door=1.25), dict(K_lg=1.12), dict(cabin_length_frac=0.5)]

JET = [
    E("WingWeight_JetTransport", pick(*WING_J), one("W_wing", wing_jet), [{}, dict(n_ult=5.7), dict(control_surface_area_frac=0.3)]),
    E("HstabConst_JetTransport", pick("ac|geom|hstab|S_ref", "ac|geom|hstab|AR", "ac|geom|fuselage|height"), lambda c, x: {"HstabConst": (hconst(c, x), None)}, [{}, dict(fuselage_width_frac=0.0), dict(fuselage_width_frac=0.9)]),
    E("HstabWeight_JetTransport", pick(*H_J, "HstabConst"), one("W_hstab", hstab_jet), [{}, dict(n_ult=5.7), dict(K_uht=1.143), dict(elevator_area_frac=0.4)]),
    E("VstabWeight_JetTransport", pick(*V_J), one("W_vstab", vstab_jet), [{}, dict(n_ult=5.7), dict(T_tail=True)]),
    E("FuselageKws_JetTransport", pick(*KWS), lambda c, x: {"K_ws": (kws(c, x), None)}),
    E("FuselageWeight_JetTransport", pick(*FUS_J, "K_ws"), one("W_fuselage", fus_jet), [{}, dict(n_ult=5.7), dict(K_door=1.12), dict(K_lg=1.12), dict(K_door=1.25, K_lg=1.12)]),
    E("MainLandingGearWeight_JetTransport", pick(*MLG, inch=True), one("W_mlg", mlg), LAND),
    E("NoseLandingGearWeight_JetTransport", pick(*NLG, inch=True), one("W_nlg", nlg), LAND),
    E("EngineWeight_JetTransport", pick("ac|propulsion|engine|rating"), one("W_engine", lambda o, x: x["ac|propulsion|engine|rating"] / 5.5)),
    E("EngineSystemsWeight_JetTransport", pick(*ENG, "W_engine"), lambda c, x: lb(engsys(x, x["W_engine"]))),
    E("NacelleWeight_JetTransport", pick(*ENG[:2]), one("W_nacelle", lambda o, x: 0.065 * x["ac|propulsion|engine|rating"] * x["ac|propulsion|num_engines"])),
    E("FurnishingWeight_JetTransport", pick(*FURN), one("W_furnishings", furnish), [{}, dict(K_lav=0.31), dict(K_buf=5.68)]),
    E("EquipmentWeight_JetTransport", pick(*EQ_J, "ac|geom|V_pressurized", "W_fuelsystem"), lambda c, x: lb(equip_jet(c, x, x["ac|geom|V_pressurized"], x["W_fuelsystem"])), [{}, dict(coeff_fc=0.44), dict(coeff_avionics=1.0), dict(APU_weight_frac=0.013)]),
    E("JetTransportEmptyWeight", pick(*uniq(WING_J, H_J, V_J, KWS, FUS_J, MLG, NLG, ENG, FURN, EQ_J), inch=True), jet_empty, JET_OPTS, defaults=True, budget=100, dbudget=8, dcfgs=4),
]

BWB = [
    E("CabinWeight_BWB", pick("ac|geom|centerbody|S_cabin", "ac|weights|MTOW"), one("W_cabin", cabin)),
    E("AftbodyWeight_BWB", pick("ac|geom|centerbody|S_aftbody", "ac|geom|centerbody|taper_aftbody", "ac|propulsion|num_engines", "ac|weights|MTOW"), one("W_aftbody", aft)),
    E("BWBEmptyWeight", pick(*uniq(["ac|geom|centerbody|S_cabin", "ac|geom|centerbody|S_aftbody", "ac|geom|centerbody|taper_aftbody"], WING_J, MLG, NLG, ENG, FURN, EQ_J, ["ac|geom|V_pressurized"]), inch=True), bwb_empty, GROUP_OPTS, defaults=True, budget=100, dbudget=8, dcfgs=4),
]
WEIGHTS = SMALL + JET + BWB
SMALL_, JET_, BWB_ = SMALL, JET, BWB
del SMALL, JET, BWB

"""Assembled propulsion systems: engines, motors, propellers, power splits, batteries and their cooling."""
import numpy as np

from mc.cat_ducts import GAM, IN2, RGAS, duct, ref_incomp
from mc.cat_propulsion import mk, prop_ref, ref_prop
from mc.cat_thermal import cop_formula, newton, ref_hx, ref_lcc, ref_reservoir, ref_selector
from mc.catalog import Entry, S, V
from mc.omx import om

P = "openconcept.propulsion"
THROTTLE = V([0.6, 0.0, 1.0, 0.3, 1.05])
RHO = V([1.1, 1.225, 0.6], "kg/m**3")
UTRUE = V([70.0, 0.0, 8.0, 15.0, 130.0], "m/s")
RPM = V([1900.0, 2100.0], "rpm")
ACTIVE = V([1.0, 0.0])
ENG, PROPD, MOT, GEN, WB = "ac|propulsion|engine|rating", "ac|propulsion|propeller|diameter", "ac|propulsion|motor|rating", "ac|propulsion|generator|rating", "ac|weights|W_battery"
PSFC = 0.6 * 1.68965774e-7
HP = om.convert_units(1.0, "hp", "W")


def sysmk(cls, solver=None):
    m = mk(P, cls)

    def make(cfg, nn):
        g = om.Group()
        g.add_subsystem("sys", m(cfg, nn), promotes=["*"])
        if solver:
            solver(g)
        return g

    return make


def thrust(x, prop, P_shaft, D, rating_W, blades=4):
    r = ref_prop({"num_blades": blades}, {"shaft_power_in": P_shaft, "rpm": x[prop + ".rpm"], "fltcond|rho": x["fltcond|rho"], "fltcond|Utrue": x["fltcond|Utrue"], "diameter": D, "power_rating": rating_W / HP})
    return r["thrust"][0], r["component_weight"][0] * 0.45359237


def engine_weight(rating):
    return rating * 0.14 / 1000 + 104


# ---------------------------------------------------------------- turboprops
def ref_turboprop(cfg, x):
    R, D = x[ENG] * HP, x[PROPD]
    T, W = thrust(x, "prop1", x["throttle"] * R, D, R)
    return {
        "thrust": (T, "N"),
        "fuel_flow": (PSFC * x["throttle"] * R, "kg/s"),
        "prop1.component_weight": (W, "kg"),
        "eng1.component_weight": (engine_weight(R), "kg"),
        "eng1_rating": (R, "W"),
        "prop1_diameter": (D, "m"),
    }


def ref_twin(cfg, x):
    R, D = x[ENG] * HP, x[PROPD]
    t2 = x["throttle"] * x["propulsor_active"]
    T1, W = thrust(x, "prop1", x["throttle"] * R, D, R)
    T2, _ = thrust(x, "prop2", t2 * R, D, R)
    return {
        "thrust": (T1 + T2, "N"),
        "fuel_flow": (PSFC * (x["throttle"] + t2) * R, "kg/s"),
        "propellers_weight": (2 * W, "kg"),
        "engines_weight": (2 * engine_weight(R), "kg"),
    }


TURBO = {"throttle": THROTTLE, "fltcond|rho": RHO, "fltcond|Utrue": UTRUE, "prop1.rpm": RPM, ENG: S([850.0, 500.0, 1400.0], "hp"), PROPD: S([2.3, 2.0, 2.8], "m")}
TWIN = dict(TURBO, **{"propulsor_active": ACTIVE, "prop2.rpm": V([1900.0, 2000.0], "rpm")})

# ---------------------------------------------------------------- series hybrids
ETA = 0.97
HYB_S = {ENG: S([260.0, 150.0], "kW"), PROPD: S([2.5, 2.2], "m"), MOT: S([240.0, 400.0], "kW"), GEN: S([250.0, 120.0], "kW"), WB: S([2000.0, 300.0], "kg")}
FRAC = V([0.4, 0.0, 1.0, 0.75])


def hybrid(x, twin, extra_load=0.0):
    """Loads, thrust and weights down to the power split; extra_load joins the motors at the split."""
    R, D = x[MOT] * 1e3, x[PROPD]
    t1 = x["throttle"]
    L1 = t1 * R
    T, W = thrust(x, "prop1", ETA * L1, D, R)
    n = 1
    L = L1
    if twin:
        L2 = t1 * x["propulsor_active"] * R
        T2, _ = thrust(x, "prop2", ETA * L2, D, R)
        T, L, n = T + T2, L1 + L2, 2
    tot = L + extra_load
    A = tot * x["hybrid_split.power_split_fraction"]
    return dict(T=T, motors=L, total=tot, A=A, B=tot - A, Wp=n * W, Wm=n * R / 5000, heat=(1 - ETA) * L)


def soc(x, A, e):
    from mc.checks.c01_integrators import refM

    nn = len(A)
    E = x[WB] * e * 3600.0
    return x["batt1.SOC_initial"] - x["duration"] / max(nn - 1, 1) * refM("simpson", nn).dot(A) / E


def ref_series_twin(cfg, x):
    h = hybrid(x, True)
    s = soc(x, h["A"], x["specific_energy"])
    return {
        "thrust": (h["T"], "N"),
        "motors_elec_load": (h["motors"], "W"),
        "battery_load": (h["A"], "W"),
        "gen1.elec_power_out": (h["B"], "W"),
        "fuel_flow": (PSFC * h["B"] / ETA, "kg/s"),
        "eng_throttle_set.eng_throttle": (h["B"] / ETA / (x[ENG] * 1e3), None),
        "gen1.component_sizing_margin": (h["B"] / (x[GEN] * 1e3), None),
        "eng1.component_weight": (engine_weight(x[ENG] * 1e3), "kg"),
        "gen1.component_weight": (x[GEN] * 1e3 / 5000, "kg"),
        "motors_weight": (h["Wm"], "kg"),
        "propellers_weight": (h["Wp"], "kg"),
        "batt1.heat_out": ((1 - ETA) * h["A"], "W"),
        "batt1.component_sizing_margin": (h["A"] / (5000 * x[WB]), None),
        "batt1.SOC": (s, None),
        "batt1.SOC_final": (s[-1:], None),
    }


HYB_V = {"throttle": THROTTLE, "propulsor_active": ACTIVE, "fltcond|rho": RHO, "fltcond|Utrue": UTRUE, "hybrid_split.power_split_fraction": FRAC, "prop1.rpm": RPM, "prop2.rpm": RPM}
BE = "ac|propulsion|battery|specific_energy"
HYB = dict(HYB_V, **HYB_S, **{BE: S([300.0, 500.0], "W*h/kg"), "duration": S([600.0, 3600.0], "s"), "batt1.SOC_initial": S([1.0, 0.4])})


def ref_series_one(cfg, x):
    """The explicit layouts: the engine throttle is an input, the generator and the split are compared by the user."""
    y = dict(x)
    if "motor1.throttle" in x:
        y["throttle"] = x["motor1.throttle"]
    else:
        y.update({PROPD: x["dv_prop1_diameter"], MOT: x["dv_motor1_rating"], GEN: x["dv_gen1_rating"], WB: x["dv_batt1_weight"]})
    h = hybrid(y, False)
    G = ETA * x["eng1.throttle"] * x[ENG] * 1e3
    d = {
        "thrust": (h["T"], "N"),
        "fuel_flow": (PSFC * x["eng1.throttle"] * x[ENG] * 1e3, "kg/s"),
        "gen1.elec_power_out": (G, "W"),
        "gen1.component_sizing_margin": (G / (y[GEN] * 1e3), None),
        "hybrid_split.power_out_A": (h["A"], "W"),
        "hybrid_split.power_out_B": (h["B"], "W"),
        "batt1.component_sizing_margin": (h["A"] / (5000 * y[WB]), None),
        "batt1.max_energy": (y[WB] * cfg.get("specific_energy", 300.0), "W*h"),
        "motor1.component_weight": (h["Wm"], "kg"),
        "prop1.component_weight": (h["Wp"], "kg"),
    }
    if "motor1.throttle" in x:
        d.update({"eng_gen_resid.eng_gen_residual": (G - h["B"], "W"), "motors_weight": (h["Wm"], "kg"), "propellers_weight": (h["Wp"], "kg"), "eng1.component_weight": (engine_weight(x[ENG] * 1e3), "kg")})
    return d


ONE_V = {"fltcond|rho": RHO, "fltcond|Utrue": UTRUE, "hybrid_split.power_split_fraction": FRAC, "prop1.rpm": RPM, "eng1.throttle": V([0.5, 0.0, 1.1])}
ONE = dict(ONE_V, **{"motor1.throttle": THROTTLE}, **HYB_S)
BARE = dict(ONE_V, throttle=THROTTLE, **{ENG: HYB_S[ENG], "dv_prop1_diameter": HYB_S[PROPD], "dv_motor1_rating": HYB_S[MOT], "dv_gen1_rating": HYB_S[GEN], "dv_batt1_weight": HYB_S[WB]})


# ---------------------------------------------------------------- cooling loops: every law on the values at its documented sources
CH = dict(channel_width="mm", channel_height="mm", channel_length="m", n_parallel=None)


def loops(ctx, e, cfg, x, p, rtol=1e-7):
    """The cooling part of a system, station by station, against the reference of each station."""
    at = lambda n, u=None: np.asarray(p.get_val(n, units=u), dtype=float)
    pre = e.name

    def same(what, got, want, scale=0.0):
        ctx.close(f"{pre}:{what}", got, want, rtol, scale, what, cfg=cfg, inputs={k: np.asarray(v).tolist() for k, v in x.items() if np.size(v) == 1})

    refrig = "Refrigerated" in e.name
    compress = "_Compressible" in e.name
    twin = e.name.startswith("Twin")
    md = x["mdot_coolant"] if "mdot_coolant" in x else x["ac|propulsion|thermal|hx|mdot_coolant"]
    hxk = "ac|propulsion|thermal|hx|"
    geo = {k: x.get(k, x.get(hxk + k)) for k in CH}
    dur = x["duration"]
    if twin:
        heat_m = (1 - ETA) * hybrid(x, True)["motors"]
        mass_m = 2 * x[MOT] * 1e3 / 5000
        A = at("battery_load", "W")
    else:
        L = x["throttle"] * x[MOT] * HP
        heat_m, mass_m = (1 - ETA) * L, x[MOT] * HP / 5000
    same("motor-heat", at("motorheatsink.q_in", "W"), heat_m, 1e-6)
    # where the coolant comes from
    src = {"batt": "refrig.T_out_cold" if refrig else "reservoir.T_out"}
    src["motor"] = "batteryheatsink.T_out" if twin else "reservoir.T_out"
    sinks = [("motorheatsink", src["motor"], heat_m, mass_m)]
    if twin:
        sinks.insert(0, ("batteryheatsink", src["batt"], (1 - ETA) * A, x[WB]))
    for name, s, q, mass in sinks:
        r = ref_lcc({}, dict(geo, q_in=q, T_in=at(s, "K"), mdot_coolant=md, mass=mass, T_initial=x[name + ".T_initial"], duration=dur))
        same(name + ".T", at(name + ".T", "K"), r["T"][0])
        same(name + ".T_out", at(name + ".T_out", "K"), r["T_out"][0])
    hot = at("refrig.T_out_hot" if refrig else "motorheatsink.T_out", "K")
    rho_hot = at("rho_coolant", "kg/m**3")
    n = {"n_wide_cold": 430.0, "n_long_cold": 3.0, "n_tall": 19.0}
    hxg = {hxk + k: x.get(hxk + k, x.get("hx." + hxk + k, v)) for k, v in n.items()}
    if compress:
        want = {"T": [], "m": [], "F": []}
        for i in range(md.size):
            y = dict(p_inf=x["fltcond|p"][i], T_inf=x["fltcond|T"][i], Utrue=x["fltcond|Utrue"][i], heat_in_1=0.0, heat_in_2=0.0, delta_p_1=0.0, delta_p_2=0.0, pressure_recovery_1=1.0, pressure_recovery_2=1.0, pressure_recovery_3=1.0, cp=1002.93, eta_ram=1.0, cfg=0.98, loss_factor_1=0.0)
            y.update(area_1=60 * IN2, area_nozzle=58 * IN2, convergence_hack=-20.0)
            y["hx_area"] = (1.35e-3 + 0.102e-3) * hxg[hxk + "n_wide_cold"] * 19 * (0.014 + 0.001 + 2 * (0.102e-3 + 0.2e-3))

            def hx(m, s2, i=i):
                d = ref_hx({}, dict(hxg, mdot_cold=m, mdot_hot=md[i], T_in_cold=s2["T"], T_in_hot=hot[i], rho_cold=s2["rho"], rho_hot=rho_hot[i]))
                return {k: float(np.ravel(v[0])[0]) for k, v in d.items()}

            s = duct({k: float(np.ravel(v)[0]) for k, v in y.items()}, hx)
            want["T"].append(s["h"]["T_out_hot"])
            want["m"].append(s["mdot"])
            want["F"].append(s["F"])
        same("duct.T_out_hot", at("duct.T_out_hot", "K"), np.array(want["T"]))
        same("duct.mdot", at("duct.mdot", "kg/s"), np.array(want["m"]), 1e-9)
        same("duct.force.F_net", at("duct.force.F_net", "N"), np.array(want["F"]), 1e-4)
        back = "duct.T_out_hot"
    else:
        area = x.get("ac|propulsion|thermal|duct|area_nozzle", x.get("area_nozzle"))
        d = ref_incomp({}, {"fltcond|rho": x["fltcond|rho"], "fltcond|Utrue": x["fltcond|Utrue"], "area_nozzle": area * IN2, "delta_p_hex": at("hx.delta_p_cold", "Pa")})
        same("duct.mdot", at("duct.mdot", "kg/s"), d["mdot"][0])
        same("duct.drag", at("duct.drag", "N"), d["drag"][0], 1e-6)
        h = ref_hx({}, dict(hxg, mdot_cold=at("duct.mdot", "kg/s"), mdot_hot=md, T_in_cold=x["fltcond|T"], T_in_hot=hot, rho_cold=x["fltcond|rho"], rho_hot=rho_hot))
        same("hx.T_out_hot", at("hx.T_out_hot", "K"), h["T_out_hot"][0])
        same("hx.delta_p_cold", at("hx.delta_p_cold", "Pa"), h["delta_p_cold"][0])
        same("hx.component_weight", at("hx.component_weight", "kg"), h["component_weight"][0])
        same("hx.frontal_area", at("hx.frontal_area", "m**2"), h["frontal_area"][0])
        back = "hx.T_out_hot"
    if refrig:
        W = x["ac|propulsion|thermal|refrig|rating"] * 1e3
        C = md * 3801.0
        Tc, Th = at("motorheatsink.T_out", "K"), at("hx.T_out_hot", "K")
        cop = at("refrig.COP")
        same("refrig.COP", cop, cop_formula(Tc - cop * W / C, Th + (cop + 1) * W / C, x["ac|propulsion|thermal|refrig|eff"]))
        t = np.linspace(0, 1, md.size) if md.size > 1 else np.zeros(1)
        b = x["refrig.control.bypass_start"] + (x["refrig.control.bypass_end"] - x["refrig.control.bypass_start"]) * t
        r = ref_selector({}, dict(bypass=b, T_in_hot=Th, T_in_cold=Tc, T_out_refrig_cold=Tc - cop * W / C, T_out_refrig_hot=Th + (cop + 1) * W / C, power_rating=W))
        same("refrig.T_out_cold", at("refrig.T_out_cold", "K"), r["T_out_cold"][0])
        same("refrig.T_out_hot", at("refrig.T_out_hot", "K"), r["T_out_hot"][0])
        same("refrig.elec_load", at("refrig.elec_load", "W"), r["elec_load"][0], 1e-6)
        same("refrig.weight", at("refrig.component_weight", "kg"), W / x["ac|propulsion|thermal|refrig|specific_power"])
        same("split-input", at("total_elec_load", "W"), hybrid(x, True, r["elec_load"][0])["total"], 1e-6)
    else:
        cm = x.get(hxk + "coolant_mass", x.get("coolant_mass"))
        r = ref_reservoir({}, dict(T_in=at(back, "K"), mdot_coolant=md, mass=cm, T_initial=x["reservoir.T_initial"], duration=dur))
        same("reservoir.T_out", at("reservoir.T_out", "K"), r["T_out"][0])


def ref_electric(cfg, x):
    R, D = x[MOT] * HP, x[PROPD]
    L = x["throttle"] * R
    T, _ = thrust(x, "prop1", ETA * L, D, R)
    s = soc(x, L, cfg.get("specific_energy", 300.0))
    back = "duct" if "fltcond|p" in x else "hx"
    return {
        "thrust": (T, "N"),
        "motor1.elec_load": (L, "W"),
        "batt1.SOC": (s, None),
        "batt1.component_sizing_margin": (L / (5000 * x[WB]), None),
        "motorheatsink.T": (None, "K"),
        "reservoir.T_out": (None, "K"),
        "duct.mdot": (None, "kg/s"),
        back + ".T_out_hot": (None, "K"),
    }


def ref_thermal_twin(cfg, x):
    d = ref_series_twin(cfg, x)
    for n in ("motorheatsink.T", "batteryheatsink.T", "reservoir.T_out", "hx.T_out_hot"):
        d[n] = (None, "K")
    d["duct.mdot"] = (None, "kg/s")
    d["duct.drag"] = (None, "N")
    return d


def ref_refrigerated(cfg, x):
    nn = len(x["throttle"])
    t = np.linspace(0, 1, nn) if nn > 1 else np.zeros(1)
    b = x["refrig.control.bypass_start"] + (x["refrig.control.bypass_end"] - x["refrig.control.bypass_start"]) * t
    extra = (1 - b) * x["ac|propulsion|thermal|refrig|rating"] * 1e3 / 0.95
    h = hybrid(x, True, extra)
    s = soc(x, h["A"], x["specific_energy"])
    d = ref_series_twin(cfg, x)
    d.pop("motors_elec_load")
    d.update({
        "total_elec_load": (h["total"], "W"),
        "battery_load": (h["A"], "W"),
        "gen1.elec_power_out": (h["B"], "W"),
        "fuel_flow": (PSFC * h["B"] / ETA, "kg/s"),
        "eng_throttle_set.eng_throttle": (h["B"] / ETA / (x[ENG] * 1e3), None),
        "gen1.component_sizing_margin": (h["B"] / (x[GEN] * 1e3), None),
        "batt1.heat_out": ((1 - ETA) * h["A"], "W"),
        "batt1.component_sizing_margin": (h["A"] / (5000 * x[WB]), None),
        "batt1.SOC": (s, None),
        "batt1.SOC_final": (s[-1:], None),
    })
    for n in ("motorheatsink.T", "batteryheatsink.T", "refrig.T_out_hot", "hx.T_out_hot"):
        d[n] = (None, "K")
    d["duct.mdot"] = (None, "kg/s")
    d["duct.drag"] = (None, "N")
    return d


HX = "ac|propulsion|thermal|hx|"
SINK = {"motorheatsink.T_initial": S([310.0, 330.0], "K"), "duration": S([300.0, 1800.0], "s")}
PLATE = {"channel_width": S([1.0, 2.0], "mm"), "channel_height": S([20.0, 8.0], "mm"), "channel_length": S([0.2, 0.4], "m"), "n_parallel": S([50.0, 20.0])}
AIR = {"fltcond|rho": V([1.0, 0.7], "kg/m**3"), "fltcond|T": V([288.0, 250.0], "K"), "fltcond|Utrue": V([80.0, 60.0, 110.0], "m/s")}
ELEC = dict({"throttle": V([0.6, 0.3, 0.9, 0.0]), "prop1.rpm": V([1900.0, 2000.0], "rpm"), "mdot_coolant": V([0.1, 0.3], "kg/s", out=True), "rho_coolant": V([997.0, 900.0], "kg/m**3", out=True)}, **AIR, **{k: S(i.values, i.units, out=True) for k, i in PLATE.items()}, **SINK, **{
    MOT: S([300.0, 500.0], "hp"), PROPD: S([2.3, 2.1], "m"), WB: S([500.0, 900.0], "kg"), "coolant_mass": S([10.0, 30.0], "kg", out=True), "reservoir.T_initial": S([300.0, 315.0], "K"), "batt1.SOC_initial": S([1.0, 0.6])})
INCOMP = dict(ELEC, **{"area_nozzle": V([58.0, 30.0], "inch**2", out=True), "hx." + HX + "n_wide_cold": S([430.0, 200.0])})
COMP = dict(ELEC, **{"fltcond|p": V([60000.0, 40000.0], "Pa"), "fltcond|Utrue": V([130.0, 170.0], "m/s"), "fltcond|T": V([260.0, 240.0], "K")})
COMP.pop("fltcond|rho")
COMP["fltcond|rho"] = V([0.8, 0.6], "kg/m**3")

AREA = "ac|propulsion|thermal|duct|area_nozzle"
TT_V = {"throttle": V([0.6, 0.3, 0.9, 0.0]), "propulsor_active": ACTIVE, "hybrid_split.power_split_fraction": V([0.4, 0.0, 1.0]), "prop1.rpm": V([1900.0, 2000.0], "rpm"), "prop2.rpm": V([1900.0, 2000.0], "rpm"), HX + "mdot_coolant": V([0.1, 0.3], "kg/s"), "rho_coolant": V([997.0, 900.0], "kg/m**3", out=True), AREA: V([58.0, 30.0], "inch**2")}
TT_S = dict(HYB_S, **SINK, **{HX + k: i for k, i in PLATE.items()}, **{HX + "n_wide_cold": S([430.0, 200.0]), HX + "n_long_cold": S([3.0, 5.0]), HX + "n_tall": S([19.0, 30.0]), "batt1.SOC_initial": S([1.0, 0.4]), "batteryheatsink.T_initial": S([300.0, 290.0], "K")})
TT = dict(TT_V, **AIR, **TT_S, **{AREA: V([58.0, 30.0], "inch**2", out=True), BE: S([300.0, 500.0], "W*h/kg"), HX + "coolant_mass": S([10.0, 30.0], "kg"), "reservoir.T_initial": S([300.0, 315.0], "K")})
TR = dict(TT_V, **AIR, **TT_S, **{BE: S([300.0, 500.0], "W*h/kg"), "ac|propulsion|thermal|refrig|rating": S([1.0, 4.0], "kW"), "ac|propulsion|thermal|refrig|specific_power": S([200.0, 100.0], "W/kg"), "ac|propulsion|thermal|refrig|eff": S([0.4, 0.3]), "refrig.control.bypass_start": S([0.0, 1.0]), "refrig.control.bypass_end": S([0.0, 1.0, 0.5])})
TR["throttle"] = V([0.6, 0.3, 0.9])
# the refrigerator lifts heat from the loop of the electric machines to a warmer one
TR["fltcond|T"] = V([311.0, 303.0], "K")
TR["motorheatsink.T_initial"], TR["batteryheatsink.T_initial"] = S([290.0, 283.0], "K"), S([288.0, 280.0], "K")
TR["duration"] = S([300.0, 900.0], "s")


def renamed(f):
    return lambda cfg, x: f(cfg, dict(x, specific_energy=x[BE]))


def solver(g):
    newton(g, 60)
    nl = g.nonlinear_solver
    nl.options["err_on_non_converge"] = True
    nl.options["atol"], nl.options["rtol"], nl.options["max_sub_solves"] = 1e-9, 1e-13, 20


def bounded(g):
    solver(g)
    g.nonlinear_solver.linesearch = om.BoundsEnforceLS(bound_enforcement="scalar")


def guess_comp(p, cfg, x):
    p.set_val("duct.mdot", 0.6 * x["fltcond|p"] / (RGAS * x["fltcond|T"]) * x["fltcond|Utrue"] * 58 * IN2, units="kg/s")
    for s, m in (("sta1", 0.3), ("sta2", 0.06), ("sta3", 0.06)):
        p.set_val(f"duct.{s}.M", m)
        p.set_val(f"duct.{s}.rho", x["fltcond|p"] / (RGAS * x["fltcond|T"]), units="kg/m**3")
        p.set_val(f"duct.{s}.a", np.sqrt(GAM * RGAS * x["fltcond|T"]), units="m/s")
    p.set_val("duct.nozzle.nozzle_pressure_ratio", 0.9)


THERM = dict(rtol=1e-7, odd=True, min_nodes=3, nodes=False, budget=24, dbudget=3, dcfgs=1, dchunk=(5, 3), htol=1e-7, fdnoise=1e-9, dtol=2e-5, hdepth=2, post=loops, defaults=True)
SYSTEMS = [
    Entry("TurbopropPropulsionSystem", sysmk("TurbopropPropulsionSystem"), TURBO, ref_turboprop, rtol=1e-8, dtol=1e-5, defaults=True, budget=1500, dbudget=20),
    Entry("TwinTurbopropPropulsionSystem", sysmk("TwinTurbopropPropulsionSystem"), TWIN, ref_twin, rtol=1e-8, dtol=1e-5, defaults=True, budget=1500, dbudget=20),
    Entry("SeriesHybridElectricPropulsionSystem", sysmk("SeriesHybridElectricPropulsionSystem"), BARE, ref_series_one, rtol=1e-8, dtol=1e-5, defaults=True, budget=1500, dbudget=20),
    Entry("SingleSeriesHybridElectricPropulsionSystem", sysmk("SingleSeriesHybridElectricPropulsionSystem"), ONE, ref_series_one, [{}, dict(specific_energy=450.0)], rtol=1e-8, dtol=1e-5, defaults=True, budget=1500, dbudget=20),
    Entry("TwinSeriesHybridElectricPropulsionSystem", sysmk("TwinSeriesHybridElectricPropulsionSystem", solver), HYB, renamed(ref_series_twin), rtol=1e-7, dtol=1e-5, defaults=True, odd=True, min_nodes=3, nodes=False, budget=300, dbudget=12, htol=1e-8, fdnoise=1e-10, scale={"gen1.elec_power_out": 1e-3, "fuel_flow": 1e-11, "eng_throttle_set.eng_throttle": 1e-8}),
    Entry("AllElectricSinglePropulsionSystemWithThermal_Incompressible", sysmk("AllElectricSinglePropulsionSystemWithThermal_Incompressible", solver), INCOMP, ref_electric, [{}, dict(specific_energy=450.0)], **THERM),
    Entry("AllElectricSinglePropulsionSystemWithThermal_Compressible", sysmk("AllElectricSinglePropulsionSystemWithThermal_Compressible", bounded), COMP, ref_electric, guess=guess_comp, **THERM),
    Entry("TwinSeriesHybridElectricThermalPropulsionSystem", sysmk("TwinSeriesHybridElectricThermalPropulsionSystem", solver), TT, renamed(ref_thermal_twin), scale={"gen1.elec_power_out": 1e-3, "fuel_flow": 1e-11, "eng_throttle_set.eng_throttle": 1e-8}, **THERM),
    Entry("TwinSeriesHybridElectricThermalPropulsionRefrigerated", sysmk("TwinSeriesHybridElectricThermalPropulsionRefrigerated", solver), TR, renamed(ref_refrigerated), scale={"gen1.elec_power_out": 1e-3, "fuel_flow": 1e-11, "eng_throttle_set.eng_throttle": 1e-8}, **THERM),
]

"""Thermal management: coolant loops, cold plates, refrigerators, heat exchangers, hoses, pumps and manifolds."""
import itertools

import numpy as np

from mc.catalog import Entry, S, V
from mc.cat_propulsion import mk, opt
from mc.omx import om

P = "openconcept.thermal."


def newton(group, maxiter=40):
    """A caller-supplied solver for groups that leave the choice to the user."""
    nl = group.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, iprint=-1, atol=1e-12, rtol=1e-14, maxiter=maxiter, err_on_non_converge=False)
    nl.linesearch = None
    group.linear_solver = om.DirectSolver()


def mk_newton(path, cls):
    m = mk(path, cls)

    def make(cfg, nn):
        g = om.Group()
        g.add_subsystem("sys", m(cfg, nn), promotes=["*"])
        newton(g)
        return g

    return make


# ---------------------------------------------------------------- fluid streams and lumped masses
def ref_pht(cfg, x):
    cp = cfg.get("specific_heat", 3801.0)
    To = x["T_in"] + x["q"] / (cp * x["mdot_coolant"])
    return {"T_out": (To, "K"), "T_average": (0.5 * (x["T_in"] + To), "K")}


def ref_mass(cfg, x):
    return {"dTdt": ((x["q_in"] - x["q_out"]) / (x["mass"] * cfg.get("specific_heat", 921.0)), "K/s")}


def cold_plate(cp, k, nu, Ti, Ts, mdot, w, h, L, n):
    area = 2 * (w + h) * L * n  # wetted perimeter x length x channels
    dh = 4 * (w * h) / (2 * (w + h))
    hc = nu * k / dh
    C = mdot * cp
    eff = -np.expm1(-hc * area / C)
    q = eff * C * (Ts - Ti)
    return q, Ti + q / C, eff


def ref_plate(cfg, x):
    cp, k, nu = cfg.get("specific_heat", 3801.0), cfg.get("fluid_k", 0.405), cfg.get("nusselt", 7.54)
    q, To, _ = cold_plate(cp, k, nu, x["T_in"], x["T_surface"], x["mdot_coolant"], x["channel_width"], x["channel_height"], x["channel_length"], x["n_parallel"])
    return {"q": (q, "W"), "T_out": (To, "K")}


PLATE_INS = dict(
    channel_width=S([1.0, 0.5, 4.0], "mm"),
    channel_height=S([3.0, 20.0, 0.8], "mm"),
    channel_length=S([0.2, 0.05, 0.5], "m"),
    n_parallel=S([50.0, 1.0, 7.0]),
)


def ref_reservoir_rate(cfg, x):
    return {"dTdt": (x["mdot_coolant"] / x["mass"] * (x["T_in"] - x["T_out"]), "K/s")}


# ---------------------------------------------------------------- states integrated over a mission phase
def simpson(nn):
    from mc.checks.c01_integrators import refM

    return refM("simpson", nn)


def march(a, b, T0, duration):
    """States of dT/dt = a_i - b_i T_i with the library's documented collocation (parabola through triples)."""
    nn = a.size
    if nn == 1:
        return T0 + 0 * a
    M = simpson(nn) * (float(np.ravel(duration)[0]) / (nn - 1))
    return np.linalg.solve(np.eye(nn) + M @ np.diag(b), T0 + M @ a)


def ref_lcc(cfg, x):
    """LiquidCooledComp: a cold plate under a lump with or without heat capacity."""
    cpo, cpc = cfg.get("specific_heat_object", 921.0), cfg.get("specific_heat_coolant", 3801.0)
    geo = (x["channel_width"] * 1e-3, x["channel_height"] * 1e-3, x["channel_length"], x["n_parallel"])
    _, _, eff = cold_plate(cpc, 0.405, 7.54, x["T_in"], x["T_in"], x["mdot_coolant"], *geo)
    K = eff * x["mdot_coolant"] * cpc
    if cfg.get("quasi_steady"):
        T = x["T_in"] + x["q_in"] / K
        q = x["q_in"]
    else:
        mc = x["mass"] * cpo
        T = march((x["q_in"] + K * x["T_in"]) / mc, K / mc, x["T_initial"], x["duration"])
        q = K * (T - x["T_in"])
    return {"T": (T, "K"), "T_out": (x["T_in"] + q / (x["mdot_coolant"] * cpc), "K")}


def ins_lcc(cfg):
    d = dict(q_in=V([6e3, 0.0, 2e4, 9e3], "W"), T_in=V([300.0, 280.0, 340.0], "K"), mdot_coolant=V([0.1, 0.02, 0.6], "kg/s"), **PLATE_INS)
    if not cfg.get("quasi_steady"):
        d.update(mass=S([20.0, 3.0, 200.0], "kg"), T_initial=S([310.0, 280.0, 400.0], "K"), duration=S([300.0, 20.0, 3600.0], "s"))
    return d


def ref_reservoir(cfg, x):
    b = x["mdot_coolant"] / x["mass"]
    T = march(b * x["T_in"], b, x["T_initial"], x["duration"])
    return {"T_out": (T, "K"), "T_final": (T[-1:], "K")}


# ---------------------------------------------------------------- batteries and motors
def bandolier(cfg, x):
    o = opt(cfg, coolant_specific_heat=3801.0, fluid_k=0.405, nusselt=7.54, cell_kr=0.3, cell_diameter=0.021, cell_height=0.070, cell_mass=0.070, cell_specific_heat=875.0, battery_weight_fraction=0.65)
    cells = x["battery_weight"] * o["battery_weight_fraction"] / o["cell_mass"]
    per_tape = 2 * x["n_cpb"]  # cells on both faces of one tape
    tapes = cells / per_tape
    C = x["mdot_coolant"] / tapes * o["coolant_specific_heat"]
    h = o["nusselt"] * o["fluid_k"] / (2 * x["t_channel"])
    A = 2 * o["cell_height"] * o["cell_diameter"] * x["n_cpb"]
    K_conv = C * -np.expm1(-h * A / C) / per_tape  # W/K per cell, coolant inlet to cell surface
    K_cond = 8 * np.pi * o["cell_height"] * o["cell_kr"]  # cylinder with uniform generation: mean to surface
    G = 1 / (1 / K_conv + 1 / K_cond)  # inlet to mean cell temperature
    return cells, G, K_cond, o


def bandolier_out(cfg, x, T):
    cells, G, K_cond, o = bandolier(cfg, x)
    q_cell = G * (T - x["T_in"])
    Ts = T - q_cell / K_cond
    q = q_cell * cells
    return {
        "T_surface": (Ts, "K"),
        "T_core": (Ts + 2 * (T - Ts), "K"),  # parabolic radial profile
        "T_out": (x["T_in"] + q / (x["mdot_coolant"] * o["coolant_specific_heat"]), "K"),
        "dTdt": ((x["q_in"] - q) / (cells * o["cell_mass"] * o["cell_specific_heat"]), "K/s"),
    }, q


def ref_bandolier(cfg, x):
    d, q = bandolier_out(cfg, x, x["T_battery"])
    d["q"] = (q, "W")
    return d


BAND_INS = dict(
    q_in=V([2e4, 0.0, 1e5, 4e3], "W"),
    T_in=V([300.0, 270.0, 330.0], "K"),
    mdot_coolant=V([0.2, 0.02, 2.0], "kg/s"),
    battery_weight=S([478.0, 50.0, 3000.0], "kg"),
    n_cpb=S([82.0, 10.0, 200.0]),
    t_channel=S([0.5, 0.1, 3.0], "mm"),
)
CELL = dict(cell_kr=0.455, cell_diameter=0.018, cell_height=0.065, cell_mass=0.0485, cell_specific_heat=925.0, battery_weight_fraction=0.7)
FLUID = dict(coolant_specific_heat=4180.0, fluid_k=0.6, nusselt=4.36)


def mm(f):
    """References take t_channel in metres; the alphabet gives millimetres."""

    def g(cfg, x):
        return f(cfg, dict(x, t_channel=x["t_channel"] * 1e-3))

    return g


def ref_battery(cfg, x):
    pc = {k: v for k, v in cfg.items() if k != "quasi_steady"}
    cells, G, _, o = bandolier(pc, x)
    if cfg.get("quasi_steady"):
        T = x["T_in"] + x["q_in"] / (cells * G)
        d, _ = bandolier_out(pc, x, T)
        d.pop("dTdt")
    else:
        mc = cells * o["cell_mass"] * o["cell_specific_heat"]
        T = march((x["q_in"] + cells * G * x["T_in"]) / mc, cells * G / mc, x["T_initial"], x["duration"])
        d, _ = bandolier_out(pc, x, T)
    d["T"] = (T, "K")
    return d


def jacket(cfg, x):
    o = opt(cfg, coolant_specific_heat=3801.0, motor_specific_heat=921.0, case_cooling_coefficient=1100.0, case_area_coefficient=650000.0)
    C = x["mdot_coolant"] * o["coolant_specific_heat"]
    area = x["power_rating"] / o["case_area_coefficient"]
    return C * -np.expm1(-o["case_cooling_coefficient"] * area / C), C, x["motor_weight"] * o["motor_specific_heat"]


def ref_jacket(cfg, x):
    K, C, mc = jacket(cfg, x)
    q = K * (x["T"] - x["T_in"])
    return {"q": (q, "W"), "T_out": (x["T_in"] + q / C, "K"), "dTdt": ((x["q_in"] - q) / mc, "K/s")}


def ref_motor(cfg, x):
    K, C, mc = jacket({k: v for k, v in cfg.items() if k != "quasi_steady"}, x)
    if cfg.get("quasi_steady"):
        T = x["T_in"] + x["q_in"] / K
    else:
        T = march((x["q_in"] + K * x["T_in"]) / mc, K / mc, x["T_initial"], x["duration"])
    q = K * (T - x["T_in"])
    return {"T": (T, "K"), "T_out": (x["T_in"] + q / C, "K")}


JACKET_INS = dict(
    q_in=V([1e4, 0.0, 4e4], "W"),
    T_in=V([330.0, 280.0, 360.0], "K"),
    mdot_coolant=V([1.0, 0.1, 3.0], "kg/s"),
    power_rating=S([2e5, 2e4, 2e6], "W"),
    motor_weight=S([100.0, 10.0, 900.0], "kg"),
)
UNSTEADY = dict(T_initial=S([320.0, 290.0, 400.0], "K"), duration=S([200.0, 10.0, 3600.0], "s"))


def with_unsteady(base):
    def ins(cfg):
        d = dict(base)
        if not cfg.get("quasi_steady"):
            d.update(UNSTEADY)
        elif "motor_weight" in d:
            d["motor_weight"] = S([100.0, 900.0], "kg", deriv=False)
        return d

    return ins


# ---------------------------------------------------------------- refrigerator
def ref_selector(cfg, x):
    b = x["bypass"]
    return {
        "T_out_cold": (b * x["T_in_hot"] + (1 - b) * x["T_out_refrig_cold"], "K"),
        "T_out_hot": (b * x["T_in_cold"] + (1 - b) * x["T_out_refrig_hot"], "K"),
        "elec_load": ((1 - b) * x["power_rating"] / 0.95, "W"),
    }


def ref_copheat(cfg, x):
    W = x["power_rating"]
    return {"q_in_1": (-x["COP"] * W, "W"), "q_in_2": (x["COP"] * W + W, "W")}


def cop_formula(Tc, Th, eff):
    """A fraction of the Carnot COP, softly limited to 10 where the lift is small or reversed."""
    dT = Th - Tc
    carnot = np.where(np.abs(dT) < 1e-12, Tc, Tc * np.tanh(dT) / np.where(np.abs(dT) < 1e-12, 1.0, dT))
    a = carnot * eff + 10 * 0.5 * (1 - np.tanh(dT + 3))
    wa, wb = np.exp(-1.5 * a), np.exp(-15.0)
    return (a * wa + 10 * wb) / (wa + wb)


def ref_cop(cfg, x):
    return {"COP": (cop_formula(x["T_c"], x["T_h"], x["eff_factor"]), None)}


def ref_heatpump(cfg, x):
    """Fixed point of: COP from the side outlet temperatures, outlet temperatures from COP and power."""
    cp = cfg.get("specific_heat", 3801.0)
    W = x["power_rating"]
    C = x["mdot_coolant"] * cp
    Th, Tc = x["T_in_hot"], x["T_in_cold"]
    from scipy.optimize import brentq

    C, Th, Tc, W, eff = np.broadcast_arrays(*[np.asarray(v, dtype=float) for v in (C, Th, Tc, W, x["eff_factor"])])
    cops = np.zeros(C.shape)
    for i in range(C.size):
        g = lambda c: c - float(cop_formula(Tc.flat[i] - c * W.flat[i] / C.flat[i], Th.flat[i] + (c + 1) * W.flat[i] / C.flat[i], eff.flat[i]))
        cops.flat[i] = brentq(g, -1.0, 12.0, xtol=1e-14, rtol=1e-14)
    if cfg.get("nonlinear_bypass_control"):
        b = x["bypass"]
    else:
        n = C.size
        t = np.linspace(0, 1, n) if n > 1 else np.array([0.0])
        b = x["control.bypass_start"] + (x["control.bypass_end"] - x["control.bypass_start"]) * t
    d = {"COP": (cops, None), "component_weight": (x["power_rating"] / x["specific_power"], "kg")}
    d.update(ref_selector({}, dict(bypass=b, T_in_hot=Th, T_in_cold=Tc, T_out_refrig_cold=Tc - cops * W / C, T_out_refrig_hot=Th + (cops + 1) * W / C, power_rating=W)))
    return d


def ins_heatpump(cfg):
    d = dict(
        T_in_hot=V([320.0, 300.0, 345.0, 305.0], "K"),
        T_in_cold=V([305.0, 290.0, 318.0], "K"),
        mdot_coolant=V([0.5, 0.1, 2.0], "kg/s"),
        power_rating=S([1000.0, 100.0, 5000.0, 0.0], "W"),
        specific_power=S([200.0, 50.0], "W/kg"),
        eff_factor=S([0.4, 0.6]),
    )
    if cfg.get("nonlinear_bypass_control"):
        d["bypass"] = V([0.0, 0.5, 1.0])
    else:
        d["control.bypass_start"] = S([0.0, 1.0, 0.3])
        d["control.bypass_end"] = S([0.0, 1.0, 0.8])
    return d


def post_heatpump(ctx, e, cfg, x, p):
    """Nothing is created or lost: heat leaving the machine equals heat taken in plus 95% of its electrical load."""
    cp = cfg.get("specific_heat", 3801.0)
    C = x["mdot_coolant"] * cp
    g = lambda n, u="K": p.get_val(n, units=u)
    gain = C * (g("T_out_hot") + g("T_out_cold") - x["T_in_hot"] - x["T_in_cold"])
    ctx.close(f"{e.name}:energy", gain, 0.95 * g("elec_load", "W"), 1e-7, 1e-6 * np.max(np.abs(C)), "heat added to both streams = power", cfg=cfg)


# ---------------------------------------------------------------- manifolds, hoses, pumps
def ref_fsplit(cfg, x):
    f = x["mdot_split_fraction"]
    return {"mdot_out_A": (f * x["mdot_in"], "kg/s"), "mdot_out_B": (x["mdot_in"] - f * x["mdot_in"], "kg/s")}


def ref_fcomb(cfg, x):
    m = x["mdot_in_A"] + x["mdot_in_B"]
    return {"mdot_out": (m, "kg/s"), "T_out": (x["T_in_A"] + (x["T_in_B"] - x["T_in_A"]) * x["mdot_in_B"] / m, "K")}


def ref_hose(cfg, x):
    o = opt(cfg, hose_operating_stress=2.07e6, hose_density=1356.3)
    D, L = x["hose_diameter"] * 1e-3, x["hose_length"]
    A = np.pi * D**2 / 4
    V_ = x["mdot_coolant"] / (x["rho_coolant"] * A)
    Re = x["rho_coolant"] * V_ * D / x["mu_coolant"]
    f = 0.3164 / Re**0.25
    t = D * x["hose_design_pressure"] / (2 * o["hose_operating_stress"])
    shell = np.pi / 4 * ((D + 2 * t) ** 2 - D**2) * L * o["hose_density"]
    rho0 = np.ravel(x["rho_coolant"])[0]
    return {"delta_p": (f * L / D * 0.5 * x["rho_coolant"] * V_**2, "Pa"), "component_weight": (shell + A * L * rho0, "kg")}


def ref_pump(cfg, x):
    o = opt(cfg, efficiency=0.35, weight_base=0.0, weight_inc=1 / 450)
    E = x["mdot_coolant"] * x["delta_p"] / x["rho_coolant"] / o["efficiency"]
    return {
        "elec_load": (E, "W"),
        "component_weight": (o["weight_base"] + o["weight_inc"] * x["power_rating"], "kg"),
        "component_sizing_margin": (E / x["power_rating"], None),
    }


# ---------------------------------------------------------------- offset strip fin heat exchanger
def osf_geometry(x):
    """Plate-fin stack: n_tall pairs of cold and hot layers, cold along the length, hot across the width."""
    tf, tp, tc, nt = x["fin_thickness"], x["plate_thickness"], x["case_thickness"], x["n_tall"]
    c = {k: x[f"{k}_cold"] for k in ("channel_width", "channel_height", "fin_length")}
    h = {k: x[f"{k}_hot"] for k in ("channel_width", "channel_height", "fin_length")}
    H = nt * (c["channel_height"] + h["channel_height"] + 2 * tf + 2 * tp)
    Wd = x["n_wide_cold"] * (c["channel_width"] + tf)
    L = x["n_long_cold"] * c["fin_length"]
    o = dict(height_overall=(H, "m"), width_overall=(Wd, "m"), length_overall=(L, "m"), frontal_area=(H * Wd, "m**2"))
    fins = 0.0
    for side, g, flow, across in (("cold", c, L, Wd), ("hot", h, Wd, L)):
        w, ht, l = g["channel_width"], g["channel_height"], g["fin_length"]
        rows = flow / l  # fins in series
        chans = across / (w + tf)
        n = rows * chans * nt
        if side == "cold":  # Manglik & Bergles definition including the fin edges
            dh = 4 * w * ht * l / (2 * (w * l + ht * l + tf * ht) + tf * w)
        else:
            dh = 2 * w * ht / (w + ht)
        xs = w * ht * chans * nt
        o[f"dh_{side}"] = (dh, "m")
        o[f"xs_area_{side}"] = (xs, "m**2")
        o[f"heat_transfer_area_{side}"] = (2 * (w + ht) * l * n, "m**2")
        o[f"fin_area_ratio_{side}"] = (ht / (ht + w), None)
        o[f"contraction_ratio_{side}"] = (xs / (H * across), None)
        o[f"alpha_{side}"] = (w / ht, None)
        o[f"delta_{side}"] = (tf / l, None)
        o[f"gamma_{side}"] = (tf / w, None)
        fins = fins + n * (w + ht + tf) * l * tf
    vol = 2 * nt * tp * L * Wd + fins + 2 * tc * L * (H + Wd)
    o["component_weight"] = (vol * x["material_rho"], "kg")
    return o


LEN = ("channel_width_hot", "channel_height_hot", "fin_length_hot", "channel_width_cold", "channel_height_cold", "fin_length_cold", "fin_thickness", "plate_thickness", "case_thickness")


def metres(x):
    return {k: (v * 1e-3 if k in LEN else v) for k, v in x.items()}


def ref_osfgeom(cfg, x):
    return osf_geometry(metres(x))


GEOM_INS = dict(
    channel_width_hot=S([1.0, 0.7, 2.0], "mm"),
    channel_height_hot=S([1.5, 3.0], "mm"),
    fin_length_hot=S([6.0, 9.0], "mm"),
    channel_width_cold=S([1.35, 0.9], "mm"),
    channel_height_cold=S([14.0, 5.0], "mm"),
    fin_length_cold=S([7.0, 4.0], "mm"),
    fin_thickness=S([0.102, 0.2], "mm"),
    plate_thickness=S([0.25, 0.5], "mm"),
    case_thickness=S([2.0, 0.8], "mm"),
    n_wide_cold=S([430.0, 100.0]),
    n_long_cold=S([3.0, 2.5, 10.0]),
    n_tall=S([19.0, 6.0]),
    material_rho=S([2700.0, 8000.0], "kg/m**3"),
)


def manglik(Re, a, d, g):
    """Manglik and Bergles (1995), eqs. 34 and 35."""
    f = 9.6243 * Re**-0.7422 * a**-0.1856 * d**0.3053 * g**-0.2659 * (1 + 7.669e-8 * Re**4.429 * a**0.920 * d**3.767 * g**0.236) ** 0.1
    j = 0.6522 * Re**-0.5403 * a**-0.1541 * d**0.1499 * g**-0.0678 * (1 + 5.269e-5 * Re**1.340 * a**0.504 * d**0.456 * g**-1.055) ** 0.1
    return j, f


def both(fn):
    """Reference evaluated once per side; ref returns {name without side: (value, units)}."""

    def ref(cfg, x):
        o = {}
        for s in ("cold", "hot"):
            y = {k[: -len(s) - 1]: v for k, v in x.items() if k.endswith("_" + s)}
            y.update({k: v for k, v in x.items() if not k.endswith(("_cold", "_hot"))})
            o.update({f"{k}_{s}": v for k, v in fn(cfg, y, s).items()})
        return o

    return ref


def two(**kw):
    """Different alphabets order on both sides so that a side mix-up changes the values."""
    d = {}
    for k, (kind, vals, units) in kw.items():
        d[f"{k}_cold"] = kind(vals, units)
        d[f"{k}_hot"] = kind([1.3 * v for v in vals[::-1]], units)
    return d


def r_osfdata(cfg, y, s):
    j, f = manglik(y["Re_dh"], y["alpha"], y["delta"], y["gamma"])
    return {"j": (j, None), "f": (f, None)}


def r_redh(cfg, y, s):
    return {"Re_dh": (y["mdot"] * y["dh"] / (y["xs_area"] * y["mu"]), None)}


def r_nu(cfg, y, s):
    Pr = y["mu"] * y["cp"] / y["k"]
    return {"Nu_dh": (y["j"] * y["Re_dh"] * Pr ** (1 / 3), None)}


def r_conv(cfg, y, s):
    return {"h_conv": (y["Nu_dh"] * y["k"] / y["dh"], "W/m**2/K")}


def r_fineff(cfg, y, s):
    m = np.sqrt(2 * y["h_conv"] / (y["material_k"] * y["fin_thickness"] * 1e-3))
    L2 = y["channel_height"] * 1e-3 / 2
    return {"eta_overall": (1 - y["fin_area_ratio"] * (1 - np.tanh(m * L2) / (m * L2)), None)}


def ref_ua(cfg, x):
    R = 0.0
    for s in ("cold", "hot"):
        R = R + (1 / x[f"h_conv_{s}"] + cfg.get(f"fouling_factor_{s}", 0.0)) / (x[f"heat_transfer_area_{s}"] * x[f"eta_overall_{s}"])
    return {"UA_overall": (1 / R, "W/K")}


def ref_ntu(cfg, x):
    Cc, Ch = x["mdot_cold"] * x["cp_cold"], x["mdot_hot"] * x["cp_hot"]
    lo, hi = np.minimum(Cc, Ch), np.maximum(Cc, Ch)
    return {"NTU": (x["UA_overall"] / lo, None), "heat_max": (lo * (x["T_in_hot"] - x["T_in_cold"]), "W"), "C_ratio": (lo / hi, None)}


def crossflow(ntu, cr):
    return -np.expm1(ntu**0.22 / cr * np.expm1(-cr * ntu**0.78))


def ref_eff(cfg, x):
    return {"effectiveness": (crossflow(x["NTU"], x["C_ratio"]), None)}


def ref_q(cfg, x):
    return {"heat_transfer": (x["effectiveness"] * x["heat_max"], "W")}


def ref_outlet(cfg, x):
    return {
        "T_out_cold": (x["T_in_cold"] + x["heat_transfer"] / (x["mdot_cold"] * x["cp_cold"]), "K"),
        "T_out_hot": (x["T_in_hot"] - x["heat_transfer"] / (x["mdot_hot"] * x["cp_hot"]), "K"),
    }


def ref_dp(cfg, x):
    o = {}
    for s, L in (("cold", x["length_overall"]), ("hot", x["width_overall"])):
        K = cfg.get(f"Kc_{s}", 0.3) + cfg.get(f"Ke_{s}", -0.1)
        G = x[f"mdot_{s}"] / x[f"xs_area_{s}"]
        o[f"delta_p_{s}"] = (-(K + 4 * x[f"f_{s}"] * L / x[f"dh_{s}"]) * G**2 / (2 * x[f"rho_{s}"]), "Pa")
    return o


HX_FLUID = dict(cp_cold=1005.0, k_cold=0.02596, mu_cold=1.789e-5, cp_hot=3801.0, k_hot=0.405, mu_hot=1.68e-3)
HX_GEOM = dict(channel_width_hot=1.0, channel_height_hot=1.0, fin_length_hot=6.0, channel_width_cold=1.35, channel_height_cold=14.0, fin_length_cold=6.0, fin_thickness=0.102, plate_thickness=0.2, case_thickness=2.0, material_rho=2700.0)


def ref_hx(cfg, x):
    """The documented chain: geometry, Re, j/f, h, fin efficiency, UA, NTU, effectiveness, outlets, losses."""
    g = dict(HX_GEOM, material_k=190.0, **HX_FLUID)
    g.update({k: v for k, v in x.items()})
    g.update({k: x["ac|propulsion|thermal|hx|" + k] for k in ("n_wide_cold", "n_long_cold", "n_tall")})
    g = metres(g)
    geo = osf_geometry(g)
    v = {k: val for k, (val, _) in geo.items()}
    UAi, fr = 0.0, {}
    for s in ("cold", "hot"):
        Re = g[f"mdot_{s}"] * v[f"dh_{s}"] / (v[f"xs_area_{s}"] * g[f"mu_{s}"])
        j, f = manglik(Re, v[f"alpha_{s}"], v[f"delta_{s}"], v[f"gamma_{s}"])
        h = j * Re * (g[f"mu_{s}"] * g[f"cp_{s}"] / g[f"k_{s}"]) ** (1 / 3) * g[f"k_{s}"] / v[f"dh_{s}"]
        m = np.sqrt(2 * h / (g["material_k"] * g["fin_thickness"]))
        L2 = g[f"channel_height_{s}"] / 2
        eta = 1 - v[f"fin_area_ratio_{s}"] * (1 - np.tanh(m * L2) / (m * L2))
        UAi = UAi + 1 / (h * v[f"heat_transfer_area_{s}"] * eta)
        fr[s] = f
    n = ref_ntu({}, dict(g, UA_overall=1 / UAi))
    q = crossflow(n["NTU"][0], n["C_ratio"][0]) * n["heat_max"][0]
    o = {"heat_transfer": (q, "W"), "component_weight": geo["component_weight"], "frontal_area": geo["frontal_area"]}
    o.update(ref_outlet({}, dict(g, heat_transfer=q)))
    o.update(ref_dp({}, dict(g, **v, f_cold=fr["cold"], f_hot=fr["hot"])))
    return o


def post_hx(ctx, e, cfg, x, p):
    """What the hot stream loses the cold stream gains, and no outlet crosses the other stream's inlet."""
    qc = x["mdot_cold"] * x.get("cp_cold", 1005.0) * (p.get_val("T_out_cold", units="K") - x["T_in_cold"])
    qh = x["mdot_hot"] * x.get("cp_hot", 3801.0) * (x["T_in_hot"] - p.get_val("T_out_hot", units="K"))
    ctx.close(f"{e.name}:energy", qc, qh, 1e-8, 1e-6, "heat gained by the cold stream = heat lost by the hot stream", cfg=cfg)
    lo, hi = np.minimum(x["T_in_cold"], x["T_in_hot"]), np.maximum(x["T_in_cold"], x["T_in_hot"])
    for s in ("cold", "hot"):
        T = p.get_val(f"T_out_{s}", units="K")
        ctx.true(f"{e.name}:second-law:{s}", bool(np.all((T >= lo - 1e-9) & (T <= hi + 1e-9))), f"{s} outlet temperature outside the inlet temperatures", cfg=cfg)


HX_INS = {
    "mdot_cold": V([1.5, 0.2, 6.0], "kg/s"),
    "mdot_hot": V([0.75, 0.05, 3.0], "kg/s"),
    "rho_cold": V([0.5, 1.2], "kg/m**3"),
    "rho_hot": V([1020.0, 800.0], "kg/m**3"),
    "T_in_cold": V([318.0, 230.0, 350.0], "K"),
    "T_in_hot": V([363.0, 320.0, 350.0], "K"),
    "ac|propulsion|thermal|hx|n_wide_cold": S([430.0, 100.0]),
    "ac|propulsion|thermal|hx|n_long_cold": S([3.0, 9.0]),
    "ac|propulsion|thermal|hx|n_tall": S([19.0, 50.0]),
    "channel_width_cold": S([1.35, 0.9], "mm"),
    "channel_height_cold": S([14.0, 6.0], "mm"),
    "fin_length_cold": S([6.0, 9.0], "mm"),
    "channel_width_hot": S([1.0, 1.6], "mm"),
    "channel_height_hot": S([1.0, 3.0], "mm"),
    "fin_length_hot": S([6.0, 4.0], "mm"),
    "fin_thickness": S([0.102, 0.25], "mm"),
    "plate_thickness": S([0.2, 0.4], "mm"),
    "case_thickness": S([2.0, 1.0], "mm"),
    "material_k": S([190.0, 400.0], "W/m/K"),
    "material_rho": S([2700.0, 8900.0], "kg/m**3"),
    "cp_cold": S([1005.0, 2000.0], "J/kg/K"),
    "k_cold": S([0.02596, 0.04], "W/m/K"),
    "mu_cold": S([1.789e-5, 3e-5], "kg/m/s"),
    "cp_hot": S([3801.0, 4200.0], "J/kg/K"),
    "k_hot": S([0.405, 0.6], "W/m/K"),
    "mu_hot": S([1.68e-3, 3e-4], "kg/m/s"),
}

T3 = [300.0, 250.0, 420.0]
THERMAL = [
    Entry("PerfectHeatTransferComp", mk(P + "thermal", "PerfectHeatTransferComp"), dict(T_in=V(T3, "K"), q=V([5e3, 0.0, -2e4, 1e5], "W"), mdot_coolant=V([0.2, 0.01, 5.0], "kg/s")), ref_pht, [{}, dict(specific_heat=4180.0)]),
    Entry("ThermalComponentWithMass", mk(P + "thermal", "ThermalComponentWithMass"), dict(q_in=V([5e3, 0.0, 1e6], "W"), q_out=V([2e3, 0.0, 1e6], "W"), mass=S([10.0, 0.2, 4000.0], "kg")), ref_mass, [{}, dict(specific_heat=500.0)]),
    Entry("ConstantSurfaceTemperatureColdPlate_NTU", mk(P + "thermal", "ConstantSurfaceTemperatureColdPlate_NTU"),
          dict(T_in=V(T3, "K"), T_surface=V([330.0, 300.0, 250.0], "K"), mdot_coolant=V([0.1, 0.005, 3.0], "kg/s"), **{k: S([v * 1e-3 for v in i.values], "m") if i.units == "mm" else i for k, i in PLATE_INS.items()}),
          ref_plate, [{}, dict(fluid_k=0.6, nusselt=4.36, specific_heat=4180.0)]),
    Entry("CoolantReservoirRate", mk(P + "thermal", "CoolantReservoirRate"), dict(T_in=V(T3, "K"), T_out=V([310.0, 300.0, 200.0], "K"), mdot_coolant=V([0.1, 0.0, 3.0], "kg/s"), mass=S([10.0, 0.5], "kg")), ref_reservoir_rate),
    Entry("LiquidCooledComp_steady", mk_newton(P + "thermal", "LiquidCooledComp"), ins_lcc, ref_lcc, [dict(quasi_steady=True), dict(quasi_steady=True, specific_heat_coolant=4180.0)], rtol=1e-8, dbudget=25, budget=300, ntol=1e-9, htol=1e-9, fdnoise=1e-11),
    Entry("LiquidCooledComp_unsteady", mk_newton(P + "thermal", "LiquidCooledComp"), ins_lcc, ref_lcc, [{}, dict(specific_heat_object=500.0, specific_heat_coolant=4180.0)], rtol=1e-8, odd=True, min_nodes=3, nodes=False, budget=25, dbudget=12, htol=1e-9, fdnoise=1e-11),
    Entry("CoolantReservoir", mk_newton(P + "thermal", "CoolantReservoir"), dict(T_in=V(T3, "K"), mdot_coolant=V([0.1, 0.0, 1.0], "kg/s"), mass=S([10.0, 60.0], "kg"), T_initial=S([290.0, 350.0], "K"), duration=S([100.0, 10.0, 900.0], "s")),
          ref_reservoir, rtol=1e-8, odd=True, min_nodes=3, nodes=False, budget=9, dbudget=15, htol=1e-9, fdnoise=1e-11),
    Entry("BandolierCoolingSystem", mk(P + "battery_cooling", "BandolierCoolingSystem"), dict(T_battery=V([315.0, 300.0, 280.0], "K"), **BAND_INS), mm(ref_bandolier), [{}, dict(CELL), dict(FLUID), dict(exclude_tags=True)], budget=250, dbudget=30, scale=dict(q=1e-6, dTdt=1e-10)),
    Entry("LiquidCooledBattery_steady", mk_newton(P + "battery_cooling", "LiquidCooledBattery"), with_unsteady(BAND_INS), mm(ref_battery), [dict(quasi_steady=True), dict(quasi_steady=True, **CELL, **FLUID)], rtol=1e-7, budget=150, dbudget=20, ntol=1e-8, htol=1e-8, fdnoise=1e-10),
    Entry("LiquidCooledBattery_unsteady", mk_newton(P + "battery_cooling", "LiquidCooledBattery"), with_unsteady(BAND_INS), mm(ref_battery), [{}, dict(CELL, **FLUID)], rtol=1e-8, odd=True, min_nodes=3, nodes=False, budget=25, dbudget=12, htol=1e-9, fdnoise=1e-11),
    Entry("MotorCoolingJacket", mk(P + "motor_cooling", "MotorCoolingJacket"), dict(T=V([359.0, 330.0, 290.0], "K"), **JACKET_INS), ref_jacket, [{}, dict(coolant_specific_heat=4180.0, case_cooling_coefficient=2100.0, motor_specific_heat=500.0), dict(case_area_coefficient=4e5, exclude_tags=True)], budget=600),
    Entry("LiquidCooledMotor_steady", mk_newton(P + "motor_cooling", "LiquidCooledMotor"), with_unsteady(JACKET_INS), ref_motor, [dict(quasi_steady=True), dict(quasi_steady=True, coolant_specific_heat=4180.0, case_cooling_coefficient=2100.0)], rtol=1e-7, budget=150, dbudget=20, ntol=1e-8, htol=1e-8, fdnoise=1e-10),
    Entry("LiquidCooledMotor_unsteady", mk_newton(P + "motor_cooling", "LiquidCooledMotor"), with_unsteady(JACKET_INS), ref_motor, [{}, dict(motor_specific_heat=500.0, coolant_specific_heat=4180.0, case_cooling_coefficient=2100.0)], rtol=1e-8, odd=True, min_nodes=3, nodes=False, budget=25, dbudget=12, htol=1e-9, fdnoise=1e-11),
    Entry("LinearSelector", mk(P + "chiller", "LinearSelector"), dict(T_in_cold=V([300.0, 280.0], "K"), T_in_hot=V([320.0, 350.0], "K"), T_out_refrig_cold=V([290.0, 270.0], "K"), T_out_refrig_hot=V([340.0, 390.0], "K"), bypass=V([0.3, 0.0, 1.0, 0.5]), power_rating=S([1e3, 0.0, 2e4], "W")), ref_selector),
    Entry("COPHeatPump", mk(P + "chiller", "COPHeatPump"), dict(COP=V([3.0, 0.0, 1.0, 9.7]), power_rating=S([1e3, 0.0, 2e4], "W")), ref_copheat),
    Entry("HeatPumpWeight", mk(P + "chiller", "HeatPumpWeight", nodes=False), dict(power_rating=S([1e3, 0.0, 2e4], "W"), specific_power=S([200.0, 12.5, 3e3], "W/kg")), lambda cfg, x: {"component_weight": (x["power_rating"] / x["specific_power"], "kg")}, vectorized=False),
    Entry("COPExplicit", mk(P + "chiller", "COPExplicit"), dict(T_c=V([300.0, 280.0, 299.0, 310.0, 320.0, 250.0], "K"), T_h=V([330.0, 300.5, 310.0, 305.0, 420.0], "K"), eff_factor=S([0.4, 0.9, 0.05])), ref_cop, rtol=1e-8),
    Entry("HeatPumpWithIntegratedCoolantLoop", mk_newton(P + "chiller", "HeatPumpWithIntegratedCoolantLoop"), ins_heatpump, ref_heatpump, [dict(nonlinear_bypass_control=True), dict(nonlinear_bypass_control=True, specific_heat=4180.0)], rtol=1e-7, budget=200, dbudget=25, ntol=1e-7, htol=1e-7, fdnoise=1e-10, defaults=True, post=post_heatpump, hdepth=2),
    Entry("HeatPumpWithIntegratedCoolantLoop_interp", mk_newton(P + "chiller", "HeatPumpWithIntegratedCoolantLoop"), ins_heatpump, ref_heatpump, [{}], rtol=1e-7, budget=200, dbudget=12, nodes=False, min_nodes=2, htol=1e-7, fdnoise=1e-10, defaults=True, post=post_heatpump, hdepth=2),
    Entry("FlowSplit", mk(P + "manifold", "FlowSplit"), dict(mdot_in=V([1.0, 0.0, 20.0], "kg/s"), mdot_split_fraction=V([0.3, 0.01, 0.5, 0.99])), ref_fsplit),
    Entry("FlowSplit_edges", mk(P + "manifold", "FlowSplit"), dict(mdot_in=V([1.0, 0.0, 20.0], "kg/s"), mdot_split_fraction=V([0.0, 1.0, 0.7])), ref_fsplit, deriv=False),
    Entry("FlowCombine", mk(P + "manifold", "FlowCombine"), dict(mdot_in_A=V([1.0, 0.001, 20.0], "kg/s"), mdot_in_B=V([0.5, 0.001, 7.0], "kg/s"), T_in_A=V(T3, "K"), T_in_B=V([350.0, 250.0], "K")), ref_fcomb),
    Entry("SimpleHose", mk(P + "hose", "SimpleHose"), dict(mdot_coolant=V([1.0, 0.05, 6.0], "kg/s"), rho_coolant=V([1020.0, 800.0], "kg/m**3"), hose_diameter=S([25.4, 10.0, 80.0], "mm"), hose_length=S([1.0, 0.1, 12.0], "m"), hose_design_pressure=S([1.03e6, 2e5], "Pa"), mu_coolant=S([1.68e-3, 3e-4], "kg/m/s")),
          ref_hose, [{}, dict(hose_operating_stress=4e6, hose_density=1100.0)], budget=3000, reduces=("component_weight",)),
    Entry("SimplePump", mk(P + "pump", "SimplePump"), dict(mdot_coolant=V([1.0, 0.0, 6.0], "kg/s"), delta_p=V([1e4, 0.0, 3e5], "Pa"), rho_coolant=V([1020.0, 800.0], "kg/m**3"), power_rating=S([1e3, 50.0, 2e4], "W")), ref_pump, [{}, dict(efficiency=0.7, weight_base=3.0, weight_inc=0.01)]),
    Entry("OffsetStripFinGeometry", mk(P + "heat_exchanger", "OffsetStripFinGeometry", nodes=False), GEOM_INS, ref_osfgeom, vectorized=False, budget=250, dbudget=25),
    Entry("OffsetStripFinData", mk(P + "heat_exchanger", "OffsetStripFinData"), two(Re_dh=(V, [900.0, 120.0, 9000.0], None), alpha=(S, [0.1, 0.9, 0.3], None), delta=(S, [0.02, 0.012, 0.05], None), gamma=(S, [0.07, 0.04, 0.12], None)), both(r_osfdata), budget=3000),
    Entry("HydraulicDiameterReynoldsNumber", mk(P + "heat_exchanger", "HydraulicDiameterReynoldsNumber"), two(mdot=(V, [1.5, 0.1, 6.0], "kg/s"), mu=(S, [1.8e-5, 1.7e-3], "kg/m/s"), xs_area=(S, [0.2, 0.01], "m**2"), dh=(S, [1e-3, 4e-3], "m")), both(r_redh), budget=2000),
    Entry("NusseltFromColburnJ", mk(P + "heat_exchanger", "NusseltFromColburnJ"), two(Re_dh=(V, [900.0, 120.0, 9000.0], None), j=(V, [0.02, 0.005], None), k=(S, [0.026, 0.4], "W/m/K"), mu=(S, [1.8e-5, 1.7e-3], "kg/m/s"), cp=(S, [1005.0, 3801.0], "J/kg/K")), both(r_nu), budget=2000),
    Entry("ConvectiveCoefficient", mk(P + "heat_exchanger", "ConvectiveCoefficient"), two(Nu_dh=(V, [8.0, 0.5, 90.0], None), dh=(S, [1e-3, 4e-3], "m"), k=(S, [0.026, 0.4], "W/m/K")), both(r_conv), budget=2000),
    Entry("FinEfficiency", mk(P + "heat_exchanger", "FinEfficiency"), dict(two(h_conv=(V, [300.0, 20.0, 9000.0], "W/m**2/K"), fin_area_ratio=(S, [0.7, 0.3], None), channel_height=(S, [14.0, 2.0], "mm")), fin_thickness=S([0.1, 0.4], "mm"), material_k=S([190.0, 20.0], "W/m/K")), both(r_fineff), budget=2000),
    Entry("UAOverall", mk(P + "heat_exchanger", "UAOverall"), two(h_conv=(V, [300.0, 20.0, 9000.0], "W/m**2/K"), eta_overall=(V, [0.7, 0.3], None), heat_transfer_area=(S, [3.0, 80.0], "m**2")), ref_ua, [{}, dict(fouling_factor_cold=3e-4), dict(fouling_factor_hot=2e-4), dict(fouling_factor_cold=3e-4, fouling_factor_hot=1e-3)], budget=2000),
    Entry("NTUMethod", mk(P + "heat_exchanger", "NTUMethod"), dict(UA_overall=V([2000.0, 100.0, 2e4], "W/K"), mdot_cold=V([1.5, 0.1, 9.0], "kg/s"), mdot_hot=V([0.75, 0.02, 4.0], "kg/s"), T_in_cold=V([300.0, 230.0], "K"), T_in_hot=V([360.0, 300.0], "K"), cp_cold=S([1005.0, 2000.0], "J/kg/K"), cp_hot=S([3801.0, 1005.0], "J/kg/K")), ref_ntu, budget=3000),
    Entry("CrossFlowNTUEffectiveness", mk(P + "heat_exchanger", "CrossFlowNTUEffectiveness"), dict(NTU=V([1.0, 0.1, 0.5, 3.0, 9.0]), C_ratio=V([0.5, 0.05, 0.99, 1.0])), ref_eff),
    Entry("NTUEffectivenessActualHeatTransfer", mk(P + "heat_exchanger", "NTUEffectivenessActualHeatTransfer"), dict(effectiveness=V([0.5, 0.0, 1.0]), heat_max=V([1e4, 0.0, -3e3, 1e6], "W")), ref_q),
    Entry("OutletTemperatures", mk(P + "heat_exchanger", "OutletTemperatures"), dict(heat_transfer=V([1e4, 0.0, -3e3], "W"), mdot_cold=V([1.5, 0.1], "kg/s"), mdot_hot=V([0.75, 0.05], "kg/s"), T_in_cold=V([300.0, 230.0], "K"), T_in_hot=V([360.0, 300.0], "K"), cp_cold=S([1005.0, 2000.0], "J/kg/K"), cp_hot=S([3801.0, 1005.0], "J/kg/K")), ref_outlet, budget=2000),
    Entry("PressureDrop", mk(P + "heat_exchanger", "PressureDrop"), dict(two(f=(V, [0.05, 0.01], None), mdot=(V, [1.5, 0.1], "kg/s"), rho=(V, [0.5, 1.2], "kg/m**3"), dh=(S, [1e-3, 4e-3], "m"), xs_area=(S, [0.2, 0.02], "m**2")), length_overall=S([0.02, 0.3], "m"), width_overall=S([0.6, 0.2], "m")), ref_dp, [{}, dict(Kc_cold=0.5, Ke_cold=0.2, Kc_hot=0.1, Ke_hot=0.05)], budget=2000),
    Entry("HXGroup", mk(P + "heat_exchanger", "HXGroup"), HX_INS, ref_hx, budget=300, dbudget=30, post=post_hx, htol=1e-10, ntol=1e-10),
]

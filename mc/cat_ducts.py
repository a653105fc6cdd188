"""Ram-air ducts: isentropic relations, duct stations, nozzles and the assembled ducts."""
import numpy as np
from scipy.optimize import brentq

from mc.catalog import Entry, S, V
from mc.cat_propulsion import mk, opt
from mc.cat_thermal import HX_FLUID, ref_hx
from mc.omx import om

P = "openconcept.thermal.ducts"
GAM, RGAS = 1.4, 287.05
IN2 = 0.0254**2


def gr(cfg):
    return cfg.get("gamma", GAM), cfg.get("R", RGAS)


def theta(M, g=GAM):
    return 1 + 0.5 * (g - 1) * np.asarray(M) ** 2


# ---------------------------------------------------------------- elementary relations
def ref_incomp(cfg, x):
    k, c = cfg.get("static_pressure_loss_factor", 0.15), cfg.get("gross_thrust_factor", 0.98)
    rho, U, A = x["fltcond|rho"], x["fltcond|Utrue"], x["area_nozzle"]
    # Bernoulli with a fractional static loss: 1/2 rho U^2 + dp = (1 + k) 1/2 rho Uj^2
    head = 0.5 * rho * U**2 + x["delta_p_hex"]
    Uj = np.sqrt(np.maximum(2 * head / rho / (1 + k), 0.0))
    m = rho * Uj * A
    return {"mdot": (m, "kg/s"), "drag": (m * U - c * m * Uj, "N")}


def ref_T(cfg, x):
    return {"T": (x["Tt"] / theta(x["M"], gr(cfg)[0]), "K")}


def ref_Tt(cfg, x):
    return {"Tt": (x["T"] * theta(x["M"], gr(cfg)[0]), "K")}


def ref_p(cfg, x):
    g = gr(cfg)[0]
    return {"p": (x["pt"] / theta(x["M"], g) ** (g / (g - 1)), "Pa")}


def ref_pt(cfg, x):
    g = gr(cfg)[0]
    return {"pt": (x["p"] * theta(x["M"], g) ** (g / (g - 1)), "Pa")}


def ref_rho(cfg, x):
    return {"rho": (x["p"] / (gr(cfg)[1] * x["T"]), "kg/m**3")}


def ref_a(cfg, x):
    g, R = gr(cfg)
    return {"a": (np.sqrt(g * R * x["T"]), "m/s")}


def ref_heat(cfg, x):
    q = 0.5 * (x["mdot"] / x["area"]) ** 2 / x["rho"]
    return {
        "Tt_out": (x["Tt_in"] + x["heat_in"] / (x["cp"] * x["mdot"]), "K"),
        "pt_out": (x["pt_in"] * x["pressure_recovery"] - x["dynamic_pressure_loss_factor"] * q + x["delta_p"], "Pa"),
    }


def exit_mach(pr, g=GAM):
    crit = (2 / (g + 1)) ** (g / (g - 1))
    pr = np.asarray(pr, dtype=float)
    return np.where(pr <= crit, 1.0, np.sqrt(np.maximum(2 / (g - 1) * (pr ** (-(g - 1) / g) - 1), 0)))


def ref_force(cfg, x):
    c = cfg.get("cfg", 0.98)
    Uj = x["mdot"] / (x["rho_nozzle"] * x["area_nozzle"])
    gross = x["mdot"] * Uj + (x["p_nozzle"] - x["p_inf"]) * x["area_nozzle"]
    return {"F_net": (c * gross - x["mdot"] * x["Utrue_inf"], "N")}


def ref_inlet(cfg, x):
    a = np.sqrt(GAM * RGAS * x["T"])
    M = x["Utrue"] / a
    return {"a": (a, "m/s"), "M": (M, None), "Tt": (x["T"] * theta(M), "K"), "pt": (x["p"] * theta(M) ** 3.5 * x["totalpressure.eta_ram"], "Pa")}


def ref_nozloss(cfg, x):
    return {"pt": (x["pt_in"] - x["dynamic_pressure_loss_factor"] * 0.5 * (x["mdot"] / x["area"]) ** 2 / x["rho"], "Pa")}


# ---------------------------------------------------------------- implicit stations (scalar root finding)
class NoFlow(Exception):
    pass


def station(mdot, Tt, pt_lossless, A, K=0.0):
    """Subsonic state of a stream of given mass flow, total temperature and total pressure before dynamic losses."""

    def state(M):
        T = Tt / theta(M)
        a = np.sqrt(GAM * RGAS * T)
        rho = mdot / (a * M * A)
        p = rho * RGAS * T
        return dict(M=M, T=T, a=a, rho=rho, p=p, pt=p * theta(M) ** 3.5, Tt=Tt)

    def res(M):
        s = state(M)
        return s["pt"] - (pt_lossless - K * 0.5 * s["rho"] * (s["a"] * M) ** 2)

    if pt_lossless <= 0 or res(1.0) > 0:
        raise NoFlow
    return state(brentq(res, 1e-5, 1.0, xtol=1e-15, rtol=1e-14))


def nozzle(mdot, Tt, pt_in, p_exit, A, K=0.0):
    def state(pt):
        M = float(exit_mach(p_exit / pt))
        T = Tt / theta(M)
        a = np.sqrt(GAM * RGAS * T)
        p = pt / theta(M) ** 3.5
        rho = p / (RGAS * T)
        return dict(M=M, T=T, a=a, p=p, rho=rho, pt=pt, mdot=M * a * rho * A)

    if pt_in <= p_exit:
        raise NoFlow
    if K == 0:
        return state(pt_in)
    f = lambda pt: pt - (pt_in - K * 0.5 * (mdot / A) ** 2 / state(pt)["rho"])
    if f(p_exit * (1 + 1e-12)) > 0:
        raise NoFlow
    return state(brentq(f, p_exit * (1 + 1e-12), pt_in, xtol=1e-10, rtol=1e-14))


def duct(x, hx=None):
    """One operating point of the assembled duct; x holds plain floats in SI units."""
    a0 = np.sqrt(GAM * RGAS * x["T_inf"])
    M0 = x["Utrue"] / a0
    Tt0, pt0 = x["T_inf"] * theta(M0), x["p_inf"] * theta(M0) ** 3.5 * x["eta_ram"]

    def sweep(m):
        s1 = station(m, Tt0 + x["heat_in_1"] / (x["cp"] * m), pt0 * x["pressure_recovery_1"] + x["delta_p_1"], x["area_1"], x["loss_factor_1"])
        h = None
        A2 = A3 = None
        if hx is not None:
            A2 = A3 = x["hx_area"]
        else:
            A2, A3 = x["area_2"], x["area_3"]
        s2 = station(m, s1["Tt"] + x["heat_in_2"] / (x["cp"] * m), s1["pt"] * x["pressure_recovery_2"] + x["delta_p_2"], A2)
        if hx is not None:
            h = hx(m, s2)
            q, dp = h["heat_transfer"], h["delta_p_cold"]
        else:
            q, dp = x["heat_in_3"], x["delta_p_3"]
        s3 = station(m, s2["Tt"] + q / (x["cp"] * m), s2["pt"] * x["pressure_recovery_3"] + dp, A3)
        n = nozzle(m, s3["Tt"], s3["pt"], x["p_inf"] + x["convergence_hack"], x["area_nozzle"], x.get("loss_nozzle", 0.0))
        return s1, s2, s3, n, h

    def f(m):
        try:
            return sweep(m)[3]["mdot"] - m
        except NoFlow:
            return -m

    # scan downwards for the largest sign change (the through-flow solution)
    choke = 0.0405 * pt0 * min(x["area_1"], 3 * x["area_nozzle"]) / np.sqrt(Tt0)
    grid = np.linspace(1e-3, min(14.0, 1.02 * choke), 40)[::-1]
    prev = f(grid[0])
    for lo, hi in zip(grid[1:], grid[:-1]):
        v = f(lo)
        if v > 0 >= prev:
            m = brentq(f, lo, hi, xtol=1e-14, rtol=1e-14)
            s1, s2, s3, n, h = sweep(m)
            Uj = n["M"] * n["a"]
            F = x["cfg"] * (m * m / (n["rho"] * x["area_nozzle"]) + (n["p"] - x["p_inf"]) * x["area_nozzle"]) - m * x["Utrue"]
            return dict(mdot=m, s1=s1, s2=s2, s3=s3, n=n, F=F, h=h, Uj=Uj)
        prev = v
    raise NoFlow


SI = {"inch**2": IN2}


def point(cfg, x, ins, i):
    y = {}
    for k, v in x.items():
        v = np.ravel(np.asarray(v, dtype=float))
        y[k] = float(v[i] if v.size > 1 else v[0]) * SI.get(ins[k].units, 1.0)
    return y


def solve_all(cfg, x, ins, build):
    n = max(np.size(v) for v in x.values())
    sols = [build(cfg, point(cfg, x, ins, i)) for i in range(n)]
    g = lambda f: np.array([f(s) for s in sols])
    o = {"mdot": (g(lambda s: s["mdot"]), "kg/s"), "force.F_net": (g(lambda s: s["F"]), "N")}
    for s in ("s1", "s2", "s3"):
        st = "sta" + s[1]
        o[f"{st}.M"] = (g(lambda q: q[s]["M"]), None)
        o[f"{st}.T"] = (g(lambda q: q[s]["T"]), "K")
        o[f"{st}.p"] = (g(lambda q: q[s]["p"]), "Pa")
        o[f"{st}.rho"] = (g(lambda q: q[s]["rho"]), "kg/m**3")
        o[f"{st}.Tt_out"] = (g(lambda q: q[s]["Tt"]), "K")
        o[f"{st}.pt_out"] = (g(lambda q: q[s]["pt"]), "Pa")
    for k, u in (("M", None), ("T", "K"), ("p", "Pa"), ("rho", "kg/m**3")):
        o[f"nozzle.{k}"] = (g(lambda q: q["n"][k]), u)
    return o, sols


def ins_ext(cfg):
    return {
        "p_inf": V([26436.0, 40000.0, 90000.0], "Pa"),
        "T_inf": V([223.15, 250.0, 290.0], "K"),
        "Utrue": V([240.0, 180.0, 335.0], "m/s"),
        "sta3.heat_in": V([3e4, 0.0, 8e4], "W"),
        "sta3.delta_p": V([-300.0, 0.0, -1500.0], "Pa"),
        "heat_in_1": V([0.0, 5e3], "W"),
        "heat_in_2": V([0.0, 4e3], "W"),
        "delta_p_1": V([0.0, -250.0], "Pa"),
        "delta_p_2": V([0.0, -350.0], "Pa"),
        "pressure_recovery_1": V([1.0, 0.97]),
        "pressure_recovery_2": V([1.0, 0.98]),
        "pressure_recovery_3": V([1.0, 0.985]),
        "inlet.totalpressure.eta_ram": V([1.0, 0.98]),
        "area_nozzle_in": V([40.0, 30.0, 20.0], "inch**2"),
        "area_1": S([60.0, 80.0], "inch**2"),
        "area_2": S([400.0, 200.0], "inch**2"),
        "area_3": S([420.0, 250.0], "inch**2"),
        "loss_factor_1": S([0.0, 0.15]),
        "nozzle.dynamic_pressure_loss_factor": S([0.0, 0.06]),
        "convergence_hack": S([0.0, -40.0, 15.0], "Pa"),
        "cp": S([1002.93, 1010.0], "J/kg/K"),
    }


REN_EXT = {"sta3.heat_in": "heat_in_3", "sta3.delta_p": "delta_p_3", "inlet.totalpressure.eta_ram": "eta_ram", "area_nozzle_in": "area_nozzle", "nozzle.dynamic_pressure_loss_factor": "loss_nozzle"}


def build_ext(cfg, y):
    y = {REN_EXT.get(k, k): v for k, v in y.items()}
    return duct(dict(y, cfg=cfg.get("cfg", 0.98)))


def ref_ext(cfg, x):
    return solve_all(cfg, x, ins_ext(cfg), build_ext)[0]


def ins_int(cfg):
    return {
        "p_inf": V([26436.0, 40000.0, 90000.0], "Pa"),
        "T_inf": V([223.15, 250.0, 290.0], "K"),
        "Utrue": V([240.0, 190.0], "m/s"),
        "mdot_hot": V([0.1, 0.5, 0.03], "kg/s"),
        "T_in_hot": V([363.0, 330.0], "K"),
        "rho_hot": V([1020.0, 900.0], "kg/m**3"),
        "heat_in_2": V([0.0, 4e3], "W"),
        "delta_p_1": V([0.0, -250.0], "Pa"),
        "pressure_recovery_1": V([1.0, 0.97]),
        "pressure_recovery_3": V([1.0, 0.985]),
        "area_nozzle": V([40.0, 25.0], "inch**2"),
        "area_1": S([60.0, 80.0], "inch**2"),
        "ac|propulsion|thermal|hx|n_wide_cold": S([430.0, 600.0]),
        "loss_factor_1": S([0.0, 0.15]),
        "convergence_hack": S([-20.0, 0.0], "Pa"),
    }


def build_int(cfg, y):
    base = dict(heat_in_1=0.0, delta_p_2=0.0, pressure_recovery_2=1.0, cp=1002.93, eta_ram=1.0, cfg=cfg.get("cfg", 0.98))
    base.update(y)
    pre = "ac|propulsion|thermal|hx|"
    hxin = {pre + "n_wide_cold": y[pre + "n_wide_cold"], pre + "n_long_cold": 3.0, pre + "n_tall": 19.0}
    base["hx_area"] = (1.35e-3 + 0.102e-3) * y[pre + "n_wide_cold"] * 19 * (0.014 + 0.001 + 2 * (0.102e-3 + 0.2e-3))

    def hx(m, s2):
        d = ref_hx({}, dict(hxin, mdot_cold=m, mdot_hot=y["mdot_hot"], T_in_cold=s2["T"], T_in_hot=y["T_in_hot"], rho_cold=s2["rho"], rho_hot=y["rho_hot"]))
        return {k: float(v[0]) for k, v in d.items()}

    return duct(base, hx)


def ref_int(cfg, x):
    o, sols = solve_all(cfg, x, ins_int(cfg), build_int)
    o["T_out_hot"] = (np.array([s["h"]["T_out_hot"] for s in sols]), "K")
    o["hx.heat_transfer"] = (np.array([s["h"]["heat_transfer"] for s in sols]), "W")
    return o


def mk_duct(cls):
    m = mk(P, cls)

    def make(cfg, nn):
        g = om.Group()
        g.add_subsystem("sys", m(cfg, nn), promotes=["*"])
        for k, v, u in (("p_inf", 3e4, "Pa"), ("Utrue", 240.0, "m/s")):
            g.set_input_defaults(k, val=v * np.ones(nn), units=u)
        nl = g.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, iprint=-1, atol=1e-11, rtol=1e-14, maxiter=60, err_on_non_converge=False, max_sub_solves=10)
        nl.linesearch = om.BoundsEnforceLS(bound_enforcement="scalar")
        g.linear_solver = om.DirectSolver()
        return g

    return make


def guess(p, cfg, x):
    A = x["area_nozzle_in"] if "area_nozzle_in" in x else x["area_nozzle"]
    p.set_val("mdot", 0.6 * x["p_inf"] / (RGAS * x["T_inf"]) * x["Utrue"] * A * IN2, units="kg/s")
    for s, m in (("sta1", 0.4), ("sta2", 0.08), ("sta3", 0.08)):
        p.set_val(f"{s}.M", m)
        p.set_val(f"{s}.rho", x["p_inf"] / (RGAS * x["T_inf"]), units="kg/m**3")
        p.set_val(f"{s}.a", np.sqrt(GAM * RGAS * x["T_inf"]), units="m/s")
    p.set_val("nozzle.nozzle_pressure_ratio", 0.8)


def post_duct(ctx, e, cfg, x, p):
    """Mass flow is the same through every station and the nozzle; total enthalpy rises by exactly the heat added."""
    g = lambda n, u=None: p.get_val(n, units=u)
    m = g("mdot", "kg/s")
    for s in ("sta1", "sta2", "sta3"):
        ctx.close(f"{e.name}:continuity:{s}", g(f"{s}.M") * g(f"{s}.a", "m/s") * g(f"{s}.rho", "kg/m**3") * g(f"{s}.area" if s == "sta9" else f"area_{s[-1]}", "m**2"), m, 1e-7, 0, f"mass flow at {s}", cfg=cfg)
    ctx.close(f"{e.name}:continuity:nozzle", g("mdot_actual", "kg/s"), m, 1e-7, 0, "mass flow at the nozzle", cfg=cfg)
    q = np.asarray(x.get("heat_in_1", 0.0)) + np.asarray(x.get("heat_in_2", 0.0)) + (g("sta3.heat_in", "W"))
    cp = g("cp", "J/kg/K")
    ctx.close(f"{e.name}:energy", m * cp * (g("sta3.Tt_out", "K") - g("inlet.Tt", "K")), q, 1e-6, 1e-4, "total enthalpy rise = heat added", cfg=cfg)


def post_ext(ctx, e, cfg, x, p):
    post_duct(ctx, e, cfg, x, p)


def post_int(ctx, e, cfg, x, p):
    p_ = p

    class Q:
        def get_val(self, n, units=None):
            n = {"area_2": "hx.frontal_area", "area_3": "hx.frontal_area"}.get(n, n)
            return p_.get_val(n, units=units)

    post_duct(ctx, e, cfg, x, Q())


def mk_implicit(cls):
    """One implicit relation closed by a Newton solver of its own."""
    m = mk(P, cls)

    def make(cfg, nn):
        g = om.Group()
        g.add_subsystem("sys", m(cfg, nn), promotes=["*"])
        g.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, iprint=-1, atol=1e-13, rtol=1e-14, maxiter=30, err_on_non_converge=False)
        g.nonlinear_solver.linesearch = om.BoundsEnforceLS(bound_enforcement="scalar")
        g.linear_solver = om.DirectSolver()
        return g

    return make


MS = [0.5, 0.0, 0.9, 1.3]
CG = [{}, dict(gamma=1.33)]
DUCTS = [
    Entry("ExplicitIncompressibleDuct", mk(P, "ExplicitIncompressibleDuct"), {"fltcond|Utrue": V([80.0, 30.0, 150.0], "m/s"), "fltcond|rho": V([1.0, 0.4, 1.3], "kg/m**3"), "area_nozzle": V([58.0, 10.0], "inch**2"), "delta_p_hex": V([-100.0, 0.0, -20.0, -150.0], "Pa")},
          lambda cfg, x: ref_incomp(cfg, dict(x, area_nozzle=x["area_nozzle"] * IN2)), [{}, dict(static_pressure_loss_factor=0.4, gross_thrust_factor=0.9)]),
    Entry("TemperatureIsentropic", mk(P, "TemperatureIsentropic"), dict(Tt=V([300.0, 220.0, 450.0], "K"), M=V(MS)), ref_T, CG),
    Entry("TotalTemperatureIsentropic", mk(P, "TotalTemperatureIsentropic"), dict(T=V([300.0, 220.0, 450.0], "K"), M=V(MS)), ref_Tt, CG),
    Entry("PressureIsentropic", mk(P, "PressureIsentropic"), dict(pt=V([1e5, 2e4], "Pa"), M=V(MS)), ref_p, CG),
    Entry("TotalPressureIsentropic", mk(P, "TotalPressureIsentropic"), dict(p=V([1e5, 2e4], "Pa"), M=V(MS)), ref_pt, CG),
    Entry("DensityIdealGas", mk(P, "DensityIdealGas"), dict(p=V([1e5, 2e4], "Pa"), T=V([300.0, 220.0, 450.0], "K")), ref_rho, [{}, dict(R=300.0)]),
    Entry("SpeedOfSound", mk(P, "SpeedOfSound"), dict(T=V([300.0, 220.0, 450.0, 12.0], "K")), ref_a, [{}, dict(R=300.0), dict(gamma=1.33)]),
    Entry("MachNumberfromSpeed", mk(P, "MachNumberfromSpeed"), dict(a=V([300.0, 340.0], "m/s"), Utrue=V([100.0, 0.0, 340.0], "m/s")), lambda cfg, x: {"M": (x["Utrue"] / x["a"], None)}),
    Entry("HeatAdditionPressureLoss", mk(P, "HeatAdditionPressureLoss"),
          dict(Tt_in=V([300.0, 250.0], "K"), pt_in=V([1e5, 3e4], "Pa"), mdot=V([2.0, 0.5], "kg/s"), rho=V([1.0, 0.4], "kg/m**3"), area=S([0.1, 0.3], "m**2"), delta_p=V([0.0, -500.0, 200.0], "Pa"), dynamic_pressure_loss_factor=S([0.0, 0.15, 1.0]), pressure_recovery=V([1.0, 0.95]), heat_in=V([0.0, 1e4, -2e3], "W"), cp=S([1005.0, 1002.93], "J/kg/K")),
          ref_heat, budget=3000),
    Entry("MassFlow", mk(P, "MassFlow"), dict(a=V([300.0, 340.0], "m/s"), area=V([0.1, 0.3], "m**2"), rho=V([1.0, 0.4], "kg/m**3"), M=V([0.5, 0.1, 1.0])), lambda cfg, x: {"mdot": (x["M"] * x["a"] * x["area"] * x["rho"], "kg/s")}),
    Entry("MachNumberDuct", mk_implicit("MachNumberDuct"), dict(mdot=V([3.0, 1.0, 8.0], "kg/s"), a=V([300.0, 340.0], "m/s"), area=S([0.1, 0.3], "m**2"), rho=V([1.0, 0.4], "kg/m**3")), lambda cfg, x: {"M": (np.clip(x["mdot"] / (x["a"] * x["area"] * x["rho"]), 1e-5, 0.99999), None)}, rtol=1e-8),
    Entry("DuctExitPressureRatioImplicit", mk_implicit("DuctExitPressureRatioImplicit"), dict(p_exit=V([3e4, 5e4, 2.2e4], "Pa"), pt=V([1e5, 6e4], "Pa")), lambda cfg, x: {"nozzle_pressure_ratio": (x["p_exit"] / x["pt"], None)}, rtol=1e-8),
    Entry("FlowMatcher", mk_implicit("FlowMatcher"), dict(mdot_actual=V([3.0, 1.0, 0.02, 14.0], "kg/s")), lambda cfg, x: {"mdot": (x["mdot_actual"], "kg/s")}, rtol=1e-8),
    Entry("DuctExitMachNumber", mk(P, "DuctExitMachNumber"), dict(nozzle_pressure_ratio=V([0.8, 0.9999, 0.6, 0.55, 0.53, 0.5, 0.1])), lambda cfg, x: {"M": (exit_mach(x["nozzle_pressure_ratio"], gr(cfg)[0]), None)}, CG),
    Entry("NetForce", mk(P, "NetForce"), dict(mdot=V([2.0, 0.5], "kg/s"), Utrue_inf=V([100.0, 0.0, 240.0], "m/s"), p_inf=V([3e4, 1e5], "Pa"), area_nozzle=V([0.02, 0.04], "m**2"), p_nozzle=V([3e4, 4e4], "Pa"), rho_nozzle=V([0.5, 1.1], "kg/m**3")), ref_force, [{}, dict(cfg=0.9)]),
    Entry("Inlet", mk(P, "Inlet"), {"T": V([223.0, 290.0], "K"), "p": V([26436.0, 1e5], "Pa"), "Utrue": V([240.0, 0.0, 100.0, 335.0], "m/s"), "totalpressure.eta_ram": V([1.0, 0.97])}, ref_inlet),
    Entry("NozzlePressureLoss", mk(P, "NozzlePressureLoss"), dict(pt_in=V([1e5, 3e4], "Pa"), mdot=V([2.0, 0.5], "kg/s"), rho=V([1.0, 0.4], "kg/m**3"), area=V([0.1, 0.05], "m**2"), dynamic_pressure_loss_factor=S([0.0, 0.15, 1.0])), ref_nozloss),
    Entry("ImplicitCompressibleDuct_ExternalHX", mk_duct("ImplicitCompressibleDuct_ExternalHX"), ins_ext, ref_ext, [{}, dict(cfg=0.9)], rtol=2e-7, scale={"force.F_net": 1e-4}, budget=160, dbudget=6, dcfgs=1, dtol=2e-5, ntol=1e-7, htol=1e-7, hdepth=2, fdnoise=1e-10, guess=guess, post=post_ext),
    Entry("ImplicitCompressibleDuct", mk_duct("ImplicitCompressibleDuct"), ins_int, ref_int, [{}, dict(cfg=0.9)], rtol=2e-7, scale={"force.F_net": 1e-4}, budget=50, dbudget=6, dcfgs=1, dtol=2e-5, ntol=1e-7, htol=1e-7, hdepth=2, fdnoise=1e-10, guess=guess, post=post_int),
]

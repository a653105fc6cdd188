"""The example aircraft shipped with the library, flown on several missions and audited phase by phase (independent relations, numpy only)."""
import contextlib
import importlib
import io
import os
import tempfile
from unittest import mock

import numpy as np

from mc import missions as M
from mc.cat_aero import RAIR, T_std, p_std
from mc.cat_systems import ref_series_twin, ref_turboprop, ref_twin
from mc.checks.c01_integrators import refM
from mc.omx import om

G, FT = M.G, M.FT
KN, NM, FPM = "kn", "nmi", "ft/min"
ENG, PROPD, MOT, GEN, WB = "ac|propulsion|engine|rating", "ac|propulsion|propeller|diameter", "ac|propulsion|motor|rating", "ac|propulsion|generator|rating", "ac|weights|W_battery"
TO = ("v0v1", "v1vr", "rotate", "v1v0")
CCD = ("climb", "cruise", "descent")
RES = ("reserve_climb", "reserve_cruise", "reserve_descent", "loiter")
TAKEOFF_PHASES = ("v0v1", "v1v0", "v1vr", "rotate")


def lin(a, b):
    return lambda n: np.linspace(a, b, n)


# the first mission of every example is the published one
PROPJOB = [
    {},
    {"cruise|h0": (0.7, None), "mission_range": (0.8, None)},
    {"climb.fltcond|vs": (lin(1.1, 0.7), None), "cruise.fltcond|Ueas": (lin(1.0, 0.95), None), "descent.fltcond|vs": (lin(1.1, 0.8), None)},
    {"ac|weights|MTOW": (0.93, None), "ac|geom|wing|S_ref": (1.08, None)},
    {"*.fltcond|TempIncrement": (12.0, "degC")},
]
TURBO = {"throttle": None, "fltcond|rho": "kg/m**3", "fltcond|Utrue": "m/s", ENG: "hp", PROPD: "m"}
MINIMAL = dict(run="setup_problem", root="mission", takeoff=None, polar="L/D", tow="ac|weights|TOW", missions=PROPJOB[:3] + [{"ac|weights|TOW": (0.9, None), "ac|aero|L_over_D": (1.3, None)}, {"ac|propulsion|max_thrust": (1.6, None), "ac|geom|wing|S_ref": (0.8, None)}] + PROPJOB[4:])
EX = {
    "TBM850": dict(run="run_tbm_analysis", takeoff="simplified", tow="ac|weights|MTOW", pm="acmodel.propmodel", prop=(ref_turboprop, dict(TURBO, **{"prop1.rpm": "rpm"})), missions=PROPJOB),
    "Caravan": dict(run="run_caravan_analysis", takeoff="simplified", tow="ac|weights|MTOW", pm="acmodel.propmodel", prop=(ref_turboprop, dict(TURBO, **{"prop1.rpm": "rpm"})), missions=PROPJOB),
    "KingAirC90GT": dict(run="run_kingair_analysis", takeoff="simplified", tow="ac|weights|MTOW", pm="acmodel.propmodel", prop=(ref_twin, dict(TURBO, **{"prop1.rpm": "rpm", "prop2.rpm": "rpm", "propulsor_active": None})), missions=PROPJOB),
    "HybridTwin": dict(
        run="run_hybrid_twin_analysis", takeoff="simplified", tow="ac|weights|MTOW", pm="acmodel.propmodel",
        prop=(ref_series_twin, {"throttle": None, "fltcond|rho": "kg/m**3", "fltcond|Utrue": "m/s", "propulsor_active": None, "prop1.rpm": "rpm", "prop2.rpm": "rpm", PROPD: "m", MOT: "kW", ENG: "kW", GEN: "kW", WB: "kg", "hybrid_split.power_split_fraction": None, "batt1.SOC_initial": None, "duration": "s", "specific_energy": "W*h/kg"}),
        missions=PROPJOB[:2] + PROPJOB[3:] + [{"cruise.hybridization": (0.02, None), "climb.hybridization": (0.03, None)}],
    ),
    "HybridTwin_thermal": dict(run="run_hybrid_twin_thermal_analysis", takeoff="simplified", tow="ac|weights|MTOW", ductdrag="acmodel.propmodel.duct.drag", missions=[{}]),
    "ElectricSinglewithThermal": dict(run="run_electricsingle_analysis", takeoff="ode", tow="ac|weights|MTOW", fuel=None, missions=[{}]),
    "B738": dict(run="run_738_analysis", takeoff=None, reserve=True, tow="ac|weights|MTOW", missions=PROPJOB + [{"reserve|h0": (0.6, None), "reserve_range": (1.4, None), "loiter|h0": (2.0, None), "loiter_duration": (0.7, None)}]),
    "B738_sizing": dict(run="run_738_sizing_analysis", kw=dict(num_nodes=5), root="mission", staged=True, takeoff="simplified", reserve=True, tow="ac|weights|MTOW", fuel="acmodel.fuel_burn_integ.fuel_burn", vecCD0="acmodel.zero_lift_drag.CD0", missions=[{}, {"ac|geom|wing|AR": (1.08, None), "climb.fltcond|vs": (lin(1.05, 0.9), None)}, {"ac|weights|W_payload": (0.9, None), "loiter_duration": (0.7, None)}]),
    "N3_HybridSingleAisle_Refrig": dict(run="run_hybrid_sa_analysis", kw=dict(plots=False), staged=True, takeoff=None, groundroll=True, polar=None, tow="ac|design_mission|TOW", missions=[{}]),
    "minimal": dict(MINIMAL, fuel=None),
    "minimal_integrator": dict(MINIMAL, model="MissionAnalysisWithFuelBurn", fuel="fuel_integrator.fuel_burned"),
}


@contextlib.contextmanager
def quiet():
    """In a scratch directory, without output."""
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                yield
        finally:
            os.chdir(cwd)


def published(name):
    """The problem with the published values, not yet solved (or as far as its own staged start)."""
    e = EX[name]
    mod = importlib.import_module("openconcept.examples." + name)
    setup = om.Problem.setup

    def nochecks(self, *a, **k):
        k["check"] = False
        return setup(self, *a, **k)

    with quiet(), contextlib.ExitStack() as st:
        st.enter_context(mock.patch.object(om.Problem, "setup", nochecks))
        if not e.get("staged"):
            st.enter_context(mock.patch.object(om.Problem, "run_model", lambda self, *a, **k: None))
        kw = dict(e.get("kw", {}), **({"model": getattr(mod, e["model"])} if "model" in e else {}))
        p = getattr(mod, e["run"])(**kw)
    p.set_solver_print(level=-1)
    p.final_setup()
    return p


class Flight:
    def __init__(self, name, p):
        self.e, self.p, self.name = EX[name], p, name
        self.root = self.e.get("root", "analysis")
        self.pre = "" if self.root == "analysis" else self.root + "."
        self.phases = (TO if self.e["takeoff"] else ()) + (("groundroll",) if self.e.get("groundroll") else ()) + CCD + (RES if self.e.get("reserve") else ())
        self.start = p.model._outputs.asarray(copy=True)
        self.prom = {k: v["prom_name"] for k, v in p.model.get_io_metadata(metadata_keys=("units",)).items()}
        self.names = set(self.prom) | set(self.prom.values())

    def at(self, path, u=None):
        """A value by its promoted or absolute name."""
        return np.asarray(self.p.get_val(self.prom.get(path, path), units=u), dtype=float)

    def ph(self, phase, var, u=None):
        """A value of a phase; what a part of the aircraft offers may be promoted on the way up."""
        parts = var.split(".")
        for i in range(len(parts)):
            for path in (f"{self.root}.{phase}." + ".".join(parts[i:]), f"{self.pre}{phase}." + ".".join(parts[i:])):
                if path in self.names:
                    return self.at(path, u)
        return self.at(f"{self.pre}{phase}.{var}", u)

    def M(self, phase):
        n = self.ph(phase, "fltcond|h").size
        return refM("simpson", n) / (n - 1), n

    # ---------------------------------------------------------------- flying
    def reset(self):
        self.p.model._outputs.set_val(self.start)

    def path(self, k):
        if k.startswith("ac|") or k in ("payload",):
            return k
        return self.pre + k

    def put(self, mission):
        for k, (v, u) in mission.items():
            for path in [self.path(k)] if not k.startswith("*") else [f"{self.pre}{ph}{k[1:]}" for ph in self.phases]:
                if u is None:  # relative to the published value
                    base = self.base[path]
                    self.p.set_val(path, base * (v(np.size(base)) if callable(v) else v))
                else:
                    self.p.set_val(path, v, units=u)

    def remember(self, missions):
        """Published values of what the missions change."""
        self.base, self.abs0 = {}, {}
        for m in missions:
            for k, (v, u) in m.items():
                for path in [self.path(k)] if not k.startswith("*") else [f"{self.pre}{ph}{k[1:]}" for ph in self.phases]:
                    self.base[path] = np.array(self.p.get_val(path), dtype=float)

    def fly(self, mission, warm=False):
        """Solve a mission from the published start (warm: from wherever the problem is)."""
        if not warm:
            self.reset()
        for path, v in self.base.items():
            self.p.set_val(path, v)
        self.put(mission)
        ready = not mission and not warm and bool(self.e.get("staged"))  # the example has flown it already
        try:
            with quiet():
                for i in range(4):
                    if i or not ready:
                        self.p.run_model()
                    if M.converged(self.p, 1e-6):
                        self.p.run_model()  # from the solution on: as exact as it gets
                        return M.converged(self.p, 1e-6)
        except (om.AnalysisError, RuntimeError, ValueError, FloatingPointError):
            pass
        return False

    def again(self):
        """Set the same problem up again and give it the published values."""
        with quiet():
            self.p.setup(check=False)
        self.p.set_solver_print(level=-1)
        self.p.final_setup()
        self.reset()


def audit(ctx, f, key, tol=1e-6, detail=None):
    """Every relation of the flown mission."""
    e, ph = f.e, f.ph
    detail = detail or {}

    def same(what, got, want, scale=0.0, rtol=tol):
        ctx.close(f"{key}:{what}", got, np.asarray(want), rtol, scale, what, **detail)

    S = f.at("ac|geom|wing|S_ref", "m**2")
    mtow = f.at("ac|weights|MTOW" if e["tow"] == "ac|weights|MTOW" else e["tow"], "kg")
    tow = f.at(e["tow"], "kg")
    prev = {}
    for name in f.phases:
        Mx, n = f.M(name)
        dur = ph(name, "duration", "s")[0]
        h, U, W = ph(name, "fltcond|h", "m"), ph(name, "fltcond|Utrue", "m/s"), ph(name, "weight", "kg")
        T, D = ph(name, "thrust", "N"), ph(name, "drag", "N")
        dT = ph(name, "fltcond|TempIncrement", "degC")
        rho = p_std(h) / RAIR / (T_std(h) + dT)
        same(f"{name}:rho", ph(name, "fltcond|rho", "kg/m**3"), rho, 1e-9)
        q = 0.5 * rho * U**2
        same(f"{name}:q", ph(name, "fltcond|q", "Pa"), q, 1e-4)
        CL = ph(name, "fltcond|CL")
        # weight and fuel
        if e.get("fuel", 1):
            fu = ph(name, e.get("fuel", "fuel_used") if "fuel" in e else f.fuel, "kg")
            same(f"{name}:weight", W, tow - fu)
        else:
            same(f"{name}:weight", W, np.full(n, tow[0]))
        # drag
        if "polar" not in e:
            AR, eo = f.at("ac|geom|wing|AR"), f.at("ac|aero|polar|e") if "vecCD0" not in e else f.ph(name, "acmodel.drag_polar.e")
            CD0 = ph(name, e["vecCD0"]) if "vecCD0" in e else f.at("ac|aero|polar|CD0_TO" if name in TAKEOFF_PHASES else "ac|aero|polar|CD0_cruise")
            want = q * S * (CD0 + CL**2 / np.pi / AR / eo)
            if "ductdrag" in e:
                want = want + ph(name, e["ductdrag"], "N")
            same(f"{name}:drag", D, want, 1e-4)
        elif e["polar"] == "L/D":
            same(f"{name}:drag", D, q * S * CL / f.at("ac|aero|L_over_D"), 1e-4)
            same(f"{name}:thrust", T, ph(name, "throttle") * f.at("ac|propulsion|max_thrust", "N"), 1e-4)
        if f.name == "minimal_integrator":
            same(f"{name}:fuel_flow", ph(name, "fuel_flow_calc.fuel_flow", "kg/s"), f.at("ac|propulsion|TSFC", "kg/N/s") * T, 1e-8)
        # propulsion
        if "prop" in e:
            fn, names = e["prop"]
            x = {}
            for k, u in names.items():
                if k in ("throttle", "duration", "propulsor_active") or k.startswith("fltcond"):
                    x[k] = ph(name, k, u)
                elif k == "specific_energy":
                    x[k] = f.at("ac|propulsion|battery|specific_energy", u)
                elif k.startswith("ac|"):
                    x[k] = f.at(k, u)
                else:
                    x[k] = ph(name, e["pm"] + "." + k, u)
            for k, (v, u) in fn({}, x).items():
                got = ph(name, e["pm"] + "." + k, u)
                same(f"{name}:{k}", got, v, 1e-7 * (1 + np.max(np.abs(v))))
        ctx.outcome(W, T)
        # kinematics
        if name in CCD + RES:
            vs, Ueas = ph(name, "fltcond|vs", "m/s"), ph(name, "fltcond|Ueas", "m/s")
            same(f"{name}:U", U, Ueas * np.sqrt(1.225 / rho))
            gs = np.sqrt(U**2 - vs**2)
            cg, sg = gs / U, vs / U
            same(f"{name}:CL", CL, W * G * cg / q / S)
            same(f"{name}:balance", T, D + W * G * sg, 1e-6 * np.max(W) * G)
            same(f"{name}:h", h, h[0] + dur * Mx @ vs, 1e-3)
            rg = ph(name, "range", "m")
            same(f"{name}:range", rg, rg[0] + dur * Mx @ gs, 1e-2)
        elif name in ("v0v1", "v1vr", "v1v0", "groundroll"):
            mu = ph(name, "braking")
            acc = (T - D - mu * np.maximum(W * G - q * S * CL, 0.0)) / W
            same(f"{name}:accel", ph(name, "accel_horiz", "m/s**2"), acc, 1e-6)
            rg = ph(name, "range", "m")
            same(f"{name}:range", rg, rg[0] + dur * Mx @ U, 1e-3)
            if name == "v1v0":
                same(f"{name}:U", U[::-1], U[-1] + dur * Mx @ (-acc[::-1]), 1e-4)
            else:
                same(f"{name}:U", U, U[0] + dur * Mx @ acc, 1e-4)
        elif e["takeoff"] == "simplified":
            gam = np.arcsin((T - D) / W / G)
            same("rotate:gamma", ph(name, "gamma", "rad"), gam, 1e-7)
            R = U[0] ** 2 / 0.2 / G
            st, ht = R * np.sin(gam[0]), R * (1 - np.cos(gam[0]))
            if ht > 10.66:
                ht = 10.66
                st = np.sqrt(R**2 - (R - 10.66) ** 2)
            sc = (10.66 - ht) / np.tan(gam[-1])
            same("rotate:h_transition", ph(name, "h_transition", "m"), [ht])
            same("rotate:duration", [dur], [st / U[0] + sc / U[-1]], rtol=1e-5)
            rg = ph(name, "range", "m")
            same("rotate:range", rg, rg[0] + np.linspace(0, st + sc, n), 1e-3)
            same("rotate:h", h[-1:], [35 * FT])
        else:
            vs = ph(name, "fltcond|vs", "m/s")
            gs = np.sqrt(U**2 - vs**2)
            cg, sg = gs / U, vs / U
            L = q * S * CL
            ah = (T - D - ph(name, "braking") * np.maximum(W * G - L, 0.0)) / W - G * sg
            av = np.clip((L * cg + (T - D) * sg) / W - G, -G, 2.5 * G)
            rg = ph(name, "range", "m")
            for what, got, want, sc in (("U", U, U[0] + dur * Mx @ ah, 1e-4), ("vs", vs, vs[0] + dur * Mx @ av, 1e-4), ("h", h, h[0] + dur * Mx @ vs, 1e-4), ("range", rg, rg[0] + dur * Mx @ gs, 1e-3)):
                same(f"rotate:{what}", got, want, sc)
            same("rotate:h_end", h[-1:], [35 * FT], 1e-6)
        prev[name] = dict(h=h, U=U, range=rg)
        # everything else that is integrated over the phase
        for path, st in f.integrators.get(name, {}).items():
            rate = f.at(f"{path}.{st['rate']}", st["ru"])
            y0, y = f.at(f"{path}.{st['name']}_initial", st["u"]), f.at(f"{path}.{st['name']}", st["u"])
            f0 = 1.0 if st["ru"] is None or st["u"] is None else st["k"]
            same(f"{path}", y, y0 + dur * Mx @ (rate * f0), 1e-8 * (1 + np.max(np.abs(y))))
            same(f"{path}_final", f.at(f"{path}.{st['name']}_final", st["u"]), y[-1:])
    # from phase to phase
    chain = [x for x in f.phases if x not in ("v1v0",)]
    pairs = list(zip(chain, chain[1:])) + ([("v0v1", "v1v0")] if e["takeoff"] else [])
    for a, b in pairs:
        for path, st in f.integrators.get(a, {}).items():
            pb = path.replace(f"{f.root}.{a}.", f"{f.root}.{b}.", 1)
            if pb in f.integrators.get(b, {}):
                same(f"{path}->{b}", f.at(f"{pb}.{st['name']}", st["u"])[:1], f.at(f"{path}.{st['name']}", st["u"])[-1:], 1e-8)
        same(f"range:{a}->{b}", prev[b]["range"][:1], prev[a]["range"][-1:], 1e-3)
        if a in CCD and b in CCD or a in RES and b in RES[:3]:
            same(f"h:{a}->{b}", prev[b]["h"][:1], prev[a]["h"][-1:], 1e-3)
    hc = f.at(f.pre + "cruise|h0", "m")
    same("cruise-altitude", prev["cruise"]["h"][:1], hc)
    same("landing", prev["descent"]["h"][-1:], f.at(f.pre + "takeoff|h", "m") if not e["takeoff"] else [0.0], 1e-3 + 1e-6 * hc[0])
    same("mission-range", prev["descent"]["range"][-1:], f.at(f.pre + "mission_range", "m"))
    if e.get("reserve"):
        same("reserve-altitude", prev["reserve_cruise"]["h"][:1], f.at(f.pre + "reserve|h0", "m"))
        same("reserve-range", prev["reserve_descent"]["range"][-1:] - prev["descent"]["range"][-1:], f.at(f.pre + "reserve_range", "m"))
        same("loiter-altitude", prev["loiter"]["h"][:1], f.at(f.pre + "loiter|h0", "m"))
        same("loiter-duration", ph("loiter", "duration", "s"), f.at(f.pre + "loiter_duration", "s"))
    if e["takeoff"]:
        vstall = np.sqrt(2 * mtow * G / 1.225 / S / f.at("ac|aero|CLmax_TO"))
        vr = 1.1 * vstall
        v1 = prev["v0v1"]["U"][-1:]
        same("vr", prev["v1vr"]["U"][-1:], vr * (1 if e["takeoff"] else 1), 1e-4, rtol=1e-5)
        same("v1-go", prev["v1vr"]["U"][:1], v1)
        same("v1-stop", prev["v1v0"]["U"][:1], v1)
        go, stop = prev["rotate"]["range"][-1], prev["v1v0"]["range"][-1]
        ctx.true(f"{key}:balanced", abs(go - stop) < 1e-4 * stop or (abs(v1[0] - vr[0]) < 1e-4 * vr[0] and stop < go), f"balanced field: continue {go}, stop {stop}, v1 {v1}, vr {vr}", **detail)
        Te, De = ph("engineoutclimb", "thrust", "N"), ph("engineoutclimb", "drag", "N")
        same("engine-out-gamma", ph("engineoutclimb", "gamma", "rad"), np.arcsin((Te - De) / mtow / G), 1e-7)
    if f.name == "B738_sizing":
        same("closing", f.at("ac|weights|MTOW", "kg"), f.at("ac|weights|OEW", "kg") + f.at("ac|weights|W_payload", "kg") + f.at("mission.loiter.acmodel.fuel_burn_integ.fuel_burn_final", "kg"))


def find(f):
    """The integrators of every phase that carry a single state, by what they offer."""
    from openconcept.utilities import Integrator

    f.integrators = {}
    for s in f.p.model.system_iter(recurse=True, typ=Integrator):
        name = s.pathname.split(".")[1]
        outs = s.get_io_metadata(iotypes="output", metadata_keys=("units", "shape"))
        ins = s.get_io_metadata(iotypes="input", metadata_keys=("units", "shape"))
        st = [o for o in outs if o + "_final" in outs]
        if len(st) != 1:
            continue
        rates = [i for i in ins if i != "duration" and i != st[0] + "_initial"]
        if len(rates) != 1 or st[0] + "_initial" not in ins:
            continue
        u, ru = outs[st[0]]["units"], ins[rates[0]]["units"]
        k = om.convert_units(1.0, ru, f"({u})/s") if u and ru else om.convert_units(1.0, ru, "1/s") if ru else 1.0
        f.integrators.setdefault(name, {})[s.pathname] = dict(name=st[0], rate=rates[0], u=u, ru=ru, k=k)
        if st[0] == "fuel_used":
            f.fuel = s.pathname.split(".", 2)[2] + ".fuel_used"


def load(name):
    f = Flight(name, published(name))
    find(f)
    f.remember(EX[name]["missions"])
    return f

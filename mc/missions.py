"""A small aircraft, the library's mission profiles around it, and an independent reference mission (numpy/scipy only)."""
import numpy as np
from scipy.optimize import brentq, fsolve

from mc.cat_aero import RAIR, T_std, p_std
from mc.checks.c01_integrators import refM
from mc.omx import om

G = 9.80665
FT, KN, NMI = 0.3048, 1852.0 / 3600, 1852.0

AC = {
    "ac|geom|wing|S_ref": (26.0, "m**2"),
    "ac|weights|MTOW": (4581.0, "kg"),
    "ac|weights|TOW": (4400.0, "kg"),
    "ac|aero|CLmax_TO": (1.7, None),
    "ac|aero|CD0": (0.022, None),
    "ac|aero|CD0_TO": (0.035, None),
    "ac|aero|K": (0.052, None),
    "ac|propulsion|Tmax": (15.0e3, "N"),
    "ac|propulsion|TSFC": (1.6e-5, "kg/N/s"),
    "ac|propulsion|idle": (0.004, "kg/s"),
}
JET = {
    "ac|geom|wing|S_ref": (124.6, "m**2"),
    "ac|weights|MTOW": (79002.0, "kg"),
    "ac|weights|TOW": (78000.0, "kg"),
    "ac|aero|CLmax_TO": (2.1, None),
    "ac|aero|CD0": (0.018, None),
    "ac|aero|CD0_TO": (0.03, None),
    "ac|aero|K": (0.045, None),
    "ac|propulsion|Tmax": (380.0e3, "N"),
    "ac|propulsion|TSFC": (1.55e-5, "kg/N/s"),
    "ac|propulsion|idle": (0.01, "kg/s"),
}
TAKEOFF = ("v0v1", "v1vr", "v1v0", "rotate")


def thrust_law(Tmax, throttle, active, rho, U):
    return Tmax * throttle * (0.5 + 0.5 * active) * (rho / 1.225) ** 0.8 * (1 - U / 700.0)


def aircraft_class():
    from openconcept.mission import IntegratorGroup

    class Model(om.ExplicitComponent):
        def initialize(self):
            self.options.declare("num_nodes", default=1)
            self.options.declare("flight_phase", default=None)

        def setup(self):
            nn = self.options["num_nodes"]
            for k, u in (("fltcond|CL", None), ("throttle", None), ("propulsor_active", None), ("fltcond|q", "Pa"), ("fltcond|rho", "kg/m**3"), ("fltcond|Utrue", "m/s")):
                self.add_input(k, np.ones(nn), units=u)
            for k, (v, u) in AC.items():
                if "CLmax" not in k and "MTOW" not in k and "TOW" not in k:
                    self.add_input(k, v, units=u)
            self.add_output("thrust", np.ones(nn), units="N")
            self.add_output("drag", np.ones(nn), units="N")
            self.add_output("fuel_flow", np.ones(nn), units="kg/s", tags=["integrate", "state_name:fuel_used", "state_units:kg", "state_val:1.0", "state_promotes:True"])
            self.declare_partials(["*"], ["*"], method="cs")

        def compute(self, i, o):
            cd0 = i["ac|aero|CD0_TO"] if self.options["flight_phase"] in TAKEOFF else i["ac|aero|CD0"]
            o["drag"] = i["fltcond|q"] * i["ac|geom|wing|S_ref"] * (cd0 + i["ac|aero|K"] * i["fltcond|CL"] ** 2)
            o["thrust"] = thrust_law(i["ac|propulsion|Tmax"], i["throttle"], i["propulsor_active"], i["fltcond|rho"], i["fltcond|Utrue"])
            o["fuel_flow"] = i["ac|propulsion|TSFC"] * o["thrust"] + i["ac|propulsion|idle"]

    class Weight(om.ExplicitComponent):
        def initialize(self):
            self.options.declare("num_nodes", default=1)

        def setup(self):
            nn = self.options["num_nodes"]
            self.add_input("fuel_used", np.ones(nn), units="kg")
            self.add_input("ac|weights|TOW", 1.0, units="kg")
            self.add_output("weight", np.ones(nn), units="kg")
            self.declare_partials("weight", "fuel_used", rows=np.arange(nn), cols=np.arange(nn), val=-1.0)
            self.declare_partials("weight", "ac|weights|TOW", val=np.ones((nn, 1)))

        def compute(self, i, o):
            o["weight"] = i["ac|weights|TOW"] - i["fuel_used"]

    class Aircraft(IntegratorGroup):
        def initialize(self):
            self.options.declare("num_nodes", default=1)
            self.options.declare("flight_phase", default=None)

        def setup(self):
            nn = self.options["num_nodes"]
            self.add_subsystem("model", Model(num_nodes=nn, flight_phase=self.options["flight_phase"]), promotes=["*"])
            self.add_subsystem("mass", Weight(num_nodes=nn), promotes=["*"])

    return Aircraft


def build(profile, nn, ac=AC, **opts):
    from openconcept.mission import BasicMission, FullMissionAnalysis, MissionWithReserve
    from openconcept.mission.profiles import FullMissionWithReserve

    cls = dict(BasicMission=BasicMission, FullMissionAnalysis=FullMissionAnalysis, MissionWithReserve=MissionWithReserve, FullMissionWithReserve=FullMissionWithReserve)[profile]
    p = om.Problem(reports=False)
    iv = p.model.add_subsystem("iv", om.IndepVarComp(), promotes_outputs=["*"])
    for k, (v, u) in ac.items():
        iv.add_output(k, v, units=u)
    p.model.add_subsystem("m", cls(aircraft_model=aircraft_class(), num_nodes=nn, **opts), promotes_inputs=["ac|*"])
    nl = p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, iprint=-1, atol=1e-9, rtol=1e-13, maxiter=40, err_on_non_converge=False)
    nl.options["stall_limit"] = 0
    p.model.linear_solver = om.DirectSolver()
    p.setup(check=False)
    p.set_solver_print(level=-1)
    return p


# ------------------------------------------------------------------ reference mission
class Ref:
    """par: ac values + schedule {phase: (Ueas [m/s] vector, vs [m/s] vector)}; everything in SI."""

    def __init__(self, profile, nn, ac, par, opts=None):
        self.nn, self.M = nn, refM("simpson", nn) / (nn - 1)
        self.a = {k.split("|")[-1]: v for k, v in ac.items()}
        self.par, self.out, self.opts = par, {}, opts or {}
        self.profile = profile

    def atmos(self, name, h):
        p, T = p_std(h), T_std(h) + self.s(name, "fltcond|TempIncrement", 0.0, np.size(h))
        return p / RAIR / T

    def s(self, name, var, default, n=None):
        """A setting of a phase: its value at every node."""
        v = self.par.get("set", {}).get(name, {}).get(var, default)
        return setting(v, n or self.nn)

    def steady(self, name, h0, r0, f0, dur):
        """One steady-flight phase of a given duration."""
        a = self.a
        Ueas, vs = self.par["sched"][name]
        h = h0 + dur * self.M @ vs
        rho = self.atmos(name, h)
        U = Ueas * np.sqrt(1.225 / rho)
        gs = np.sqrt(U**2 - vs**2)
        cg, sg = gs / U, vs / U
        q = 0.5 * rho * U**2
        acc = self.par.get("accel", {}).get(name, np.zeros(self.nn))
        fuel = np.full(self.nn, float(f0))
        for _ in range(200):
            W = a["TOW"] - fuel
            CL = W * G * cg / q / a["S_ref"]
            D = q * a["S_ref"] * (a["CD0"] + a["K"] * CL**2)
            brk = self.par.get("braking", {}).get(name, 0.0)
            T = D + W * G * sg + W * acc + brk * np.maximum(W * G - q * a["S_ref"] * CL, 0.0)
            new = f0 + dur * self.M @ (a["TSFC"] * T + a["idle"])
            if np.max(np.abs(new - fuel)) < 1e-13 * a["TOW"]:
                break
            fuel = new
        rng = r0 + dur * self.M @ gs
        thr = T / thrust_law(a["Tmax"], 1.0, self.s(name, "propulsor_active", 1.0), rho, U)
        return dict(h=h, range=rng, fuel=fuel, weight=W, Utrue=U, q=q, CL=CL, drag=D, thrust=T, throttle=thr, duration=dur, singamma=sg)

    def climb_like(self, name, h0, r0, f0, htarget):
        mean = (self.M @ self.par["sched"][name][1])[-1]
        return self.steady(name, h0, r0, f0, (htarget - h0) / mean)

    def three(self, h0, r0, f0, names, hc, hland, range_target):
        climb = self.climb_like(names[0], h0, r0, f0, hc)

        def rest(d):
            cr = self.steady(names[1], climb["h"][-1], climb["range"][-1], climb["fuel"][-1], d)
            return cr, self.climb_like(names[2], cr["h"][-1], cr["range"][-1], cr["fuel"][-1], hland)

        f = lambda d: rest(d)[1]["range"][-1] - range_target
        d = brentq(f, 0.0, 1e5, xtol=1e-9, rtol=1e-14)
        cr, de = rest(d)
        for n, ph in zip(names, (climb, cr, de)):
            self.out[n] = ph
        return de

    # -------- takeoff
    def roll(self, name, v_start, f0, v_end, r0, throttle, active, mu, label=None):
        """Ground roll from one speed to another (forward collocation)."""
        label = label or name
        a, nn = self.a, self.nn
        h = self.s(label, "fltcond|h", 0.0)
        rho = self.atmos(label, h)
        throttle, active, mu = (self.s(label, k, v) for k, v in (("throttle", throttle), ("propulsor_active", active), ("braking", mu)))
        CL = self.s(label, "fltcond|CL", 0.1)

        def state(z):
            U, dur = z[:nn], z[nn]
            q = 0.5 * rho * U**2
            D = q * a["S_ref"] * (a["CD0_TO"] + a["K"] * CL**2)
            L = q * a["S_ref"] * CL
            T = thrust_law(a["Tmax"], throttle, active, rho, U)
            fuel = f0 + dur * self.M @ (a["TSFC"] * T + a["idle"])
            W = a["TOW"] - fuel
            acc = (T - D - mu * np.maximum(W * G - L, 0.0)) / W
            return U, dur, acc, fuel, W, T, D

        if name != "v1v0":

            def res(z):
                U, dur, acc, fuel, *_ = state(z)
                return np.append(U - v_start - dur * self.M @ acc, U[-1] - v_end)

            z = np.append(np.linspace(v_start, v_end, nn), max(abs(v_end - v_start), 1e-3) / 3.0)
        else:  # integrated backwards from the final (near zero) speed

            def res(z):
                U, dur, acc, fuel, *_ = state(z)
                back = v_end + dur * self.M @ (-acc[::-1])
                return np.append(U - back[::-1], U[0] - v_start)

            z = np.append(np.linspace(v_start, v_end, nn), (v_start - v_end) / 4.0)
        z, info, ier, msg = fsolve(res, z, full_output=True, xtol=1e-13)
        if np.max(np.abs(res(z))) > 1e-7:
            raise RuntimeError("reference takeoff did not converge: " + msg)
        U, dur, acc, fuel, W, T, D = state(z)
        return dict(Utrue=U, duration=dur, accel=acc, fuel=fuel, weight=W, thrust=T, drag=D, range=r0 + dur * self.M @ U, h=h)

    def rotate_simple(self, r0, f0, h0=None):
        a, nn = self.a, self.nn
        vs = np.sqrt(2 * a["MTOW"] * G / 1.225 / a["S_ref"] / a["CLmax_TO"])
        hob = self.s("rotate", "h_obstacle", 35 * FT, 1)[0]
        h = np.linspace(0.0 if h0 is None else h0, hob, nn)
        rho = self.atmos("rotate", h)
        Ueas = np.linspace(self.s("rotate", "vr_vstall_mult", 1.1, 1)[0] * vs, self.s("rotate", "v2_vstall_mult", 1.2, 1)[0] * vs, nn)
        U = Ueas * np.sqrt(1.225 / rho)
        q = 0.5 * rho * U**2
        T = thrust_law(a["Tmax"], self.s("rotate", "throttle", 1.0), self.s("rotate", "propulsor_active", 0.0), rho, U)
        ff = a["TSFC"] * T + a["idle"]
        dur = 5.0
        for _ in range(300):
            fuel = f0 + dur * self.M @ ff
            W = a["TOW"] - fuel
            CL = W * G / q / a["S_ref"]
            D = q * a["S_ref"] * (a["CD0_TO"] + a["K"] * CL**2)
            gam = np.arcsin((T - D) / W / G)
            R = U[0] ** 2 / 0.2 / G
            st, ht = R * np.sin(gam[0]), R * (1 - np.cos(gam[0]))
            if ht > 10.66:
                ht = 10.66
                st = np.sqrt(R**2 - (R - 10.66) ** 2)
            sc = (10.66 - ht) / np.tan(gam[-1])
            new = st / U[0] + sc / U[-1]
            if abs(new - dur) < 1e-14:
                break
            dur = new
        rf = r0 + st + sc
        return dict(range=np.linspace(r0, rf, nn), h=h, fuel=fuel, weight=W, gamma=gam, duration=dur, thrust=T, drag=D, h_transition=ht, s_transition=st, s_climb=sc, Utrue=U, CL=CL)

    def rotate_ode(self, r0, f0, v0):
        a, nn, M = self.a, self.nn, self.M
        clm, thr, act, mu = (self.s("rotate", k, v) for k, v in (("CL_rotate_mult", 0.83), ("throttle", 1.0), ("propulsor_active", 0.0), ("braking", 0.0)))
        hob = self.s("rotate", "h_obs", 35 * FT, 1)[0]

        def state(z):
            U, vs, h, d = z[:nn], z[nn : 2 * nn], z[2 * nn : 3 * nn], z[3 * nn]
            rho = self.atmos("rotate", h)
            q = 0.5 * rho * U**2
            CL = clm * a["CLmax_TO"]
            L, D = q * a["S_ref"] * CL, q * a["S_ref"] * (a["CD0_TO"] + a["K"] * CL**2)
            T = thrust_law(a["Tmax"], thr, act, rho, U)
            fuel = f0 + d * M @ (a["TSFC"] * T + a["idle"])
            W = a["TOW"] - fuel
            gs = np.sqrt(U**2 - vs**2)
            cg, sg = gs / U, vs / U
            ah = (T - D - mu * np.maximum(W * G - L, 0.0)) / W - G * sg
            av = np.clip((L * cg + (T - D) * sg) / W - G, -G, 2.5 * G)
            return U, vs, h, d, ah, av, fuel, W, gs, T, D

        def res(z):
            U, vs, h, d, ah, av, *_ = state(z)
            return np.concatenate([U - v0 - d * M @ ah, vs - d * M @ av, h - d * M @ vs, [h[-1] - hob]])

        best = None
        for d0 in (3.0, 1.0, 6.0):
            z = np.concatenate([np.full(nn, v0), np.linspace(0, 5, nn), np.linspace(0, 10.0, nn), [d0]])
            z, info, ier, msg = fsolve(res, z, full_output=True, xtol=1e-13)
            if np.max(np.abs(res(z))) < 1e-8 and z[-1] > 0.1:
                best = z
                break
        if best is None:
            raise RuntimeError("reference rotation did not converge")
        U, vs, h, d, ah, av, fuel, W, gs, T, D = state(best)
        return dict(range=r0 + d * M @ gs, h=h, fuel=fuel, weight=W, duration=d, thrust=T, drag=D, Utrue=U, vs=vs)

    def takeoff(self, v1):
        a = self.a
        vstall = np.sqrt(2 * a["MTOW"] * G / 1.225 / a["S_ref"] / a["CLmax_TO"])
        vr = self.s("v1vr", "vr_vstall_mult", 1.1, 1)[0] * vstall
        r = {"vr": vr, "v1": v1}
        r["v0v1"] = self.roll("v0v1", self.s("v0v1", "zero_speed", 2.0, 1)[0], self.par.get("fuel0", 0.0), v1, 0.0, 1.0, 1.0, 0.03)
        f1, r1 = r["v0v1"]["fuel"][-1], r["v0v1"]["range"][-1]
        r["v1vr"] = self.roll("v1vr", v1, f1, vr, r1, 1.0, 0.0, 0.03)
        if self.opts.get("transition_method", "simplified") == "simplified":
            r["rotate"] = self.rotate_simple(r["v1vr"]["range"][-1], r["v1vr"]["fuel"][-1], self.par.get("h_rotate", 0.0))
        else:
            r["rotate"] = self.rotate_ode(r["v1vr"]["range"][-1], r["v1vr"]["fuel"][-1], vr)
        r["v1v0"] = self.roll("v1v0", v1, f1, self.s("v1v0", "zero_speed", 2.0, 1)[0], r1, 0.0, 0.0, 0.4)
        r["gap"] = r["rotate"]["range"][-1] - r["v1v0"]["range"][-1]
        return r

    def balanced(self):
        vstall = np.sqrt(2 * self.a["MTOW"] * G / 1.225 / self.a["S_ref"] / self.a["CLmax_TO"])
        vr = self.s("v1vr", "vr_vstall_mult", 1.1, 1)[0] * vstall
        at_vr = self.takeoff(vr)
        if at_vr["gap"] > 0:  # going on takes longer than stopping even at rotation speed
            r = at_vr
        else:
            v1 = brentq(lambda v: self.takeoff(v)["gap"], 0.35 * vr, vr, xtol=1e-11, rtol=1e-13)
            r = self.takeoff(v1)
        a = self.a
        e = lambda k, v: self.s("engineoutclimb", k, v, 1)[0]
        Ueas = e("v2_vstall_mult", 1.2) * vstall
        q, rho = 0.5 * 1.225 * Ueas**2, float(self.atmos("engineoutclimb", np.array([e("fltcond|h", 0.0)]))[0])
        U = Ueas * np.sqrt(1.225 / rho)
        CL = a["MTOW"] * G * e("fltcond|cosgamma", 1.0) / q / a["S_ref"]
        D = q * a["S_ref"] * (a["CD0"] + a["K"] * CL**2)
        r["engineoutclimb"] = dict(gamma=np.arcsin((thrust_law(a["Tmax"], e("throttle", 1.0), e("propulsor_active", 0.0), rho, U) - D) / a["MTOW"] / G))
        return r

    def solve(self):
        P, prof = self.par, self.profile
        h0, r0, f0 = P["takeoff_h"], 0.0, P.get("fuel0", 0.0)
        if prof.startswith("FullMission"):
            self.to = t = self.balanced()
            for k in ("v0v1", "v1vr", "rotate", "v1v0"):
                self.out[k] = t[k]
            rot = t["rotate"]
            h0, r0, f0 = rot["h"][-1], rot["range"][-1], rot["fuel"][-1]
        elif self.opts.get("include_ground_roll"):
            g = self.roll("v0v1", self.s("groundroll", "zero_speed", 2.0, 1)[0], f0, P["v2"], 0.0, 1.0, 1.0, 0.03, "groundroll")
            self.out["groundroll"] = g
            r0, f0 = g["range"][-1], g["fuel"][-1]
        de = self.three(h0, r0, f0, ("climb", "cruise", "descent"), P["cruise_h"], P["takeoff_h"], P["range"])
        if "Reserve" in prof:
            e = self.three(de["h"][-1] if False else P["takeoff_h_res"], de["range"][-1], de["fuel"][-1], ("reserve_climb", "reserve_cruise", "reserve_descent"), P["reserve_h"], P["takeoff_h"], de["range"][-1] + P["reserve_range"])
            self.out["loiter"] = self.steady("loiter", P["loiter_h"], e["range"][-1], e["fuel"][-1], P["loiter_t"])
        return self.out


# ------------------------------------------------------------------ cases
def setting(v, n):
    """A number, or a pair that varies linearly along the phase."""
    return np.linspace(v[0], v[1], n) if isinstance(v, tuple) else np.full(n, float(v))


TI = "fltcond|TempIncrement"
ROLLS = ("groundroll", "v0v1", "v1vr", "v1v0")
STEADY = ("climb", "cruise", "descent", "reserve_climb", "reserve_cruise", "reserve_descent", "loiter")
SETTINGS = {  # the user-settable parameters of the phases; a phase or variable that the profile does not have is left out
    "hot": {ph: {TI: 18.0} for ph in ROLLS + STEADY + ("rotate", "engineoutclimb")},
    "weather": {ph: {TI: (4.0 * (i % 4) - 7.0, 12.0 - 3.0 * (i % 5))} for i, ph in enumerate(ROLLS + STEADY + ("rotate", "engineoutclimb"))},
    "asymmetric": {ph: {"propulsor_active": (0.8 + 0.02 * i, 0.98)} for i, ph in enumerate(STEADY)},
    "friction": {"groundroll": {"braking": (0.02, 0.06)}, "v0v1": {"braking": (0.02, 0.06)}, "v1vr": {"braking": (0.05, 0.04)}, "v1v0": {"braking": (0.3, 0.5)}, "rotate": {"braking": 0.02}},
    "power": {"groundroll": {"throttle": (0.9, 0.97), "propulsor_active": 0.95}, "v0v1": {"throttle": (0.9, 0.97), "propulsor_active": 0.95}, "v1vr": {"throttle": 0.96, "propulsor_active": (0.3, 0.2)},
              "v1v0": {"throttle": (0.08, 0.02), "propulsor_active": 0.4}, "rotate": {"throttle": (0.98, 0.95), "propulsor_active": (0.1, 0.15)}, "engineoutclimb": {"throttle": 0.94, "propulsor_active": 0.12}},
    "multiples": {"v0v1": {"vr_vstall_mult": 1.3, "zero_speed": 5.0}, "groundroll": {"zero_speed": 4.0}, "v1vr": {"vr_vstall_mult": 1.15}, "v1v0": {"zero_speed": 3.0}, "rotate": {"vr_vstall_mult": 1.12, "v2_vstall_mult": 1.26, "CL_rotate_mult": (0.8, 0.88)}, "engineoutclimb": {"v2_vstall_mult": 1.3, "fltcond|cosgamma": 0.98}},
    "airport": {"groundroll": {"fltcond|h": 700.0}, "v0v1": {"fltcond|h": (700.0, 690.0)}, "v1vr": {"fltcond|h": 690.0}, "v1v0": {"fltcond|h": (690.0, 695.0)}, "engineoutclimb": {"fltcond|h": 720.0}},
    "lift": {"groundroll": {"fltcond|CL": (0.05, 0.4)}, "v0v1": {"fltcond|CL": (0.05, 0.4)}, "v1vr": {"fltcond|CL": 0.5}, "v1v0": {"fltcond|CL": (0.2, -0.1)}},
    "obstacle": {"rotate": {"h_obstacle": 16.0, "h_obs": 16.0}},
}
SET_UNITS = {TI: "degC", "zero_speed": "m/s", "fltcond|h": "m", "h_obstacle": "m", "h_obs": "m"}
NOT_IN = {"simplified": ("CL_rotate_mult", "h_obs"), "ode": ("vr_vstall_mult", "v2_vstall_mult", "h_obstacle")}


def phases_of(profile, opts):
    out = list(PHASES[profile])
    if profile.startswith("Full"):
        out += ["v0v1", "v1vr", "rotate", "v1v0", "engineoutclimb"]
    elif opts.get("include_ground_roll"):
        out.append("groundroll")
    return out


def apply_settings(p, profile, nn, opts, par):
    for ph in phases_of(profile, opts):
        for var, v in par.get("set", {}).get(ph, {}).items():
            if ph == "rotate" and var in NOT_IN[opts.get("transition_method", "simplified")]:
                continue
            path = f"m.{ph}.{var}"
            p.set_val(path, setting(v, np.size(p.get_val(path))), units=SET_UNITS.get(var))


PHASES = {
    "BasicMission": ("climb", "cruise", "descent"),
    "FullMissionAnalysis": ("climb", "cruise", "descent"),
    "MissionWithReserve": ("climb", "cruise", "descent", "reserve_climb", "reserve_cruise", "reserve_descent", "loiter"),
    "FullMissionWithReserve": ("climb", "cruise", "descent", "reserve_climb", "reserve_cruise", "reserve_descent", "loiter"),
}
SPEEDS = {
    "prop": dict(climb=(75, 6.0), cruise=(95, 0.0), descent=(80, -3.5), reserve_climb=(70, 5.0), reserve_cruise=(80, 0.0), reserve_descent=(70, -3.0), loiter=(68, 0.0)),
    "jet": dict(climb=(130, 8.0), cruise=(128, 0.0), descent=(125, -6.0), reserve_climb=(120, 7.0), reserve_cruise=(118, 0.0), reserve_descent=(115, -5.0), loiter=(110, 0.0)),
}
BASE = dict(
    plane="prop", shape="const", takeoff_h=0.0, takeoff_h_res=0.0, cruise_h=8000.0, cruise_vs=0.0, range=900e3, reserve_h=3000.0, reserve_range=150e3, loiter_h=500.0, loiter_t=1500.0,
    v2=48.0, fuel0=0.0, h_rotate=0.0, ac={}, accel=0.0, braking=0.0, settings=None,
)


def shape_fn(kind, nn):
    t = np.linspace(0, 1, nn)
    if kind == "const":
        return np.ones(nn), np.ones(nn)
    if kind == "linear":
        return 1 + 0.04 * t, 1 - 0.3 * t
    if kind == "zigzag":  # a different value at every node
        k = np.arange(nn)
        return 1 + 0.02 * np.where(k % 2, -1.0, 1.0) * (1 + k / nn), 1 + 0.15 * np.where(k % 3 == 1, -1.0, 0.5)
    raise KeyError(kind)


def make_par(case, profile, nn):
    c = dict(BASE, **case)
    su, sv = shape_fn(c["shape"], nn)
    sched = {}
    for ph in PHASES[profile]:
        u, v = SPEEDS[c["plane"]][ph]
        sched[ph] = (u * su, v * sv)
        if ph == "cruise":
            sched[ph] = (u * su, np.full(nn, c["cruise_vs"]) * sv)
    par = dict(c, sched=sched, set=SETTINGS[c["settings"]] if c["settings"] else {})
    par["accel"] = {ph: np.full(nn, c["accel"]) * su for ph in PHASES[profile]}
    par["braking"] = {ph: np.full(nn, c["braking"]) for ph in PHASES[profile]}
    ac = {k: v[0] for k, v in (AC if c["plane"] == "prop" else JET).items()}
    for k, f in c["ac"].items():
        ac[k] = ac[k] * f
    return par, ac


def first_phase(profile, opts):
    return "v0v1" if profile.startswith("Full") else ("groundroll" if opts.get("include_ground_roll") else "climb")


def apply_case(p, profile, nn, opts, par, ac, guesses=True, f=0.9):
    for k, v in ac.items():
        p.set_val(k, v, units=AC[k][1])
    for n in PHASES[profile]:
        p.set_val(f"m.{n}.fltcond|Ueas", par["sched"][n][0], units="m/s")
        p.set_val(f"m.{n}.fltcond|vs", par["sched"][n][1], units="m/s")
        p.set_val(f"m.{n}.zero_accel", par["accel"][n], units="m/s**2")
        p.set_val(f"m.{n}.braking", par["braking"][n])
    apply_settings(p, profile, nn, opts, par)
    p.set_val("m.takeoff|h", par["takeoff_h"], units="m")
    p.set_val("m.cruise|h0", par["cruise_h"], units="m")
    p.set_val("m.mission_range", par["range"], units="m")
    if "Reserve" in profile:
        p.set_val("m.reserve|h0", par["reserve_h"], units="m")
        p.set_val("m.loiter|h0", par["loiter_h"], units="m")
        p.set_val("m.loiter_duration", par["loiter_t"], units="s")
        p.set_val("m.reserve_range", par["reserve_range"], units="m")
        p.set_val("m.reserve_climb.ode_integ_phase.fltcond|h_initial", par["takeoff_h_res"], units="m")
    first = first_phase(profile, opts)
    p.set_val(f"m.{first}.fuel_used_initial", par["fuel0"], units="kg")
    jet = par["plane"] == "jet"
    if first == "climb":
        p.set_val("m.climb.range_initial" if False else "m.climb.ode_integ_phase.range_initial", 0.0, units="m")
    if first == "groundroll":
        p.set_val("m.takeoff|v2", par["v2"], units="m/s")
        if guesses:
            p.set_val("m.groundroll.fltcond|Utrue", np.linspace(2.0, par["v2"], nn), units="m/s")
    if first == "v0v1":
        simple = opts.get("transition_method", "simplified") == "simplified"
        if simple:
            p.set_val("m.rotate.h_initial", par["h_rotate"], units="m")
        if guesses:
            vs = np.sqrt(2 * ac["ac|weights|MTOW"] * G / 1.225 / ac["ac|geom|wing|S_ref"] / ac["ac|aero|CLmax_TO"])
            for n in ("v0v1", "v1vr", "v1v0"):
                p.set_val(f"m.{n}.fltcond|Utrue", np.full(nn, f * vs), units="m/s")
            p.set_val("m.takeoff|v1", f * vs, units="m/s")
            if not simple:
                p.set_val("m.rotate.fltcond|Utrue", np.full(nn, 1.1 * vs), units="m/s")
                p.set_val("m.rotate.fltcond|vs", np.linspace(0, 4, nn), units="m/s")
                p.set_val("m.rotate.fltcond|h", np.linspace(0, 10.668, nn), units="m")
                p.set_val("m.rotate.accel_vert", np.full(nn, 0.3), units="m/s**2")
                p.set_val("m.rotate.duration", 4.0, units="s")
    if guesses:
        for n in PHASES[profile]:
            h = {"climb": 0.5, "cruise": 1.0, "descent": 0.5, "loiter": 0.0}.get(n, 0.3) * par["cruise_h"]
            p.set_val(f"m.{n}.fltcond|h", np.full(nn, h), units="m")
            p.set_val(f"m.{n}.throttle", np.full(nn, 0.5))
            p.set_val(f"m.{n}.fltcond|CL" if False else f"m.{n}.range", np.full(nn, 1e5), units="m")
            p.set_val(f"m.{n}.fuel_used", np.full(nn, par["fuel0"]), units="kg")
            if n != "loiter":
                p.set_val(f"m.{n}.duration", {"climb": 1200.0, "cruise": 5000.0, "descent": 1200.0, "reserve_climb": 600.0, "reserve_cruise": 800.0, "reserve_descent": 600.0}[n], units="s")


OUT = {
    "h": ("fltcond|h", "m"), "range": ("range", "m"), "fuel": ("fuel_used", "kg"), "weight": ("weight", "kg"), "thrust": ("thrust", "N"), "drag": ("drag", "N"),
    "duration": ("duration", "s"), "throttle": ("throttle", None), "CL": ("fltcond|CL", None), "Utrue": ("fltcond|Utrue", "m/s"), "vs": ("fltcond|vs", "m/s"),
}


def compare(ctx, key, p, out, rtol=1e-6, only=None, **detail):
    """Every time history of every phase against the reference."""
    good = True
    for n, d in out.items():
        for k, v in d.items():
            if k in OUT and (only is None or n in only):
                got = p.get_val(f"m.{n}.{OUT[k][0]}", units=OUT[k][1])
                scale = np.max(np.abs(np.atleast_1d(v)))
                good &= ctx.close(f"{key}:{n}:{k}", got, np.asarray(v), rtol, rtol * max(scale, 1e-2), what=f"{n} {OUT[k][0]}", **detail)
    return good


def reset(p):
    """Back to the initial values of every output."""
    p.final_setup()
    if not hasattr(p, "_mc_initial") or p._mc_initial[0] is not p.model._outputs:
        p._mc_initial = (p.model._outputs, p.model._outputs.asarray(copy=True))
    else:
        p.model._outputs.set_val(p._mc_initial[1])


def converged(p, tol=1e-6):
    """Norm of the residuals of the whole model, each scaled by its own output."""
    p.model.run_apply_nonlinear()
    r = p.model._residuals.asarray()
    o = p.model._outputs.asarray()
    return bool(np.all(np.isfinite(r))) and float(np.max(np.abs(r) / (1 + np.abs(o)))) < tol


def near(p, ref):
    """Guesses close to the reference solution."""
    for n, d in ref.out.items():
        for k, (name, u) in OUT.items():
            if k in d and k not in ("thrust", "drag", "CL", "weight"):
                try:
                    p.set_val(f"m.{n}.{name}", 1.01 * np.asarray(d[k]), units=u)
                except Exception:
                    pass  # not a variable of this phase
    if hasattr(ref, "to"):
        p.set_val("m.takeoff|v1", 0.99 * ref.to["v1"], units="m/s")


def solve(p, profile, nn, opts, par, ac, guesses=True, ref=None):
    """Solve one case: from the usual guesses first, then from others (solver robustness is not what is being decided)."""
    for i, f in enumerate((0.9, 0.75, 1.0, 1.05) + ((0.9,) if ref else ())):
        if guesses or i:  # every case starts from the initial guesses, not from the previous solution
            reset(p)
        apply_case(p, profile, nn, opts, par, ac, guesses or i > 0, f)
        if i == 4:
            near(p, ref)
            apply_settings(p, profile, nn, opts, par)
        try:
            p.run_model()
        except (om.AnalysisError, FloatingPointError, ValueError):
            continue
        if converged(p):
            return True
    return False

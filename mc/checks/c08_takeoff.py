"""C08: balanced-field takeoff analysis."""
import itertools

import numpy as np

from mc import missions as M
from mc.omx import om

PROPERTY = "C08"
LEVEL = "exploration"
RULE = (
    "one case = transition method, grid size and aircraft/initial-state assignment with at most two deviations from the base; the library's "
    "solved takeoff (decision speed, rotation speed, rejected and continued distances, every time history of the four phases, engine-out "
    "climb angle) is compared with an independent collocation of each phase and a bracketed search for the balanced decision speed, on "
    "both sides of the switch to v1 = vR; the climb angle at v2 with all engines and with one out; the decision-speed equation itself is explored on a complete grid of speeds and distances "
    "(zero exactly at the documented conditions, linearisation equal to its finite difference). States: distinct cases."
)
BOUNDS = "grids 3/5/11 (thorough 7/21 as well), 10 axes with 1-8 values (one of them the settings of the phases: hot day, changing weather, friction, power, speed multiples, airport altitude, lift, obstacle), at most 2 deviations (3 thorough); 9x9x7x7 grid for the decision-speed equation"
ASSUMPTIONS = ["analytic aircraft model with the documented interface", "initial guesses near the expected speeds, as the documentation asks", "the rotation phase starts from sea level (or its own h_initial), as it is coded"]

AXES = {
    "T": (0.8, 0.6, 1.5),
    "CD0_TO": (3.0,),
    "CLmax_TO": (1.25, 0.8),
    "S_ref": (1.3,),
    "MTOW": (1.08,),
    "TOW": (0.85,),
    "plane": ("jet",),
    "fuel0": (40.0,),
    "h_rotate": (1.0, 5.0),
    "settings": tuple(k for k in M.SETTINGS if k != "asymmetric"),
}
KEYS = {"T": "ac|propulsion|Tmax", "CD0_TO": "ac|aero|CD0_TO", "CLmax_TO": "ac|aero|CLmax_TO", "S_ref": "ac|geom|wing|S_ref", "MTOW": "ac|weights|MTOW", "TOW": "ac|weights|TOW"}


def cases(depth):
    for k in range(depth + 1):
        for names in itertools.combinations(AXES, k):
            for vals in itertools.product(*(AXES[n] for n in names)):
                yield dict(zip(names, vals))


def run_cases(ctx, prm):
    method, nn = prm["method"], prm["nn"]
    opts = {"transition_method": method}
    prof = "FullMissionAnalysis"
    p = M.build(prof, nn, **opts)
    for raw in list(cases(prm["depth"]))[prm["part"] :: prm["parts"]]:
        if method == "ode" and "h_rotate" in raw:
            continue
        case = {k: v for k, v in raw.items() if k not in KEYS}
        case["ac"] = {KEYS[k]: v for k, v in raw.items() if k in KEYS}
        # the cruise part of the mission only has to be flyable
        case.update(cruise_h=3000.0, range=500e3)
        par, ac = M.make_par(case, prof, nn)
        ref = M.Ref(prof, nn, ac, par, opts)
        try:
            out = ref.solve()
        except (ValueError, RuntimeError):
            ctx.count("infeasible_cases")
            continue
        t = ref.to
        if any(np.any(d["throttle"] > 1.045) or np.any(d["throttle"] < 0.012) for d in out.values() if "throttle" in d) or not (0.3 < t["engineoutclimb"]["gamma"] * 100) or t["v1vr"]["duration"] > 11.9 or not (1.05 < t["v0v1"]["duration"] < 95) or not (1.05 < t["v1v0"]["duration"] < 95) or t["rotate"]["duration"] > 14.5:
            ctx.count("cases_outside_solver_bounds")
            continue
        if -0.12 < t["v1"] - t["vr"] < 0 or (t["v1"] == t["vr"] and t["gap"] < 0.5):
            ctx.count("cases_within_switching_band")
            continue
        key = f"{method}:n{nn}:" + (",".join(f"{k}={v}" for k, v in raw.items()) or "base")
        ctx.ev()
        ctx.state(key)
        ctx.outcome("v1=vr" if t["v1"] == t["vr"] else "balanced", t["v1"], t["rotate"]["range"])
        ctx.count("cases_v1_equals_vr" if t["v1"] == t["vr"] else "cases_balanced")
        if not ctx.true(key + ":solved", M.solve(p, prof, nn, opts, par, ac, ref=ref), "the takeoff was not solved from any initial guess", case=raw):
            continue
        M.compare(ctx, key, p, out, 1e-6, case=raw)
        ctx.close(key + ":v1", p.get_val("m.takeoff|v1", units="m/s"), t["v1"], 1e-6, what="decision speed")
        ctx.close(key + ":vr", p.get_val("m.v1vr.takeoff|vr", units="m/s"), t["vr"], 1e-9, what="rotation speed")
        ctx.close(key + ":gamma", p.get_val("m.engineoutclimb.gamma", units="rad"), t["engineoutclimb"]["gamma"], 1e-7, what="engine-out climb angle")
        gap = p.get_val("m.rotate.range_final", units="m")[0] - p.get_val("m.v1v0.range_final", units="m")[0]
        ctx.close(key + ":gap", gap, t["gap"], 1e-6, 1e-3, what="continued minus rejected distance")
        ctx.true(key + ":balance", gap > -1e-3, "stopping takes longer than continuing at the chosen decision speed")
        ctx.sample(dict(case=raw, method=method, nn=nn, v1=float(p.get_val("m.takeoff|v1")[0]), vr=t["vr"]))


def run_climb(ctx, prm):
    """The climb angle at v2 on its own, with all engines and with one out."""
    from openconcept.mission.phases import ClimbAnglePhase

    for phase, active in (("AllEngineClimbAngle", 1.0), ("EngineOutClimbAngle", 0.0)):
        p = om.Problem(reports=False)
        iv = p.model.add_subsystem("iv", om.IndepVarComp(), promotes_outputs=["*"])
        for k, (v, u) in M.AC.items():
            iv.add_output(k, v, units=u)
        p.model.add_subsystem("m", ClimbAnglePhase(num_nodes=1, aircraft_model=M.aircraft_class(), flight_phase=phase), promotes_inputs=["ac|*"])
        p.setup(check=False)
        p.final_setup()
        V = dict(mult=(1.2, 1.3, 1.13), h=(0.0, 900.0, -50.0), dT=(0.0, 21.0, -15.0), throttle=(1.0, 0.9), active=(active, 0.45), cosgamma=(1.0, 0.97), ac=({}, {"MTOW": 0.8}, {"CLmax_TO": 1.3}, {"S_ref": 1.4}, {"Tmax": 1.6}, {"CD0": 2.0}, {"K": 1.5}))
        for plane in (M.AC, M.JET):
            for x in itertools.product(*V.values()):
                c = dict(zip(V, x))
                if sum(c[k] != V[k][0] for k in V) > (3 if ctx.tier == "quick" else 6):
                    continue
                a = {k.split("|")[-1]: v * c["ac"].get(k.split("|")[-1], 1.0) for k, (v, _) in plane.items()}
                for k, (_, u) in plane.items():
                    p.set_val(k, a[k.split("|")[-1]], units=u)
                for k, v, u in (("v2_vstall_mult", c["mult"], None), ("fltcond|h", c["h"], "m"), ("fltcond|TempIncrement", c["dT"], "degC"), ("throttle", c["throttle"], None), ("propulsor_active", c["active"], None), ("fltcond|cosgamma", c["cosgamma"], None)):
                    p.set_val("m." + k, v, units=u)
                p.run_model()
                v2 = c["mult"] * np.sqrt(2 * a["MTOW"] * M.G / 1.225 / a["S_ref"] / a["CLmax_TO"])
                rho = M.p_std(np.array([c["h"]])) / M.RAIR / (M.T_std(np.array([c["h"]])) + c["dT"])
                q = 0.5 * 1.225 * v2**2
                CL = a["MTOW"] * M.G * c["cosgamma"] / q / a["S_ref"]
                D = q * a["S_ref"] * (a["CD0"] + a["K"] * CL**2)
                T = M.thrust_law(a["Tmax"], c["throttle"], c["active"], rho, v2 * np.sqrt(1.225 / rho))
                if abs(T[0] - D) >= a["MTOW"] * M.G:
                    continue
                key = f"climb:{phase}:" + ",".join(f"{k}={v}" for k, v in c.items() if v != V[k][0])
                ctx.close(key + ":gamma", p.get_val("m.gamma", units="rad"), np.arcsin((T - D) / a["MTOW"] / M.G), 1e-7, 1e-9, what="climb angle at v2", case=str(c))
                ctx.close(key + ":v2", p.get_val("m.takeoff|v2", units="m/s"), v2, 1e-7, what="takeoff safety speed", case=str(c))
                ctx.ev()
                ctx.state((phase, plane is M.AC, repr(c)))
                ctx.outcome(round(float(T[0] - D), 6))


def run_equation(ctx, prm):
    """Every combination of v1, vR and the two distances."""
    from openconcept.mission.phases import BFLImplicitSolve

    p = om.Problem(reports=False)
    iv = p.model.add_subsystem("iv", om.IndepVarComp(), promotes=["*"])
    iv.add_output("dc", 1.0, units="m")
    iv.add_output("da", 1.0, units="m")
    iv.add_output("vr", 1.0, units="m/s")
    p.model.add_subsystem("b", BFLImplicitSolve(), promotes_inputs=[("distance_continue", "dc"), ("distance_abort", "da"), ("takeoff|vr", "vr")])
    p.model.nonlinear_solver = om.NonlinearRunOnce(iprint=-1)
    p.setup(check=False)
    p.final_setup()
    speeds = (20.0, 39.0, 39.85, 39.95, 40.0, 40.05, 40.2, 45.0, 60.0)
    dists = (0.0, 900.0, 999.9, 1000.0, 1000.1, 1100.0, 3000.0)
    for vr in speeds[prm["part"] :: 3]:
        for v1, dc, da in itertools.product(speeds, dists, dists):
            ctx.ev()
            ctx.state((vr, v1, dc, da))
            key = f"equation:v1={v1},vr={vr},dc={dc},da={da}"

            def res(v1_, vr_, dc_, da_):
                p.set_val("vr", vr_), p.set_val("dc", dc_), p.set_val("da", da_), p.set_val("b.takeoff|v1", v1_)
                p.model.run_apply_nonlinear()
                return float(p.model._residuals["b.takeoff|v1"][0])

            r = res(v1, vr, dc, da)
            solved = (dc == da and v1 <= vr) or (v1 == vr and dc >= da)
            band = vr - 0.1 < v1 < vr and dc == da
            if not band:  # (a thin band next to vR is reserved for the switch)
                ctx.true(key, (r == 0.0) == solved, f"residual {r} but the takeoff is {'balanced' if solved else 'not balanced'}")
            ctx.outcome("zero" if r == 0 else "nonzero")
            # the linearisation is that of the residual (away from the switches themselves)
            if abs(dc - da) < 1e-9 or abs(v1 - vr) < 1e-9 or abs(abs(v1 - vr) - 0.1) < 1e-3:
                continue
            res(v1, vr, dc, da)
            p.model.run_linearize()
            jac = p.model.b._jacobian
            for j, (name, x) in enumerate((("takeoff|v1", v1), ("takeoff|vr", vr), ("distance_continue", dc), ("distance_abort", da))):
                got = float(np.atleast_2d(jac["takeoff|v1", name])[0, 0])
                args = [v1, vr, dc, da]
                args[j] += 1e-4
                up = res(*args)
                args[j] -= 2e-4
                fd = (up - res(*args)) / 2e-4
                res(v1, vr, dc, da)
                ctx.close(key + f":d/{name}", got, fd, 1e-6, 1e-6, what=f"linearisation with respect to {name}")


def shards(tier):
    th = tier == "thorough"
    out = [(f"equation:{i}", dict(fn="run_equation", part=i)) for i in range(3)]
    out.append(("climb", dict(fn="run_climb")))
    for method in ("simplified", "ode"):
        for nn, depth in ((3, 2), (5, 1), (11, 1)) if not th else ((3, 3), (5, 2), (7, 2), (11, 2), (21, 1)):
            n = len(list(cases(depth)))
            parts = max(1, min(n, int(n * 0.6 * (1 + nn / 10) / 10)))
            for i in range(parts):
                out.append((f"cases:{method}:n{nn}:{i}", dict(fn="run_cases", method=method, nn=nn, depth=depth, part=i, parts=parts)))
    return out


def run(ctx, prm):
    globals()[prm["fn"]](ctx, prm)

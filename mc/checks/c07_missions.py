"""C07: solved mission profiles against an independently computed mission."""
import itertools

import numpy as np

from mc import examples as X
from mc import missions as M
from mc.omx import om

PROPERTY = "C07"
LEVEL = "exploration"
RULE = (
    "one case = one mission profile (basic, basic with ground roll, with reserves, full takeoff analysis with either transition, full "
    "with reserves), grid size and assignment of mission parameters, schedules and aircraft with at most two (full takeoff profiles: one) "
    "deviations from the base; each case is solved by the library and by an independent reference mission (closed-form/bracketed phase "
    "durations, collocation takeoff) and every time history, duration, range, altitude, fuel, weight, speed, thrust, drag, CL and "
    "throttle of every phase is compared; every sequence to depth 3 of {fly mission A, fly mission B, set up again} is also explored, "
    "and the total derivatives of the solved mission are compared with central differences of the reference. The shipped example aircraft are flown on their published and other missions "
    "(and in every sequence to depth 3 of missions and setups); every relation of every phase of the solution is recomputed. "
    "States: distinct cases or histories."
)
BOUNDS = "grids 3/5/11 (thorough 7/21 as well), 12-16 parameter axes with 1-9 values each (one of them the settings of the phases: weather, failed propulsor, friction, power, speed multiples, airport altitude, lift, obstacle), at most 2 simultaneous deviations (3 thorough); 11 example aircraft on 1-6 missions each"
ASSUMPTIONS = [
    "the aircraft passed to the profiles is a small analytic model with the documented interface",
    "cases whose reference throttle leaves the solver's own bounds (0.01-1.05) are not flyable and are skipped and counted",
    "other than published missions which an example's own solver does not find are counted and not judged",
    "initial guesses near the expected speeds are given for ground-roll phases, as the documentation asks",
]

AXES = {
    "shape": ("linear", "zigzag"),
    "takeoff_h": (300.0, -60.0),
    "cruise_h": (3500.0, 9500.0),
    "cruise_vs": (0.02, -0.05),
    "range": (600e3, 2000e3),
    "fuel0": (30.0,),
    "accel": (0.05, -0.02),
    "braking": (0.01,),
    "plane": ("jet",),
    "settings": ("hot", "weather", "asymmetric"),
    "ac": ({"ac|aero|K": 1.35}, {"ac|weights|TOW": 0.82}, {"ac|geom|wing|S_ref": 1.27, "ac|propulsion|idle": 0.0}),
}
RESERVE = {
    "takeoff_h_res": (150.0,),
    "reserve_h": (2000.0, 4500.0),
    "reserve_range": (260e3,),
    "loiter_h": (0.0, 2500.0),
    "loiter_t": (0.0, 3600.0),
}
ROLL = {"v2": (40.0, 55.0), "settings": AXES["settings"] + ("friction", "power", "airport", "lift", "multiples")}
FULL = {"h_rotate": (1.0,)}
FULL_SETTINGS = tuple(M.SETTINGS)


def axes(profile, opts):
    ax = dict(AXES)
    if "Reserve" in profile:
        ax.update(RESERVE)
    if opts.get("include_ground_roll"):
        ax.update(ROLL)
    if profile.startswith("Full"):
        ax["settings"] = FULL_SETTINGS
    if profile.startswith("Full") and opts.get("transition_method", "simplified") == "simplified":
        ax.update(FULL)
    return ax


def cases(profile, opts, depth):
    ax = axes(profile, opts)
    for k in range(depth + 1):
        for names in itertools.combinations(ax, k):
            for vals in itertools.product(*(ax[n] for n in names)):
                yield dict(zip(names, vals))


def flyable(out):
    return all(np.all(d["throttle"] > 0.012) and np.all(d["throttle"] < 1.045) for d in out.values() if "throttle" in d) and all(d["duration"] >= 0 for d in out.values())


def solve_ref(profile, nn, ac, par, opts):
    r = M.Ref(profile, nn, ac, par, opts)
    r.solve()
    return r


def one(ctx, p, profile, nn, opts, case, guesses=True, key=None):
    par, ac = M.make_par(case, profile, nn)
    try:
        ref = solve_ref(profile, nn, ac, par, opts)
    except (ValueError, RuntimeError):  # no such mission (for instance no time left for cruise)
        ctx.count("infeasible_cases")
        return False
    if not flyable(ref.out):
        ctx.count("cases_outside_throttle_bounds")
        return False
    label = key or ",".join(f"{k}={v}" for k, v in case.items()) or "base"
    key = f"{profile}:{sorted(opts.items())}:n{nn}:{label}"
    ctx.ev()
    ctx.state(key)
    if not ctx.true(key + ":solved", M.solve(p, profile, nn, opts, par, ac, guesses, ref), "the mission was not solved from any initial guess", case=case):
        return False
    M.compare(ctx, key, p, ref.out, 1e-6, case=case)
    ctx.outcome(*[d["fuel"] for d in ref.out.values()])
    ctx.sample(dict(profile=profile, nn=nn, opts=opts, case=case, fuel=float(list(ref.out.values())[-1]["fuel"][-1])))
    return True


def run_cases(ctx, prm):
    profile, opts, nn, depth, part, parts = prm["profile"], prm["opts"], prm["nn"], prm["depth"], prm["part"], prm["parts"]
    p = M.build(profile, nn, **opts)
    for case in list(cases(profile, opts, depth))[part::parts]:
        one(ctx, p, profile, nn, opts, case)


HIST = {"A": dict(shape="linear"), "B": dict(shape="zigzag", takeoff_h=300.0, cruise_h=6500.0, range=700e3, fuel0=20.0, ac={"ac|weights|TOW": 0.9})}


def run_history(ctx, prm):
    profile, opts, nn = prm["profile"], prm["opts"], prm["nn"]
    for word in itertools.product("ABS", repeat=prm["depth"]):
        if word[-1] == "S" or (word[0] == "S"):
            continue
        p = M.build(profile, nn, **opts)
        fresh = True
        for i, op in enumerate(word):
            ctx.step()
            if op == "S":
                p.setup(check=False)
                p.set_solver_print(level=-1)
                fresh = True
            else:
                one(ctx, p, profile, nn, opts, HIST[op], guesses=fresh, key="history:" + "".join(word[: i + 1]))
                fresh = False


WRT = {
    "m.cruise|h0": ("cruise_h", "m"),
    "m.mission_range": ("range", "m"),
    "m.takeoff|h": ("takeoff_h", "m"),
    "ac|weights|TOW": ("ac", "kg"),
    "ac|geom|wing|S_ref": ("ac", "m**2"),
    "ac|aero|K": ("ac", None),
    "ac|propulsion|Tmax": ("ac", "N"),
    "ac|propulsion|TSFC": ("ac", "kg/N/s"),
}
WRT_RES = {"m.reserve|h0": ("reserve_h", "m"), "m.reserve_range": ("reserve_range", "m"), "m.loiter|h0": ("loiter_h", "m"), "m.loiter_duration": ("loiter_t", "s")}
WRT_FULL = {"ac|weights|MTOW": ("ac", "kg"), "ac|aero|CLmax_TO": ("ac", None), "ac|aero|CD0_TO": ("ac", None)}


def run_totals(ctx, prm):
    profile, opts, nn, case = prm["profile"], prm["opts"], prm["nn"], prm["case"]
    p = M.build(profile, nn, **opts)
    if not one(ctx, p, profile, nn, opts, case, key=f"totals:{case}"):
        return
    par, ac = M.make_par(case, profile, nn)
    wrt = dict(WRT)
    if "Reserve" in profile:
        wrt.update(WRT_RES)
    if profile.startswith("Full"):
        wrt.update(WRT_FULL)
    phases = M.PHASES[profile]
    last = phases[-1]
    outs = [(ph, "duration") for ph in ("climb", "cruise", "descent")] + [(last, "fuel"), ("climb", "throttle"), ("cruise", "range"), (last, "CL")]
    if "v0v1" in (M.first_phase(profile, opts),):
        outs += [("v0v1", "duration"), ("v1vr", "range"), ("rotate", "duration")]
    of = [f"m.{ph}.{M.OUT[k][0]}" for ph, k in outs]
    sched = [(f"m.{ph}.fltcond|{q}", ph, j) for ph in ("climb", "descent", last) for j, q in ((0, "Ueas"), (1, "vs")) if not (ph == "loiter" and j)]
    J = p.compute_totals(of, list(wrt) + [s[0] for s in dict.fromkeys(sched)])

    def ref(par, ac):
        r = solve_ref(profile, nn, ac, par, opts)
        return [np.atleast_1d(r.out[ph][k]).astype(float) for ph, k in outs]

    def diff(change, h):
        out = []
        for s in (2, 1, -1, -2):
            pr, a = M.make_par(case, profile, nn)
            change(pr, a, s * h)
            out.append(ref(pr, a))
        return [(8 * (b - c) - (a - d)) / (12 * h) for a, b, c, d in zip(*out)]

    from openmdao.utils.units import convert_units

    base = ref(par, ac)

    def cmp(name, col, fd, xscale, unit):
        u = p.model.get_io_metadata(get_remote=False)
        for (ph, k), o, d, b0 in zip(outs, of, fd, base):
            got = J[o, name][:, col] * unit
            fo = convert_units(1.0, u_of[o], M.OUT[k][1]) if u_of[o] else 1.0
            ctx.close(f"totals:{profile}:{opts}:{case}:{ph}.{k}/{name}:{col}", got * fo, d, 2e-5, 2e-6 * max(np.max(np.abs(b0)), 1e-3) / xscale, what=f"d {o} / d {name}[{col}]")

    meta = p.model.get_io_metadata(iotypes="output", metadata_keys=("units",))
    byname = {v["prom_name"]: v["units"] for v in meta.values()}
    u_of = {o: byname.get(o) for o in of}
    imeta = {}
    for v in p.model.get_io_metadata(metadata_keys=("units",)).values():
        imeta.setdefault(v["prom_name"], v["units"])
    for name, (key, unit) in wrt.items():
        x0 = ac[name] if key == "ac" else par[key]
        h = 1e-3 * max(abs(x0), 100.0 if key != "ac" else 0.0)
        if key == "loiter_t" and x0 == 0:
            continue

        def change(pr, a, d):
            if key == "ac":
                a[name] = a[name] + d
            else:
                pr[key] = pr[key] + d

        f = convert_units(1.0, unit, imeta[name]) if unit and imeta[name] else 1.0
        cmp(name, 0, diff(change, h), max(abs(x0), 1e2 if key != "ac" else 0), f)
    for name, ph, j in dict.fromkeys(sched):
        for col in range(nn):

            def change(pr, a, d):
                v = pr["sched"][ph][j].copy()
                v[col] += d
                pr["sched"][ph] = (v, pr["sched"][ph][1]) if j == 0 else (pr["sched"][ph][0], v)

            x0 = par["sched"][ph][j][col]
            iu = "m/s"
            u = p.model._var_allprocs_prom2abs_list if False else None
            f = convert_units(1.0, iu, imeta[name])
            cmp(name, col, diff(change, 1e-3 * max(abs(x0), 1.0)), max(abs(x0), 1.0), f)


PROFILES = [("BasicMission", {}), ("BasicMission", {"include_ground_roll": True}), ("MissionWithReserve", {}), ("FullMissionAnalysis", {}), ("FullMissionAnalysis", {"transition_method": "ode"}), ("FullMissionWithReserve", {}), ("FullMissionWithReserve", {"transition_method": "ode"})]


def shards(tier):
    out = []
    th = tier == "thorough"
    for profile, opts in PROFILES:
        lab = profile + (":" + ",".join(f"{k}={v}" for k, v in opts.items()) if opts else "")
        full = profile.startswith("Full")
        plan = [(3, 1 if full else 2), (5, 1), (11, 0 if "Reserve" in profile else 1)]
        if "Reserve" in profile and opts:
            plan = [(3, 1), (5, 0)]
        if th:
            plan = [(3, 2 if full else 3), (5, 2), (7, 1), (11, 1), (21, 1)]
        for nn, depth in plan:
            n = len(list(cases(profile, opts, depth)))
            cost = n * (0.25 if profile == "BasicMission" else 0.55 if not full else 0.9) * (1 + nn / 10)
            parts = max(1, min(n, int(cost / 12) + 1))
            for i in range(parts):
                out.append((f"cases:{lab}:n{nn}:{i}", dict(fn="run_cases", profile=profile, opts=opts, nn=nn, depth=depth, part=i, parts=parts)))
        if not (full and "Reserve" in profile and not th):
            out.append((f"history:{lab}", dict(fn="run_history", profile=profile, opts=opts, nn=3, depth=3)))
        for i, case in enumerate([dict(shape="linear", takeoff_h=300.0, cruise_vs=0.02), dict(shape="zigzag", cruise_vs=0.02, fuel0=30.0)] if not full or th else [dict(shape="linear", takeoff_h=300.0, cruise_vs=0.02)]):
            out.append((f"totals:{lab}:{i}", dict(fn="run_totals", profile=profile, opts=opts, nn=3, case=case)))
    out += example_shards(th)
    return out


# ------------------------------------------------------------------ the shipped example aircraft
def run_example(ctx, prm):
    """The published mission must be solved; the other missions are audited where the example's own solver finds them."""
    f = X.load(prm["name"])
    for i, m in enumerate(X.EX[prm["name"]]["missions"]):
        key = f"example:{prm['name']}:{i}"
        ctx.ev()
        ctx.state(key)
        ok = f.fly(m)
        if i == 0:
            ctx.true(key + ":solved", ok, "the published mission is not solved")
        if not ok:
            ctx.count("example_missions_not_solved")
            continue
        X.audit(ctx, f, key)


def run_example_history(ctx, prm):
    name, words = prm["name"], prm["words"]
    f = X.load(name)
    ms = X.EX[name]["missions"]
    pick = {"A": ms[0], "B": ms[1], "C": ms[3]}
    for word in words:
        f.again()
        warm = False
        for i, op in enumerate(word):
            ctx.step()
            key = f"example-history:{name}:{word[: i + 1]}"
            if op == "S":
                f.again()
                warm = False
                continue
            ctx.ev()
            ctx.state(key)
            if not f.fly(pick[op], warm) and not f.fly(pick[op]):
                ctx.true(key + ":solved", op != "A", "the published mission is not solved after other runs")
                ctx.count("example_missions_not_solved")
                warm = False
                continue
            warm = True
            X.audit(ctx, f, key)


def run_example_totals(ctx, prm):
    """Derivatives of the block fuel (and field length) of a solved example against differences of solved examples."""
    f = X.load(prm["name"])
    ofs = [f.prom.get(o, o) for o in prm["of"]]
    if not ctx.true(f"example-totals:{prm['name']}:solved", f.fly({}), "the published mission is not solved"):
        return
    ctx.ev()
    wrts = prm["wrt"]
    f.p.model.linear_solver = om.DirectSolver() if f.p.model.linear_solver is None else f.p.model.linear_solver
    J = f.p.compute_totals(of=ofs, wrt=wrts)
    for w in wrts:
        base = np.array(f.at(w), dtype=float)
        vals = []
        for s in (1e-4, -1e-4):
            f.p.set_val(w, base * (1 + s))
            for _ in range(3):
                with X.quiet():
                    f.p.run_model()
                if M.converged(f.p, 1e-9):
                    break
            vals.append([np.array(f.at(o)) for o in ofs])
        f.p.set_val(w, base)
        for k, o in enumerate(ofs):
            fd = (vals[0][k] - vals[1][k]) / (2e-4 * base)
            ctx.state(("example-totals", prm["name"], o, w))
            ctx.close(f"example-totals:{prm['name']}:{o}:{w}", np.ravel(J[o, w]), np.ravel(fd), 2e-4, 1e-6 * np.max(np.abs(vals[0][k])) / abs(float(np.ravel(base)[0])), f"d {o} / d {w}")


def example_shards(th):
    out = [(f"example:{n}", dict(fn="run_example", name=n)) for n in X.EX]
    words = ["".join(w) for w in itertools.product("ABCS" if th else "ABS", repeat=3) if w[-1] != "S" and w[0] != "S"]
    for n in ("TBM850", "B738", "minimal_integrator") if not th else ("TBM850", "Caravan", "KingAirC90GT", "HybridTwin", "B738", "minimal_integrator"):
        for i in range(0, len(words), 6):
            out.append((f"example-history:{n}:{i}", dict(fn="run_example_history", name=n, words=words[i : i + 6])))
    AC = ["mission_range", "ac|weights|MTOW", "ac|geom|wing|S_ref", "ac|geom|wing|AR", "ac|aero|polar|CD0_cruise", "cruise|h0"]
    out.append(("example-totals:B738", dict(fn="run_example_totals", name="B738", of=["descent.fuel_used_final", "loiter.fuel_used_final"], wrt=AC + ["reserve_range", "loiter_duration"])))
    out.append(("example-totals:TBM850", dict(fn="run_example_totals", name="TBM850", of=["descent.fuel_used_final", "rotate.range_final", "takeoff|v1", "engineoutclimb.gamma"], wrt=AC + ["ac|propulsion|engine|rating", "ac|propulsion|propeller|diameter", "ac|aero|CLmax_TO"])))
    out.append(("example-totals:minimal_integrator", dict(fn="run_example_totals", name="minimal_integrator", of=["mission.descent.fuel_integrator.fuel_burned_final", "mission.descent.range"], wrt=["mission.mission_range", "mission.cruise|h0", "ac|weights|TOW", "ac|geom|wing|S_ref", "ac|aero|L_over_D", "ac|propulsion|TSFC"])))
    if th:
        out.append(("example-totals:KingAirC90GT", dict(fn="run_example_totals", name="KingAirC90GT", of=["descent.fuel_used_final", "rotate.range_final"], wrt=AC + ["ac|propulsion|engine|rating", "ac|aero|CLmax_TO"])))
        out.append(("example-totals:HybridTwin", dict(fn="run_example_totals", name="HybridTwin", of=["descent.fuel_used_final", "rotate.range_final", "descent.propmodel.batt1.SOC_final"], wrt=AC + ["ac|propulsion|battery|specific_energy", "cruise.hybridization"])))
    return out


def run(ctx, prm):
    globals()[prm["fn"]](ctx, prm)

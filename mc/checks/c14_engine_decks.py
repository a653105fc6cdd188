"""C14: turbofan engine decks."""
import glob
import itertools
import os
import shutil

import numpy as np

from mc.omx import om

PROPERTY = "C14"
LEVEL = "exploration"
RULE = (
    "every engine deck (CFM56, N+3, N+3 hybrid) evaluated at every point of its tabulated cycle data (all altitude x Mach x throttle x "
    "hybrid power combinations with a valid cycle), in the declared and in other units, in one batch, in reversed batch and point by point "
    "for a complete sub-lattice; derivatives against central differences at every cell midpoint of a sub-lattice; the scaled engine for "
    "every (deck, fuel, rating, number of points) with every operation sequence to depth 3 of {run A, run B, set up again}; every propeller map at every knot and cell midpoint, the scaled map at every design point of an alphabet. States: distinct points."
)
BOUNDS = "all 620/615/1530 tabulated points; ratings from 0.2 to 3 times the original; batches of 1, 2, 3, 5, 7 points"
ASSUMPTIONS = ["the tables in empirical_data are the ground truth", "a kriging fit reproduces its data to 1e-4 (thrust), 1e-3 (fuel flow, temperature) and 1e-2 (surge margin) of the data range, as it does with the shipped tables"]

TOL = dict(thrust=1e-4, fuel_flow=1e-3, T4=1e-3, surge_margin=1e-2)
FT, LBF, LBM = 0.3048, 4.4482216152605, 0.45359237


def root():
    import openconcept

    return os.path.join(openconcept.__path__[0], "propulsion", "empirical_data")


def ensure_cache():
    """The trained fits are build products; take them from the build environment when absent."""
    for d in ("cfm56", "n+3", "n+3_hybrid"):
        for z in glob.glob(os.path.join("/opt/vp/kriging", d, "*.zip")):
            t = os.path.join(root(), d, os.path.basename(z))
            if not os.path.exists(t):
                shutil.copy(z, t + ".tmp%d" % os.getpid())
                os.replace(t + ".tmp%d" % os.getpid(), t)


def table(name):
    rows = []
    if name == "CFM56":
        T, W, X = [np.load(os.path.join(root(), "cfm56", f"cfm56{k}.npy")) for k in ("thrust", "wf", "t4")]
        for i, j, k in np.ndindex(8, 9, 9):
            alt, M, thr = 35000.0 - 5000 * i, 0.8 - 0.1 * j, 1.0 - 0.1 * k
            if T[i, j, k] > 0 and not (j < 3 and i == 7):
                rows.append((thr, alt, M, T[i, j, k], W[i, j, k], X[i, j, k]))
        return np.array(rows), ["throttle", "fltcond|h", "fltcond|M"], ["thrust", "fuel_flow", "T4"]
    f = os.path.join(root(), "n+3" if name == "N3" else "n+3_hybrid")
    al, ma, th, T = [np.load(os.path.join(f, "power_off", k + ".npy")) for k in ("alt", "mach", "throttle", "thrust")]
    hyb = name == "N3Hybrid"
    for d, P in (("power_off", 0.0),) + ((("power_on_500kW", 500.0), ("power_on_1MW", 1000.0)) if hyb else ()):
        W, X = np.load(os.path.join(f, d, "wf.npy")), np.load(os.path.join(f, d, "SMW.npy"))
        for ix in np.ndindex(8, 7, 11):
            if W[ix] > 0:
                rows.append((th[ix], al[ix], ma[ix]) + ((P,) if hyb else ()) + (T[ix], W[ix], X[ix]))
    return np.array(rows), ["throttle", "fltcond|h", "fltcond|M"] + (["hybrid_power"] if hyb else []), ["thrust", "fuel_flow", "surge_margin"]


def factory(name):
    from openconcept import propulsion

    return getattr(propulsion, name)


def problem(comp, hybrid=False):
    p = om.Problem(reports=False)
    p.model.add_subsystem("c", comp, promotes=["*"])
    p.setup(check=False)
    return p


ALT = {"fltcond|h": ("m", FT), "hybrid_power": ("W", 1000.0), "thrust": ("N", LBF), "fuel_flow": ("kg/s", LBM), "T4": ("degK", 5 / 9)}


def feed(p, ins, rows, si=False):
    for i, k in enumerate(ins):
        if si and k in ALT:
            p.set_val(k, rows[:, i] * ALT[k][1], units=ALT[k][0])
        else:
            p.set_val(k, rows[:, i])


def run_deck(ctx, prm):
    name = prm["deck"]
    ensure_cache()
    make = factory(name)
    d, ins, outs = table(name)
    n, ni = len(d), len(ins)
    p = problem(make(num_nodes=n))
    feed(p, ins, d)
    p.run_model()
    ref = {}
    for j, o in enumerate(outs):
        want = d[:, ni + j]
        ref[o] = p.get_val(o).copy()
        span = np.ptp(want)
        for i in range(n):
            ctx.ev()
            ctx.state((name, i))
            ctx.close(f"table:{name}:{o}:{tuple(d[i, :ni])}", ref[o][i], want[i], 0, TOL[o] * span, what=f"{name} {o} at {dict(zip(ins, d[i, :ni]))}")
        ctx.outcome(o, np.percentile(ref[o], [0, 25, 50, 75, 100]))
    ctx.sample(dict(deck=name, points=n, first=d[0]))
    # other units
    feed(p, ins, d, si=True)
    p.run_model()
    for o in outs:
        u = ALT.get(o)
        got = p.get_val(o, units=u[0]) / u[1] if u else p.get_val(o)
        ctx.close(f"units:{name}:{o}", got, ref[o], 1e-6, 1e-7 * np.ptp(ref[o]), what=f"{name} {o} from inputs in other units")
    # reversed batch, then single points of a complete sub-lattice
    feed(p, ins, d[::-1])
    p.run_model()
    for o in outs:
        ctx.close(f"reversed:{name}:{o}", p.get_val(o)[::-1], ref[o], 1e-12, 1e-12 * np.ptp(ref[o]), what=f"{name} {o} in a reversed batch")
    step = 1 if ctx.tier == "thorough" else 5
    for nn in (1, 2, 3, 5, 7):
        q = problem(make(num_nodes=nn))
        for i in range(0, n - nn, step * nn):
            feed(q, ins, d[i : i + nn])
            q.run_model()
            ctx.ev()
            for o in outs:
                ctx.close(f"batch:{name}:{nn}:{o}:{i}", q.get_val(o), ref[o][i : i + nn], 1e-9, 1e-9 * np.ptp(ref[o]), what=f"{name} {o} in a batch of {nn}")
    # derivatives and interpolation quality at midpoints between tabulated points
    pts = [0.5 * (d[i, :ni] + d[i + 1, :ni]) for i in range(0, n - 1, step)]
    pts = np.array(pts)
    q = problem(make(num_nodes=len(pts)))
    feed(q, ins, pts)
    q.run_model()
    J = q.compute_totals(outs, ins)
    h = {"throttle": 1e-4, "fltcond|h": 2.0, "fltcond|M": 1e-4, "hybrid_power": 0.05}
    for i, k in enumerate(ins):
        vals = []
        for s in (1, -1):
            z = pts.copy()
            z[:, i] += s * h[k]
            feed(q, ins, z)
            q.run_model()
            vals.append({o: q.get_val(o).copy() for o in outs})
        for o in outs:
            fd = (vals[0][o] - vals[1][o]) / (2 * h[k])
            got = J[o, k]
            ctx.ev(len(pts))
            ctx.close(f"deriv:{name}:{o}:{k}", np.diag(got), fd, 2e-3, 1e-3 * np.max(np.abs(fd)), what=f"{name} d {o} / d {k}")
            ctx.true(f"deriv-cross:{name}:{o}:{k}", np.all(got - np.diag(np.diag(got)) == 0), "a point depends on another point's inputs")
    if prm["engine"]:
        run_scaled(ctx, name, make, d, ins, outs)


def run_scaled(ctx, name, make, d, ins, outs):
    """The scaled ("rubber") engine: thrust and fuel flow times rating over the original rating, hydrogen by heating value."""
    from openconcept.propulsion import RubberizedTurbofan

    orig = {"N3": 28620.0, "CFM56": 27300.0}[name]
    sets = {"A": d[::37], "B": d[5::41][::-1]}
    for nn, hydrogen, rating in itertools.product((1, 2, 5), (False, True, None), (0.2 * orig, orig, 15000.0, 3 * orig)):
        # None: option left at its default; the N+3 deck is also the default engine
        kw = dict(num_nodes=nn) if hydrogen is None else dict(num_nodes=nn, hydrogen=hydrogen, engine=name)
        if hydrogen is None:
            if name != "N3":
                kw["engine"] = name
        for word in (("A", "B", "A"), ("B", "S", "B"), ("A", "S", "B")) if rating == 15000.0 else (("A",),):
            p = problem(RubberizedTurbofan(**kw))
            base = problem(make(num_nodes=nn))
            for i, op in enumerate(word):
                ctx.step()
                if op == "S":
                    p.setup(check=False)
                    continue
                rows = sets[op][:nn]
                feed(p, ins, rows)
                p.set_val("ac|propulsion|engine|rating", rating * (1 if i == 0 else 1.3), units="lbf")
                p.run_model()
                feed(base, ins, rows)
                base.run_model()
                f = rating * (1 if i == 0 else 1.3) / orig
                lhv = 43.0 / 120.0 if hydrogen else 1.0
                key = f"scaled:{name}:n{nn}:hydrogen={hydrogen}:rating={rating:g}:{''.join(word[: i + 1])}"
                ctx.ev()
                ctx.state(key)
                ctx.close(key + ":thrust", p.get_val("thrust", units="lbf"), base.get_val("thrust") * f, 1e-12, what="thrust")
                ctx.close(key + ":fuel", p.get_val("fuel_flow", units="lbm/s"), base.get_val("fuel_flow") * f * lhv, 1e-12, what="fuel flow")
                ctx.close(key + ":" + outs[2], p.get_val(outs[2]), base.get_val(outs[2]), 1e-12, what=outs[2] + " (not scaled)")
                ctx.outcome(p.get_val("thrust"))
                if rating == 15000.0:
                    J = p.compute_totals(["thrust", "fuel_flow", outs[2]], ["ac|propulsion|engine|rating"] + ins)
                    for o in ("thrust", "fuel_flow"):
                        v = p.get_val(o)
                        ctx.close(key + f":d{o}/drating", J[o, "ac|propulsion|engine|rating"].ravel(), v / (rating * (1 if i == 0 else 1.3)), 1e-9, what=f"d {o} / d rating")
                    Jb = base.compute_totals(["thrust", "fuel_flow", outs[2]], ins)
                    for k in ins:
                        ctx.close(key + f":dthrust/d{k}", J["thrust", k], Jb["thrust", k] * f, 1e-9, 1e-12, what=f"d thrust / d {k}")
                        ctx.close(key + f":dfuel/d{k}", J["fuel_flow", k], Jb["fuel_flow", k] * f * lhv, 1e-9, 1e-12, what=f"d fuel flow / d {k}")
                        ctx.close(key + f":d{outs[2]}/d{k}", J[outs[2], k], Jb[outs[2], k], 1e-9, 1e-12, what=f"d {outs[2]} / d {k}")


def run_propellers(ctx):
    """Every propeller map at every knot and every cell midpoint, in one batch and in small batches; the scaled map at every design point."""
    from mc.cat_propulsion import CP3, CP4, CPS3, CPS4, ETA3, ETA4, J3, J4, ST3, ST4, make_interp_spline, spline1
    from openconcept.propulsion.empirical_data import prop_maps

    def tensor(ck, jk, d, c, j):
        a = make_interp_spline(ck, d, k=3, axis=0)(c)
        return np.array([float(make_interp_spline(jk, a[i], k=3)(j[i])) for i in range(len(c))])

    def mids(k):
        return np.sort(np.concatenate([k, 0.5 * (k[1:] + k[:-1])]))

    cases = [("propeller_map_Raymer", {}, CP3, J3, ETA3, "eta_prop"), ("propeller_map_highpower", {}, CP4, J4, ETA4, "eta_prop")]
    cases += [("static_propeller_map_Raymer", {}, CPS3, None, ST3, "ct_over_cp"), ("static_propeller_map_highpower", {}, CPS4, None, ST4, "ct_over_cp")]
    for kw in ({}, dict(design_J=2.2, design_cp=0.2), dict(design_J=1.1), dict(design_cp=0.5), dict(design_J=3.3, design_cp=0.4)):
        dj, dc = kw.get("design_J", 2.2), kw.get("design_cp", 0.2)
        cases.append(("propeller_map_scaled", kw, CP3[:6] * dc / 0.2, np.linspace(0.2, 2.8 * dj / 2.2, 14), ETA3[:6], "eta_prop"))
    cases.append(("propeller_map_constant_prop_efficiency", {}, np.array([0.0, 0.1, 0.5]), np.array([0.0, 0.5, 2.0]), None, "eta_prop"))
    for name, kw, ck, jk, data, o in cases:
        if jk is None:
            c, j = mids(ck), None
            want = spline1(ck, data, c)
        else:
            c, j = [a.ravel() for a in np.meshgrid(mids(ck), mids(jk), indexing="ij")]
            want = np.full(len(c), 0.85) if data is None else tensor(ck, jk, data, c, j)
        for nn in (len(c), 1, 2, 3):
            step = nn if nn > 3 or ctx.tier == "thorough" else 7 * nn
            p = problem(getattr(prop_maps, name)(vec_size=nn, **kw))
            for i in range(0, len(c) - nn + 1, step):
                p.set_val("cp", c[i : i + nn])
                if j is not None:
                    p.set_val("J", j[i : i + nn])
                p.run_model()
                ctx.ev()
                got = p.get_val(o)
                for k in range(nn):
                    ctx.state((name, str(kw), i + k))
                    at = dict(cp=c[i + k]) if j is None else dict(cp=c[i + k], J=j[i + k])
                    ctx.close(f"map:{name}:{kw}:n{nn}:{i + k}", got[k], want[i + k], 1e-7, 1e-9, what=f"{name} {kw} at {at}")
                ctx.outcome(got)


def shards(tier):
    return [("CFM56", dict(deck="CFM56", engine=True)), ("N3", dict(deck="N3", engine=True)), ("N3Hybrid", dict(deck="N3Hybrid", engine=False)), ("propellers", dict(deck=None))]


def run(ctx, prm):
    if prm["deck"] is None:
        return run_propellers(ctx)
    run_deck(ctx, prm)

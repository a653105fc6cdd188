"""C01: the integrators compute their quadrature exactly, for every configuration and every input."""
from fractions import Fraction as F
from functools import lru_cache
import itertools

import numpy as np

from mc.omx import problem

PROPERTY = "C01"
LEVEL = "exploration"
RULE = (
    "cases: (integrator kind, method, number of nodes, time setup, zero start, final only, number of integrands, "
    "segment layout) x full unit basis of the rate vector x initial value in {0, 1, -2} x step in {0, positive, "
    "negative}; every case is compared with an exact rational solution of the quadrature equations. The map is "
    "linear in (rates, initial value) and bilinear with the step, so the basis decides every input of a "
    "configuration. A case is non-trivial when configuration or basis vector differs."
)
BOUNDS = "num_nodes odd 1..21 (thorough 1..41); 1-3 integrands; 1-3 segments, all subsets of counted segments, num_nodes 3..7 (thorough 3..11)"
ASSUMPTIONS = [
    "superposition (linearity) itself is checked on dense mixed vectors as well as on the basis",
    "round-off tolerance 1e-10 relative to the largest weight",
]


# ------------------------------------------------------------------ exact reference
@lru_cache(None)
def ref_matrix(method, n):
    """M (n x n Fractions) with y = y0 + dt * M f."""
    M = [[F(0)] * n for _ in range(n)]
    if method == "simpson":
        # parabola through three consecutive nodes, integrated over each half
        for k in range(0, n - 1, 2):
            half1 = {k: F(5, 12), k + 1: F(8, 12), k + 2: F(-1, 12)}
            half2 = {k: F(-1, 12), k + 1: F(8, 12), k + 2: F(5, 12)}
            for row, w in ((k + 1, half1), (k + 2, half2)):
                M[row] = list(M[row - 1])
                for c, v in w.items():
                    M[row][c] += v
        return M
    # bdf3: third-order stencils; unknowns y1..y_{n-1} with y0 = 0
    N = n - 1
    A = [[F(0)] * N for _ in range(N)]
    B = [F(6, 11)] * N
    y = lambda r, j, v: A[r].__setitem__(j - 1, v) if 1 <= j <= N else None
    for r in range(N):
        if r == 0:
            # derivative at node 1:  -1/3 y0 - 1/2 y1 + y2 - 1/6 y3
            y(0, 1, F(-1, 2)), y(0, 2, F(1)), y(0, 3, F(-1, 6))
            B[0] = F(1)
        elif r == 1:
            # derivative at node 2:   1/6 y0 - y1 + 1/2 y2 + 1/3 y3
            y(1, 1, F(-1)), y(1, 2, F(1, 2)), y(1, 3, F(1, 3))
            B[1] = F(1)
        else:
            y(r, r - 2, F(-2, 11)), y(r, r - 1, F(9, 11)), y(r, r, F(-18, 11)), y(r, r + 1, F(1))
    # solve A X = diag(B)
    aug = [A[i] + [B[i] if i == j else F(0) for j in range(N)] for i in range(N)]
    for c in range(N):
        piv = next(r for r in range(c, N) if aug[r][c] != 0)
        aug[c], aug[piv] = aug[piv], aug[c]
        pv = aug[c][c]
        aug[c] = [x / pv for x in aug[c]]
        for r in range(N):
            if r != c and aug[r][c] != 0:
                f = aug[r][c]
                aug[r] = [a - f * b for a, b in zip(aug[r], aug[c])]
    for i in range(N):
        for j in range(N):
            M[i + 1][j + 1] = aug[i][N + j]
    return M


@lru_cache(None)
def refM(method, n):
    if n == 1:
        return np.zeros((1, 1))
    return np.array([[float(v) for v in row] for row in ref_matrix(method, n)])


def big_ref(method, n, dts, counted):
    """Block matrix for several consecutive segments."""
    M = refM(method, n)
    s = len(dts)
    out = np.zeros((n * s, n * s))
    for i in range(s):
        for j in range(i + 1):
            if not counted[j]:
                continue
            blk = M * dts[j] if i == j else np.tile(M[-1] * dts[j], (n, 1))
            out[i * n : (i + 1) * n, j * n : (j + 1) * n] = blk
    return out


# ------------------------------------------------------------------ shards
def shards(tier):
    nmax = 21 if tier == "quick" else 41
    out = []
    for method in ("simpson", "bdf3"):
        for n in range(1, nmax + 1, 2):
            if method == "bdf3" and n == 3:
                continue  # the third-order start-up stencil needs four points: refused by the library
            out.append((f"integrator:{method}:n{n}", dict(kind="new", method=method, n=n)))
    for method in ("simpson", "bdf3"):
        for n in (1, 3, 5, 7) if tier == "quick" else (1, 3, 5, 7, 9, 11):
            if method == "bdf3" and n == 3:
                continue
            out.append((f"single:{method}:n{n}", dict(kind="old1", method=method, n=n)))
            if n > 1:
                for s in (1, 2, 3):
                    out.append((f"segments{s}:{method}:n{n}", dict(kind="old", method=method, n=n, s=s)))
    out.append(("units", dict(kind="units")))
    out.append(("polynomials", dict(kind="poly", nmax=nmax)))
    out.append(("names", dict(kind="names")))
    out.append(("errors", dict(kind="errors")))
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def _time_inputs(setup, n, dt):
    if setup == "dt":
        return {"dt": dt}
    if setup == "duration":
        return {"duration": dt * max(n - 1, 1)}
    return {"t_initial": 7.25, "t_final": 7.25 + dt * (n - 1)}


def _dt_jac(setup, n):
    """d(dt)/d(time inputs)"""
    if setup == "dt":
        return {"dt": 1.0}
    if setup == "duration":
        return {"duration": 1.0 / max(n - 1, 1)}
    return {"t_initial": -1.0 / max(n - 1, 1), "t_final": 1.0 / max(n - 1, 1)}


def run_new(ctx, p):
    from openconcept.utilities.math.integrals import Integrator

    method, n = p["method"], p["n"]
    M = refM(method, n)
    scale = max(1.0, np.abs(M).max())
    for setup in ("dt", "duration", "bounds"):
        if setup == "bounds" and n == 1:
            continue  # zero-length grid has no step
        # integrand option vectors: 1..3 integrands on one component, every combination of flags
        flagsets = [(f,) for f in itertools.product((False, True), repeat=2)]
        flagsets += [tuple(c) for c in itertools.product(itertools.product((False, True), repeat=2), repeat=2)] if n <= 7 else []
        flagsets += [((False, False), (True, True), (False, True))]
        for flags in flagsets:
            cfg = dict(method=method, n=n, setup=setup, flags=flags)
            key = f"{method}:n{n}:{setup}:{flags}"
            comp = Integrator(num_nodes=n, method=method, time_setup=setup)
            for i, (zero, final) in enumerate(flags):
                comp.add_integrand(f"q{i}", zero_start=zero, final_only=final)
            prob = problem(comp)
            names = [f"q{i}" for i in range(len(flags))]
            of, wrt = [], list(_time_inputs(setup, n, 1.0))
            for nm, (zero, final) in zip(names, flags):
                of += [nm + "_final"] + ([] if final else [nm])
                wrt += [nm + "_rate"] + ([] if zero else [nm + "_initial"])
            full_basis = len(flags) == 1
            vecs = [np.zeros(n)] + [np.eye(n)[i] for i in range(n)] if full_basis else [np.zeros(n), np.eye(n)[n - 1]]
            vecs += [np.array([(-1) ** k * (k + 1) / 3.0 for k in range(n)])]
            for dt in (0.5, 0.0, -2.0):
                for t, v in _time_inputs(setup, n, dt).items():
                    prob.set_val(t, v)
                for iv, vec in enumerate(vecs):
                    q0s = (0.0, 1.0, -2.0) if iv in (0, 1, len(vecs) - 1) else (1.0,)
                    for q0 in q0s:
                        ctx.ev()
                        ctx.state((key, dt, iv, q0))
                        for i, (nm, (zero, final)) in enumerate(zip(names, flags)):
                            prob.set_val(nm + "_rate", vec * (i + 1))
                            if not zero:
                                prob.set_val(nm + "_initial", q0 + i)
                        prob.run_model()
                        for i, (nm, (zero, final)) in enumerate(zip(names, flags)):
                            want = (0.0 if zero else q0 + i) + dt * M.dot(vec * (i + 1))
                            if not final:
                                ctx.close(f"value:{key}", prob.get_val(nm), want, 1e-10, 1e-10 * scale, f"{nm}", cfg=cfg, rate=vec, q0=q0, dt=dt)
                            ctx.close(f"final:{key}", prob.get_val(nm + "_final"), want[-1:], 1e-10, 1e-10 * scale, f"{nm}_final", cfg=cfg, rate=vec, q0=q0, dt=dt)
                        ctx.outcome(prob.get_val(names[0] + "_final"), key)
                    # partials at this point
                    J = prob.compute_totals(of=of, wrt=wrt)
                    ctx.ev()
                    dj = _dt_jac(setup, n)
                    for i, (nm, (zero, final)) in enumerate(zip(names, flags)):
                        for o in [nm + "_final"] + ([] if final else [nm]):
                            rows = slice(n - 1, n) if o.endswith("_final") else slice(0, n)
                            for w in wrt:
                                if w in dj:
                                    want = (M.dot(vec * (i + 1)) * dj[w])[rows].reshape(-1, 1)
                                elif w == nm + "_rate":
                                    want = (M * dt)[rows]
                                elif w == nm + "_initial":
                                    want = np.ones((n, 1))[rows]
                                else:
                                    want = np.zeros_like(J[o, w])
                                ctx.close(f"jac:{key}:{o}:{w}", J[o, w], want, 1e-10, 1e-10 * scale, f"d {o}/d {w}", cfg=cfg, rate=vec, dt=dt)
            ctx.sample(dict(cfg=cfg, dt=-2.0, rate=vec, final=prob.get_val(names[0] + "_final")))


def run_old1(ctx, p):
    from openconcept.utilities.math.integrals import OldIntegrator

    method, n = p["method"], p["n"]
    M = refM(method, n)
    scale = max(1.0, np.abs(M).max())
    for setup, zero, final in itertools.product(("dt", "duration", "bounds"), (False, True), (False, True)):
        if setup == "bounds" and n == 1:
            continue
        key = f"old:{method}:n{n}:{setup}:{zero}:{final}"
        prob = problem(OldIntegrator(num_nodes=n, method=method, time_setup=setup, zero_start=zero, final_only=final))
        of = ["q_final"] + ([] if final else ["q"])
        wrt = ["dqdt"] + ([] if zero else ["q_initial"]) + list(_time_inputs(setup, n, 1.0))
        for dt in (0.5, 0.0, -2.0):
            for t, v in _time_inputs(setup, n, dt).items():
                prob.set_val(t, v)
            for iv, vec in enumerate([np.zeros(n)] + list(np.eye(n)) + [np.arange(n) - 1.5]):
                q0 = 1.0
                if not zero:
                    prob.set_val("q_initial", q0)
                prob.set_val("dqdt", vec)
                prob.run_model()
                ctx.ev()
                ctx.state((key, dt, iv))
                want = (0.0 if zero else q0) + dt * M.dot(vec)
                if not final:
                    ctx.close(f"value:{key}", prob.get_val("q"), want, 1e-10, 1e-10 * scale, "q", rate=vec, dt=dt)
                ctx.close(f"final:{key}", prob.get_val("q_final"), want[-1:], 1e-10, 1e-10 * scale, "q_final", rate=vec, dt=dt)
                ctx.outcome(want, key)
                J = prob.compute_totals(of=of, wrt=wrt)
                dj = _dt_jac(setup, n)
                for o in of:
                    rows = slice(n - 1, n) if o.endswith("_final") else slice(0, n)
                    for w in wrt:
                        if w in dj:
                            wj = (M.dot(vec) * dj[w])[rows].reshape(-1, 1)
                        elif w == "dqdt":
                            wj = (M * dt)[rows]
                        else:
                            wj = np.ones((n, 1))[rows]
                        ctx.close(f"jac:{key}:{o}:{w}", J[o, w], wj, 1e-10, 1e-10 * scale, f"d {o}/d {w}", rate=vec, dt=dt)


def run_old(ctx, p):
    from openconcept.utilities.math.integrals import OldIntegrator

    method, n, s = p["method"], p["n"], p["s"]
    names = ["climb", "cruise", "descent"][:s]
    subsets = [None] + [[names[i] for i in range(s) if m >> i & 1] for m in range(1, 2**s)]
    tot = n * s
    for sub, zero, final in itertools.product(subsets, (False, True), (False, True)):
        key = f"segs:{method}:n{n}:{s}:{sub}:{zero}:{final}"
        counted = [sub is None or nm in sub for nm in names]
        prob = problem(
            OldIntegrator(num_nodes=n, method=method, segment_names=names, segments_to_count=sub, zero_start=zero, final_only=final)
        )
        for dts in ([0.5, 2.0, -1.0][:s], [3.0, 0.0, 1.0][:s]):
            M = big_ref(method, n, dts, counted)
            units = [big_ref(method, n, [1.0 if j == k else 0.0 for j in range(s)], counted) for k in range(s)]
            scale = max(1.0, np.abs(M).max())
            for nm, dt in zip(names, dts):
                prob.set_val(nm + "|dt", dt)
            vecs = [np.zeros(tot)] + list(np.eye(tot)) + [np.cos(np.arange(tot) * 0.7)]
            of = ["q_final"] + ([] if final else ["q"])
            wrt = ["dqdt"] + ([] if zero else ["q_initial"]) + [nm + "|dt" for nm in names]
            for iv, vec in enumerate(vecs):
                if not zero:
                    prob.set_val("q_initial", -3.0)
                prob.set_val("dqdt", vec)
                prob.run_model()
                ctx.ev()
                ctx.state((key, tuple(dts), iv))
                want = (0.0 if zero else -3.0) + M.dot(vec)
                ctx.outcome(want, key)
                if not final:
                    ctx.close(f"value:{key}", prob.get_val("q"), want, 1e-10, 1e-10 * scale, "q", rate=vec, dts=dts)
                ctx.close(f"final:{key}", prob.get_val("q_final"), want[-1:], 1e-10, 1e-10 * scale, "q_final", rate=vec, dts=dts)
                J = prob.compute_totals(of=of, wrt=wrt)
                for o in of:
                    rows = slice(tot - 1, tot) if o.endswith("_final") else slice(0, tot)
                    for w in wrt:
                        if w == "dqdt":
                            wj = M[rows]
                        elif w == "q_initial":
                            wj = np.ones((tot, 1))[rows]
                        else:
                            wj = units[names.index(w[:-3])].dot(vec)[rows].reshape(-1, 1)
                        ctx.close(f"jac:{key}:{o}:{w}", J[o, w], wj, 1e-10, 1e-10 * scale, f"d {o}/d {w}", rate=vec, dts=dts)


def run_units(ctx, p):
    """State/rate units are inferred consistently, whatever the combination of declared units."""
    from openconcept.utilities.math.integrals import Integrator, OldIntegrator

    n = 5
    M = refM("simpson", n)
    vec = np.array([1.0, -2.0, 0.5, 3.0, 4.0])
    sec = {"s": 1.0, "min": 60.0, "h": 3600.0}
    kg = {"kg": 1.0, "g": 1e-3, "t": 1e3}
    for du in sec:
        for qu in kg:
            for mode in ("units", "rate_units"):
                for setup in ("dt", "duration", "bounds"):
                    ru = f"{qu}/{du}"
                    comp = Integrator(num_nodes=n, method="simpson", time_setup=setup, diff_units=du)
                    if mode == "units":
                        comp.add_integrand("q", units=qu)
                    else:
                        comp.add_integrand("q", rate_units=ru)
                    prob = problem(comp)
                    # everything handed over in SI, converted by the declared units
                    for t, v in _time_inputs(setup, n, 30.0).items():
                        prob.set_val(t, v, units="s")
                    prob.set_val("q_rate", vec, units="kg/s")
                    prob.set_val("q_initial", 5.0, units="kg")
                    prob.run_model()
                    ctx.ev()
                    ctx.state((du, qu, mode, setup))
                    want = 5.0 + 30.0 * M.dot(vec)
                    key = f"units:{du}:{qu}:{mode}:{setup}"
                    ctx.close(key, prob.get_val("q", units="kg"), want, 1e-9, 1e-9, "q[kg]")
                    ctx.close(key, prob.get_val("q_final", units="kg"), want[-1:], 1e-9, 1e-9, "q_final[kg]")
                    ctx.outcome(want, key)
            prob = problem(OldIntegrator(num_nodes=n, method="simpson", quantity_units=qu, diff_units=du))
            prob.set_val("dt", 30.0, units="s")
            prob.set_val("dqdt", vec, units="kg/s")
            prob.set_val("q_initial", 5.0, units="kg")
            prob.run_model()
            ctx.ev()
            ctx.close(f"units:old:{du}:{qu}", prob.get_val("q", units="kg"), 5.0 + 30.0 * M.dot(vec), 1e-9, 1e-9, "q[kg]")
    # only the differential has units -> rate is 1/unit, state dimensionless
    for du, sc in sec.items():
        comp = Integrator(num_nodes=n, method="simpson", diff_units=du)
        comp.add_integrand("q")
        prob = problem(comp)
        prob.set_val("dt", 30.0, units="s")
        prob.set_val("q_rate", vec, units="1/s")
        prob.run_model()
        ctx.ev()
        ctx.close(f"units:nondim:{du}", prob.get_val("q"), 30.0 * M.dot(vec), 1e-9, 1e-9, "q")


def run_poly(ctx, p):
    """Accuracy guarantee: polynomial states are integrated exactly on every grid."""
    from openconcept.utilities.math.integrals import Integrator

    for method in ("simpson", "bdf3"):
        for n in range(3 if method == "simpson" else 5, p["nmax"] + 1, 2):
            comp = Integrator(num_nodes=n, method=method, time_setup="bounds")
            comp.add_integrand("q")
            prob = problem(comp)
            for t0, t1 in ((0.0, 1.0), (-1.0, 2.0), (3.0, 0.5)):
                t = np.linspace(t0, t1, n)
                for deg in range(0, 3):
                    rate = t**deg
                    want = 2.0 + (t ** (deg + 1) - t0 ** (deg + 1)) / (deg + 1)
                    prob.set_val("t_initial", t0), prob.set_val("t_final", t1)
                    prob.set_val("q_rate", rate), prob.set_val("q_initial", 2.0)
                    prob.run_model()
                    ctx.ev()
                    ctx.state((method, n, t0, t1, deg))
                    ctx.outcome(want[-1:])
                    ctx.close(f"poly:{method}:{deg}", prob.get_val("q"), want, 1e-8, 1e-8, f"integral of t^{deg} on {n} nodes", n=n, t0=t0, t1=t1)
                if method == "simpson":
                    rate = t**3
                    prob.set_val("q_rate", rate)
                    prob.run_model()
                    ctx.ev()
                    ctx.close("poly:simpson:3", prob.get_val("q_final"), [2.0 + (t1**4 - t0**4) / 4], 1e-8, 1e-8, "total integral of t^3")


def run_names(ctx, p):
    """Custom variable names and several integrands do not get mixed up, in any order of registration."""
    from openconcept.utilities.math.integrals import Integrator

    specs = [
        ("a", dict(rate_name="speed", start_name="x0", end_name="x1")),
        ("b", dict(rate_name="flow", zero_start=True)),
        ("c", dict(end_name="c_end", final_only=True, start_val=9.0)),
    ]
    n = 3
    M = refM("simpson", n)
    for perm in itertools.permutations(range(3)):
        for cnt in (1, 2, 3):
            comp = Integrator(num_nodes=n, method="simpson")
            used = [specs[i] for i in perm[:cnt]]
            for nm, kw in used:
                comp.add_integrand(nm, **kw)
            prob = problem(comp)
            prob.set_val("dt", 2.0)
            exp = {}
            for i, (nm, kw) in enumerate(used):
                f = np.array([1.0, 2.0, 4.0]) * (ord(nm) - 96)
                prob.set_val(kw.get("rate_name", nm + "_rate"), f)
                q0 = kw.get("start_val", 0.0)
                exp[nm] = q0 + 2.0 * M.dot(f)
            prob.run_model()
            ctx.ev()
            ctx.state((perm[:cnt],))
            for nm, kw in used:
                ctx.close(f"names:{nm}", prob.get_val(kw.get("end_name", nm + "_final")), exp[nm][-1:], 1e-10, 1e-10, nm, order=perm, cnt=cnt)
                if not kw.get("final_only"):
                    ctx.close(f"names:{nm}", prob.get_val(nm), exp[nm], 1e-10, 1e-10, nm, order=perm, cnt=cnt)
            ctx.outcome(*[exp[nm] for nm, _ in used])


def run_errors(ctx, p):
    """Grids the quadrature cannot handle are refused, never silently mis-integrated."""
    from openconcept.utilities.math.integrals import Integrator, OldIntegrator

    for n in range(2, 13, 2):
        for method in ("simpson", "bdf3"):
            for cls in (Integrator, OldIntegrator):
                ctx.ev()
                ctx.state((cls.__name__, n, method))
                ok = False
                try:
                    comp = cls(num_nodes=n, method=method)
                    problem(comp)
                except ValueError:
                    ok = True
                ctx.true(f"even-nodes:{cls.__name__}:{method}:{n}", ok, "an even number of nodes was accepted")
    for cls in (Integrator, OldIntegrator):
        ctx.ev()
        ok = False
        try:
            comp = cls(num_nodes=3, time_setup="nonsense")
            if cls is Integrator:
                comp.add_integrand("q")
            problem(comp)
        except ValueError:
            ok = True
        ctx.true(f"bad-time:{cls.__name__}", ok, "an unknown time setup was accepted")
    ok = False
    try:
        Integrator(num_nodes=3).add_integrand("q", units="kg", rate_units="kg/s")
    except ValueError:
        ok = True
    ctx.true("both-units", ok, "conflicting unit declarations were accepted")

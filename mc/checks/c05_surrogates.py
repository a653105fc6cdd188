"""C05: OpenAeroStruct drag surrogates: training data, its shared store, and the drag polars built on it."""
import itertools

import numpy as np

from mc import fakeoas as F
from mc.cat_mesh import cosp, interp_nodes, section_mesh, trap_mesh
from mc.generic import _factor, debruijn
from mc.omx import om

PROPERTY = "C05"
LEVEL = "model_checking"
RULE = (
    "Training-data components (VLM and aerostructural) driven through every operation word of the stated depth (De Bruijn) over {run with each "
    "input set, on problems that share or do not share a configuration; linearise without re-running; a training whose k-th analysis fails, "
    "then retry; set up again; a second model with several instances}; the oracle after every operation is the analysis evaluated directly at that "
    "problem's own current inputs. Every single input entry perturbed alone, every pair of entries by opposite amounts, every vector reordered. The real aerostructural group against OpenAeroStruct's own wingbox assembly for several numbers of control points. Drag polars on exactly representable analyses: every geometry x "
    "panel counts x node count x drag-increment form x flight-condition row, values and total derivatives. Real OpenAeroStruct: every point of small "
    "grids trained through the real process pool against direct analyses. States: distinct (history suffix) words and distinct configurations."
)
BOUNDS = "history depth 3 (quick) / 4 (thorough); training grids 2x1x2 for histories, 4x5x4 for polars; 1-3 streamwise and 2-5 spanwise panels; 1-5 nodes"
ASSUMPTIONS = [
    "in histories and polar sites the VLM / Aerostruct analyses are replaced by analytic stand-ins (looked up in their module) and the process pool by an in-process one; the conformance sites use the real ones",
    "all components of one process share surf_options, as documented",
]

FT = 0.3048
VOPT = {"CL0": 0.013, "CD0": 0.004, "t_over_c": np.array([0.12])}
AOPT = {"CL0": 0.013, "CD0": 0.004, "c_max_t": 0.39}
MESH, TC, TI = "ac|geom|wing|OAS_mesh", "ac|geom|wing|toverc", "fltcond|TempIncrement"
W = "ac|geom|wing|"


# ---------------------------------------------------------------- training-data components
class Kind:
    """How to build, feed and predict one of the two data-generation components."""

    def __init__(self, vlm):
        self.vlm = vlm
        self.outs = ["CL_train", "CD_train"] + ([] if vlm else ["failure_train", "W_wing"])
        self.fun = F.vlm if vlm else F.aerostruct
        self.opt = VOPT if vlm else AOPT
        self.keys = {MESH: ("mesh", "m"), TC: ("toverc", None), TI: ("T", "degC")} if vlm else {
            W + "S_ref": ("S", "m**2"), W + "AR": ("AR", None), W + "taper": ("taper", None), W + "c4sweep": ("sweep", "deg"), W + "twist": ("twist", "deg"), W + "toverc": ("toverc", None),
            W + "skin_thickness": ("skin", "m"), W + "spar_thickness": ("spar", "m"), TI: ("T", "degC"), "ac|aero|CD_nonwing": ("CDnw", None)}

    def comp(self, mods, cfg):
        kw = dict(Mach_train=np.array(cfg["M"]), alpha_train=np.array(cfg["a"]), alt_train=np.array(cfg["h"]), num_x=cfg["nx"], num_y=cfg["ny"], surf_options=self.opt)
        if self.vlm:
            return mods[0].VLMDataGen(**kw)
        return mods[1].OASDataGen(num_twist=cfg["n"][0], num_toverc=cfg["n"][1], num_skin=cfg["n"][2], num_spar=cfg["n"][3], **kw)

    def inputs(self, cfg, tag):
        """Input set `tag` (a set of letters switches single inputs away from the base values)."""
        if self.vlm:
            m = trap_mesh(100.0 if "S" not in tag else 120.0, 8.0, 0.4, 20.0, cfg["nx"], cfg["ny"])
            if "m" in tag:
                m[-1, 0, 2] += 1e-5  # the trailing edge of the tip only
            t = 0.12 - 0.01 * np.arange(cfg["ny"])
            if "t" in tag:
                t[-1] += 1e-4
            return {MESH: m, TC: t, TI: np.array([15.0 if "T" in tag else 0.0])}
        n = cfg["n"]
        d = {W + "S_ref": 400.0, W + "AR": 9.0, W + "taper": 0.2, W + "c4sweep": 30.0, W + "twist": np.linspace(-1, 2, n[0]), W + "toverc": np.linspace(0.1, 0.14, n[1]),
             W + "skin_thickness": np.linspace(0.005, 0.02, n[2]), W + "spar_thickness": np.linspace(0.004, 0.01, n[3]), TI: 0.0, "ac|aero|CD_nonwing": 0.0}
        d = {k: np.atleast_1d(np.array(v, dtype=float)) for k, v in d.items()}
        for c, (k, e, dv) in {"S": (W + "S_ref", 0, 20.0), "m": (W + "twist", -1, 1e-5), "t": (W + "toverc", -1, 1e-4), "T": (TI, 0, 15.0), "d": ("ac|aero|CD_nonwing", 0, 0.01)}.items():
            if c in tag:
                d[k][e] += dv
        return d

    def put(self, p, x, pre=""):
        for k, v in x.items():
            p.set_val(pre + k, v, units=self.keys[k][1])

    def point(self, x, M, a, h):
        d = {"M": M, "a": a, "h": h}
        for k, v in x.items():
            d[self.keys[k][0]] = v if (self.keys[k][0] in ("mesh", "toverc", "twist", "skin", "spar")) else np.ravel(v)[0]
        return d

    def oracle(self, cfg, x):
        g = list(itertools.product(cfg["M"], cfg["a"], cfg["h"]))
        sh = (len(cfg["M"]), len(cfg["a"]), len(cfg["h"]))
        out = {o: np.zeros(sh) for o in self.outs if o != "W_wing"}
        for i, (M, a, h) in enumerate(g):
            r = self.fun(self.point(x, M, a, h), self.opt)
            for o in out:
                out[o].flat[i] = r[o.split("_")[0]]
        if not self.vlm:
            out["CD_train"] = out["CD_train"] + x["ac|aero|CD_nonwing"][0]
            out["W_wing"] = np.array([r["W"]])
        return out

    def joracle(self, cfg, x):
        J = {}
        g = list(itertools.product(cfg["M"], cfg["a"], cfg["h"]))
        for k, v in x.items():
            v = np.atleast_1d(np.array(v, dtype=complex))
            cols = {o: np.zeros((len(g) if o != "W_wing" else 1, v.size)) for o in self.outs}
            for j in range(v.size):
                vj = v.copy()
                vj.flat[j] += 1e-30j
                for i, (M, a, h) in enumerate(g):
                    r = self.fun(self.point({**x, k: vj}, M, a, h), self.opt)
                    r = {"CL_train": r["CL"], "CD_train": r["CD"] + (0 if self.vlm else self.point({**x, k: vj}, M, a, h)["CDnw"]), "failure_train": r.get("failure"), "W_wing": r.get("W")}
                    for o in self.outs:
                        if o != "W_wing" or i == 0:
                            cols[o][i, j] = np.imag(r[o]) / 1e-30
            for o in self.outs:
                J[o, k] = cols[o]
        return J


BASE = {"M": [0.2, 0.5], "a": [3.0], "h": [0.0, 6000.0], "nx": 1, "ny": 2, "n": (2, 3, 2, 3)}
OTHER = dict(BASE, M=[0.3, 0.6])  # same sizes, other training points
SHAPE = dict(BASE, nx=2, ny=1, n=(3, 2, 3, 2))  # as many entries, arranged differently
ALT = dict(BASE, h=[0.0, 9000.0])

ACTIONS = [
    ("run", 1, ""), ("run", 1, "m"), ("run", 1, "T"), ("run", 2, ""), ("run", 2, "t"), ("run", 3, ""), ("run", 4, ""),
    ("tot", 1, None), ("tot", 2, None), ("fault", 1, "S", 1), ("fault", 2, "m", 3), ("setup", 1, ""), ("many", 5, "T"),
]
CFGS = {1: BASE, 2: BASE, 3: OTHER, 4: SHAPE, 5: BASE}
NP = 4  # analyses per training


class Quiet:
    def __enter__(self):
        import contextlib, io

        self.c = contextlib.ExitStack()
        self.c.enter_context(contextlib.redirect_stdout(io.StringIO()))
        self.c.enter_context(contextlib.redirect_stderr(io.StringIO()))
        return self

    def __exit__(self, *a):
        self.c.close()
        return False


def new_problem(K, mods, cfg):
    p = om.Problem(reports=False)
    p.model.add_subsystem("d", K.comp(mods, cfg), promotes=["*"])
    p.setup(check=False)
    return p


def check_out(ctx, K, p, cfg, x, what, hist, pre=""):
    w = K.oracle(cfg, x)
    for o in K.outs:
        ctx.close(f"{what}:{o}", p.get_val(pre + o), w[o], 1e-10, 1e-13, f"{o} equals the analysis at this problem's inputs", history=hist)
    ctx.outcome(w["CL_train"].ravel(), w["CD_train"].ravel())


def check_jac(ctx, K, p, cfg, x, what, hist):
    J = p.compute_totals(of=K.outs, wrt=list(x), return_format="flat_dict")
    for (o, k), w in K.joracle(cfg, x).items():
        sc = np.max(np.abs(w)) if w.size else 0.0
        ctx.close(f"{what}:d{o}/d{k}", np.reshape(J[o, k], w.shape), w, 1e-9, 1e-11 * (1 + sc), f"d{o}/d{k} at this problem's inputs", history=hist)


def history(ctx, kind, word):
    K = Kind(kind == "vlm")
    with F.installed() as mods:
        P = {}
        for i in CFGS:
            if i == 5:
                continue
            P[i] = dict(p=new_problem(K, mods, CFGS[i]), x=None, ok=False)
        hist = []
        trained = {}  # configuration -> input tag of the most recent completed training (None: unknown)
        for act in word:
            op, i, tag = act[:3]
            cfg = CFGS[i]
            key = {1: 1, 2: 1, 5: 1}.get(i, i)
            hist.append("%s%d%s" % (op, i, tag or "") + (("@%d" % act[3]) if op == "fault" else ""))
            h = hist[-5:]
            F.Count.n, F.Count.fail_at = 0, None
            if op == "many":
                # one model, three instances: two alike, one at another temperature
                p = om.Problem(reports=False)
                xs = [K.inputs(cfg, ""), K.inputs(cfg, ""), K.inputs(cfg, tag)]
                for j in range(3):
                    p.model.add_subsystem("d%d" % j, K.comp(mods, cfg))
                p.setup(check=False)
                for j, x in enumerate(xs):
                    K.put(p, x, "d%d." % j)
                p.run_model()
                for j, x in enumerate(xs):
                    check_out(ctx, K, p, cfg, x, f"{kind}:many{j}", h, "d%d." % j)
                ctx.true(f"{kind}:many:trainings", F.Count.n <= 2 * NP, f"two distinct input sets need at most {2 * NP} analyses, {F.Count.n} were run", history=h)
                trained[key] = None
            else:
                s = P[i]
                if op == "tot" and not s["ok"]:
                    op, tag = "run", s["x"] or ""
                    h = hist[-5:] + ["(run first)"]
                if op == "run":
                    s["x"] = tag
                    x = K.inputs(cfg, tag)
                    K.put(s["p"], x)
                    s["p"].run_model()
                    s["ok"] = True
                    check_out(ctx, K, s["p"], cfg, x, f"{kind}:run{i}", h)
                    if trained.get(key) == tag:
                        ctx.true(f"{kind}:run{i}:retrain", F.Count.n == 0, f"inputs unchanged, yet {F.Count.n} analyses were run", history=h)
                    ctx.true(f"{kind}:run{i}:count", F.Count.n <= NP, f"{F.Count.n} analyses for {NP} training points", history=h)
                    trained[key] = tag
                elif op == "fault":
                    s["x"] = tag
                    x = K.inputs(cfg, tag)
                    K.put(s["p"], x)
                    F.Count.fail_at = act[3]
                    try:
                        s["p"].run_model()
                        failed = False
                    except Exception:
                        failed = True
                    if F.Count.fail_at is None:  # the failing analysis was reached
                        ctx.true(f"{kind}:fault{i}:reported", failed, "a failed analysis did not surface", history=h)
                        F.Count.fail_at = None
                        s["ok"] = False
                        trained[key] = None
                        if act[3] == 3:  # retry at once
                            s["p"].run_model()
                            s["ok"] = True
                            trained[key] = tag
                            check_out(ctx, K, s["p"], cfg, x, f"{kind}:retry{i}", h)
                    else:
                        F.Count.fail_at = None
                        s["ok"] = not failed
                        ctx.true(f"{kind}:fault{i}:spurious", not failed, "the run failed although no analysis did", history=h)
                        check_out(ctx, K, s["p"], cfg, x, f"{kind}:run{i}", h)
                        trained[key] = tag
                elif op == "tot":
                    x = K.inputs(cfg, s["x"])
                    check_jac(ctx, K, s["p"], cfg, x, f"{kind}:tot{i}", h)
                    if trained.get(key) == s["x"]:
                        ctx.true(f"{kind}:tot{i}:retrain", F.Count.n == 0, f"inputs unchanged, yet {F.Count.n} analyses were run to linearise", history=h)
                    check_out(ctx, K, s["p"], cfg, x, f"{kind}:tot{i}", h)
                    trained[key] = s["x"]
                elif op == "setup":
                    s["p"].setup(check=False)
                    s["ok"], s["x"] = False, tag
                    trained[key] = None
            ctx.ev()
            ctx.step()
            ctx.state((kind, tuple(hist[-DEPTH[ctx.tier]:])))
        ctx.sample(dict(kind=kind, history=hist[:14]))


DEPTH = {"quick": 3, "thorough": 4}


def words(tier, kind):
    acts = ACTIONS
    d = DEPTH[tier]
    seq = debruijn(len(acts), d)
    seq = seq + seq[: d - 1]
    n = 10 if tier == "quick" else 64
    L = -(-len(seq) // n)
    return [[acts[a] for a in seq[j : j + L + d - 1]] for j in range(0, len(seq), L)]


def entries(ctx, kind):
    """Every single input entry, changed alone by a small amount, is noticed: values and Jacobian follow it."""
    K = Kind(kind == "vlm")
    with F.installed() as mods:
        for cfg in (BASE, SHAPE, ALT):
            p = new_problem(K, mods, cfg)
            x0 = K.inputs(cfg, "")
            K.put(p, x0)
            p.run_model()
            for k, v in x0.items():
                for j in range(np.size(v)):
                    for dv in (1e-9, 1e-3, 0.5):
                        x = {q: np.array(u) for q, u in x0.items()}
                        x[k].flat[j] += dv
                        K.put(p, x)
                        p.run_model()
                        check_out(ctx, K, p, cfg, x, f"{kind}:entry:{k}", [k, j, dv])
                        if dv > 0.1:
                            check_jac(ctx, K, p, cfg, x, f"{kind}:entry:{k}", [k, j, dv])
                        ctx.ev()
                        ctx.step()
                        ctx.state((kind, "entry", k, j, dv, cfg["nx"]))
                # ... and back
                K.put(p, x0)
                p.run_model()
                check_out(ctx, K, p, cfg, x0, f"{kind}:back:{k}", [k])
            # two entries changed by opposite amounts (sums and means stay), and entries in another order
            flat = [(k, j) for k, v in x0.items() for j in range(np.size(v))]
            moves = [[(a, 0.01), (b, -0.01)] for a, b in itertools.combinations(flat, 2)] if cfg is BASE else []
            for mv in moves + [k for k, v in x0.items() if np.size(v) > 1]:
                x = {q: np.array(u) for q, u in x0.items()}
                if isinstance(mv, str):
                    x[mv] = x[mv][..., ::-1].copy()
                else:
                    for (k, j), d in mv:
                        x[k].flat[j] += d
                for y in (x, x0):
                    K.put(p, y)
                    p.run_model()
                    check_out(ctx, K, p, cfg, y, f"{kind}:pair", mv)
                    ctx.step()
                ctx.ev()
                ctx.state((kind, "pair", repr(mv), cfg["nx"], len(cfg["h"])))


def conflict(ctx, kind):
    """Components of one model with different surf_options are refused."""
    K = Kind(kind == "vlm")
    with F.installed() as mods:
        for name, o in (("value", dict(K.opt, CD0=0.1)), ("array", dict(K.opt, t_over_c=np.array([0.13]))), ("missing", {"CL0": 0.013}), ("extra", dict(K.opt, k_lam=0.1)), ("empty", {})):
            if name == "array" and not K.vlm:
                continue
            p = om.Problem(reports=False)
            p.model.add_subsystem("a", K.comp(mods, BASE))
            K2 = Kind(K.vlm)
            K2.opt = o
            p.model.add_subsystem("b", K2.comp(mods, BASE))
            try:
                p.setup(check=False)
                p.final_setup()
                refused = False
            except Exception:
                refused = True
            if not refused:  # accepted: then each instance must follow its own options
                for q, KK in (("a.", K), ("b.", K2)):
                    KK.put(p, KK.inputs(BASE, ""), q)
                p.run_model()
                for q, KK in (("a.", K), ("b.", K2)):
                    check_out(ctx, KK, p, BASE, KK.inputs(BASE, ""), f"{kind}:conflict:{name}", [name], q)
            ctx.ev()
            ctx.valid()
            ctx.state((kind, "conflict", name))


# ---------------------------------------------------------------- polars
MT, AT, HT = np.array([0.1, 0.35, 0.6, 0.85]), np.array([-6.0, -2.0, 1.0, 5.0, 12.0]), np.array([0.0, 3000.0, 7000.0, 12000.0])
GRID2 = (np.array([0.1, 0.2, 0.45, 0.65, 0.85]), np.array([-6.0, 0.0, 5.5, 12.0]), np.array([0.0, 2000.0, 5000.0, 9000.0, 11000.0, 12000.0]))
FC = [(0.3, 0.4, 2000.0), (0.8, 0.15, 11000.0), (0.1, 0.9, 0.0), (0.55, -0.2, 5500.0), (0.7, 0.6, 12000.0)]  # M, CL, h


def bspl(cp, n):
    from scipy.interpolate import BSpline

    m = len(cp)
    k = min(m, 4) - 1
    t = np.concatenate([np.zeros(k), np.linspace(0, 1, m - k + 1), np.ones(k)])
    u = np.linspace(0, 1, n)
    return np.array([BSpline(t, np.asarray(cp, dtype=complex if np.iscomplexobj(cp) else float), k)(min(v, 1 - 1e-15)) if v < 1 else cp[-1] for v in u])


def rotate(mesh, tw):
    """Nose-up twist (degrees) of each spanwise station about its quarter chord."""
    m = np.array(mesh, dtype=complex if np.iscomplexobj(mesh) or np.iscomplexobj(tw) else float)
    qc = 0.75 * m[0] + 0.25 * m[-1]
    r = np.asarray(tw) * np.pi / 180
    d = m - qc
    out = m.copy()
    out[:, :, 0] = qc[:, 0] + np.cos(r) * d[:, :, 0] + np.sin(r) * d[:, :, 2]
    out[:, :, 2] = qc[:, 2] - np.sin(r) * d[:, :, 0] + np.cos(r) * d[:, :, 2]
    return out


GEOMS = [
    ("trapezoidal", dict(num_x=1, num_y=3, num_twist=2)), ("trapezoidal", dict(num_x=2, num_y=4, num_twist=4)), ("trapezoidal", dict(num_x=1, num_y=5, num_twist=5, _alt=1)), ("trapezoidal", dict(num_x=1, num_y=2, num_twist=3)),
    ("section", dict(num_x=1, num_y=2, num_sections=2)), ("section", dict(num_x=2, num_y=2, num_sections=3)), ("section", dict(num_x=1, num_y=[1, 3], num_sections=3, _alt=1)), ("section", dict(num_x=3, num_y=[2, 1, 1], num_sections=4)),
    ("mesh", dict(num_x=1, num_y=2)), ("mesh", dict(num_x=2, num_y=3)),
]


def sections(n):
    y = -np.linspace(20, 0, n)[:-1] * np.linspace(1.0, 0.9, n - 1)
    return y, np.linspace(3, 9, n) + 0.3 * np.arange(n) ** 2, np.linspace(8, 0, n) + 0.2 * np.sin(np.arange(n))


def geom_inputs(geo, o, alt=0):
    """ac|geom|wing|* inputs of a drag polar: name -> (value, units)."""
    k = 1 + 0.1 * alt
    if geo == "trapezoidal":
        return {W + "S_ref": (300.0 * k, "m**2"), W + "AR": (9.0 + alt, None), W + "taper": (0.3 * k, None), W + "c4sweep": (25.0 - 20 * alt, "deg"), W + "toverc": (np.array([0.1, 0.15 * k]), None), W + "twist": (np.linspace(-3, 2, o["num_twist"]) * k + 0.5 * np.cos(np.arange(o["num_twist"])), "deg")}
    if geo == "section":
        n = o["num_sections"]
        y, c, xl = sections(n)
        return {W + "S_ref": (300.0 * k, "m**2"), W + "y_sec": (y, "m"), W + "chord_sec": (c * k, "m"), W + "x_LE_sec": (xl, "m"), W + "toverc": (np.linspace(0.1, 0.15 * k, n), None), W + "twist": (np.linspace(-3, 2, n) * k, "deg")}
    m = trap_mesh(300.0 * k, 8.0, 0.4, 20.0, o["num_x"], o["num_y"])
    m[:, :, 2] = 0.05 * m[:, :, 0] * (1 + alt)
    return {W + "S_ref": (310.0 * k, "m**2"), MESH: (m, "m"), W + "toverc": (np.linspace(0.1, 0.14 * k, o["num_y"]), None)}


def cmesh(f, *a):
    return f(*a)


def wing(geo, o, x):
    """Reference twisted mesh and panel t/c."""
    if geo == "mesh":
        return np.asarray(x[MESH]), x[W + "toverc"]
    if geo == "trapezoidal":
        ny = o["num_y"]
        m = trap_c(x[W + "S_ref"], x[W + "AR"], x[W + "taper"], x[W + "c4sweep"], o["num_x"], ny)
        e = (np.arange(ny) + 0.5) / ny
        t = x[W + "toverc"]
        return rotate(m, bspl(x[W + "twist"], ny + 1)), t[0] + e * (t[1] - t[0])
    ny = [o["num_y"]] * (o["num_sections"] - 1) if isinstance(o["num_y"], int) else o["num_y"]
    m = sec_c(x[W + "y_sec"], x[W + "chord_sec"], x[W + "x_LE_sec"], o["num_x"], ny, x[W + "S_ref"])
    tw = np.concatenate([v[(0 if i == 0 else 1):] for i, v in enumerate(interp_nodes(x[W + "twist"], ny, True))])
    tc = np.concatenate([(v[1:] + v[:-1]) / 2 for v in interp_nodes(x[W + "toverc"], ny, True)])
    return rotate(m, tw), tc


def trap_c(S_, AR, taper, sweep, nx, ny):
    """trap_mesh for complex-step."""
    b2 = np.sqrt(S_ * AR) / 2
    cr = S_ / b2 / (1 + taper)
    m = np.zeros((nx + 1, ny + 1, 3), dtype=complex)
    for j in range(ny + 1):
        eta = 1 - j / ny
        c = cr * (1 + (taper - 1) * eta)
        for i in range(nx + 1):
            m[i, j] = (b2 * eta * np.tan(sweep * np.pi / 180) - c / 4 + c * i / nx, -b2 * eta, 0.0)
    return m


def sec_c(y, c, xl, nx, ny, S_):
    y = np.concatenate([np.ravel(y), [0.0]])
    cols = []
    for r, n in enumerate(ny):
        for j, s in enumerate(cosp(n)):
            if r == 0 or j > 0:
                cols.append(tuple(v[r] + s * (v[r + 1] - v[r]) for v in (xl, c, y)))
    m = np.array([[(x0 + ch * ti, yy, 0.0) for x0, ch, yy in cols] for ti in cosp(nx)])
    return m * np.sqrt(S_ / sum((c[i] + c[i + 1]) * (y[i + 1] - y[i]) for i in range(len(c) - 1)))


def trim(fun, CL):
    """alpha with fun(alpha)['CL'] == CL (complex-safe Newton on a monotone function)."""
    a = 1.0 + 0j
    for _ in range(60):
        e = 1e-4
        d = np.real(fun(a + e)["CL"] - fun(a - e)["CL"]) / (2 * e)
        s = (fun(a)["CL"] - CL) / d
        a = a - s
        if abs(s) < 1e-15:
            break
    return a


def ref_polar(kind, geo, o, x, opt):
    """x: plain values (maybe complex) of every input. Returns drag vector (+ failure, weight), alpha."""
    nn = len(x["fltcond|M"])
    out = {"drag": [], "alpha": [], "failure": []}
    if kind == "vlm":
        m, t = wing(geo, o, x)
        base = {"mesh": m, "toverc": t, "T": x[TI]}
        f0 = lambda d: F.vlm(d, opt)
    else:
        base = {"S": x[W + "S_ref"], "AR": x[W + "AR"], "taper": x[W + "taper"], "sweep": x[W + "c4sweep"], "twist": x[W + "twist"], "toverc": x[W + "toverc"], "skin": x[W + "skin_thickness"], "spar": x[W + "spar_thickness"], "T": x[TI]}
        f0 = lambda d: F.aerostruct(d, opt)
    for i in range(nn):
        f = lambda a: f0(dict(base, M=x["fltcond|M"][i], h=x["fltcond|h"][i], a=a))
        a = trim(f, x["fltcond|CL"][i])
        r = f(a)
        nw = np.ravel(x["ac|aero|CD_nonwing"])
        out["drag"].append(x["fltcond|q"][i] * x[W + "S_ref"] * (r["CD"] + nw[i if nw.size > 1 else 0]))
        out["alpha"].append(a)
        out["failure"].append(r.get("failure", 0.0))
    out = {k: np.array(v) for k, v in out.items()}
    if kind != "vlm":
        out["ac|weights|W_wing"] = np.atleast_1d(r["W"])
    else:
        out["twisted_mesh"] = m
    return out


def polar_inputs(kind, geo, o, nn, alt, vec=False, start=0):
    rows = [FC[(start + i) % len(FC)] for i in range(nn)]
    x = dict(geom_inputs(geo, o, alt)) if kind == "vlm" else {}
    if kind != "vlm":
        k = 1 + 0.1 * alt
        x = {W + "S_ref": (400.0 * k, "m**2"), W + "AR": (9.0 * k, None), W + "taper": (0.2 * k, None), W + "c4sweep": (30.0 / k, "deg"), W + "twist": (np.linspace(-1, 2, o["num_twist"]) * k, "deg"), W + "toverc": (np.linspace(0.1, 0.14, o["num_toverc"]) * k, None),
             W + "skin_thickness": (np.linspace(0.005, 0.02, o["num_skin"]) * k, "m"), W + "spar_thickness": (np.linspace(0.004, 0.01, o["num_spar"]) * k, "m")}
    x.update({"fltcond|M": ([r[0] for r in rows], None), "fltcond|CL": ([r[1] for r in rows], None), "fltcond|h": ([r[2] for r in rows], "m"), "fltcond|q": ([6000.0 + 500 * i + 300 * alt for i in range(nn)], "Pa"), TI: (10.0 * alt, "degC"),
              "ac|aero|CD_nonwing": ([0.02 + 0.003 * i for i in range(nn)] if vec else [0.017 + 0.002 * alt], None)})
    return {k: (np.array(v, dtype=float), u) for k, (v, u) in x.items()}


def surf_opt(kind, o):
    """Surface options of a case: the usual ones, or others with "_alt"."""
    b = VOPT if kind == "vlm" else AOPT
    return dict(b, CL0=0.031, CD0=0.009) if o.get("_alt") else b


def solve_polar(mods, kind, geo, o, nn, vec, exact=False):
    p = om.Problem(reports=False)
    g = dict(zip(("Mach_train", "alpha_train", "alt_train"), GRID2 if o.get("_alt") else (MT, AT, HT)))
    opt = surf_opt(kind, o)
    o = {k: v for k, v in o.items() if k[0] != "_"}
    if kind == "vlm":
        c = mods[0].VLMDragPolar(num_nodes=nn, geometry=geo, vec_CD_nonwing=vec, surf_options=opt, **g, **o)
    elif exact:
        c = mods[1].AerostructDragPolarExact(num_nodes=nn, surf_options=opt, **o)
    else:
        c = mods[1].AerostructDragPolar(num_nodes=nn, surf_options=opt, **g, **o)
    p.model.add_subsystem("polar", c, promotes=["*"])
    p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, iprint=-1, atol=1e-13, rtol=1e-14, maxiter=30, err_on_non_converge=False)
    p.model.linear_solver = om.DirectSolver()
    p.setup(check=False)
    p.set_solver_print(level=-1)
    return p


def polars(ctx, kind, geo, o, exact=False):
    with F.installed() as mods:
        oid = ",".join(f"{k}={v}" for k, v in o.items())
        for nn in (1, 2, 5) if ctx.tier == "quick" else (1, 2, 3, 4, 5, 7):
            for vec in ((False, True) if kind == "vlm" and nn > 1 else (False,)):
                p = solve_polar(mods, kind, geo, o, nn, vec, exact)
                for alt, start in ((0, 0), (1, 1), (1, 3), (0, 2)):
                    x = polar_inputs(kind, geo, o, nn, alt, vec, start)
                    for k, (v, u) in x.items():
                        p.set_val(k, v, units=u)
                    p.run_model()
                    xv = {k: v for k, (v, _) in x.items()}
                    w = {k: np.real(v) for k, v in ref_polar(kind, geo, o, xv, surf_opt(kind, o)).items()}
                    key = f"{kind}{'-exact' if exact else ''}[{geo}]"
                    det = dict(options=oid, nn=nn, vec=vec, row=start, variant=alt)
                    ctx.close(key + ":alpha", p.get_val("fltcond|alpha" if exact else "aero_surrogate.alpha", units="deg"), w["alpha"], 1e-7, 1e-7, "alpha meets the lift coefficient", **det)
                    ctx.close(key + ":drag", p.get_val("drag", units="N"), w["drag"], 1e-7, 1e-6, "drag = q S (CD_wing + CD_nonwing)", **det)
                    if kind == "vlm" and geo != "mesh":
                        ctx.close(key + ":mesh", p.get_val("twisted_mesh", units="m"), w["twisted_mesh"], 1e-9, 1e-9, "twisted mesh", **det)
                    if kind != "vlm":
                        ctx.close(key + ":failure", p.get_val("failure"), w["failure"], 1e-7, 1e-8, "failure index", **det)
                        ctx.close(key + ":weight", p.get_val("ac|weights|W_wing", units="kg"), w["ac|weights|W_wing"], 1e-9, 1e-7, "wing weight", **det)
                    ctx.ev()
                    ctx.step()
                    ctx.state((key, oid, nn, vec, start, alt))
                    ctx.outcome(w["drag"], w["alpha"])
                    if nn == 2 and (alt, start) in ((0, 0), (1, 3)) or (nn == 5 and start == 2):
                        totals(ctx, p, kind, geo, o, x, key, det)
        ctx.sample(dict(kind=key, options=o))


def totals(ctx, p, kind, geo, o, x, key, det):
    of = ["drag"] + ([] if kind == "vlm" else ["failure", "ac|weights|W_wing"])
    J = p.compute_totals(of=of, wrt=list(x), return_format="flat_dict")
    opt = surf_opt(kind, o)
    fac = {k: _factor(p, k, u) for k, (_, u) in x.items()}
    h = 1e-30
    for k, (v, u) in x.items():
        cols = {q: [] for q in of}
        for i in range(v.size):
            xv = {q: np.array(a, dtype=complex) for q, (a, _) in x.items()}
            if xv[k].ndim == 0:
                xv[k] = xv[k] + h * 1j
            else:
                xv[k].flat[i] += h * 1j
            xv = {q: (a[()] if a.ndim == 0 else a) for q, a in xv.items()}
            r = ref_polar(kind, geo, o, xv, opt)
            for q in of:
                cols[q].append(np.imag(r[q]) / h)
        for q in of:
            w = np.array(cols[q]).T * fac[k]
            sc = np.max(np.abs(w)) if w.size else 0.0
            ctx.close(f"{key}:d{q}/d{k}", np.reshape(J[q, k], w.shape), w, 2e-6, 2e-6 * sc + 1e-9, f"total derivative of {q} with respect to {k}", **det)


# ---------------------------------------------------------------- critical-section maximum lift
def clmax(ctx):
    with F.installed() as mods:
        for nx, ny, vec, M, h, T, k in itertools.product((1, 2), (2, 3), (False, True), (0.15, 0.3), (0.0, 3000.0), (0.0, 15.0), (1.2, 1.8)):
            rho, vopt = (150, VOPT) if nx == 1 else (60, dict(VOPT, CL0=0.04))
            p = om.Problem(reports=False)
            p.model.add_subsystem("c", mods[2].CLmaxCriticalSectionVLM(num_x=nx, num_y=ny, vec_Cl_max=vec, surf_options=vopt, rho=rho), promotes=["*"])
            p.setup(check=False)
            p.set_solver_print(level=-1)
            m = trap_mesh(100.0, 8.0, 0.4, 20.0, nx, ny)
            t = 0.12 - 0.01 * np.arange(ny)
            cm = k + 0.1 * np.arange(ny) if vec else np.array([k])
            for q, v, u in ((MESH, m, "m"), (TC, t, None), ("fltcond|M", M, None), ("fltcond|h", h, "m"), (TI, T, "degC"), ("ac|aero|airfoil_Cl_max", cm, None)):
                p.set_val(q, v, units=u)
            p.run_model()

            def ks(a):
                r = F.vlm({"M": M, "a": a, "h": h, "T": T, "mesh": m, "toverc": t}, vopt)
                g = rho * (r["sec"] - cm)
                return np.max(g) / rho + np.log(np.sum(np.exp(g - np.max(g)))) / rho, r

            lo, hi = -20.0, 60.0
            for _ in range(200):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if ks(mid)[0] < 0 else (lo, mid)
            ctx.close("clmax:CL_max", p.get_val("CL_max"), ks(lo)[1]["CL"], 1e-6, 0, "lift coefficient at which the critical section stalls", cfg=(nx, ny, vec, M, h, T, k))
            ctx.close("clmax:alpha", p.get_val("sectional_CL_balance.alpha", units="deg"), lo, 1e-6, 0, "its angle of attack", cfg=(nx, ny, vec, M, h, T, k))
            ctx.ev()
            ctx.state(("clmax", nx, ny, vec, M, h, T, k))
            ctx.outcome(p.get_val("CL_max"))


# ---------------------------------------------------------------- real OpenAeroStruct
def atmosphere(h, dT):
    """1976 standard atmosphere with a temperature increment; density from the ideal-gas law."""
    T0, L, g, R = 288.15, 0.0065, 9.80665, 287.052874
    if h < 11000:
        T, p = T0 - L * h, 101325 * ((T0 - L * h) / T0) ** (g / R / L)
    else:
        T = 216.65
        p = 101325 * (216.65 / T0) ** (g / R / L) * np.exp(-g * (h - 11000) / R / T)
    T = T + dT
    return T, p, p / R / T, np.sqrt(1.4 * R * T)


def real_vlm(ctx):
    """OpenConcept's VLM group against an OpenAeroStruct AeroPoint put together here, every grid point."""
    from openaerostruct.aerodynamics.aero_groups import AeroPoint

    from openconcept.aerodynamics.openaerostruct import VLM

    for nx, ny in ((1, 2), (2, 3)):
        mesh = trap_mesh(100.0, 8.0, 0.4, 20.0, nx, ny)
        mesh = rotate(mesh, np.linspace(-2, 2, ny + 1))
        t = 0.12 - 0.01 * np.arange(ny)
        for opts in (None, {"CL0": 0.02, "CD0": 0.01, "k_lam": 0.3}):
            p = om.Problem(reports=False)
            p.model.add_subsystem("v", VLM(num_x=nx, num_y=ny, surf_options=opts), promotes=["*"])
            p.setup(check=False)
            s = {"name": "wing", "mesh": mesh, "symmetry": True, "S_ref_type": "projected", "CL0": 0.0, "CD0": 0.0, "k_lam": 0.05, "t_over_c": np.array([0.12]), "c_max_t": 0.37, "with_viscous": True, "with_wave": True}
            s.update(opts or {})
            q = om.Problem(reports=False)
            iv = q.model.add_subsystem("iv", om.IndepVarComp(), promotes=["*"])
            for n, u in (("v", "m/s"), ("alpha", "deg"), ("Mach_number", None), ("re", "1/m"), ("rho", "kg/m**3")):
                iv.add_output(n, 1.0, units=u)
            q.model.add_subsystem("a", AeroPoint(surfaces=[s]), promotes_inputs=["v", "alpha", "Mach_number", "re", "rho"])
            q.setup(check=False)
            for M, a, h, dT in itertools.product((0.3, 0.82), (-2.0, 4.0), (0.0, 9000.0), (0.0, 20.0)):
                for n, v, u in ((MESH, mesh, "m"), (TC, t, None), ("fltcond|M", M, None), ("fltcond|alpha", a, "deg"), ("fltcond|h", h, "m"), (TI, dT, "degC")):
                    p.set_val(n, v, units=u)
                p.run_model()
                _, _, rho, c = atmosphere(h, dT)
                v = M * c
                for n, val, u in (("v", v, "m/s"), ("alpha", a, "deg"), ("Mach_number", M, None), ("re", rho * v / (-3.329134e-10 * h + 1.792398e-5), "1/m"), ("rho", rho, "kg/m**3"), ("a.wing.def_mesh", mesh, "m"), ("a.aero_states.wing_def_mesh", mesh, "m"), ("a.wing_perf.t_over_c", t, None)):
                    q.set_val(n, val, units=u)
                q.run_model()
                for n, r, tol in (("fltcond|CL", "a.wing_perf.CL", 1e-4), ("fltcond|CD", "a.wing_perf.CD", 1e-4), ("fltcond|CDi", "a.wing_perf.CDi", 1e-4), ("fltcond|CDv", "a.wing_perf.CDv", 1e-4), ("fltcond|CDw", "a.wing_perf.CDw", 1e-4), ("sectional_CL", "a.wing_perf.Cl", 1e-4), ("panel_forces", "a.aero_states.wing_sec_forces", 1e-3)):
                    want = q.get_val(r)
                    ctx.close(f"real-vlm:{n}", p.get_val(n), want, tol, tol * np.max(np.abs(want)), f"{n} equals a direct OpenAeroStruct analysis", cfg=(nx, ny, bool(opts)), point=(M, a, h, dT))
                ctx.ev()
                ctx.state(("real", nx, ny, bool(opts), M, a, h, dT))
                ctx.outcome(p.get_val("fltcond|CL"), p.get_val("fltcond|CD"))


# NACA SC2-0612 between 10% and 60% of the chord, as in OpenAeroStruct's own wingbox examples
SC_UP = [447, 460, 472, 484, 495, 505, 514, 523, 531, 538, 545, 551, 557, 563, 568, 573, 577, 581, 585, 588, 591, 593, 595, 597, 599, 600, 601, 602, 602, 602, 602, 602, 601, 600, 599, 598, 596, 594, 592, 589, 586, 583, 580, 576, 572, 568, 563, 558, 553, 547, 541]
SC_LO = [447, 460, 473, 485, 496, 506, 515, 524, 532, 540, 547, 554, 560, 565, 570, 575, 579, 583, 586, 589, 592, 594, 595, 596, 597, 598, 598, 598, 598, 597, 596, 594, 592, 589, 586, 582, 578, 573, 567, 561, 554, 546, 538, 529, 519, 509, 497, 485, 472, 458, 444]


def direct_oas(nx, ny, n, x, opts):
    """OpenAeroStruct's own wingbox geometry and analysis point for one wing."""
    from openaerostruct.integration.aerostruct_groups import AerostructGeometry, AerostructPoint

    xs = np.linspace(0.1, 0.6, 51)
    s = {"name": "wing", "symmetry": True, "S_ref_type": "projected", "fem_model_type": "wingbox", "mesh": trap_mesh(x["S_ref"], x["AR"], x["taper"], x["c4sweep"], nx, ny),
         "data_x_upper": xs.astype(complex), "data_x_lower": xs.astype(complex), "data_y_upper": np.array(SC_UP, dtype=complex) * 1e-4, "data_y_lower": -np.array(SC_LO, dtype=complex) * 1e-4,
         "twist_cp": x["twist"], "t_over_c_cp": x["toverc"], "skin_thickness_cp": x["skin_thickness"], "spar_thickness_cp": x["spar_thickness"], "original_wingbox_airfoil_t_over_c": 0.12,
         "CL0": 0.0, "CD0": 0.0078, "k_lam": 0.05, "c_max_t": 0.38, "with_viscous": True, "with_wave": True, "E": 73.1e9, "G": 73.1e9 / 2 / 1.33, "yield": 420e6 / 1.5, "mrho": 2.78e3, "fem_origin": 0.35,
         "wing_weight_ratio": 1.25, "strength_factor_for_upper_skin": 1.0, "struct_weight_relief": True, "distributed_fuel_weight": False, "exact_failure_constraint": False}
    s.update(opts or {})
    q = om.Problem(reports=False)
    iv = q.model.add_subsystem("iv", om.IndepVarComp(), promotes=["*"])
    for nm, u, v in (("v", "m/s", 1.0), ("alpha", "deg", 1.0), ("Mach_number", None, 1.0), ("re", "1/m", 1.0), ("rho", "kg/m**3", 1.0), ("speed_of_sound", "m/s", 1.0), ("CT", "1/s", 1e-4), ("R", "m", 1e6), ("W0", "kg", 1.0), ("load_factor", None, 1.0), ("empty_cg", "m", np.zeros(3))):
        iv.add_output(nm, v, units=u)
    q.model.add_subsystem("wing", AerostructGeometry(surface=s))
    q.model.add_subsystem("a", AerostructPoint(surfaces=[s]), promotes_inputs=["v", "alpha", "Mach_number", "re", "rho", "speed_of_sound", "CT", "R", "W0", "load_factor", "empty_cg"] + ([("coupled.load_factor", "load_factor")] if s["struct_weight_relief"] else []))
    q.model.connect("wing.local_stiff_transformed", "a.coupled.wing.local_stiff_transformed")
    q.model.connect("wing.nodes", ["a.coupled.wing.nodes", "a.wing_perf.nodes"])
    q.model.connect("wing.mesh", "a.coupled.wing.mesh")
    if s["struct_weight_relief"]:
        q.model.connect("wing.element_mass", "a.coupled.wing.element_mass")
    q.model.connect("wing.cg_location", "a.total_perf.wing_cg_location")
    q.model.connect("wing.structural_mass", "a.total_perf.wing_structural_mass")
    for v in ("Qz", "J", "A_enc", "htop", "hbottom", "hfront", "hrear", "spar_thickness", "t_over_c"):
        q.model.connect("wing." + v, "a.wing_perf." + v)
    q.setup(check=False)
    q.set_solver_print(level=-1)
    return q


def real_oas(ctx):
    """OpenConcept's aerostructural group against OpenAeroStruct's own wingbox assembly, for every number of control points."""
    from openconcept.aerodynamics.openaerostruct.aerostructural import Aerostruct

    cfgs = [((1, 2), (2, 3, 4, 5)), ((2, 4), (5, 4, 3, 2)), ((1, 5), (4, 5, 2, 3)), ((2, 3), (3, 2, 5, 4))] + ([((3, 6), (6, 6, 6, 6)), ((1, 1), (2, 2, 2, 2))] if ctx.tier == "thorough" else [])
    for (nx, ny), n in cfgs:
        for opts in (None, {"CD0": 0.01, "k_lam": 0.3, "E": 60e9}, {"struct_weight_relief": False, "yield": 300e6}):
            x = {"S_ref": 400.0, "AR": 9.0, "taper": 0.2, "c4sweep": 30.0, "twist": np.linspace(-1, 2, n[0]) + 0.4 * np.cos(2 * np.arange(n[0])), "toverc": np.linspace(0.1, 0.14, n[1]) + 0.006 * np.cos(2 * np.arange(n[1])),
                 "skin_thickness": np.linspace(0.005, 0.02, n[2]) * (1 + 0.2 * np.cos(2 * np.arange(n[2]))), "spar_thickness": np.linspace(0.004, 0.01, n[3]) * (1 + 0.2 * np.cos(2 * np.arange(n[3])))}
            p = om.Problem(reports=False)
            p.model.add_subsystem("w", Aerostruct(num_x=nx, num_y=ny, num_twist=n[0], num_toverc=n[1], num_skin=n[2], num_spar=n[3], surf_options=opts), promotes=["*"])
            p.setup(check=False)
            p.set_solver_print(level=-1)
            q = direct_oas(nx, ny, n, x, opts)
            U = {"S_ref": "m**2", "c4sweep": "deg", "twist": "deg", "skin_thickness": "m", "spar_thickness": "m"}
            for k, v in x.items():
                p.set_val(W + k, v, units=U.get(k))
            for M, a, h, dT in ((0.3, -1.0, 0.0, 0.0), (0.78, 3.0, 9000.0, 0.0), (0.6, 5.0, 4000.0, 20.0)):
                for nm, v, u in (("fltcond|M", M, None), ("fltcond|alpha", a, "deg"), ("fltcond|h", h, "m"), (TI, dT, "degC")):
                    p.set_val(nm, v, units=u)
                p.run_model()
                _, _, rho, c = atmosphere(h, dT)
                for nm, val, u in (("v", M * c, "m/s"), ("alpha", a, "deg"), ("Mach_number", M, None), ("re", rho * M * c / (-3.329134e-10 * h + 1.792398e-5), "1/m"), ("rho", rho, "kg/m**3"), ("speed_of_sound", c, "m/s")):
                    q.set_val(nm, val, units=u)
                q.run_model()
                for nm, r in (("fltcond|CL", "a.CL"), ("fltcond|CD", "a.CD"), ("failure", "a.wing_perf.failure"), ("ac|weights|W_wing", "wing.structural_mass")):
                    w = np.ravel(q.get_val(r))
                    ctx.close(f"real-oas:{nm}", np.ravel(p.get_val(nm)), w, 1e-4, 1e-6, f"{nm} equals OpenAeroStruct's own wingbox analysis", cfg=(nx, ny, n, bool(opts)), point=(M, a, h, dT))
                ctx.ev()
                ctx.state(("real-oas", nx, ny, n, bool(opts), M))
                ctx.outcome(p.get_val("fltcond|CL"), p.get_val("failure"))


def real_train(ctx, kind):
    """The whole training path, real process pool included, against one direct analysis per training point."""
    from openconcept.aerodynamics.openaerostruct import aerostructural as am
    from openconcept.aerodynamics.openaerostruct import drag_polar as dm

    K = Kind(kind == "vlm")
    K.opt = {k: v for k, v in K.opt.items()}
    cfg = dict(BASE, a=[0.0, 3.0], h=[0.0, 6000.0], ny=3, n=(2, 2, 2, 2)) if K.vlm else dict(BASE, M=[0.3, 0.7], a=[1.0, 3.0], h=[8000.0], nx=1, ny=3, n=(2, 2, 2, 2))
    p = new_problem(K, (dm, am, None), cfg)
    for tag in ("", "ST"):
        x = K.inputs(cfg, tag)
        K.put(p, x)
        p.run_model()
        J = p.compute_totals(of=K.outs, wrt=list(x), return_format="flat_dict")
        q = om.Problem(reports=False)
        if K.vlm:
            q.model.add_subsystem("v", dm.VLM(num_x=cfg["nx"], num_y=cfg["ny"], surf_options=K.opt), promotes=["*"])
        else:
            q.model.add_subsystem("v", am.Aerostruct(num_x=cfg["nx"], num_y=cfg["ny"], num_twist=2, num_toverc=2, num_skin=2, num_spar=2, surf_options=K.opt), promotes=["*"])
        q.setup(check=False, mode="rev")
        q.set_solver_print(level=-1)
        names = {"CL_train": "fltcond|CL", "CD_train": "fltcond|CD", "failure_train": "failure", "W_wing": "ac|weights|W_wing"}
        nw = 0.0 if K.vlm else x["ac|aero|CD_nonwing"][0]
        wrt = [k for k in x if k != "ac|aero|CD_nonwing"]
        for i, (M, a, h) in enumerate(itertools.product(cfg["M"], cfg["a"], cfg["h"])):
            K.put(q, {k: x[k] for k in wrt})
            q.set_val("fltcond|M", M)
            q.set_val("fltcond|alpha", a, units="deg")
            q.set_val("fltcond|h", h, units="m")
            q.run_model()
            D = q.compute_totals(of=[names[o] for o in K.outs], wrt=wrt, return_format="flat_dict")
            for o in K.outs:
                got = p.get_val(o).ravel()[i if o != "W_wing" else 0]
                want = q.get_val(names[o]).ravel()[0] + (nw if o == "CD_train" else 0.0)
                ctx.close(f"real-{kind}:{o}", got, want, 1e-6, 1e-9, f"{o} at one training point", point=(M, a, h), inputs=tag)
                for k in wrt:
                    g = np.ravel(J[o, k][i if o != "W_wing" else 0])
                    d = np.ravel(D[names[o], k])
                    ctx.close(f"real-{kind}:d{o}/d{k}", g, d, 1e-4, 1e-4 * np.max(np.abs(d)) + 1e-9, f"d{o}/d{k} at one training point", point=(M, a, h), inputs=tag)
            ctx.ev()
            ctx.state((kind, "real", tag, i))
            ctx.outcome(q.get_val("fltcond|CL"), q.get_val("fltcond|CD"))


def shards(tier):
    out = []
    for kind in ("vlm", "oas"):
        out += [(f"{kind}:train", dict(site="real_train", kind=kind)), (f"{kind}:entries", dict(site="entries", kind=kind)), (f"{kind}:conflict", dict(site="conflict", kind=kind))]
        out += [(f"{kind}:history{i}", dict(site="history", kind=kind, part=i)) for i in range(len(words(tier, kind)))]
    out.append(("real_vlm", dict(site="real_vlm")))
    out.append(("real_oas", dict(site="real_oas")))
    for i, (g, o) in enumerate(GEOMS):
        out.append((f"polar:{g}{i}", dict(site="polar", kind="vlm", geo=g, o=o)))
    for i, (n, m) in enumerate((((2, 2, 2, 2), {}), ((4, 3, 2, 1), {}), ((1, 4, 3, 2), dict(num_x=2, num_y=4, _alt=1)))):
        o = dict(dict(num_x=1, num_y=3, num_twist=n[0], num_toverc=n[1], num_skin=n[2], num_spar=n[3]), **m)
        for ex in (False, True):
            out.append((f"polar:{'exact' if ex else 'aerostruct'}{i}", dict(site="polar", kind="oas", geo="trapezoidal", o=o, exact=ex)))
    out.append(("clmax", dict(site="clmax")))
    return out


def run(ctx, s):
    with Quiet():
        site = s["site"]
        if site == "history":
            history(ctx, s["kind"], words(ctx.tier, s["kind"])[s["part"]])
        elif site == "entries":
            entries(ctx, s["kind"])
        elif site == "conflict":
            conflict(ctx, s["kind"])
        elif site == "real_vlm":
            real_vlm(ctx)
        elif site == "real_oas":
            real_oas(ctx)
        elif site == "real_train":
            real_train(ctx, s["kind"])
        elif site == "clmax":
            clmax(ctx)
        else:
            polars(ctx, s["kind"], s["geo"], s["o"], s.get("exact", False))

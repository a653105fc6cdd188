"""OpenAeroStruct mesh generation and section-based wave drag: builders, alphabets, reference models."""
import numpy as np

from mc.catalog import Entry, S, V
from mc.cat_aero import FT, mk, secs

OAS = "openconcept.aerodynamics.openaerostruct"


def cosp(n):
    return 0.5 * (1 - np.cos(np.linspace(0, np.pi, n + 1)))


def trap_mesh(S_, AR, taper, sweep, nx, ny):
    """Half trapezoidal wing, quarter chord of the root at x = 0, evenly spaced, tip (y < 0) first. SI, degrees."""
    b2 = np.sqrt(S_ * AR) / 2
    cr = 2 * (S_ / 2) / b2 / (1 + taper)
    m = np.zeros((nx + 1, ny + 1, 3))
    for j in range(ny + 1):
        eta = 1 - j / ny  # 1 at the tip
        c = cr * (1 + (taper - 1) * eta)
        for i in range(nx + 1):
            m[i, j] = (b2 * eta * np.tan(np.radians(sweep)) - c / 4 + c * i / nx, -b2 * eta, 0.0)
    return m


def sec_ny(cfg):
    n = cfg["num_sections"]
    ny = cfg.get("num_y", 7)
    return [ny] * (n - 1) if isinstance(ny, int) else [int(v) for v in ny]


def section_mesh(y, c, xl, nx, ny, S_=None):
    """Cosine spacing along each chord and between each pair of sections; scaled to the full planform area S_ if given."""
    y = np.concatenate([np.ravel(y), [0.0]])
    cols = []
    for r, n in enumerate(ny):
        for j, s in enumerate(cosp(n)):
            if r > 0 and j == 0:
                continue
            cols.append(tuple(v[r] + s * (v[r + 1] - v[r]) for v in (np.ravel(xl), np.ravel(c), y)))
    t = cosp(nx)
    m = np.array([[(x0 + ch * ti, yy, 0.0) for x0, ch, yy in cols] for ti in t])
    area = sum((c[i] + c[i + 1]) * (y[i + 1] - y[i]) for i in range(len(c) - 1))
    return (m * np.sqrt(S_ / area) if S_ is not None else m), area


def ref_trap(cfg, x):
    return {"mesh": (trap_mesh(float(x["S"]), float(x["AR"]), float(x["taper"]), float(x["sweep"]), cfg.get("num_x", 2), cfg.get("num_y", 6)), "m")}


def ins_secmesh(cfg):
    n = cfg["num_sections"]
    d = {"y_sec": S([secs(n, k)[0] for k in range(3)], "m"), "chord_sec": S([secs(n, k)[1] / FT for k in range(7)], "ft"), "x_LE_sec": S([secs(n, k)[2] for k in range(7)], "m")}
    if cfg.get("scale_area", True):
        d["S"] = S([300.0, 1.0, 1350.0], "ft**2")
    return d


def ref_secmesh(cfg, x):
    scale = cfg.get("scale_area", True)
    m, area = section_mesh(x["y_sec"], x["chord_sec"] * FT, x["x_LE_sec"], cfg.get("num_x", 3), sec_ny(cfg), float(x["S"]) * FT**2 if scale else None)
    out = {"mesh": (m, "m")}
    if not scale:
        out["S"] = (area, "m**2")
    return out


def interp_nodes(v, ny, cos):
    out = []
    for r, n in enumerate(ny):
        s = cosp(n) if cos else np.linspace(0, 1, n + 1)
        out.append(v[r] + s * (v[r + 1] - v[r]))
    return out


def ref_toverc(cfg, x):
    return {"panel_toverc": (np.concatenate([(a[1:] + a[:-1]) / 2 for a in interp_nodes(np.ravel(x["section_toverc"]), sec_ny(cfg), cfg.get("cos_spacing", True))]), None)}


def ref_secinterp(cfg, x):
    a = interp_nodes(np.ravel(x["property_sec"]), sec_ny(cfg), cfg.get("cos_spacing", True))
    return {"property_node": (np.concatenate([a[0]] + [b[1:] for b in a[1:]]), cfg.get("units"))}


def wcut(cfg, x):
    n = cfg["num_sections"]
    a, b = cfg.get("idx_sec_start", 0), cfg.get("idx_sec_end", None)
    b = n - 1 if b is None else b
    return np.concatenate([np.ravel(x["y_sec"]), [0.0]])[a : b + 1], np.ravel(x["chord_sec"])[a : b + 1] * FT, np.ravel(x["toverc_sec"])[a : b + 1]


def ref_wave(cfg, x, parts=False):
    y, c, t = wcut(cfg, x)
    u, w = np.polynomial.legendre.leggauss(4)
    s, w = (u + 1) / 2, w / 2
    A = V_ = 0.0
    for i in range(len(c) - 1):
        d = y[i + 1] - y[i]
        cc, tt = c[i] + s * (c[i + 1] - c[i]), t[i] + s * (t[i + 1] - t[i])
        A += np.sum(w * cc) * d
        V_ += np.sum(w * cc * tt) * d
    cs = np.cos(np.radians(x["c4sweep"]))
    mdd = cfg.get("airfoil_tech_level", 0.95) / cs - V_ / A / cs**2 - x["fltcond|CL"] / (10 * cs**3)
    mcr = mdd - (0.1 / 80) ** (1 / 3)
    cd = 2 * 20 * np.maximum(x["fltcond|M"] - mcr, 0) ** 4
    if cfg.get("specify_area_norm", False):
        return {"CD_wave": (None, None), "_parts": (cd, 2 * A / float(x["S_ref"]))} if parts else {"CD_wave": (None, None)}
    return {"CD_wave": (cd, None)}


def post_wave(ctx, e, cfg, x, p):
    if not cfg.get("specify_area_norm", False):
        return
    cd, r = ref_wave(cfg, x, True)["_parts"]
    got = p.get_val("CD_wave")
    for key, w in (("documented", cd * r), ("area-ratio-inverted", cd / r)):
        if np.all(np.abs(got - w) <= 2e-4 * np.abs(w) + 1e-12):
            break
    else:
        key = "wrong"
    if key != "documented":
        ctx.violation(f"WaveDragFromSections[specify_area_norm]:{key}", "wave drag is not normalised by the area that was given", cfg=cfg, got=got, want=cd * r)


def ins_wave(cfg):
    n = cfg["num_sections"]
    tc = [np.array([0.08 + 0.02 * ((i + k) % 4) for i in range(n)]) for k in range(3)]
    d = {"fltcond|M": V([0.86, 0.2, 0.75, 0.95, 1.05]), "fltcond|CL": V([0.5, 0.0, -0.3, 0.9]), "toverc_sec": S(tc), "y_sec": S([secs(n, k)[0] for k in range(3)], "m"),
         "chord_sec": S([secs(n, k)[1] / FT for k in range(7)], "ft"), "c4sweep": S([25.0, 0.0, -20.0, 37.0], "deg")}
    if cfg.get("specify_area_norm", False):
        d["S_ref"] = S([100.0, 30.0], "m**2")
    return d


def nys(n):
    return [2, [1, 3, 2, 4][: n - 1], tuple([3, 1, 2, 1][: n - 1]), np.array([2, 2, 1, 3][: n - 1])]


sec_mesh_cfgs = [dict(num_sections=n, num_x=nx, num_y=ny, **k) for n in (2, 3, 4) for nx, ny in zip((1, 2, 3, 2), nys(n)) for k in ({}, dict(scale_area=False))]
interp_cfgs = [dict(num_sections=n, num_y=ny, cos_spacing=c) for n in (2, 3, 4, 5) for ny in nys(n) for c in (True, False)]

MESH = [
    Entry("TrapezoidalPlanformMesh", mk(OAS, "TrapezoidalPlanformMesh", False),
          {"S": S([30.0, 125.0, 1.0], "m**2"), "AR": S([9.0, 5.0, 14.0]), "taper": S([0.5, 0.05, 1.0]), "sweep": S([25.0, 0.0, -15.0, 40.0], "deg")}, ref_trap,
          [dict(num_x=nx, num_y=ny) for nx in (1, 2, 3) for ny in (1, 2, 5)], vectorized=False, rtol=1e-11, atol=1e-12),
    Entry("SectionPlanformMesh", mk(OAS, "SectionPlanformMesh", False), ins_secmesh, ref_secmesh, sec_mesh_cfgs, vectorized=False, rtol=1e-11, atol=1e-12),
    Entry("ThicknessChordRatioInterp", mk(OAS, "ThicknessChordRatioInterp", False), lambda c: {"section_toverc": S([np.array([0.1 + 0.03 * ((i * 2 + k) % 4) for i in range(c["num_sections"])]) for k in range(4)])},
          ref_toverc, interp_cfgs, vectorized=False, rtol=1e-12),
    Entry("SectionLinearInterp", mk(OAS, "SectionLinearInterp", False),
          lambda c: {"property_sec": S([np.array([-2.0 + 1.5 * ((i * 3 + k) % 4) for i in range(c["num_sections"])]) for k in range(4)], c.get("units"))},
          ref_secinterp, interp_cfgs + [dict(num_sections=3, num_y=2, units="deg")], vectorized=False, rtol=1e-12, atol=1e-13),
]

WAVE = [
    Entry("WaveDragFromSections", mk(OAS, "WaveDragFromSections"), ins_wave, ref_wave,
          [dict(num_sections=n, **k) for n in (2, 3, 4) for k in ({}, dict(idx_sec_start=1), dict(idx_sec_end=n - 2), dict(airfoil_tech_level=0.87), dict(specify_area_norm=True), dict(idx_sec_start=1, specify_area_norm=True, airfoil_tech_level=0.9))
           if k.get("idx_sec_end", n - 1) - k.get("idx_sec_start", 0) >= 1], rtol=2e-4, atol=1e-12, post=post_wave),
]

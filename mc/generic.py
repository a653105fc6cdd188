"""Generic explorations over catalogue entries: derivatives (C02), node independence (C03), histories (C04)."""
import itertools

import numpy as np

from mc import catalog as C
from mc.omx import om


# ---------------------------------------------------------------- shared point selection
def points(e, cfg, budget):
    """All deviation-bounded input points (dicts of scalars/arrays) of one configuration."""
    ins = e.ins(cfg)
    pts, k, full = C.assignments({n: i.values for n, i in ins.items()}, budget)
    return pts, k, full


def spread(pts, n):
    """First/last and evenly spaced members: a deterministic finite sub-alphabet."""
    if len(pts) <= n:
        return list(pts)
    idx = sorted(set(np.linspace(0, len(pts) - 1, n).round().astype(int).tolist()))
    return [pts[i] for i in idx]


def odd_nodes(e, n):
    n = max(n, e.min_nodes)
    return n + 1 if e.odd and n % 2 == 0 else n


def pack_points(e, cfg, pts):
    """Points sharing scalar values -> vectorised assignments [(x, n_points)]."""
    ins = e.ins(cfg)
    vec = [k for k, i in ins.items() if i.vec]
    sca = [k for k, i in ins.items() if not i.vec]
    groups = {}
    for p in pts:
        groups.setdefault(repr([np.asarray(p[s]).tolist() for s in sca]), []).append(p)
    out = []
    for g in groups.values():
        x = {s: np.asarray(g[0][s], dtype=float) for s in sca}
        for v in vec:
            x[v] = np.array([p[v] for p in g], dtype=float)
        out.append((x, len(g)))
    return out


def read(p, outs):
    return {o: np.array(p.get_val(o, units=u), dtype=float).copy() for o, u in outs}


# ---------------------------------------------------------------- C02
def explore_derivs(ctx, e, cfg, budget):
    ins = e.ins(cfg)
    outs = e.outs(cfg)
    cid = C.cfg_id(cfg)
    wrts = [k for k, i in ins.items() if i.deriv]
    pts, _, _ = points(e, cfg, budget)
    has_vec = any(i.vec for i in ins.values())
    if e.vectorized and has_vec:
        batches = pack_points(e, cfg, pts)
    else:
        batches = [({k: (np.array([v], dtype=float) if ins[k].vec else np.asarray(v, dtype=float)) for k, v in q.items()}, 1) for q in pts]
    probs = {}
    size, most = e.dchunk
    # chunk the node vector so that Jacobians stay small
    chunks = [(x, lo, min(size, n - lo)) for x, n in batches for lo in range(0, n, size)]
    if most:
        chunks = spread(chunks, most * (4 if ctx.tier == "thorough" else 1))
    for x, lo, m in chunks:
        nn = odd_nodes(e, m) if has_vec else 1
        xx = {}
        for k, v in x.items():
            if ins[k].vec:
                vv = v[lo : lo + m]
                xx[k] = np.concatenate([vv, np.repeat(vv[-1:], nn - m)])
            else:
                xx[k] = v
        if nn not in probs:
            probs[nn] = e.build(cfg, nn) if e.vectorized else e.build(cfg)
        _deriv_point(ctx, e, cfg, cid, probs[nn], xx, outs, wrts, ins)


def _dirs(arr, isvec, limit=8):
    arr = np.asarray(arr, dtype=float)
    n = arr.size
    sh = arr.shape
    if n == 1:
        return [("d", np.ones(sh))]
    out = []
    if isvec:
        a = np.zeros(n)
        a[::2] = 1
        b = 1 - a
        out = [("even", a.reshape(sh)), ("odd", b.reshape(sh))]
    else:
        out = []
        for j in range(n) if n <= limit else sorted(set(np.linspace(0, n - 1, limit).round().astype(int))):
            d = np.zeros(n)
            d[j] = 1
            out.append((f"e{j}", d.reshape(sh)))
        out.append(("ones", np.ones(sh)))  # last: skipped where an element direction met a kink
    return out


def _deriv_point(ctx, e, cfg, cid, p, x, outs, wrts, ins):
    def runx(xv):
        e.put(p, cfg, xv)
        p.run_model()
        ctx.ev()
        return read(p, outs)

    base = runx(x)
    J = p.compute_totals(of=[o for o, _ in outs], wrt=wrts, return_format="flat_dict")
    ctx.step()
    # compute_totals is in the variables' own units: convert to ours
    meta = {}
    for n_, u_ in [(o, u) for o, u in outs] + [(w, ins[w].units) for w in wrts]:
        a = p.get_val(n_)
        try:
            f = _factor(p, n_, u_)
        except Exception:
            f = 1.0
        meta[n_] = f
    key0 = f"{e.name}[{cid}]"
    # round-off floor of an output: relative to its value or to the terms it is made of, whichever is larger
    cond = {o: np.zeros(base[o].size) for o, _ in outs}
    for o, _ in outs:
        for w in wrts:
            Jw = J[o, w] * (meta[o] / meta[w])
            if np.all(np.isfinite(Jw)):
                cond[o] = cond[o] + np.abs(Jw) @ np.abs(np.ravel(np.asarray(x[w], dtype=float)))
    for w in wrts:
        xw = np.asarray(x[w], dtype=float)
        kinked = {o: np.zeros(base[o].shape, dtype=bool) for o, _ in outs}
        for dn, d in _dirs(xw, ins[w].vec):
            mag = np.max(np.abs(xw * d)) if np.any(xw * d) else max(1e-3, np.max(np.abs([np.max(np.abs(np.asarray(v, dtype=float))) for v in ins[w].values])) * 0.1)
            h = e.step * (np.where(np.abs(xw) > 1e-8 * mag, np.abs(xw), mag)) * d
            dirv = h / 1.0  # directional derivative along the scaled vector h
            f = {}
            for s in (-1.0, -0.5, 0.5, 1.0):
                xx = dict(x)
                xx[w] = xw + s * dirv
                f[s] = runx(xx)
            for o, u in outs:
                D1 = (f[1.0][o] - f[-1.0][o]) / 2.0
                D2 = f[0.5][o] - f[-0.5][o]
                R = (4 * D2 - D1) / 3.0
                # one-sided second-order estimates: a kink at or near the point makes them disagree
                Fp = (-3 * base[o] + 4 * f[0.5][o] - f[1.0][o])
                Fm = (3 * base[o] - 4 * f[-0.5][o] + f[-1.0][o])
                an = (J[o, w] * (meta[o] / meta[w])) @ dirv.ravel()
                an = an.reshape(R.shape)
                mo = np.maximum(np.abs(base[o]), np.max(np.abs(base[o])) * 1e-6)
                noise = np.maximum(mo, np.maximum(cond[o].reshape(mo.shape), 1e-30)) * e.fdnoise
                est = np.abs(R - D2)
                smooth = np.abs(Fp - Fm) <= 0.05 * (np.abs(Fp) + np.abs(Fm)) + 20 * noise
                tol = 4 * est + e.dtol * (np.abs(R) + np.abs(an)) + 4 * noise
                usable = smooth & (est <= 0.02 * np.abs(R) + 20 * noise) & np.isfinite(R)
                if dn == "ones":
                    usable = usable & ~kinked[o]
                else:
                    kinked[o] |= ~smooth
                ctx.count("deriv_entries_compared", int(usable.sum()))
                ctx.count("deriv_entries_at_kinks_skipped", int((~usable).sum()))
                ctx.validated += int(usable.sum())
                if np.any(np.abs(R[usable]) > 40 * noise[usable]):
                    ctx.count("deriv_nonzero_checked", 1)
                bad = usable & ~(np.abs(an - R) <= tol)
                if np.any(bad):
                    i = int(np.argmax(bad.ravel()))
                    hh = float(np.max(np.abs(dirv)))
                    ctx.violation(
                        f"{key0}:d({o})/d({w})",
                        f"analytic directional derivative {an.ravel()[i]/hh:.9g}, finite difference {R.ravel()[i]/hh:.9g} +- {tol.ravel()[i]/hh:.2g} (direction {dn}, entry {i})",
                        cfg=cfg, inputs={k: v for k, v in x.items()}, h=dirv,
                    )
    ctx.state((e.name, cid, tuple((k, tuple(np.ravel(v).tolist())) for k, v in x.items())))
    ctx.outcome(*[np.ravel(v)[:12] for v in base.values()])
    ctx.sample(dict(entry=e.name, cfg=cfg, point={k: np.ravel(v)[0] for k, v in x.items()}, of=[o for o, _ in outs][:6], wrt=wrts))


def _factor(p, name, units):
    """value_in(units) = factor * value_in(own units) (offsets do not matter for derivatives)."""
    if units is None:
        return 1.0
    v0 = np.ravel(p.get_val(name))[:1]
    from openmdao.utils.units import unit_conversion

    m = p.model
    for io in ("output", "input"):
        for a in _abs(m, name, io):
            own = m._var_allprocs_abs2meta[io].get(a, {}).get("units")
            if io == "input":
                # promoted inputs: totals are w.r.t. the promoted input's (group default) units
                own = _prom_units(p, name)
            if own is None:
                return 1.0
            return unit_conversion(own, units)[0]
    return 1.0


_cache = {}


def _abs(m, name, io):
    try:
        return m._resolver.absnames(name, io)
    except Exception:
        d = getattr(m, "_var_allprocs_prom2abs_list", {}).get(io, {})
        return d.get(name, [])


def _prom_units(p, name):
    """units that p.get_val(name) reports for a promoted input: found by converting a probe value."""
    m = p.model
    gd = m._group_inputs.get(name) if hasattr(m, "_group_inputs") else None
    if gd:
        for g in gd:
            if g.get("units") is not None:
                return g["units"]
    a = _abs(m, name, "input")[0]
    src = m._conn_global_abs_in2out.get(a)
    if src:
        return m._var_allprocs_abs2meta["output"][src]["units"]
    return m._var_allprocs_abs2meta["input"][a]["units"]


# ---------------------------------------------------------------- C03
def explore_nodes(ctx, e, cfg, budget):
    """A vectorised analysis equals the single-point analyses, in every enumerated order of the points."""
    ins = e.ins(cfg)
    outs = e.outs(cfg)
    cid = C.cfg_id(cfg)
    pts, _, _ = points(e, cfg, max(budget, 30))
    vecs = [k for k, i in ins.items() if i.vec]
    # at most `budget` nodes, all sharing the scalar values; scalar values enumerated by deviation
    vpts = spread(C.assignments({k: ins[k].values for k in vecs}, 400)[0], budget)
    spts = spread(C.assignments({k: i.values for k, i in ins.items() if not i.vec}, 30)[0], 3) if len(vecs) < len(ins) else [{}]
    nn = len(vpts)
    sizes = {}

    def solve(order, s):
        n = len(order)
        if n not in sizes:
            sizes[n] = e.build(cfg, n)
        p = sizes[n]
        x = {k: np.asarray(v, dtype=float) for k, v in s.items()}
        x.update({k: np.array([vpts[i][k] for i in order], dtype=float) for k in vecs})
        e.put(p, cfg, x)
        p.run_model()
        ctx.ev()
        ctx.step()
        return read(p, outs)

    for si, s in enumerate(spts):
        single = [solve([i], s) for i in range(nn)]
        orders = [("forward", list(range(nn))), ("reverse", list(range(nn))[::-1])]
        orders += [(f"rot{r}", list(range(r, nn)) + list(range(r))) for r in range(1, nn, max(1, nn // 4))]
        orders += [(f"pair{i}", [i, (i + 1) % nn]) for i in range(nn)]
        orders += [("twice", [0, 0] + list(range(1, nn)))]
        for on, order in orders:
            if len(order) < 2:
                continue
            r = solve(order, s)
            for o, _ in outs:
                n = len(order)
                if r[o].shape == (n,):
                    want = np.array([single[i][o].ravel()[0] for i in order])
                elif r[o].size == single[0][o].size:
                    # scalar output: must not depend on the nodes
                    want = single[order[0]][o]
                    if o in e.reduces:
                        continue
                else:
                    ctx.violation(f"{e.name}[{cid}]:{o}:shape", f"{o} has shape {r[o].shape} for {n} analysis points", cfg=cfg)
                    continue
                tol = e.ntol
                sc = np.max(np.abs(want)) if want.size else 0.0
                ctx.close(f"{e.name}[{cid}]:{o}:{'order' if n == nn else 'size'}", r[o], want, tol, tol * sc + 1e-300, f"{e.name}.{o} at {n} points ({on}) vs single-point analyses", cfg=cfg, inputs=s, order=order)
            ctx.state((e.name, cid, si, on))
            ctx.outcome(*[np.ravel(v)[:12] for v in r.values()])
    ctx.sample(dict(entry=e.name, cfg=cfg, points=nn, orders=[o for o, _ in orders][:6]))


# ---------------------------------------------------------------- C04
def debruijn(k, n):
    """Cyclic word over range(k) containing every word of length n exactly once."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq


OPS = ("runA", "runB", "runC", "lin", "resetup", "other")


def contrast(pts, ins, nn):
    """3 * nn of the points: three groups that differ as much as possible from each other at every node (relative to each input's range)."""
    def coord(k, v):
        a = np.ravel(np.asarray(v, dtype=float))
        b = np.array([np.ravel(np.asarray(q[k], dtype=float)) for q in pts])
        r = np.ptp(b, axis=0)
        return np.mean(np.abs(b - a) / np.where(r > 0, r, 1.0), axis=1)

    def dist(i):
        return sum(coord(k, pts[i][k]) for k in ins)

    out = [[], [], []]
    for n, i in enumerate(np.linspace(0, len(pts) - 1, nn + 1).astype(int)[:nn]):
        da = dist(i)
        j = int(np.argmax(da))
        c = int(np.argmax(np.minimum(da, dist(j))))
        for g, q in zip(out, (i, j, c)):
            g.append(pts[q])
    return out[0] + out[1] + out[2]


def explore_history(ctx, e, cfg, depth):
    """Every word of length `depth` over OPS occurs in the driven history; after every operation the outputs,
    derivatives and inputs equal those of a fresh problem given only the current inputs."""
    ins = e.ins(cfg)
    outs = e.outs(cfg)
    cid = C.cfg_id(cfg)
    wrts = [k for k, i in ins.items() if i.deriv][:6]
    of = [o for o, _ in outs]
    nn = odd_nodes(e, 3) if e.vectorized and any(i.vec for i in ins.values()) else 1
    pts, _, _ = points(e, cfg, 300)
    pts = contrast(pts, ins, nn)
    X = []
    for j in range(3):
        grp = pts[j * nn : (j + 1) * nn]
        x = {}
        for k, i in ins.items():
            x[k] = np.array([g[k] for g in grp], dtype=float) if i.vec else np.asarray(grp[0][k], dtype=float)
        X.append(x)

    def fresh(x, n, c):
        p = e.build(c, n) if e.vectorized else e.build(c)
        e.put(p, c, x)
        p.run_model()
        return p

    def tot(p):
        if not (e.deriv and wrts):
            return {}
        return {k: np.array(v) for k, v in p.compute_totals(of=of, wrt=wrts, return_format="flat_dict").items()}

    ref = []
    for x in X:
        p = fresh(x, nn, cfg)
        ref.append((read(p, outs), tot(p)))
    ocfg = e.cfgs[([c is cfg for c in e.cfgs].index(True) + 1) % len(e.cfgs)]

    def other():
        """A second, independent analysis of the same kind (other size/options/inputs)."""
        oi = e.ins(ocfg)
        on = odd_nodes(e, 2) if e.vectorized and any(i.vec for i in oi.values()) else 1
        x = {k: (np.full(on, float(i.values[-1])) if i.vec else np.asarray(i.values[-1], dtype=float)) for k, i in oi.items()}
        q = fresh(x, on, ocfg)
        tot(q) if set(wrts) <= set(oi) and ocfg is cfg else None

    word = debruijn(len(OPS), depth)
    word = word + word[: depth - 1]
    # every succession of `depth` input sets, linearised each time, with nothing in between
    lin = debruijn(3, depth)
    word = [o for r in lin + lin[: depth - 1] for o in (r, 3)] + word
    p = e.build(cfg, nn) if e.vectorized else e.build(cfg)
    cur = 0
    ran = False

    def check(what, w):
        r = read(p, outs)
        for o, _ in outs:
            sc = np.max(np.abs(ref[cur][0][o])) if ref[cur][0][o].size else 0.0
            ctx.close(f"{e.name}[{cid}]:{o}:{what}", r[o], ref[cur][0][o], e.htol, e.htol * sc, f"{e.name}.{o} after {w}", cfg=cfg, inputs=X[cur])
        for k, i in ins.items():
            ctx.close(f"{e.name}[{cid}]:{k}:input", p.get_val(k, units=i.units), X[cur][k], 1e-12, 1e-12, f"{e.name} input {k} after {w}", cfg=cfg)

    def check_lin(w):
        J = tot(p)
        for k, v in J.items():
            w_ = ref[cur][1][k]
            sc = np.nanmax(np.abs(w_)) if w_.size and np.any(np.isfinite(w_)) else 0.0
            if np.any(~np.isfinite(w_)):
                continue
            # a sensitivity that vanishes identically is only known to round-off of the terms it is made of
            big = np.max(np.abs(p.get_val(k[1]))) or 1.0
            sc = max(sc, 1e-4 * np.max(np.abs(p.get_val(k[0]))) / big)
            ctx.close(f"{e.name}[{cid}]:d{k}:lin", v, w_, e.htol * 10, e.htol * 10 * sc, f"{e.name} d{k} after {w}", cfg=cfg)

    hist = []
    for op in word:
        name = OPS[op]
        hist.append(name)
        w = "/".join(hist[-6:])
        if name.startswith("run"):
            cur = op
            e.put(p, cfg, X[cur])
            p.run_model()
            ran = True
            check("run", w)
        elif name == "lin":
            if not ran:
                e.put(p, cfg, X[cur])
                p.run_model()
                ran = True
            check_lin(w)
            check("lin", w)
        elif name == "resetup":
            p.setup(check=False)
            p.set_solver_print(level=-1)
            e.put(p, cfg, X[cur])
            p.run_model()
            ran = True
            check("resetup", w)
        else:
            other()
            if ran:
                check("other", w)
        ctx.ev()
        ctx.step()
        ctx.state((e.name, cid, tuple(hist[-depth:])))
    # from A to inputs that differ from it in a single one, by little, or in the order of the points, and back
    vec = {k: X[0][k][::-1] for k, i in ins.items() if i.vec}
    near = {"A but for " + k: {k: X[0][k] * (1 - 1e-5)} for k in ins if np.any(X[0][k])}
    if nn > 1 and e.nodes:
        near["A in reverse"] = vec
    for k, change in near.items():
        if len(X) == 3:
            X.append(None), ref.append(None)
        X[3] = dict(X[0], **change)
        q = fresh(X[3], nn, cfg)
        ref[3] = (read(q, outs), tot(q))
        for cur in (0, 3, 0):
            w = "A" if cur == 0 else k
            e.put(p, cfg, X[cur])
            p.run_model()
            check("nudge", w)
            check_lin(w)
            ctx.ev()
            ctx.step()
        ctx.state((e.name, cid, "nudge", k))
    ctx.outcome(*[np.ravel(v)[:12] for r in ref for v in r[0].values()])
    ctx.sample(dict(entry=e.name, cfg=cfg, history=hist[:12], length=len(hist)))

"""Catalogue of library analyses: how to build each one, a finite input alphabet, and a reference model.

The reference models are written from the documentation / cited methods in plain numpy, evaluated in the
units stated here; values are handed to and read from the library with explicit units, so that a wrong unit
declaration is a wrong value.
"""
import itertools

import numpy as np

from mc.omx import om


class In:
    """values: finite alphabet (first = base value). vec: one value per node. shape: fixed-size array input."""

    def __init__(self, values, units=None, vec=False, shape=None, deriv=True, out=False):
        self.values = list(values)
        self.units = units
        self.vec = vec
        self.shape = shape
        self.deriv = deriv
        self.out = out  # an output of an independent component inside the system


def V(values, units=None, **kw):
    return In(values, units, vec=True, **kw)


def S(values, units=None, **kw):
    return In(values, units, vec=False, **kw)


class Entry:
    def __init__(self, name, make, ins, ref=None, cfgs=({},), vectorized=True, rtol=1e-9, atol=0.0, deriv=True, dtol=2e-6,
                 prep=None, budget=4000, outs=None, post=None, history=True, nodes=True, dbudget=60, min_nodes=1, odd=False, guess=None,
                 scale=None, defaults=False, step=2e-3, fdnoise=1e-13, ntol=1e-11, htol=1e-11, reduces=(), hdepth=None, dcfgs=None, dchunk=(12, None)):
        self.name = name
        self.make = make  # make(cfg, nn) -> System
        self._ins = ins
        self.ref = ref  # ref(cfg, x) -> {out: (value, units)}
        self.cfgs = list(cfgs)
        self.vectorized = vectorized
        self.rtol, self.atol = rtol, atol
        self.deriv, self.dtol = deriv, dtol
        self.prep = prep  # prep(model, cfg): set_input_defaults etc.
        self.budget = budget
        self._outs = outs  # outs(cfg) -> list of (name, units) when there is no ref
        self.post = post
        self.history = history
        self.nodes = nodes
        self.dbudget = dbudget
        self.min_nodes, self.odd = min_nodes, odd
        self.guess = guess
        self.scale = scale or {}
        self.defaults = defaults
        self.step, self.fdnoise, self.ntol, self.htol = step, fdnoise, ntol, htol
        self.reduces = tuple(reduces)
        self.hdepth = hdepth
        self.dchunk = dchunk  # derivatives: points per run, and in the quick tier at most this many runs
        self.dcfgs = dcfgs  # quick tier: at most this many configurations are differentiated

    def ins(self, cfg):
        return self._ins(cfg) if callable(self._ins) else self._ins

    def outs(self, cfg, x=None):
        if self._outs is not None:
            o = self._outs(cfg) if callable(self._outs) else self._outs
            return [(n, u) for n, u in o]
        x = x or {k: (np.array([i.values[0]], dtype=float) if i.vec else np.array(i.values[0], dtype=float)) for k, i in self.ins(cfg).items()}
        return [(n, v[1]) for n, v in self.ref(cfg, x).items()]

    def build(self, cfg, nn=1):
        p = om.Problem(reports=False)
        p.model.add_subsystem("c", self.make(cfg, nn), promotes=["*"])
        if self.defaults:
            for k, i in self.ins(cfg).items():
                if "." in k or i.out:  # an output of the library's own control component
                    continue
                if i.vec or i.shape is None:
                    p.model.set_input_defaults(k, val=np.ones(nn) * i.values[0] if i.vec else i.values[0], units=i.units)
        if self.prep:
            self.prep(p.model, cfg)
        p.setup(check=False)
        p.set_solver_print(level=-1)
        return p

    def put(self, p, cfg, x):
        ins = self.ins(cfg)
        for k, v in x.items():
            p.set_val(k, v, units=ins[k].units)
        if self.guess:
            self.guess(p, cfg, x)


def assignments(alphabets, budget):
    """All assignments with at most k deviations from the base, k as large as the budget allows.

    alphabets: dict name -> list of values. Returns (list of dicts, k, complete?)."""
    names = list(alphabets)
    total = 1
    for n in names:
        total *= len(alphabets[n])
        if total > budget:
            break
    if total <= budget:
        return [dict(zip(names, c)) for c in itertools.product(*[alphabets[n] for n in names])], len(names), True
    base = {n: alphabets[n][0] for n in names}
    out, k = [dict(base)], 0
    while k < len(names):
        layer = []
        for sub in itertools.combinations(names, k + 1):
            for c in itertools.product(*[alphabets[n][1:] for n in sub]):
                a = dict(base)
                a.update(zip(sub, c))
                layer.append(a)
            if len(out) + len(layer) > budget and k >= 1:
                return out, k, False
        out += layer
        k += 1
    return out, k, True


def split(ins):
    vec = {k: i.values for k, i in ins.items() if i.vec}
    sca = {k: i.values for k, i in ins.items() if not i.vec}
    return vec, sca


def cfg_id(cfg):
    return ",".join(f"{k}={v}" for k, v in cfg.items()) or "default"


# ------------------------------------------------------------------ generic explorations
def explore_values(ctx, e, cfg, scalar_slice=None):
    """Every enumerated input of one configuration against the reference model."""
    ins = e.ins(cfg)
    vec, sca = split(ins)
    vpts, kv, _ = assignments(vec, e.budget) if vec else ([{}], 0, True)
    spts, ks, _ = assignments(sca, e.budget if not vec else max(30, e.budget // 20)) if sca else ([{}], 0, True)
    nn = len(vpts)
    if e.odd and nn % 2 == 0:
        vpts = vpts + [vpts[-1]]
        nn += 1
    p = e.build(cfg, nn) if e.vectorized else e.build(cfg)
    cid = cfg_id(cfg)
    xv = {k: np.array([v[k] for v in vpts], dtype=float) for k in vec}
    for k, v in xv.items():
        p.set_val(k, v, units=ins[k].units)
    for spt in spts:
        x = {k: np.asarray(v, dtype=float) for k, v in spt.items()}
        x.update(xv)
        e.put(p, cfg, x)
        p.run_model()
        ctx.ev(nn)
        ctx.count("runs")
        want = e.ref(cfg, x)
        for i in range(nn):
            ctx.state((e.name, cid, tuple(np.ravel(list(spt.values()) or [0]).tolist()) if not any(np.ndim(v) for v in spt.values()) else repr(spt), i))
        for o, (w, u) in want.items():
            got = p.get_val(o, units=u)
            ctx.outcome(np.ravel(got)[:16], o)
            if w is None:  # judged by the entry's own post check
                continue
            w = np.asarray(w, dtype=float)
            if w.shape != got.shape:
                w = w * np.ones(got.shape) if w.size == 1 else w.reshape(got.shape)
            if not ctx.close(f"{e.name}[{cid}]:{o}", got, w, e.rtol, e.atol + e.scale.get(o, 0.0), f"{e.name} {o} [{u}]", cfg=cfg, inputs={**spt, **(vpts[_worst(got, w)] if nn > 1 and got.shape == (nn,) else (vpts[0] if vpts else {}))}):
                pass
        if e.post:
            e.post(ctx, e, cfg, x, p)
    ctx.sample(dict(entry=e.name, cfg=cfg, inputs={**spts[-1], **(vpts[-1] if vpts else {})}, outputs={o: np.ravel(p.get_val(o, units=u))[-1] for o, (w, u) in want.items()}))


def _worst(got, w):
    d = np.abs(np.asarray(got, float).ravel() - np.asarray(w, float).ravel())
    d = np.where(np.isnan(d), np.inf, d)
    return int(np.argmax(d / (np.abs(np.asarray(w, float).ravel()) + 1e-30)))


def value_shards(entries):
    return [(f"{e.name}[{cfg_id(c)}]", dict(entry=e.name, icfg=i)) for e in entries for i, c in enumerate(e.cfgs)]


def by_name(entries):
    return {e.name: e for e in entries}


def value_check(entries):
    """(shards, run) pair for a check module that compares every enumerated input with the reference model."""
    table = by_name(entries)

    def shards(tier):
        return value_shards(entries)

    def run(ctx, prm):
        e = table[prm["entry"]]
        if ctx.tier == "thorough":
            e.budget *= 8
        explore_values(ctx, e, e.cfgs[prm["icfg"]])

    return shards, run


VALUE_RULE = (
    "cases: (analysis, configuration, input assignment); every configuration in the catalogue crossed with all assignments of the "
    "finite input alphabets having at most k deviations from the base (k as large as the per-entry budget allows, the full product "
    "where it fits; alphabets include zero, boundary and switch-over values). Every output is compared with a reference model "
    "written from the documentation, in explicit units. Non-trivial: a distinct (analysis, configuration, assignment)."
)
VALUE_BOUNDS = "alphabets and configurations as listed in mc/cat_*.py; budget 4000 assignments per configuration (x8 in thorough)"
VALUE_ASSUMPTIONS = ["values outside the alphabets are not explored", "agreement is to the relative tolerance of each entry (1e-9 unless iterative)"]

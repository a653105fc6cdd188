"""C25: dictionary inputs, labels, declared sums and factors, and plots hand data through unchanged."""
import copy
import itertools

import numpy as np

from mc.omx import om

PROPERTY = "C25"
LEVEL = "model_checking"
RULE = (
    "Input dictionaries: every (value kind, unit, depth, separator) entry, every subset of at most three of them in one component, every missing key; "
    "histories to the stated depth of {build another component from the same dictionary, overwrite an output, run, set up again}: outputs equal the "
    "dictionary or the last value set and the dictionary itself never changes. Labels, promoted sums and factors: every list of the listed kinds. "
    "Plots: every number of phases, cases, variables, pages and layouts of the alphabet; the drawn data equals the solution in the requested units; "
    "force contours equal an area-weighted reference for every mesh of the alphabet. States: distinct cases or histories."
)
BOUNDS = "dictionary depth 1-3, 8 value kinds, 4 units; histories of depth 4 (5 thorough); 1-3 labels/sums; 1-3 phases, 1-2 cases, 1-5 variables, layouts 1x1..2x2; meshes 2-4 x 2-5"
ASSUMPTIONS = ["matplotlib draws what its API is given (figures are inspected as objects, files are not rendered)"]

KINDS = {
    "int": 5,
    "float": 2.25,
    "npint": np.int64(7),
    "npfloat": np.float64(-3.5),
    "vec": np.array([1.0, -2.0, 3.5]),
    "intvec": np.array([1, 2, 3, 4]),
    "mat": np.arange(6.0).reshape(2, 3) - 2.5,
    "zero": 0.0,
}
UNITS = {"none": {}, "None": {"units": None}, "ft": {"units": "ft"}, "psf": {"units": "lbf/ft**2"}}
OTHERU = {None: None, "ft": "m", "lbf/ft**2": "Pa"}
CONV = {None: 1.0, "ft": 0.3048, "lbf/ft**2": 4.4482216152605 / 0.3048**2}


def shards(tier):
    out = [(f"dict:{k}", dict(what="dict", kind=k)) for k in KINDS]
    out += [(f"dict-many:{i}", dict(what="many", first=i)) for i in range(8)] + [("dict-errors", dict(what="errors"))]
    d = 5 if tier == "thorough" else 4
    out += [(f"dict-history:{k}", dict(what="hist", kind=k, depth=d)) for k in ("int", "float", "vec", "intvec")]
    out += [("dymos", dict(what="dymos")), ("label", dict(what="label")), ("sums", dict(what="sums")), ("factors", dict(what="factors")), ("declared", dict(what="declared"))]
    out += [("plot", dict(what="plot")), ("contours", dict(what="contours")), ("mesh", dict(what="mesh"))]
    out += [(f"grid:{a}x{b}", dict(what="grid", layout=[a, b])) for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2))]
    return out


def run(ctx, prm):
    prm = dict(prm)
    globals()["_" + prm.pop("what")](ctx, **prm)


def entry(kind, unit):
    return dict(UNITS[unit], value=copy.copy(KINDS[kind]), note="ignored")


def nest(path, leaf, into=None):
    d = into if into is not None else {}
    t = d
    for s in path[:-1]:
        t = t.setdefault(s, {})
    t[path[-1]] = leaf
    return d


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b))


def expect(ctx, key, p, name, val, units, what, scale=True):
    a = np.asarray(val, dtype=float)
    if a.ndim == 0:
        a = a.reshape(1)
    got = p.get_val(name)
    ctx.true(key + ":shape", got.shape == a.shape, f"{what}: shape {got.shape}, dictionary {a.shape}")
    if got.shape != a.shape:
        return
    ctx.close(key, got, a, 1e-14, 0.0, what)
    if units is not None:
        ctx.close(key + ":units", p.get_val(name, units=OTHERU[units]), a * CONV[units], 1e-8, 0.0, what + f" in {OTHERU[units]}")


PATHS = (["S"], ["ac", "S_ref"], ["ac", "geom", "S_ref"], ["ac", "geom", "wing", "S_ref"])


def _dict(ctx, kind):
    from openconcept.utilities import DictIndepVarComp

    for unit, path, sep in itertools.product(UNITS, PATHS, ("|", ":")):
        d = nest(path, entry(kind, unit), {"other": {"value": 1e9}})
        keep = copy.deepcopy(d)
        c = DictIndepVarComp(d)
        name = sep.join(path)
        c.add_output_from_dict(name, **({} if sep == "|" else dict(separator=sep)))
        p = om.Problem(reports=False)
        p.model.add_subsystem("c", c, promotes=["*"])
        p.setup(check=False)
        p.run_model()
        ctx.ev()
        ctx.state((kind, unit, name))
        ctx.outcome(p.get_val(name))
        expect(ctx, f"DictIndepVarComp[{kind}]", p, name, KINDS[kind], UNITS[unit].get("units"), f"{name} ({kind}, {unit})")
        p.set_val(name, np.asarray(KINDS[kind]) * 1.0 + 0.25)
        p.run_model()
        ctx.close(f"DictIndepVarComp[{kind}]:set", p.get_val(name), np.reshape(np.asarray(KINDS[kind]) + 0.25, p.get_val(name).shape), 1e-14, 0.0, f"{name} after setting a fraction")
        ctx.true(f"DictIndepVarComp[{kind}]:dict", same(d, keep), f"{name}: the caller's dictionary was modified")


def _many(ctx, first):
    from openconcept.utilities import DictIndepVarComp

    ents = [(k, u) for k in ("int", "float", "vec", "mat") for u in ("none", "ft")]
    names = [["ac", "a"], ["ac", "geom", "b"], ["c"]]
    for n in (1, 2, 3):
        for combo in itertools.product(ents[first : first + 1], *[ents] * (n - 1)):
            d = {}
            for path, e in zip(names, combo):
                nest(path, entry(*e), d)
            for order in itertools.permutations(range(n)):
                c = DictIndepVarComp(data_dict=d)
                for i in order:
                    c.add_output_from_dict("|".join(names[i]))
                p = om.Problem(reports=False)
                p.model.add_subsystem("c", c, promotes=["*"])
                p.setup(check=False)
                p.run_model()
                ctx.ev()
                ctx.state((combo, order))
                for i in range(n):
                    expect(ctx, "DictIndepVarComp:many", p, "|".join(names[i]), KINDS[combo[i][0]], UNITS[combo[i][1]].get("units"), f"{names[i]} of {combo} added in order {order}")


def _errors(ctx):
    from openconcept.utilities import DictIndepVarComp

    d = {"ac": {"geom": {"S": {"value": 1.0}, "noval": {"units": "m"}, "S_ref": {"value": 3.0}}, "n": {"value": 2}}, "top": {"value": 1.0}}
    toks = ["ac", "geom", "S", "noval", "S_ref", "n", "top", "zz"]
    good = {"ac|geom|S", "ac|geom|S_ref", "ac|n", "top"}
    for k in (1, 2, 3):
        for w in itertools.product(toks, repeat=k):
            name = "|".join(w)
            c = DictIndepVarComp(d)
            try:
                c.add_output_from_dict(name)
                r = "ok"
            except KeyError:
                r = "KeyError"
            ctx.ev()
            ctx.state(name)
            ctx.true("DictIndepVarComp:missing", (r == "ok") == (name in good), f"{name}: {r}", name=name)
            if r == "KeyError":
                p = om.Problem(reports=False)
                c.add_output_from_dict("top")  # a refused name leaves the component usable
                p.model.add_subsystem("c", c, promotes=["*"])
                p.setup(check=False)
                ctx.true("DictIndepVarComp:after-error", p.get_val("top")[0] == 1.0, f"after refusing {name}")


def _hist(ctx, kind, depth):
    from openconcept.utilities import DictIndepVarComp

    ops = ("set", "run", "setup", "second", "second_set")
    base = KINDS[kind]
    for word in itertools.product(ops, repeat=depth):
        d = {"ac": {"x": {"value": copy.copy(base), "units": "ft"}, "y": {"value": copy.copy(base)}}}
        keep = copy.deepcopy(d)

        def make():
            c = DictIndepVarComp(d)
            c.add_output_from_dict("ac|x")
            c.add_output_from_dict("ac|y")
            p = om.Problem(reports=False)
            p.model.add_subsystem("c", c, promotes=["*"])
            p.setup(check=False)
            return p

        p, q = make(), None
        want = np.atleast_1d(np.asarray(base, dtype=float))
        wq = want
        cur = want
        for i, o in enumerate(word):
            if o == "set":
                cur = want * 0.5 + i + 0.125
                p.set_val("ac|x", cur, units="ft")
            elif o == "run":
                p.run_model()
            elif o == "setup":
                p.setup(check=False)
                cur = want
            elif o == "second":
                q = make()
                wq = want
            elif q is not None:
                wq = want - 3.25
                q.set_val("ac|x", wq, units="ft")
                q.run_model()
            ctx.step()
            w = "/".join(word[: i + 1])
            k = f"DictIndepVarComp[{kind}]:history"
            ctx.close(k, p.get_val("ac|x", units="ft"), cur, 1e-14, 0.0, f"after {w}")
            ctx.close(k + ":y", p.get_val("ac|y"), want, 1e-14, 0.0, f"after {w}")
            if q is not None:
                ctx.close(k + ":second", q.get_val("ac|x", units="ft"), wq, 1e-14, 0.0, f"after {w}")
            ctx.true(k + ":dict", same(d, keep), f"the caller's dictionary was modified after {w}")
            ctx.state((kind, word[: i + 1]))
        ctx.ev()


def _dymos(ctx):
    from openconcept.utilities import DymosDesignParamsFromDict

    class Traj:
        def __init__(self, n):
            self._phases = {f"ph{i}": None for i in range(n)}
            self.calls = []

        def add_design_parameter(self, name, **kw):
            self.calls.append((name, kw))

    for kind, unit, path, n, opt, dyn in itertools.product(KINDS, UNITS, PATHS, (0, 1, 3), (None, True, False), (None, True, False)):
        t = Traj(n)
        c = DymosDesignParamsFromDict(nest(path, entry(kind, unit)), t)
        kw = {k: v for k, v in dict(opt=opt, dynamic=dyn).items() if v is not None}
        c.add_output_from_dict("|".join(path), **kw)
        ctx.ev()
        ctx.state((kind, unit, tuple(path), n, opt, dyn))
        ok = len(t.calls) == 1
        if ok:
            nm, k = t.calls[0]
            v = np.atleast_1d(np.asarray(KINDS[kind]))
            ok = nm == "|".join(path) and np.array_equal(k["val"], v) and k["units"] == UNITS[unit].get("units") and bool(k["opt"]) == bool(opt) and bool(k["dynamic"]) == bool(dyn)
            ok = ok and k["targets"] == {f"ph{i}": ["|".join(path)] for i in range(n)}
        ctx.true("DymosDesignParamsFromDict", ok, f"{path} {kind} {unit} opt={opt} dynamic={dyn}: {t.calls}")
    for name in ("a|b|c", "zz", "a|noval"):
        t = Traj(1)
        try:
            DymosDesignParamsFromDict({"a": {"noval": {"units": "m"}}}, t).add_output_from_dict(name)
            r = False
        except KeyError:
            r = True
        ctx.ev()
        ctx.true("DymosDesignParamsFromDict:missing", r and not t.calls, f"{name} accepted")


def _label(ctx):
    from openconcept.utilities import DVLabel

    vals = [1.5, np.ones(3), np.ones((2, 2)), np.float64(2.0), 3]
    ents = list(itertools.product(range(len(vals)), (None, "ft", "kW")))
    conv = {"ft": ("m", 0.3048), "kW": ("W", 1e3)}
    for n in (1, 2):
        for combo in itertools.product(ents, repeat=n):
            spec = [[f"i{j}", f"o{j}", vals[v], u] for j, (v, u) in enumerate(combo)]
            for again in (0, 1):  # the same list labels the same variables in a second component
                p = om.Problem(reports=False)
                p.model.add_subsystem("c", DVLabel(spec), promotes=["*"])
                p.setup(check=False)
                ctx.ev()
                ctx.state((combo, again))
                for j, (v, u) in enumerate(combo):
                    ctx.close("DVLabel:default", p.get_val(f"i{j}"), np.reshape(vals[v], p.get_val(f"i{j}").shape), 1e-14, 0.0, f"default of {combo}")
                    sh = p.get_val(f"i{j}").shape
                    x = np.arange(1.0, 1 + int(np.prod(sh))).reshape(sh) * (j + 1) - 2.5
                    p.set_val(f"i{j}", x, units=u)
                p.run_model()
                for j, (v, u) in enumerate(combo):
                    sh = p.get_val(f"i{j}").shape
                    x = np.arange(1.0, 1 + int(np.prod(sh))).reshape(sh) * (j + 1) - 2.5
                    ctx.close("DVLabel", p.get_val(f"o{j}", units=u), x, 1e-14, 0.0, f"label {j} of {combo}")
                    if u:
                        ctx.close("DVLabel:units", p.get_val(f"o{j}", units=conv[u][0]), x * conv[u][1], 1e-12, 0.0, f"label {j} of {combo} in {conv[u][0]}")
                J = p.compute_totals(of=[f"o{j}" for j in range(n)], wrt=[f"i{j}" for j in range(n)], return_format="flat_dict")
                for (a, b), m in J.items():
                    ctx.close("DVLabel:totals", m, np.eye(m.shape[0]) if a[1:] == b[1:] else np.zeros_like(m), 1e-14, 1e-14, f"d{a}/d{b} of {combo}")


def _group(nn, body, shape=None):
    from openconcept.mission import IntegratorGroup

    class G(IntegratorGroup):
        def setup(self):
            ivc = self.add_subsystem("src", om.IndepVarComp())
            for i in range(3):
                ivc.add_output(f"p{i}", val=np.ones(nn), units="kW")
            ext = self.add_subsystem("ext", om.IndepVarComp(), promotes_outputs=["*"])
            for i in range(2):
                ext.add_output(f"q{i}", val=np.ones(nn), units="kW")
            if shape:
                sq = self.add_subsystem("sq", om.IndepVarComp())
                for c in "ab":
                    sq.add_output(c, val=np.ones(shape), units="kW")
            body(self)

    p = om.Problem(reports=False)
    p.model.add_subsystem("ph", G(num_nodes=nn))
    return p


def _vals(nn, k):
    a = np.linspace(-1.0, 2.0, nn) if nn > 1 else np.array([0.7])
    X = {f"src.p{i}": (i + 1) * a + k for i in range(3)}
    X.update({f"q{i}": 10.0 * (i + 1) - a * k for i in range(2)})
    return X


def _sums(ctx):
    """Sums declared with promote_add: every choice of connected and promoted sources, factors, sizes and units."""
    srcs = [[], ["src.p0"], ["src.p1", "src.p0"], ["src.p0", "src.p1", "src.p2"]]
    prom = [[], ["q0"], ["q1", "q0"]]
    for nn, s, q, fac, units in itertools.product((1, 3), srcs, prom, (False, True), ("kW", "W")):
        names = s + q
        if len(names) < 2:  # a sum has at least two terms
            continue
        f = [1.0, -2.0, 0.5, 3.0, -1.5][: len(names)] if fac else None

        def body(g):
            kw = dict(promoted_sources=q) if q else {}
            g.promote_add(sources=s, prom_name="tot", vec_size=nn, units=units, **kw, **({} if f is None else dict(factors=f)))
            g.promote_add(sources=["src.p2", "src.p1"], prom_name="tot2", factors=[1.0, -1.0], vec_size=nn, units="kW")
            g.promote_mult("tot2", prom_name="half", factor=0.5, vec_size=nn, units="kW")

        p = _group(nn, body)
        for rep in range(2):
            p.setup(check=False)
            for k in (1.0, -3.0):
                X = _vals(nn, k)
                for n, v in X.items():
                    p.set_val("ph." + n, v, units="kW")
                p.run_model()
                ctx.ev()
                ctx.state((nn, tuple(s), tuple(q), fac, units, rep, k))
                want = sum((1.0 if f is None else f[i]) * X[n] for i, n in enumerate(names))
                what = f"sum of {names} factors {f}, setup {rep + 1}"
                ctx.close("promote_add", p.get_val("ph.tot", units="kW"), want, 1e-12, 1e-12, what)
                ctx.close("promote_add:second", p.get_val("ph.tot2", units="kW"), X["src.p2"] - X["src.p1"], 1e-12, 1e-12, what)
                ctx.close("promote_mult:of-sum", p.get_val("ph.half", units="kW"), 0.5 * (X["src.p2"] - X["src.p1"]), 1e-12, 1e-12, what)


def _factors(ctx):
    for nn, src, fac, units, div in itertools.product((1, 3), ("src.p0", "src.p2", "q1"), (2.0, -0.25, 0.0), ("kW", "W"), (None, [False], [True])):

        def body(g):
            g.promote_mult(src, prom_name="y", factor=fac, vec_size=nn, units=units, **({} if div is None else dict(divide=div)))

        p = _group(nn, body)
        for rep in range(2):
            p.setup(check=False)
            X = _vals(nn, 4.0)
            for n, v in X.items():
                p.set_val("ph." + n, v, units="kW")
            p.run_model()
            ctx.ev()
            ctx.state((nn, src, fac, units, str(div), rep))
            if div == [True]:
                ctx.close("promote_mult:divide", p.get_val("ph.y", units="1/kW"), fac / X[src], 1e-12, 1e-12, f"{fac} / {src}, units {units}")
            else:
                ctx.close("promote_mult", p.get_val("ph.y", units="kW"), fac * X[src], 1e-12, 1e-12, f"{fac} x {src}, units {units}")


META = {"val": 3.5, "lower": -7.0, "upper": 11.0, "ref": 4.0, "ref0": -2.0, "res_ref": 5.0, "res_units": "W", "desc": "words", "length": 2}


def _declared(ctx):
    """What is declared for a promoted sum or factor is what its output carries; a tagged factor is integrated over the phase."""
    subs = [c for k in (0, 1, 2, len(META)) for c in itertools.combinations(META, k)]
    for kind, sub in itertools.product(("add", "mult"), subs):
        kw = {k: META[k] for k in sub}
        length = kw.get("length", 1)

        def body(g):
            if kind == "add":
                g.promote_add(sources=["sq.a", "sq.b"], prom_name="y", vec_size=3, units="kW", **kw)
            else:
                g.promote_mult("sq.a", prom_name="y", factor=2.0, vec_size=3, units="kW", **kw)

        shape = (3, 2) if length == 2 else (3,)
        p = _group(3, body, shape)
        p.setup(check=False)
        p.final_setup()
        keys = ("units", "val", "lower", "upper", "ref", "ref0", "res_ref", "res_units", "desc", "shape")
        m = next(v for k, v in p.model.get_io_metadata(iotypes="output", metadata_keys=keys).items() if v["prom_name"] == "ph.y")
        ctx.ev()
        ctx.state((kind, sub))
        what = f"promote_{kind} declared with {kw}"
        want = {"val": 1.0, "lower": None, "upper": None, "ref": 1.0, "ref0": 0.0, "res_ref": kw.get("ref", 1.0), "res_units": None, "desc": ""}
        for k in want:
            w, g = kw.get(k, want[k]), m[k]
            same = g is None if w is None else (g == w if isinstance(w, str) else g is not None and np.allclose(np.asarray(g, dtype=float), w, rtol=1e-14))
            if k == "res_units" and w is None:
                same = g in (None, "kW")
            ctx.true(f"promote_{kind}:{k}", bool(same), f"{what}: the output has {k} = {g}, expected {w}")
        ctx.true(f"promote_{kind}:units", m["units"] == "kW", f"{what}: units {m['units']}")
        ctx.true(f"promote_{kind}:shape", tuple(m["shape"]) == shape, f"{what}: shape {m['shape']}")
        A, B = np.arange(3.0 * length).reshape(shape) + 1.0, np.cos(np.arange(3.0 * length)).reshape(shape)
        p.set_val("ph.sq.a", A, units="kW")
        p.set_val("ph.sq.b", B, units="kW")
        p.run_model()
        ctx.close(f"promote_{kind}:value", p.get_val("ph.y", units="kW"), A + B if kind == "add" else 2.0 * A, 1e-12, 1e-12, what)


# ------------------------------------------------------------------ plots
class Fake:
    """Stands for a solved problem or a recorded case."""

    def __init__(self, k):
        self.k = k

    def get_val(self, name, units=None):
        ph, var = name.split(".", 1)
        n = 3 + 2 * int(ph[-1])
        return (np.linspace(0, 1, n) * (1 + self.k) + int(ph[-1]) + 10 * (ord(var[-1]) - 97)) * {"m": 1.0, "ft": 1 / 0.3048, None: 1.0}[units]


def _plt():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.close("all")
    return plt


def _want(case, var, unit, phases):
    return np.concatenate([case.get_val(f"{ph}.{var}", units=unit) for ph in phases])


def _plot(ctx):
    from openconcept.utilities import plot_trajectory

    plt = _plt()
    ys = ["va", "vb", "vc"]
    plt.show, show = (lambda *a, **k: None), plt.show
    try:
        for nph, ny, xu, lab in itertools.product((1, 2, 3), (1, 2, 3), ("m", "ft"), (None, "all", "some")):
            phases = [f"ph{i}" for i in range(nph)][:: (-1 if nph == 2 else 1)]
            units = ["ft", "m", None][:ny]
            labels = None if lab is None else [("L%d" % i if lab == "all" or i % 2 == 0 else None) for i in range(ny)]
            plt.close("all")
            plot_trajectory(Fake(0.5), "vx", xu, ys[:ny], units, phases, x_label=None if lab is None else "X", y_labels=labels, plot_title="T")
            figs = [plt.figure(n) for n in plt.get_fignums()]
            ctx.ev()
            ctx.state((nph, ny, xu, lab))
            ctx.true("plot_trajectory:figures", len(figs) == ny, f"{len(figs)} figures for {ny} variables")
            for i, fg in enumerate(figs[:ny]):
                (ln,) = fg.axes[0].lines
                what = f"{ys[i]} over phases {phases}"
                ctx.close("plot_trajectory:x", ln.get_xdata(), _want(Fake(0.5), "vx", xu, phases), 1e-12, 0, what)
                ctx.close("plot_trajectory:y", ln.get_ydata(), _want(Fake(0.5), ys[i], units[i], phases), 1e-12, 0, what)
                ctx.true("plot_trajectory:labels", fg.axes[0].get_xlabel() == ("vx" if lab is None else "X") and fg.axes[0].get_ylabel() == (ys[i] if lab is None else (labels[i] or "")), what)
    finally:
        plt.show = show
        plt.close("all")


def _grid(ctx, layout):
    from openconcept.utilities import plot_trajectory_grid

    plt = _plt()
    ys = ["va", "vb", "vc", "vd", "ve"]
    saved = []
    plt.savefig, orig = (lambda name, *a, **k: saved.append((plt.gcf().number, name))), plt.savefig
    try:
        for nph, nc, ny, lab, save in itertools.product((1, 2), (1, 2), (1, 2, 3, 5), (None, "all", "some"), (None, "out")):
            phases = [f"ph{i}" for i in range(nph)]
            units = ["ft", "m", None, "ft", "m"][:ny]
            labels = None if lab is None else [("L%d" % i if lab == "all" or i % 2 == 0 else None) for i in range(ny)]
            plt.close("all")
            saved.clear()
            cases = [Fake(0.5 * j) for j in range(nc)]
            plot_trajectory_grid(cases, "vx", "m", ys[:ny], units, phases, y_labels=labels, grid_layout=layout, savefig=save)
            nums = plt.get_fignums()
            per = layout[0] * layout[1]
            pages = -(-ny // per)
            ctx.ev()
            ctx.state((nph, nc, ny, tuple(layout), lab, save))
            what = f"{ny} variables on {layout} labels {lab}"
            ctx.true("plot_trajectory_grid:pages", len(nums) == pages, f"{what}: {len(nums)} pages")
            if save:
                ctx.true("plot_trajectory_grid:files", sorted(saved) == [(nums[i], f"out_{i}.pdf") for i in range(pages)], f"{what}: {saved}")
            for i in range(ny):
                ax = plt.figure(nums[i // per]).axes[i % per]
                lines = ax.lines
                ctx.true("plot_trajectory_grid:lines", len(lines) == nc, f"{what}: {len(lines)} lines for {nc} cases")
                for j, ln in enumerate(lines):
                    ctx.close("plot_trajectory_grid:x", ln.get_xdata(), _want(cases[j], "vx", "m", phases), 1e-12, 0, what)
                    ctx.close("plot_trajectory_grid:y", ln.get_ydata(), _want(cases[j], ys[i], units[i], phases), 1e-12, 0, what)
                ctx.true("plot_trajectory_grid:label", ax.get_ylabel() == (ys[i] if lab is None else (labels[i] or "")), f"{what}: y label {ax.get_ylabel()!r}")
    finally:
        plt.savefig = orig
        plt.close("all")


def _meshes():
    for nx, ny, sweep, taper, unif in itertools.product((2, 3, 4), (2, 3, 5), (0.0, 0.6), (1.0, 0.4), (True, False)):
        y = -np.linspace(8.0, 0.0, ny) if unif else -8.0 * np.linspace(1, 0, ny) ** 1.7
        c = 2.0 * (1 - (1 - taper) * (-y / 8.0))
        xi = np.linspace(0, 1, nx) if unif else np.linspace(0, 1, nx) ** 2
        X = (-y * sweep)[None, :] + xi[:, None] * c[None, :]
        m = np.zeros((nx, ny, 3))
        m[:, :, 0], m[:, :, 1] = X, y[None, :]
        yield (nx, ny, sweep, taper, unif), m


def _contours(ctx):
    from openconcept.utilities import plot_OAS_force_contours

    plt = _plt()

    class Axis:
        def __init__(self):
            self.calls, self.lim = [], None

        def contourf(self, x, y, z, **kw):
            self.calls.append((np.array(x), np.array(y), np.array(z), kw))
            return "contours"

        def set_aspect(self, *_):
            pass

        set_axis_off = set_aspect

        def set_xlim(self, lim):
            self.lim = lim

    for ident, m in _meshes():
        nx, ny = m.shape[:2]
        # exact panel areas of the planform (trapezoids)
        x, y = m[:, :, 0], m[:, :, 1]
        A = np.zeros((nx - 1, ny - 1))
        for i in range(nx - 1):
            for j in range(ny - 1):
                P = [(x[i, j], y[i, j]), (x[i + 1, j], y[i + 1, j]), (x[i + 1, j + 1], y[i + 1, j + 1]), (x[i, j + 1], y[i, j + 1])]
                A[i, j] = 0.5 * abs(sum(P[k][0] * P[(k + 1) % 4][1] - P[(k + 1) % 4][0] * P[k][1] for k in range(4)))
        for d, wing in itertools.product((0, 1, 2), ("left", "right", "both")):
            for pat in ("uniform", "varied"):
                pr = np.full((nx - 1, ny - 1), 37.0) if pat == "uniform" else 5.0 + np.arange((nx - 1) * (ny - 1), dtype=float).reshape(nx - 1, ny - 1) ** 1.5
                F = np.full((nx - 1, ny - 1, 3), -1e7)
                F[:, :, d] = pr * A
                ax = Axis()
                r = plot_OAS_force_contours(m, F, ax=ax, wing=wing, force_dir=d, levels=3)
                ctx.ev()
                ctx.state((ident, d, wing, pat))
                # each panel's pressure acts at its quarter chord; averages at the nodes
                z = np.zeros((nx, ny))
                wt = np.zeros((nx, ny))
                for i in range(nx - 1):
                    for j in range(ny - 1):
                        for a, b, w in ((0, 0, 0.75), (0, 1, 0.75), (1, 0, 0.25), (1, 1, 0.25)):
                            z[i + a, j + b] += w * pr[i, j]
                            wt[i + a, j + b] += w
                z /= wt
                what = f"mesh {ident}, force {d}, wing {wing}, {pat} pressure"
                ctx.true("plot_OAS_force_contours:calls", r == "contours" and len(ax.calls) == 1 and ax.calls[0][3] == dict(levels=3), what)
                gx, gy, gz, _ = ax.calls[0]
                wx, wy = {"left": (y, -x), "right": (-y, -x), "both": (np.hstack((y, -y[:, ::-1])), np.hstack((-x, -x[:, ::-1])))}[wing]
                ctx.close("plot_OAS_force_contours:x", gx, wx, 1e-12, 1e-12, what)
                ctx.close("plot_OAS_force_contours:y", gy, wy, 1e-12, 1e-12, what)
                lim = np.ravel(ax.lim) if ax.lim is not None else np.zeros(2)
                ctx.true("plot_OAS_force_contours:xlim", ax.lim is not None and lim[0] <= gx.min() + 1e-12 and lim[1] >= gx.max() - 1e-12 and (wing != "both" or np.allclose(lim, (gx.min(), gx.max()), atol=1e-12)), what)
                if pat == "varied" and d == 2 and nx < 4:
                    free = Axis()
                    plot_OAS_force_contours(m, F, ax=free, wing=wing, force_dir=d, set_xlim=False)
                    ctx.true("plot_OAS_force_contours:own-limits", free.lim is None, what)
                    if pr.max() > pr.min():
                        out = plot_OAS_force_contours(m, F, wing=wing, force_dir=d, levels=4)
                        ctx.true("plot_OAS_force_contours:own-figure", len(out) == 3 and out[2] in out[1].axes and out[0].zmin >= z.min() - 1e-9 and out[0].zmax <= z.max() + 1e-9, what)
                        plt.close(out[1])
                ctx.close("plot_OAS_force_contours:pressure", gz, np.hstack((z, z[:, ::-1])) if wing == "both" else z, 1e-9, 0.0, what)
    bad = 0
    for wing, d in (("top", 2), ("both", 3), ("both", -1), ("Left", 0)):
        try:
            plot_OAS_force_contours(m, F, ax=Axis(), wing=wing, force_dir=d)
        except ValueError:
            bad += 1
        ctx.ev()
    ctx.true("plot_OAS_force_contours:refused", bad == 4, f"{4 - bad} invalid options accepted")
    plt.close("all")


def _mesh(ctx):
    from openconcept.utilities import plot_OAS_mesh

    plt = _plt()
    for ident, m in _meshes():
        for lim, own in itertools.product((True, False), (True, False)):
            if own:
                fig, ax = plot_OAS_mesh(m, set_xlim=lim)
            else:
                fig, ax = plt.subplots()
                r = plot_OAS_mesh(m, ax=ax, set_xlim=lim)
                ctx.true("plot_OAS_mesh:return", r is None, f"{ident}")
            ctx.ev()
            ctx.state((ident, lim, own))
            x, y = m[:, :, 0], m[:, :, 1]
            Y = np.hstack((y, -y[:, -2::-1]))
            X = np.hstack((x, x[:, -2::-1]))
            segs = [s for c in ax.collections if hasattr(c, "get_segments") for s in c.get_segments()]
            want = [np.column_stack((Y[i], -X[i])) for i in range(len(Y))] + [np.column_stack((Y[:, j], -X[:, j])) for j in range(Y.shape[1])]
            ctx.true("plot_OAS_mesh:segments", len(segs) == len(want) and all(np.allclose(a, b, atol=1e-12) for a, b in zip(segs, want)), f"mesh lines of {ident}")
            if lim:
                ctx.close("plot_OAS_mesh:xlim", ax.get_xlim(), (Y.min(), Y.max()), 1e-12, 1e-12, f"{ident}")
            plt.close(fig)

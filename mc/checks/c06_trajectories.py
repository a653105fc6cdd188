"""C06: tagged rates are integrated over their phase and carried over every declared phase link."""
import itertools

import numpy as np

from mc.checks.c01_integrators import refM
from mc.omx import om

PROPERTY = "C06"
LEVEL = "model_checking"
RULE = (
    "models: every trajectory of 1-3 phases whose phases hold any subset of seven integration sites (tagged rate directly in a phase, "
    "two tagged rates on one component with one promoted state, nested in plain groups, integration group within an integration "
    "group, an explicitly added integrator, promoted to the phase, final value only or always starting from zero), every link set over the ordered phase pairs (a phase started by up to two others, each carrying any subset of the eight states), every single state "
    "skipped by either of its names, top-level or nested placement, phases named like one another, like their own parts or promoted to the trajectory; the rates which the library's own components and tagged factors declare; histories: every sequence of {set up, run inputs 1, run inputs 2} "
    "to the stated depth. The reference model carries each state (path -> initial value, unit) over the links and integrates exactly "
    "with Simpson's rule. States: distinct (model, history position); transitions: operations performed; each is validated on the implementation."
)
BOUNDS = "phases <= 3, nodes 3/5/7 (1 for single-point), all 127 site subsets for pairs (quick: x 8 partner subsets, thorough: x 127), histories depth 4 (6 thorough)"
ASSUMPTIONS = ["rates are independent inputs (no feedback of the state on its own rate); feedback is covered by the solved missions of C07"]

# site -> list of (path of the state inside the phase, rate units, state units, time units, default initial)
SITES = "ABCDEFG"
# name within the phase: (rate path, state path, initial path, final path, rate unit, state unit, to-SI factor rate, state value factor)
K = {
    "A": [dict(rate="a.src.r", st="a.ode_integ.fuel", ini="a.ode_integ.fuel_initial", fin="a.ode_integ.fuel_final", ru="kg/s", su="kg", f=1.0, skip=["a.ode_integ.fuel"], ini0=0.0)],
    "B": [
        dict(rate="b.src.r1", st="b.ode_integ.e1", ini="b.ode_integ.e1_initial", fin="b.ode_integ.e1_final", ru="W", su="kJ", f=1e-3, skip=["b.ode_integ.e1"], ini0=0.0),
        dict(rate="b.src.r2", st="b.e2", ini="b.e2_initial", fin="b.e2_final", ru="lbm/h", su="kg", f=0.45359237 / 3600, skip=["b.ode_integ.e2", "b.e2"], ini0=0.0),
    ],
    "C": [dict(rate="c.d.e.src.r", st="c.d.e.ode_integ.T", ini="c.d.e.ode_integ.T_initial", fin="c.d.e.ode_integ.T_final", ru="degK/min", su="degK", f=1 / 60.0, skip=["c.d.e.ode_integ.T"], ini0=0.0)],
    "D": [dict(rate="ode_integ_phase.vs", st="ode_integ_phase.h", ini="ode_integ_phase.h_start", fin="ode_integ_phase.h_end", ru="ft/min", su="m", f=0.3048 / 60, jf=1.0, skip=["ode_integ_phase.h"], ini0=0.0)],
    "E": [
        dict(rate="o.src.r", st="o.ode_integ.x", ini="o.ode_integ.x_initial", fin="o.ode_integ.x_final", ru="m/s", su="m", f=1.0, skip=["o.ode_integ.x"], ini0=0.0),
        dict(rate="o.i.src.r", st="o.i.ode_integ.x", ini="o.i.ode_integ.x_initial", fin="o.i.ode_integ.x_final", ru="m/s", su="m", f=1.0, skip=["o.i.ode_integ.x"], ini0=0.0),
    ],
    "G": [  # a state of which only the final value is integrated, and one that always starts from zero
        dict(rate="g.dw", st="g.w", ini="g.w_initial", fin="g.w_final", ru="kg/s", su="kg", f=1.0, skip=["g.w"], ini0=0.0, fo=True),
        dict(rate="g.dz", st="g.z", ini="g.z_initial", fin="g.z_final", ru="m/min", su="m", f=1 / 60.0, jf=1.0, skip=["g.z"], ini0=0.0, zs=True),
    ],
    "F": [dict(rate="f_rate", st="soc", ini="soc_initial", fin="soc_final", ru="1/s", su=None, f=1.0, skip=["f.ode_integ.soc", "soc"], ini0=0.0)],
}


def tagged(name, nn, units, state, state_units, extra=()):
    return dict(name=name, val=np.zeros(nn), units=units, tags=["integrate", "state_name:" + state] + (["state_units:" + state_units] if state_units else []) + list(extra))


def classes():
    from openconcept.mission import IntegratorGroup, PhaseGroup, TrajectoryGroup
    from openconcept.utilities import Integrator

    class IG(IntegratorGroup):
        def __init__(self, rates=(), inner=None, **kw):
            super().__init__(**kw)
            self._rates, self._inner = rates, inner

        def setup(self):
            iv = self.add_subsystem("src", om.IndepVarComp())
            for r in self._rates:
                iv.add_output(**{k: (list(v) if k == "tags" else v) for k, v in r.items()})
            if self._inner:
                self.add_subsystem("i", self._inner())

    class Wrap(om.Group):
        def __init__(self, name, sub, **kw):
            super().__init__(**kw)
            self._name, self._sub = name, sub

        def setup(self):
            self.add_subsystem(self._name, self._sub())

    class Prom(IntegratorGroup):
        def setup(self):
            nn = self.options["num_nodes"]
            iv = self.add_subsystem("src", om.IndepVarComp(), promotes_outputs=["*"])
            iv.add_output(**tagged("f_rate", nn, "1/s", "soc", None, ["state_promotes:True"]))

    class Phase(PhaseGroup):
        def __init__(self, sites="", durunit="s", **kw):
            super().__init__(**kw)
            self._sites, self._durunit = sites, durunit

        def setup(self):
            nn = self.options["num_nodes"]
            self.add_subsystem("iv", om.IndepVarComp("duration", val=1.0, units=self._durunit), promotes_outputs=["*"])
            s = self._sites
            if "D" in s:
                integ = self.add_subsystem("ode_integ_phase", Integrator(num_nodes=nn, diff_units="s", time_setup="duration", method="simpson"))
                integ.add_integrand("h", rate_name="vs", start_name="h_start", end_name="h_end", units="m")
            if "A" in s:
                self.add_subsystem("a", IG([tagged("r", nn, "kg/s", "fuel", "kg")], num_nodes=nn))
            if "B" in s:
                self.add_subsystem(
                    "b",
                    IG([tagged("r1", nn, "W", "e1", "kJ"), tagged("r2", nn, "lbm/h", "e2", "kg", ["state_promotes:True", "state_lower:-1e20"])], num_nodes=nn, time_units="min"),
                )
            if "C" in s:
                self.add_subsystem("c", Wrap("d", lambda: Wrap("e", lambda: IG([tagged("r", nn, "degK/min", "T", "degK", ["state_val:300.0"])], num_nodes=nn, time_units="min"))))
            if "E" in s:
                self.add_subsystem("o", IG([tagged("r", nn, "m/s", "x", "m")], lambda: IG([tagged("r", nn, "m/s", "x", "m")], num_nodes=nn), num_nodes=nn))
            if "G" in s:
                integ = self.add_subsystem("g", Integrator(num_nodes=nn, diff_units="s", time_setup="duration", method="simpson"))
                integ.add_integrand("w", rate_name="dw", units="kg", final_only=True)
                integ.add_integrand("z", rate_name="dz", units="m", zero_start=True)
            if "F" in s:
                self.add_subsystem("f", Prom(num_nodes=nn), promotes_inputs=["*"], promotes_outputs=["*"])

    class Traj(TrajectoryGroup):
        def __init__(self, spec=None, **kw):
            super().__init__(**kw)
            self._spec = spec
            if spec["static"]:
                self._add()

        def _add(self):
            sp = self._spec
            ph = [
                self.add_subsystem(sp["names"][i], Phase(sites=s, durunit=sp["durunits"][i], num_nodes=n), promotes=["*"] if i in sp["prom"] else None)
                for i, (s, n) in enumerate(sp["phases"])
            ]
            for a, b, skip in sp["links"]:
                if skip:
                    self.link_phases(ph[a], ph[b], states_to_skip=list(skip))
                else:
                    self.link_phases(ph[a], ph[b])

        def setup(self):
            if not self._spec["static"]:
                self._add()

    return Traj


def spec(phases, links, static=False, nested=0, durunits=None, names=("p0", "p1", "p2"), prom=()):
    """`names`: what the phases are called; `prom`: the phases of which everything is promoted to the trajectory."""
    return dict(phases=phases, links=links, static=static, nested=nested, durunits=durunits or ["s", "min", "s"][: len(phases)], names=names, prom=prom)


def at(sp, i, path):
    return path if i in sp["prom"] else f"{sp['names'][i]}.{path}"


def make(sp):
    p = om.Problem(reports=False)
    Traj = classes()
    if sp["nested"] == 0:
        p.model = Traj(sp)
        pre = ""
    else:
        g, pre = p.model, ""
        for k in range(sp["nested"]):
            name = "p0" if k == sp["nested"] - 1 else "g%d" % k  # the trajectory's own name may look like a phase name
            pre += name + "."
            if k == sp["nested"] - 1:
                g.add_subsystem(name, Traj(sp))
            else:
                g = g.add_subsystem(name, om.Group())
    return p, pre


def states(sites):
    return [s for k in sites for s in K[k]]


def inputs(sp, which):
    """Distinct values for every rate, initial value and duration."""
    x = {}
    c = 1
    for i, (sites, n) in enumerate(sp["phases"]):
        x[i, "duration"] = [37.0, 3.1, 0.0, 211.0, 13.0, 7.7][(i + 3 * which) % 6] * (1 if not (which == 1 and i == 1) else -1)
        for s in states(sites):
            c += 1
            x[i, s["rate"]] = np.array([((c * 7919 + k * 104729 + which * 1299709) % 1009) / 100.0 - 4 for k in range(n)])
            x[i, s["ini"]] = ((c * 611953 + which * 15485863) % 997) / 10.0 - 30
    return x


def predict(sp, x):
    """The reference model."""
    val = {}
    linked = {}
    for a, b, skip in sp["links"]:
        sa = {s["st"] for s in states(sp["phases"][a][0])}
        for s in states(sp["phases"][b][0]):
            if s["st"] in sa and not s.get("zs") and not (set(skip) & set(s["skip"])):
                linked[b, s["st"]] = a
    done = {}
    todo = list(range(len(sp["phases"])))

    def phase_state(i, s):
        if (i, s["st"]) in done:
            return done[i, s["st"]]
        n = sp["phases"][i][1]
        y0 = phase_state(linked[i, s["st"]], s)[-1] if (i, s["st"]) in linked else 0.0 if s.get("zs") else x[i, s["ini"]]
        d = x[i, "duration"] * {"s": 1.0, "min": 60.0, "h": 3600.0}[sp["durunits"][i]]
        dt = d / max(n - 1, 1)
        y = y0 + dt * refM("simpson", n) @ (x[i, s["rate"]] * s["f"])
        done[i, s["st"]] = y
        return y

    for i in todo:
        for s in states(sp["phases"][i][0]):
            val[i, s["st"]] = phase_state(i, s)
    return val, linked


def put(p, pre, sp, x, linked):
    for (i, k), v in x.items():
        if k == "duration":
            p.set_val(f"{pre}{at(sp, i, 'duration')}", v, units=sp["durunits"][i])
    for i, (sites, n) in enumerate(sp["phases"]):
        for s in states(sites):
            p.set_val(f"{pre}{at(sp, i, s['rate'])}", x[i, s["rate"]], units=s["ru"])
            if (i, s["st"]) not in linked and not s.get("zs"):
                p.set_val(f"{pre}{at(sp, i, s['ini'])}", x[i, s["ini"]], units=s["su"])


def compare(ctx, p, pre, sp, x, key, where):
    val, linked = predict(sp, x)
    for (i, st), y in val.items():
        s = next(s for s in states(sp["phases"][i][0]) if s["st"] == st)
        sc = 1e-9 * (1 + np.max(np.abs(y)))
        if not s.get("fo"):
            got = p.get_val(f"{pre}{at(sp, i, st)}", units=s["su"])
            ctx.outcome(got)
            ctx.close(f"{key}:{i}.{st}", got, y, 1e-9, sc, f"state p{i}.{st} {where}", spec=sp)
        ctx.close(f"{key}:{i}.{st}_final", p.get_val(f"{pre}{at(sp, i, s['fin'])}", units=s["su"]), y[-1:], 1e-9, sc, f"final value of p{i}.{st} {where}", spec=sp)


def run_model(ctx, sp, key, history="SR"):
    """One operation history on one trajectory."""
    p, pre = make(sp)
    for pos, op in enumerate(history):
        if op == "S":
            p.model.linear_solver = om.DirectSolver()
            p.setup(check=False)
            p.set_solver_print(level=-1)
            ctx.step()
            ctx.state((key, history[: pos + 1]))
            continue
        which = 0 if op == "R" else 1
        x = inputs(sp, which)
        _, linked = predict(sp, x)
        put(p, pre, sp, x, linked)
        p.run_model()
        ctx.ev()
        ctx.step()
        ctx.state((key, history[: pos + 1]))
        compare(ctx, p, pre, sp, x, key, f"after {history[:pos + 1]}")
    return p, pre


def totals(ctx, p, pre, sp, x, key):
    """d(state)/d(initial, duration, rate) across the links."""
    val, linked = predict(sp, x)
    nph = len(sp["phases"])
    for s in states(sp["phases"][-1][0]):
        # walk back the chain
        chain = [nph - 1]
        while (chain[-1], s["st"]) in linked:
            chain.append(linked[chain[-1], s["st"]])
        of = f"{pre}p{nph - 1}.{s['st']}"
        wrt_i = f"{pre}p{chain[-1]}.{s['ini']}"
        wrt = [wrt_i] + [f"{pre}{at(sp, i, 'duration')}" for i in range(nph)] + [f"{pre}{at(sp, i, s['rate'])}" for i in range(nph) if s in states(sp["phases"][i][0])]
        J = p.compute_totals(of=[of], wrt=wrt)
        n = sp["phases"][-1][1]
        ctx.close(f"{key}:dinitial:{s['st']}", J[of, wrt_i].ravel(), np.ones(n), 1e-9, 1e-12, f"d {of} / d {wrt_i}")
        for i in range(nph):
            if s not in states(sp["phases"][i][0]):
                continue
            ni = sp["phases"][i][1]
            sec = {"s": 1.0, "min": 60.0}[sp["durunits"][i]]
            M = refM("simpson", ni) * sec * s.get("jf", s["f"]) / max(ni - 1, 1)
            rate, d = x[i, s["rate"]] * s["f"] / s.get("jf", s["f"]), x[i, "duration"]
            if i not in chain:
                wd, wr = np.zeros(n), np.zeros((n, ni))
            elif i == nph - 1:
                wd, wr = M @ rate, M * d
            else:
                wd, wr = np.ones(n) * (M[-1] @ rate), np.tile(M[-1] * d, (n, 1))
            # totals come in the units of the variables
            ctx.close(f"{key}:dduration:{s['st']}", J[of, f"{pre}{at(sp, i, 'duration')}"].ravel(), wd, 1e-9, 1e-9 * (1 + np.max(np.abs(wd))), f"d {of} / d p{i}.duration", spec=sp)
            ctx.close(f"{key}:drate:{s['st']}", J[of, f"{pre}{at(sp, i, s['rate'])}"], wr, 1e-9, 1e-9 * (1 + np.max(np.abs(wr))), f"d {of} / d p{i}.{s['rate']}", spec=sp)


def subsets():
    return ["".join(c) for k in range(1, len(SITES) + 1) for c in itertools.combinations(SITES, k)]


def shards(tier):
    out = []
    subs = subsets()
    partners = ["A", "BF", "CD", "E", "ABCDEFG", "BCE", "ADF", "FG"] if tier == "quick" else subs
    for i in range(8):
        out.append((f"pairs{i}", dict(kind="pairs", first=subs[i::8], partners=partners)))
    out.append(("singles", dict(kind="singles")))
    for i in range(4):
        out.append((f"links{i}", dict(kind="links", part=i, of=4)))
    for i in range(4):
        out.append((f"joins{i}", dict(kind="joins", part=i)))
    for i in range(3):
        out.append((f"skips{i}", dict(kind="skips", part=i)))
    for i in range(2):
        out.append((f"names{i}", dict(kind="names", part=i)))
    for st in (False, True):
        for nested in (0, 1):
            out.append((f"histories:static{st}:nested{nested}", dict(kind="histories", static=st, nested=nested)))
    out.append(("totals", dict(kind="totals")))
    out.append(("tags", dict(kind="tags")))
    out.append(("errors", dict(kind="errors")))
    out.append(("library", dict(kind="library")))
    return out


def run(ctx, prm):
    globals()["run_" + prm["kind"]](ctx, prm)


def run_pairs(ctx, prm):
    for a in prm["first"]:
        for b in prm["partners"]:
            sp = spec([(a, 3), (b, 5)], [(0, 1, ())])
            run_model(ctx, sp, f"pair:{a}-{b}")
    ctx.sample(dict(spec=sp, predicted={f"p{k[0]}.{k[1]}": v for k, v in predict(sp, inputs(sp, 0))[0].items()}))


def run_singles(ctx, prm):
    for a in subsets():
        for n in (1, 3, 5, 7) if ctx.tier == "quick" else (1, 3, 5, 7, 9, 11, 21):
            run_model(ctx, spec([(a, n)], [], durunits=["min"]), f"single:{a}:n{n}", "SRX")


def all_links(n):
    pairs = [(a, b) for a in range(n) for b in range(n) if a < b]
    for k in range(len(pairs) + 1):
        for c in itertools.combinations(pairs, k):
            if len({b for _, b in c}) == len(c):  # a phase is started by one predecessor
                for perm in itertools.permutations(c):
                    yield [(a, b, ()) for a, b in perm]


def run_links(ctx, prm):
    """Every link set over three phases (chains, branches, partial), declared in every order, nested at every depth."""
    cases = [
        (links, ph, nested, static)
        for links in all_links(3)
        for ph in ([("ABCDEFG", 3), ("ABCDEFG", 5), ("ABCDEFG", 3)], [("ABFG", 5), ("BCDF", 3), ("BEFG", 3)])
        for nested in (0, 1, 2)
        for static in (False, True)
    ]
    for links, ph, nested, static in cases[prm["part"] :: prm["of"]]:
        run_model(ctx, spec(ph, links, static, nested), f"links:{[l[:2] for l in links]}:{ph[0][0]}:nested{nested}:static{static}")


def run_skips(ctx, prm):
    names = [n for k in SITES for s in K[k] for n in s["skip"]]
    cases = [c for k in (1, 2) for c in itertools.combinations(names, k)]
    for c in cases[prm["part"] :: 3]:
        sp = spec([("ABCDEF", 3), ("ABCDEF", 3)], [(0, 1, c)])
        run_model(ctx, sp, f"skip:{c}")
    # a skip list applies to its own link only
    for n1 in names[prm["part"] :: 3]:
        sp = spec([("ABCDEF", 3), ("ABCDEF", 3), ("ABCDEF", 3)], [(0, 1, (n1,)), (1, 2, ())])
        run_model(ctx, sp, f"skip1:{n1}")
        sp = spec([("ABCDEF", 3), ("ABCDEF", 3), ("ABCDEF", 3)], [(0, 1, ()), (1, 2, (n1,))], nested=1)
        run_model(ctx, sp, f"skip2:{n1}")


NAMES = [("cruise", "cruise2", "reserve_cruise"), ("b", "bb", "b2"), ("c", "o", "f"), ("s", "soc", "so"), ("p", "duration_phase", "initial"), ("ode_integ", "o", "e2")]


def run_names(ctx, prm):
    """Phases named like one another, like their own parts or like their states, or promoted to the trajectory: the links and the
    skipped states do not depend on it."""
    full = [("BCEFG", 3), ("BCEF", 5), ("BCDEFG", 3)]
    skips = [()] + [(n,) for k in "BCEFG" for s in K[k] for n in s["skip"]]
    cases = []
    for names in NAMES:
        for skip in skips:
            for which in ((0, 1), (1, 2), (0, 2)):
                links = [(a, b, skip if (a, b) == which else ()) for a, b in ((0, 1), (1, 2))] if which != (0, 2) else [(0, 1, skip), (0, 2, skip)]
                cases.append((names, links, ()))
    for pr in ((0,), (1,), (2,)):
        for skip in skips:
            cases.append((("p0", "p1", "p2"), [(0, 1, skip), (1, 2, ())], pr))
            cases.append((("p0", "p1", "p2"), [(0, 1, ()), (1, 2, skip)], pr))
            cases.append((("bus", "e", "soca"), [(0, 1, skip), (0, 2, skip)], pr))
    for j, (names, links, pr) in enumerate(cases):
        if j % 2 == prm["part"]:
            run_model(ctx, spec(full, links, static=j % 4 < 2, nested=j % 3, names=names, prom=pr), f"names:{names}:{links}:prom{pr}")


def run_joins(ctx, prm):
    """Links from two phases into one (and from one into two): every assignment of the eight states to the two predecessors."""
    sts = [s for k in "ABCDEF" for s in K[k]]
    full = [("ABCDEF", 3), ("ABCDEF", 5), ("ABCDEF", 3)]
    masks = list(range(2 ** len(sts)))
    for m in masks[prm["part"] :: 4]:
        frm0 = [s["skip"][m % len(s["skip"])] for i, s in enumerate(sts) if not m >> i & 1]
        frm1 = [s["skip"][-1] for i, s in enumerate(sts) if m >> i & 1]
        links = [(0, 2, tuple(frm1)), (1, 2, tuple(frm0))]
        run_model(ctx, spec(full, links[::-1] if m % 3 == 0 else links, nested=m % 2), f"join:{m}")
        if m % 4 == 0:  # a third phase links nothing at all / a state from neither predecessor
            links = [(0, 2, tuple(frm1 + frm0[:2])), (1, 2, tuple(frm0 + frm1[:1]))]
            run_model(ctx, spec(full, links, static=True), f"join-partial:{m}")


def run_histories(ctx, prm):
    depth = 4 if ctx.tier == "quick" else 6
    static, nested = prm["static"], prm["nested"]
    for ph in ([("ABF", 3), ("ABF", 5)], [("CDE", 3), ("CDE", 3)]):
        for tail in itertools.product("SRX", repeat=depth - 1):
            h = "S" + "".join(tail)
            if h.endswith("S"):
                continue
            run_model(ctx, spec(ph, [(0, 1, ())], static, nested), f"history:{ph[0][0]}:static{static}:nested{nested}", h)


def run_totals(ctx, prm):
    for links in all_links(3):
        for static in (False, True):
            sp = spec([("ABCDEF", 3), ("ABCDEF", 5), ("ABCDEF", 3)], links, static)
            p, pre = run_model(ctx, sp, f"totals:{links}", "SX" if static else "SR")
            totals(ctx, p, pre, sp, inputs(sp, 1 if static else 0), f"totals:{[l[:2] for l in links]}")


def run_tags(ctx, prm):
    """state_val / state_lower / state_upper / state_units tags reach the integrated variable."""
    from openconcept.mission import IntegratorGroup, PhaseGroup

    for val, lo, hi, un, prom, tu in itertools.product((None, "5.0", "[1.0, 2.0, 3.0]", "np.ones(3)*4"), (None, "-3.5"), (None, "1e4"), (("kg/s", "kg"), ("kg/s", "lbm"), ("1/s", None), (None, None)), (None, "True", "False"), ("s", "h")):
        tags = ["integrate", "state_name:q"]
        tags += [f"state_val:{val}"] if val else []
        tags += [f"state_lower:{lo}"] if lo else []
        tags += [f"state_upper:{hi}"] if hi else []
        tags += [f"state_units:{un[1]}"] if un[1] else []
        tags += [f"state_promotes:{prom}"] if prom else []

        class G(IntegratorGroup):
            def setup(self):
                iv = self.add_subsystem("src", om.IndepVarComp())
                iv.add_output("r", np.array([1.0, -2.0, 0.5]), units=un[0], tags=tags)

        class Ph(PhaseGroup):
            def setup(self):
                self.add_subsystem("iv", om.IndepVarComp("duration", val=10.0, units="s"), promotes_outputs=["*"])
                self.add_subsystem("g", G(num_nodes=3, time_units=tu))

        p = om.Problem(model=Ph(num_nodes=3), reports=False)
        p.setup(check=False)
        p.final_setup()
        name = "g.q" if prom == "True" else "g.ode_integ.q"
        key = f"tags:{val}:{lo}:{hi}:{un}:{prom}"
        meta = p.model.get_io_metadata(iotypes="output", metadata_keys=("lower", "upper", "units", "val"))
        m = next(v for k, v in meta.items() if k.endswith(".q"))
        ctx.ev()
        ctx.state(key + tu)
        ctx.true(key + ":promoted", m["prom_name"] == name, f"state is called {m['prom_name']}, expected {name}")
        ctx.true(key + ":units", m["units"] == un[1], f"units {m['units']}, expected {un[1]}")
        ctx.close(key + ":lower", m["lower"], float(lo) if lo else -1e30, what="lower bound")
        ctx.close(key + ":upper", m["upper"], float(hi) if hi else 1e30, what="upper bound")
        want = eval(val) if val else 0.0
        ctx.close(key + ":val", p.get_val(name, units=un[1]), np.ones(3) * want, what="initial guess")
        p.run_model()
        f = 1 / 0.45359237 if un[1] == "lbm" else 1.0
        if un[0] is None and tu == "h":  # a rate without units is one per time unit of the group
            f = 1 / 3600.0
        y0 = p.get_val("g.q_initial" if prom == "True" else "g.ode_integ.q_initial", units=un[1])
        ctx.close(key + ":result", p.get_val(name, units=un[1]), y0 + 5.0 * refM("simpson", 3) @ np.array([1.0, -2.0, 0.5]) * f, 1e-9, 1e-9, what="integrated state")


def run_library(ctx, prm):
    """The rates which the library itself declares: integrated unless their component is told not to; and tagged factors."""
    from openconcept.mission import IntegratorGroup, PhaseGroup
    from openconcept.thermal import BandolierCoolingSystem, MotorCoolingJacket

    T = dict(state="T_motor", units="K", rate="dTdt", prom=True)
    cases = {
        "MotorCoolingJacket": (lambda g, nn, ex: g.add_subsystem("c", MotorCoolingJacket(num_nodes=nn, **ex)), dict(T, state="T_motor"), (("c.T", "K", 355.0, -20.0), ("c.T_in", "K", 310.0, 9.0), ("c.q_in", "W", 9e3, 4e3))),
        "BandolierCoolingSystem": (lambda g, nn, ex: g.add_subsystem("c", BandolierCoolingSystem(num_nodes=nn, **ex)), dict(T, state="T_battery"), (("c.T_battery", "K", 325.0, -15.0), ("c.T_in", "K", 300.0, 6.0), ("c.q_in", "W", 2e4, 7e3))),
    }
    for (name, (add, st, ins)), nn, ex in itertools.product(cases.items(), (1, 3, 5), (None, False, True)):

        class G(IntegratorGroup):
            def setup(self):
                add(self, nn, {} if ex is None else dict(exclude_tags=ex))

        class Ph(PhaseGroup):
            def setup(self):
                self.add_subsystem("iv", om.IndepVarComp("duration", val=10.0, units="s"), promotes_outputs=["*"])
                self.add_subsystem("g", G(num_nodes=nn))

        p = om.Problem(model=Ph(num_nodes=nn), reports=False)
        p.setup(check=False)
        p.final_setup()
        key = f"library:{name}:{nn}:{ex}"
        ctx.ev()
        ctx.state(key)
        names = {v["prom_name"] for v in p.model.get_io_metadata(iotypes="output").values()}
        tagged_ = [k for k, v in p.model.get_io_metadata(iotypes="output", metadata_keys=("tags",)).items() if "integrate" in v["tags"]]
        state = "g." + st["state"]
        if ex:
            ctx.true(key, state not in names and not tagged_, f"the rate is to be left to others, but {state if state in names else tagged_} is integrated here")
            continue
        if not ctx.true(key, state in names, f"the rate is not integrated to {state}"):
            continue
        for k, u, a, b in ins:
            p.set_val("g." + k, a + b * np.cos(np.arange(nn)), units=u)
        for t0, dur in ((301.5, 10.0), (280.0, 130.0)):
            p.set_val("duration", dur, units="s")
            p.set_val(state + "_initial", t0, units="K")
            for _ in range(2):  # the integrator runs before the rates
                p.run_model()
            r = np.asarray(p.get_val("g.c." + st["rate"], units="K/s"))
            want = t0 + (dur / (nn - 1) * refM("simpson", nn) @ r if nn > 1 else 0.0 * r)
            ctx.close(key + ":state", p.get_val(state, units="K"), want, 1e-9, 1e-9, f"{state} of {name}")
            ctx.close(key + ":final", p.get_val(state + "_final", units="K"), want[-1:], 1e-9, 1e-9, f"{state}_final of {name}")
    # a factor declared with the tags of a rate
    for nn, extra in itertools.product((1, 3, 5), ((), ("state_promotes:True",))):

        class H(IntegratorGroup):
            def setup(self):
                self.add_subsystem("src", om.IndepVarComp("p", val=np.ones(nn), units="kW"))
                self.promote_mult("src.p", prom_name="rate", factor=-0.5, vec_size=nn, units="kW", tags=["integrate", "state_name:E", "state_units:kJ", *extra])

        class Ph2(PhaseGroup):
            def setup(self):
                self.add_subsystem("iv", om.IndepVarComp("duration", val=10.0, units="s"), promotes_outputs=["*"])
                self.add_subsystem("g", H(num_nodes=nn))

        p = om.Problem(model=Ph2(num_nodes=nn), reports=False)
        for rep in range(2):
            p.setup(check=False)
            x = 3.0 + np.cos(np.arange(nn)) * 2
            p.set_val("g.src.p", x, units="kW")
            pre = "g." if extra else "g.ode_integ."
            p.set_val(pre + "E_initial", 7.0, units="kJ")
            for _ in range(2):
                p.run_model()
            ctx.ev()
            ctx.state((nn, extra, rep))
            want = 7.0 - 0.5 * (10.0 / (nn - 1) * refM("simpson", nn) @ x if nn > 1 else 0.0 * x)
            ctx.close("library:promote_mult", p.get_val(pre + "E", units="kJ"), want, 1e-9, 1e-9, f"tagged factor, {nn} points, {extra}, setup {rep + 1}")


def run_errors(ctx, prm):
    """Malformed declarations are refused instead of being integrated wrongly."""
    from openconcept.mission import IntegratorGroup, PhaseGroup, TrajectoryGroup

    def expect(key, fn, exc=Exception):
        ctx.ev()
        ctx.state(key)
        try:
            fn()
        except exc:
            ctx.valid()
        else:
            ctx.violation(key, "accepted")

    for tags in (["integrate"], ["integrate", "state_units:kg"], ["integrate", "state_val:5.0"]):

        class G(IntegratorGroup):
            def setup(self):
                self.add_subsystem("src", om.IndepVarComp()).add_output("r", np.ones(3), units="kg/s", tags=tags)

        class Ph(PhaseGroup):
            def setup(self):
                self.add_subsystem("iv", om.IndepVarComp("duration", val=10.0, units="s"), promotes_outputs=["*"])
                self.add_subsystem("g", G(num_nodes=3))

        expect(f"no-state-name:{tags}", lambda: om.Problem(model=Ph(num_nodes=3), reports=False).setup(check=False), ValueError)

    for names, rates in ((("q", "q"), ("r1", "r2")),):

        class G2(IntegratorGroup):
            def setup(self):
                iv = self.add_subsystem("src", om.IndepVarComp())
                for n, r in zip(names, rates):
                    iv.add_output(r, np.ones(3), units="kg/s", tags=["integrate", "state_name:" + n, "state_units:kg"])

        class Ph2(PhaseGroup):
            def setup(self):
                self.add_subsystem("iv", om.IndepVarComp("duration", val=10.0, units="s"), promotes_outputs=["*"])
                self.add_subsystem("g", G2(num_nodes=3))

        expect(f"duplicate-state:{names}", lambda: om.Problem(model=Ph2(num_nodes=3), reports=False).setup(check=False))

    t = TrajectoryGroup()
    a, b, g = t.add_subsystem("a", PhaseGroup()), t.add_subsystem("b", PhaseGroup()), t.add_subsystem("g", om.Group())
    for x, y in ((a, g), (g, b), (g, g), (a, None), ("a", "b")):
        expect(f"link-non-phase:{type(x).__name__}-{type(y).__name__}", lambda: t.link_phases(x, y), ValueError)

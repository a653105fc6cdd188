"""C27: malformed declarations and out-of-domain values are refused, well-formed ones are accepted and evaluated."""
import itertools

import numpy as np

from mc.generic import debruijn
from mc.omx import om

PROPERTY = "C27"
LEVEL = "model_checking"
RULE = (
    "Declarations: every combination of list lengths, sizes, rules, names and model choices of the stated alphabets is built and run; it must be refused "
    "(an exception before any result) exactly when it is malformed by its documentation, and evaluate to the declared expression otherwise. "
    "Values: every placement of in-range, boundary and out-of-range values over the analysis points. Histories: every word of the stated depth over "
    "{several valid inputs, several invalid inputs} on one live problem; each valid step equals a fresh problem, each invalid step is refused. "
    "States: distinct declarations, placements or history windows."
)
BOUNDS = "lists of 1-3 names against companion lists of 0-4 entries; sizes 1-3; grids of 1-8 points; up to 3 analysis points; histories of depth 3 (4 thorough)"
ASSUMPTIONS = ["any exception raised by declaring, setting up or running counts as a refusal; its type and wording are not checked"]


def shards(tier):
    d = 4 if tier == "thorough" else 3
    out = [(f"adder:{k}", dict(what="adder", names=k)) for k in (1, 2, 3)]
    out += [(f"multiplier:{k}", dict(what="mult", names=k)) for k in (1, 2, 3)]
    out += [(f"concat:{k}", dict(what="concat", names=k)) for k in (1, 2, 3)]
    out += [(f"split:{k}", dict(what="split", names=k)) for k in (1, 2, 3)]
    out += [("constructors", dict(what="constructors")), ("derivative", dict(what="derivative")), ("stencils", dict(what="stencils"))]
    out += [(f"integrator:{m}", dict(what="integrator", method=m)) for m in ("simpson", "bdf3", "trapezoid")]
    out += [("multisegment", dict(what="multisegment")), ("links", dict(what="links"))]
    out += [("choices", dict(what="choices")), ("takeoff", dict(what="takeoff"))]
    out += [(f"mesh:{c}", dict(what="mesh", cls=c)) for c in MESHES]
    out += [("surrogates", dict(what="surrogates"))]
    out += [(f"values:{k}", dict(what="values", guard=k)) for k in GUARDS]
    out += [(f"history:{k}", dict(what="history", guard=k, depth=d)) for k in GUARDS]
    return out


def run(ctx, prm):
    prm = dict(prm)
    globals()["_" + prm.pop("what")](ctx, **prm)


def attempt(fn):
    """(accepted, result or exception)."""
    try:
        return True, fn()
    except Exception as err:  # noqa: BLE001 - any refusal will do
        return False, err


def judge(ctx, key, malformed, fn, want=None, **detail):
    ok, r = attempt(fn)
    ctx.ev()
    ctx.state((key, repr(sorted(detail.items(), key=str))))
    ctx.count("malformed" if malformed else "well-formed")
    if malformed:
        ctx.true(f"{key}:refused", not ok, f"malformed case accepted: {detail}", **detail)
    elif ctx.true(f"{key}:accepted", ok, f"well-formed case refused: {detail}: {type(r).__name__} {str(r)[:200]}", **detail) is not False and ok and want is not None:
        for a, b in zip(r, want):
            ctx.outcome(np.ravel(a)[:12])
            ctx.close(f"{key}:value", a, b, 1e-12, 1e-12, f"{detail}", **detail)


def solve(comp, ins, outs):
    p = om.Problem(reports=False)
    p.model.add_subsystem("c", comp, promotes=["*"])
    p.setup(check=False)
    p.set_solver_print(level=-1)
    for k, v in ins.items():
        p.set_val(k, v)
    p.run_model()
    return [p.get_val(o).copy() for o in outs]


NAMES = ["a", "b", "d"]


def sizes(k):
    """None (the default), an integer, and every list of 0-4 sizes from {1, 2, 3}."""
    out = [None, 1, 3]
    for n in range(0, 5):
        if n <= 3:
            out += [list(s) for s in itertools.product((1, 2, 3), repeat=n)]
        else:
            out += [[3] * n, [1] * n]
    return out


def bad_sizes(vs, k):
    if vs is None or isinstance(vs, int):
        return False
    return len(vs) != k or len({s for s in vs if s != 1}) > 1


def vec(vs, i, length):
    n = 1 if vs is None else (vs if isinstance(vs, int) else vs[i])
    v = 1.5 + i + 0.25 * np.arange(n * length)
    return v if length == 1 else v.reshape(n, length)


def _adder(ctx, names):
    from openconcept.utilities import AddSubtractComp

    nm = NAMES[:names]
    for how, length, vs, ns in itertools.product(("call", "init"), (1, 2), sizes(names), (None, 0, 1, 2, 3, 4)):
        sf = None if ns is None else [2.0, -1.0, 3.0, 0.5][:ns]
        kw = dict(length=length)
        if vs is not None:
            kw["vec_size"] = vs
        if sf is not None:
            kw["scaling_factors"] = sf
        bad = bad_sizes(vs, names) or (sf is not None and ns != names)
        want = None
        if not bad:
            want = [sum((1.0 if sf is None else sf[i]) * vec(vs, i, length) for i in range(names))]

        def go():
            if how == "init":
                c = AddSubtractComp("out", nm, **kw)
            else:
                c = AddSubtractComp()
                c.add_equation("out", nm, **kw)
            return solve(c, {n: vec(vs, i, length) for i, n in enumerate(nm)} if not bad else {}, ["out"])

        judge(ctx, "AddSubtractComp", bad, go, want, how=how, names=names, length=length, vec_size=vs, factors=ns)


def _mult(ctx, names):
    from openconcept.utilities import ElementMultiplyDivideComp

    nm = NAMES[:names]
    small = [v for v in sizes(names) if not isinstance(v, list) or len(v) == names or set(v) <= {1, 3}]
    for how, vs, nd, nu in itertools.product(("call", "init"), small, (None, 0, 1, 2, 3, 4), (None, 0, 1, 2, 3, 4)):
        dv = None if nd is None else [False, True, True, False][:nd]
        un = None if nu is None else ["m", "kg", None, "s"][:nu]
        kw = {}
        if vs is not None:
            kw["vec_size"] = vs
        if dv is not None:
            kw["divide"] = dv
        if un is not None:
            kw["input_units"] = un
        bad = bad_sizes(vs, names) or (dv is not None and nd != names) or (un is not None and nu != names)
        want = None
        if not bad:
            w = 2.0
            for i in range(names):
                w = w / vec(vs, i, 1) if dv is not None and dv[i] else w * vec(vs, i, 1)
            want = [w]

        def go():
            if how == "init":
                c = ElementMultiplyDivideComp("out", nm, scaling_factor=2.0, **kw)
            else:
                c = ElementMultiplyDivideComp()
                c.add_equation("out", nm, scaling_factor=2.0, **kw)
            return solve(c, {n: vec(vs, i, 1) for i, n in enumerate(nm)} if not bad else {}, ["out"])

        judge(ctx, "ElementMultiplyDivideComp", bad, go, want, how=how, names=names, vec_size=vs, divide=nd, units=nu)


def _concat(ctx, names):
    from openconcept.utilities import VectorConcatenateComp

    nm = NAMES[:names]
    for how, length, vs in itertools.product(("call", "init"), (1, 2), sizes(names)[1:]):
        bad = isinstance(vs, int) or len(vs) != names

        def go():
            if how == "init":
                c = VectorConcatenateComp("out", nm, vs, length=length)
            else:
                c = VectorConcatenateComp()
                c.add_relation("out", nm, vs, length=length)
            return solve(c, {n: vec(vs, i, length) for i, n in enumerate(nm)} if not bad else {}, ["out"])

        want = None if bad else [np.concatenate([vec(vs, i, length) for i in range(names)])]
        judge(ctx, "VectorConcatenateComp", bad, go, want, how=how, names=names, length=length, vec_sizes=vs)


def _split(ctx, names):
    from openconcept.utilities import VectorSplitComp

    nm = NAMES[:names]
    for how, length, vs in itertools.product(("call", "init"), (1, 2), sizes(names)[1:]):
        bad = isinstance(vs, int) or len(vs) != names
        tot = None if bad else np.concatenate([vec(vs, i, length) for i in range(names)])

        def go():
            if how == "init":
                c = VectorSplitComp(nm, "whole", vs, length=length)
            else:
                c = VectorSplitComp()
                c.add_relation(nm, "whole", vs, length=length)
            return solve(c, {} if bad else {"whole": tot}, nm)

        want = None if bad else [vec(vs, i, length) for i in range(names)]
        judge(ctx, "VectorSplitComp", bad, go, want, how=how, names=names, length=length, vec_sizes=vs)


def _constructors(ctx):
    """First argument of the relation components: a name, nothing, or (refused) anything else; add_output is refused."""
    from openconcept.utilities import AddSubtractComp, ElementMultiplyDivideComp, VectorConcatenateComp, VectorSplitComp

    for cls, ref in ((AddSubtractComp, 3.0), (ElementMultiplyDivideComp, 2.0)):
        for first in ("out", None, 3, 2.5, ["x", "y"], ("x",), np.array(["x"])):
            bad = not (first is None or isinstance(first, str))

            def go():
                c = cls(first, ["a", "b"]) if first is not None else cls()
                if first is None:
                    c.add_equation("out", ["a", "b"])
                return solve(c, dict(a=1.0, b=2.0), ["out"])

            judge(ctx, cls.__name__ + ":first", bad, go, None if bad else [ref], first=repr(first))
        judge(ctx, cls.__name__ + ":add_output", True, lambda: (cls().add_output()), first="add_output")
        judge(ctx, cls.__name__ + ":string", False, lambda: solve(cls("out", "a"), dict(a=4.0), ["out"]), [4.0], first="one name as a string")
    for first in ("out", None, 3, ["x", "y"]):
        bad = not (first is None or isinstance(first, str))

        def go():
            c = VectorConcatenateComp(first, ["a", "b"], [1, 2]) if first is not None else VectorConcatenateComp()
            if first is None:
                c.add_relation("out", ["a", "b"], [1, 2])
            return solve(c, dict(a=1.0, b=[2.0, 3.0]), ["out"])

        judge(ctx, "VectorConcatenateComp:first", bad, go, None if bad else [[1.0, 2.0, 3.0]], first=repr(first))
    for second in ("whole", None, 3, ["x", "y"]):
        bad = not (second is None or isinstance(second, str))

        def go():
            c = VectorSplitComp(["a", "b"], second, [1, 2]) if second is not None else VectorSplitComp()
            if second is None:
                c.add_relation(["a", "b"], "whole", [1, 2])
            return solve(c, dict(whole=[1.0, 2.0, 3.0]), ["a", "b"])

        judge(ctx, "VectorSplitComp:second", bad, go, None if bad else [[1.0], [2.0, 3.0]], second=repr(second))
    for cls in (VectorConcatenateComp, VectorSplitComp):
        judge(ctx, cls.__name__ + ":add_output", True, lambda: (cls().add_output()), first="add_output")
    for names, vs in ((None, [1, 2]), (["a"], None), (None, None), (5, [1]), (["a"], 1)):
        judge(ctx, "VectorConcatenateComp:missing", True, lambda: VectorConcatenateComp("out", names, vs), names=names, sizes=vs)
        judge(ctx, "VectorConcatenateComp:missing-call", True, lambda: VectorConcatenateComp().add_relation("out", names, vs), names=names, sizes=vs)
        judge(ctx, "VectorSplitComp:missing", True, lambda: VectorSplitComp(names, "whole", vs), names=names, sizes=vs)
        judge(ctx, "VectorSplitComp:missing-call", True, lambda: VectorSplitComp().add_relation(names, "whole", vs), names=names, sizes=vs)


def _derivative(ctx):
    from openconcept.utilities import FirstDerivative

    for order, n, segs in itertools.product((1, 2, 3, 4, 5, 6), (1, 2, 3), (None, ["s"], ["s", "t"])):
        bad = order not in (2, 4) or (order == 4 and n < 2)
        ns = 1 if segs is None else len(segs)
        nn = 2 * n + 1
        dts = [0.5, 0.25][:ns]
        q = np.concatenate([(1.0 + dts[i] * np.arange(nn)) ** 2 for i in range(ns)])

        def go():
            ins = {"q": q}
            ins.update({"dt": dts[0]} if segs is None else {f"{s}|dt": dts[i] for i, s in enumerate(segs)})
            return solve(FirstDerivative(order=order, num_intervals=n, segment_names=segs), ins, ["dqdt"])

        want = None if bad else [np.concatenate([2 * (1.0 + dts[i] * np.arange(nn)) for i in range(ns)])]
        judge(ctx, "FirstDerivative", bad, go, want, order=order, intervals=n, segments=segs)


def _stencils(ctx):
    """The underlying functions: lengths of the vectors against the declared segmentation."""
    from openconcept.utilities.math import derivatives as D

    for order, n, ns, dq, dd in itertools.product((2, 3, 4), (1, 2, 3), (1, 2), (-2, -1, 0, 1, 2), (-1, 0, 1)):
        nn = (2 * n + 1) * ns
        bad = dq != 0 or dd != 0 or order == 3 or (order == 4 and n < 2)
        q = 1.0 + 0.5 * np.tile(np.arange(2 * n + 1), ns)
        q = np.resize(q, max(nn + dq, 1))
        dts = 0.5 * np.ones(ns + dd)
        want = None if bad else [np.ones(nn)]
        judge(ctx, "first_deriv", bad, lambda: [D.first_deriv(dts, q, ns, n, order)], want, order=order, intervals=n, segments=ns, dq=dq, dd=dd)
        judge(ctx, "first_deriv_partials", bad, lambda: (D.first_deriv_partials(dts, q, ns, n, order), [])[1], None, order=order, intervals=n, segments=ns, dq=dq, dd=dd)


def integ_want(nn, T):
    return [2.0 * np.linspace(0, T, nn), 2.0 * T]


def _integrator(ctx, method):
    from openconcept.utilities import Integrator

    for nn, setup, units in itertools.product(range(1, 9), ("dt", "duration", "bounds", "seconds", None), ("none", "quantity", "rate", "both")):
        bad = nn % 2 == 0 or setup not in ("dt", "duration", "bounds") or units == "both" or (method not in ("simpson", "bdf3") and nn > 1)
        if method == "bdf3" and nn == 3:
            bad = None  # judged by C01
        if bad is None or (method == "trapezoid" and nn == 1):
            continue
        kw = {}
        if units in ("quantity", "both"):
            kw["units"] = "kg"
        if units in ("rate", "both"):
            kw["rate_units"] = "kg/s"

        def go():
            c = Integrator(num_nodes=nn, method=method, time_setup=setup, diff_units="s")
            c.add_integrand("x", **kw)
            ins = {"x_rate": 2.0 * np.ones(nn)}
            T = 12.0
            ins.update({"dt": {"dt": T / max(nn - 1, 1)}, "duration": {"duration": T}, "bounds": {"t_initial": 3.0, "t_final": 3.0 + T}}.get(setup, {}))
            return solve(c, ins, ["x", "x_final"])

        want = None if bad or nn == 1 else integ_want(nn, 12.0)
        judge(ctx, f"Integrator[{method}]", bad, go, want, nodes=nn, time_setup=setup, units=units)


def _multisegment(ctx):
    from openconcept.utilities.math.integrals import OldIntegrator

    for nn, setup, segs in itertools.product(range(1, 8), ("dt", "duration", "bounds", "seconds"), (None, ["s"], ["s", "t"])):
        bad = nn % 2 == 0 or setup not in ("dt", "duration", "bounds") or (segs is not None and setup != "dt")
        if nn in (1, 3):  # no integration at a single point; three points: see C01
            continue

        def go():
            T = 12.0
            ns = 1 if segs is None else len(segs)
            ins = {"dqdt": 2.0 * np.ones(nn * ns)}
            if segs is None:
                ins.update({"dt": {"dt": T / (nn - 1)}, "duration": {"duration": T}, "bounds": {"t_initial": 3.0, "t_final": 3.0 + T}}.get(setup, {}))
            else:
                ins.update({f"{s}|dt": T / (nn - 1) for s in segs})
            return solve(OldIntegrator(num_nodes=nn, time_setup=setup, segment_names=segs, diff_units="s", quantity_units="m"), ins, ["q_final"])

        want = None if bad else [24.0 * (1 if segs is None else len(segs))]
        judge(ctx, "OldIntegrator", bad, go, want, nodes=nn, time_setup=setup, segments=segs)


def _links(ctx):
    """Only phases can be linked; every ordered pair of argument kinds, inside and outside of setup."""
    from openconcept.mission.mission_groups import IntegratorGroup, PhaseGroup, TrajectoryGroup

    class Ph(PhaseGroup):
        def initialize(self):
            self.options.declare("num_nodes", default=3)

        def setup(self):
            self.add_subsystem("g", IntegratorGroup(num_nodes=3), promotes=["*"])

    kinds = ("phase", "group", "integrators", "name", "none", "component")

    def make(kind, tr, nm):
        if kind == "phase":
            return tr.add_subsystem(nm, Ph(num_nodes=3))
        if kind == "group":
            return tr.add_subsystem(nm, om.Group())
        if kind == "integrators":
            return tr.add_subsystem(nm, om.Group())
        if kind == "component":
            return tr.add_subsystem(nm, om.ExecComp("y=x"))
        return nm if kind == "name" else None

    for a, b, inside in itertools.product(kinds, kinds, (False, True)):
        bad = a != "phase" or b != "phase"

        def go():
            if inside:

                class Tr(TrajectoryGroup):
                    def setup(self):
                        self.link_phases(make(a, self, "one"), make(b, self, "two"))

                tr = Tr()
            else:
                tr = TrajectoryGroup()
                tr.link_phases(make(a, tr, "one"), make(b, tr, "two"))
            p = om.Problem(model=tr, reports=False)
            p.setup(check=False)

        judge(ctx, "link_phases", bad, go, None, first=a, second=b, inside=inside)


def propeller(nn, blades):
    from openconcept.propulsion import SimplePropeller

    p = om.Problem(reports=False)
    p.model.add_subsystem("c", SimplePropeller(num_nodes=nn, num_blades=blades), promotes=["*"])
    for k, v, u in (("diameter", 2.0, "m"), ("power_rating", 250.0, "kW"), ("rpm", 2000.0 * np.ones(nn), "rpm"), ("fltcond|Utrue", 80.0 * np.ones(nn), "m/s"), ("fltcond|rho", 1.0 * np.ones(nn), "kg/m**3"), ("shaft_power_in", 2e5 * np.ones(nn), "W")):
        p.model.set_input_defaults(k, v, units=u)
    p.setup(check=False)
    p.run_model()


def _choices(ctx):
    """Named rules and models: every documented choice is accepted, any other refused."""
    from openconcept.propulsion import PowerSplit, RubberizedTurbofan
    from openconcept.utilities import SelectorComp

    for rule in ("fraction", "fixed", "Fraction", "ratio", "", None, 0):
        for nn in (1, 3):
            bad = rule not in ("fraction", "fixed")

            def go():
                ins = {"power_in": 100.0 * np.ones(nn), **({"power_split_fraction": 0.3} if rule == "fraction" else {"power_split_amount": 30.0})}
                return solve(PowerSplit(num_nodes=nn, rule=rule), ins, ["power_out_A", "power_out_B"])

            judge(ctx, "PowerSplit:rule", bad, go, None if bad else [30.0 * np.ones(nn), 70.0 * np.ones(nn)], rule=rule, nodes=nn)
    for blades, nn in itertools.product((0, 1, 2, 3, 4, 5, 6, 8), (1, 3)):
        judge(ctx, "SimplePropeller:blades", blades not in (3, 4), lambda: propeller(nn, blades), None, blades=blades, nodes=nn)
    for eng in ("N3", "CFM56", "n3", "CFM", "GE90", "", None):
        bad = eng not in ("N3", "CFM56")
        judge(ctx, "RubberizedTurbofan:engine", bad, lambda: solve(RubberizedTurbofan(num_nodes=1, engine=eng), {}, []), None, engine=eng)
    from openconcept.aerodynamics import ParasiteDragCoefficient_BWB, ParasiteDragCoefficient_JetTransport

    for cls, conf in itertools.product((ParasiteDragCoefficient_BWB, ParasiteDragCoefficient_JetTransport), ("takeoff", "clean", "landing", "Clean", "", None)):
        bad = conf not in ("takeoff", "clean")
        judge(ctx, "ParasiteDrag:configuration", bad, lambda: om.Problem(model=cls(num_nodes=1, configuration=conf), reports=False).setup(check=False) and None, None, cls=cls.__name__, configuration=conf)
    for k, nn in itertools.product((0, 1, 2, 3), (1, 2)):
        nm = NAMES[:k]
        judge(ctx, "SelectorComp:inputs", k == 0, lambda: solve(SelectorComp(num_nodes=nn, input_names=nm), {n: 1.0 + i for i, n in enumerate(nm)}, ["result"]), None if k == 0 else [np.ones(nn)], inputs=k, nodes=nn)


def _takeoff(ctx):
    from openconcept.mission import FullMissionAnalysis
    from mc.missions import aircraft_class

    for cls, method in itertools.product((FullMissionAnalysis,), ("simplified", "ode", "Simplified", "", "robust", None)):
        bad = method not in ("simplified", "ode")

        def go():
            p = om.Problem(reports=False)
            p.model.add_subsystem("m", cls(num_nodes=3, aircraft_model=aircraft_class(), transition_method=method), promotes=["*"])
            p.setup(check=False)
            if not bad:
                p.set_solver_print(level=-1)

        judge(ctx, "takeoff:transition", bad, go, None, mission=cls.__name__, method=method)


MESHES = ("SectionPlanformMesh", "ThicknessChordRatioInterp", "SectionLinearInterp")


def _mesh(ctx, cls):
    from openconcept.aerodynamics.openaerostruct import mesh_gen as M

    C = getattr(M, cls)
    for nsec, ny in itertools.product((0, 1, 2, 3, 4), (1, 2, [], [1], [2], (1, 2), [2, 1], [1, 1, 1], (2, 1, 3), [1, 2, 1, 2], np.array([2, 1]), np.array([1.0, 2.0]), "2", 2.5, None)):
        listed = isinstance(ny, (list, tuple, np.ndarray))
        bad = nsec < 2 or (listed and len(ny) != nsec - 1) or not (listed or isinstance(ny, int))

        def go():
            kw = dict(num_x=2) if cls == "SectionPlanformMesh" else {}
            n = ((nsec - 1) * ny if isinstance(ny, int) else int(np.sum(ny))) if not bad else 0
            out = {"SectionPlanformMesh": "mesh", "ThicknessChordRatioInterp": "panel_toverc", "SectionLinearInterp": "property_node"}[cls]
            r = solve(C(num_y=ny, num_sections=nsec, **kw), {}, [out])[0]
            return [np.array(r.shape, dtype=float)], n

        ok, r = attempt(go)
        ctx.ev()
        ctx.state((cls, nsec, repr(ny)))
        if bad:
            ctx.true(f"{cls}:refused", not ok, f"{nsec} sections with num_y={ny!r} accepted", sections=nsec, num_y=repr(ny))
        else:
            ctx.true(f"{cls}:accepted", ok, f"{nsec} sections with num_y={ny!r} refused: {r}", sections=nsec, num_y=repr(ny))
            if ok:
                (sh,), n = r
                want = {"SectionPlanformMesh": (3, n + 1, 3), "ThicknessChordRatioInterp": (n,), "SectionLinearInterp": (n + 1,)}[cls]
                ctx.close(f"{cls}:shape", sh, want, 0, 0, f"{nsec} sections with num_y={ny!r}", sections=nsec)
                ctx.outcome(sh)


def _surrogates(ctx):
    """A trapezoidal wing takes one spanwise panel count; sectional and mesh geometry take either."""
    from openconcept.aerodynamics.openaerostruct import VLMDragPolar

    for geo, ny in itertools.product(("trapezoidal", "section", "mesh", "elliptic"), (2, [2], (1, 1), [1, 1])):
        bad = geo == "elliptic" or (geo == "trapezoidal" and not isinstance(ny, int))
        if geo == "section" and not isinstance(ny, int) and len(ny) != 2:
            bad = True
        if geo == "mesh" and not isinstance(ny, int):
            continue

        def go():
            p = om.Problem(reports=False)
            p.model.add_subsystem("c", VLMDragPolar(num_nodes=1, num_x=1, num_y=ny, num_twist=2, geometry=geo, num_sections=3, Mach_train=np.array([0.1, 0.3, 0.5, 0.7]), alpha_train=np.array([-2.0, 0.0, 4.0, 8.0]), alt_train=np.array([0.0, 3e3, 6e3, 9e3])), promotes=["*"])
            p.setup(check=False)

        judge(ctx, "VLMDragPolar:num_y", bad, go, None, geometry=geo, num_y=repr(ny))


# ---------------------------------------------------------------- run-time guards
def g_flowsplit(nn):
    from openconcept.thermal import FlowSplit

    return FlowSplit(num_nodes=nn), {"mdot_in": (2.0, "kg/s")}, "mdot_split_fraction", None, ["mdot_out_A", "mdot_out_B"]


def g_selector(nn):
    from openconcept.utilities import SelectorComp

    return SelectorComp(num_nodes=nn, input_names=["a", "b", "d"]), {"a": (5.0, None), "b": (6.0, None), "d": (7.0, None)}, "selector", None, ["result"]


def g_heat(nn):
    from openconcept.thermal.ducts import HeatAdditionPressureLoss

    return HeatAdditionPressureLoss(num_nodes=nn), {"Tt_in": (300.0, "K"), "pt_in": (1e5, "Pa"), "rho": (1.0, "kg/m**3"), "area": (0.1, "m**2"), "delta_p": (0.0, "Pa"), "heat_in": (1e4, "W"), "dynamic_pressure_loss_factor": (0.1, None), "pressure_recovery": (0.98, None), "cp": (1005.0, "J/kg/K")}, "mdot", "kg/s", ["Tt_out", "pt_out"]


def g_exit(nn):
    from openconcept.thermal.ducts import DuctExitMachNumber

    return DuctExitMachNumber(num_nodes=nn), {}, "nozzle_pressure_ratio", None, ["M"]


def _hx(nn):
    from openconcept.thermal import HXGroup

    return HXGroup(num_nodes=nn)


def g_hx(nn):
    return _hx(nn), {"mdot_hot": (0.2, "kg/s"), "T_in_cold": (300.0, "K"), "T_in_hot": (340.0, "K"), "rho_cold": (1.0, "kg/m**3"), "rho_hot": (1020.0, "kg/m**3"), "case_thickness": (2.0, "mm"), "fin_thickness": (0.102, "mm"), "plate_thickness": (0.2, "mm"), "material_k": (190.0, "W/m/K"), "material_rho": (2700.0, "kg/m**3"), "mu_cold": (1.8e-5, "kg/m/s"), "mu_hot": (1.68e-3, "kg/m/s")}, "mdot_cold", "kg/s", ["T_out_cold", "T_out_hot", "heat_transfer"]


# (build, in-range values, out-of-range values)
GUARDS = {
    "FlowSplit": (g_flowsplit, [0.5, 0.0, 1.0], [-0.01, 1.01, -2.0]),
    "SelectorComp": (g_selector, [0.0, 2.0, 1.3], [-1.0, 3.0, 2.6]),
    "HeatAdditionPressureLoss": (g_heat, [1.0, 0.2, 3.0], [0.0, -1.0, -0.01]),
    "DuctExitMachNumber": (g_exit, [0.8, 0.3, 0.999], [0.0, -0.2, -5.0]),
    "HXGroup": (g_hx, [1.5, 0.4, 3.0], [-1.5, -0.01, -20.0]),
}


def live(guard, nn):
    comp, fixed, var, units, outs = GUARDS[guard][0](nn)
    p = om.Problem(reports=False)
    p.model.add_subsystem("c", comp, promotes=["*"])
    p.setup(check=False)
    p.set_solver_print(level=-1)
    for k, (v, u) in fixed.items():
        p.set_val(k, v, units=u)
    return p, var, units, outs


def step(h, x):
    p, var, units, outs = h
    p.set_val(var, np.array(x), units=units)
    p.run_model()
    return [p.get_val(o).copy() for o in outs]


def _values(ctx, guard):
    good, bad = GUARDS[guard][1:]
    for nn in (1, 2, 3):
        alphabet = good + bad if nn < 3 else good[:2] + bad[:2]
        single = {}
        for x in itertools.product(alphabet, repeat=nn):
            out = any(v in bad for v in x)
            if not out:
                for v in set(x):
                    if v not in single:
                        single[v] = [np.ravel(r)[0] for r in step(live(guard, 1), [v])]
            want = None if out else [np.array([single[v][k] for v in x]) for k in range(len(single[x[0]]))]
            judge(ctx, f"{guard}:range", out, lambda: step(live(guard, nn), x), want, points=list(x))


def _history(ctx, guard, depth):
    """Every word over {two valid, two invalid} inputs on one live problem, derivatives included."""
    good, bad = GUARDS[guard][1:]
    nn = 2
    X = [(good[0], good[1]), (good[2], good[0]), (good[0], bad[0]), (bad[1], good[1])]
    wrt = live(guard, nn)[1]

    def tot(h):
        return h[0].compute_totals(of=h[3], wrt=[wrt], return_format="flat_dict")

    ref = {}
    for i in (0, 1):
        h = live(guard, nn)
        r = step(h, X[i])
        ref[i] = (r, tot(h))
    word = debruijn(4, depth)
    word += word[: depth - 1]
    h = live(guard, nn)
    hist = []
    for op in word:
        hist.append(op)
        ctx.ev()
        ctx.step()
        ctx.state((guard, tuple(hist[-depth:])))
        ok, r = attempt(lambda: step(h, X[op]))
        w = f"after {hist[-5:]}"
        if op >= 2:
            ctx.true(f"{guard}:history:refused", not ok, f"{X[op]} accepted {w}", history=hist[-6:])
            continue
        if not ok:
            ctx.true(f"{guard}:history:accepted", False, f"{X[op]} refused {w}: {r}", history=hist[-6:])
            continue
        for a, b in zip(r, ref[op][0]):
            ctx.close(f"{guard}:history:value", a, b, 1e-12, 1e-12, f"{X[op]} {w}", history=hist[-6:])
            ctx.outcome(np.ravel(a))
        for k, v in tot(h).items():
            ctx.close(f"{guard}:history:derivative", v, ref[op][1][k], 1e-10, 1e-12, f"d{k} at {X[op]} {w}", history=hist[-6:])
    ctx.sample(dict(guard=guard, history=hist[:12], length=len(hist)))

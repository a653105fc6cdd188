"""C28: the documented interface: names, roles, shapes, units and defaults, for every class, configuration and size."""
import json
import os

import numpy as np
from openmdao.utils.units import unit_conversion

from mc import interface as I

PROPERTY = "C28"
LEVEL = "exploration"
RULE = (
    "Every public class with its options left alone, with every flag flipped and with every listed choice, at every stated number of analysis points, with "
    "nothing set: each documented input, output and option is there in its documented role, shape (as a function of the number of points) and units, and an "
    "input or option left alone has its documented default; an output's declared bounds are there. Every declaration keyword given to a generic utility is found "
    "on the variable it declares. Non-trivial: a distinct (class, configuration, size)."
)
BOUNDS = "all classes; default options, single flags flipped, listed choices; 1, 2, 3, 6 analysis points (5, 7 for segment analyses)"
ASSUMPTIONS = ["mc/interface_table.json records the documentation (class docstrings and declarations) of the reviewed tree"]
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "interface_table.json")


def aircraft():
    from mc.missions import aircraft_class

    return aircraft_class()


# options without which the class cannot be built, and choices that change the interface
NEEDS = {
    **{c: lambda: dict(aircraft_model=aircraft()) for c in ("ClimbAnglePhase", "GroundRollPhase", "RobustRotationPhase", "RotationPhase", "SteadyFlightPhase", "BasicMission", "FullMissionAnalysis", "FullMissionWithReserve", "MissionWithReserve")},
    "SelectorComp": lambda: dict(input_names=["a", "b"], units="m"),
    "DVLabel": lambda: dict(vars_list=[["a", "b", 1.0, "m"], ["c", "d", np.ones(3), None]]),
    "AddSubtractComp": lambda: dict(output_name="out", input_names=["a", "b"], units="m"),
    "ElementMultiplyDivideComp": lambda: dict(output_name="out", input_names=["a", "b"], input_units=["m", "s"]),
    "VectorConcatenateComp": lambda: dict(output_name="out", input_names=["a", "b"], vec_sizes=[2, 3], units="m"),
    "VectorSplitComp": lambda: dict(output_names=["a", "b"], input_name="whole", vec_sizes=[2, 3], units="m"),
}
CHOICES = {
    "PowerSplit": [dict(rule="fixed")],
    "FirstDerivative": [dict(order=2), dict(segment_names=["one", "two"]), dict(quantity_units="m", diff_units="s")],
    "Integrator": [dict(time_setup="duration", diff_units="s"), dict(time_setup="bounds", diff_units="s")],
    "OldIntegrator": [dict(time_setup="duration"), dict(time_setup="bounds"), dict(segment_names=["one", "two"]), dict(quantity_units="m", diff_units="s")],
    "GroundRollPhase": [dict(flight_phase=f) for f in ("v0v1", "v1vr", "v1v0")],
    "FullMissionAnalysis": [dict(transition_method="ode")],
    "RubberizedTurbofan": [dict(engine="CFM56"), dict(hydrogen=True)],
    "ParasiteDragCoefficient_JetTransport": [dict(configuration="takeoff")],
    "ParasiteDragCoefficient_BWB": [dict(configuration="takeoff")],
    "VLMDragPolar": [dict(geometry="section"), dict(geometry="mesh", num_x=2, num_y=3)],
    "SectionPlanformMesh": [dict(num_sections=4), dict(scale_area=False)],
    "ThicknessChordRatioInterp": [dict(num_sections=4, num_y=2)],
    "SectionLinearInterp": [dict(num_sections=4, num_y=2), dict(units="deg")],
    "WingAreaFromSections": [dict(num_sections=4)],
    "WingMACFromSections": [dict(num_sections=4)],
    "WingSweepFromSections": [dict(num_sections=4)],
    "WaveDragFromSections": [dict(num_sections=4), dict(specify_area_norm=True)],
    "LinearInterpolator": [dict(units="m")],
}
SKIP = {"DictIndepVarComp"}  # C25
VECTOR = ("num_nodes", "vec_size", "nn")


def subjects():
    """(key, make(n), documented outputs, (two sizes)) for every class with its default options, every flag flipped and every listed choice."""
    out = []
    for name, c in sorted(I.classes().items()):
        short = name.rsplit(".", 1)[1]
        if short in SKIP:
            continue
        base = NEEDS.get(short, dict)
        try:
            flags = [k for k, v in I.options(c).items() if isinstance(v, bool)] if short not in NEEDS or short[0] != "A" else []
        except Exception:
            flags = []
        nodes = None
        try:
            o = c(**base()).options
            nodes = next((k for k in VECTOR if k in o), None)
        except Exception:
            continue
        variants = [dict()] + [{k: not o[k]} for k in flags] + CHOICES.get(short, [])
        for v in variants:
            kw = lambda n, v=v, base=base, nodes=nodes: dict(base(), **v, **({nodes: n} if nodes else {}))
            key = name + ("[" + ",".join(f"{a}={b}" for a, b in v.items()) + "]" if v else "")
            out.append((key, lambda n, c=c, kw=kw: c(**kw(n)), I.documented_outputs(c), ((3, 4), (5, 7)) if nodes else ((1, 1),)))
    return out


def shards(tier):
    t = json.load(open(TABLE))
    keys = sorted(t["faces"])
    k = 6
    return [("options", dict(what="options")), ("forwarding", dict(what="forwarding"))] + [(f"faces:{i}", dict(what="faces", part=i, of=k)) for i in range(k)]


def run(ctx, prm):
    prm = dict(prm)
    globals()["_" + prm.pop("what")](ctx, **prm)


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def _options(ctx):
    """Every documented option exists, with its documented default."""
    table = json.load(open(TABLE))["options"]
    live = I.classes()
    for name, want in table.items():
        ctx.ev()
        ctx.state(name)
        if not ctx.true(f"class:{name}", name in live, f"{name} is no longer there"):
            continue
        try:
            got = I.options(live[name])
        except Exception as err:
            ctx.true(f"class:{name}:build", False, f"{name}() cannot be made: {err}")
            continue
        for k, v in want.items():
            if ctx.true(f"{name}:{k}:missing", k in got, f"option {k} of {name} is not there"):
                ctx.true(f"{name}:{k}:default", same(got[k], v), f"option {k} of {name} defaults to {got[k]!r}, documented {v!r}")
        ctx.outcome(repr(sorted(map(repr, got.items()))))


def factor(u, v):
    """value in v = scale * (value in u + offset); None when incompatible."""
    if u == v:
        return (1.0, 0.0)
    if u is None or v is None:
        return None
    try:
        return unit_conversion(u, v)
    except Exception:
        return None


def _faces(ctx, part, of):
    table = json.load(open(TABLE))["faces"]
    keys = set(sorted(table)[part::of])
    subj = [s for s in subjects() if s[0] in keys]
    for k in keys - {s[0] for s in subj}:
        ctx.true(f"{k}:class", False, f"{k} can no longer be made")
    for key, make, doc, sizes in subj:
        want, (n1, n2) = table[key]["face"], table[key]["sizes"]
        ns = (1,) if n1 == n2 else ((5, 7, 9) if n1 == 5 else (1, 2, 3, 6))
        for n in ns:
            ctx.ev()
            ctx.state((key, n))
            try:
                face = I.observe(make(n))
            except Exception as err:
                ctx.true(f"{key}:build", False, f"{key} at {n} points: {type(err).__name__} {str(err)[:200]}", nodes=n)
                continue
            for name, w in want.items():
                k = f"{key}:{name}"
                if not ctx.true(f"{k}:missing", name in face, f"{name} is not offered by {key} at {n} points", nodes=n):
                    continue
                role, units, shape, val, bounds = face[name]
                ctx.true(f"{k}:role", role[0] == w["io"], f"{name} of {key} is an {role}", nodes=n)
                ctx.true(f"{k}:shape", list(shape) == I.shape_at(w["s"], n), f"{name} of {key} has shape {shape} at {n} points, documented {I.shape_at(w['s'], n)}", nodes=n)
                ctx.true(f"{k}:bounds", same(bounds, w.get("b", [None, None])), f"{name} of {key} is bounded by {bounds}, declared {w.get('b')}", nodes=n)
                if len(w["u"]) != 1 or len(units) != 1:
                    continue  # fed to parts with different units: the user has to state them
                f = factor(units[0], w["u"][0])
                if ctx.true(f"{k}:units", f is not None and abs(f[0] - 1) < 1e-9 and abs(f[1]) < 1e-9, f"{name} of {key} is in {units[0]}, documented {w['u'][0]}", nodes=n) and "d" in w and val is not None:
                    d = I.default_of(val)
                    ctx.true(f"{k}:default", d is not None and (same(d, w["d"]) or np.allclose(d, w["d"], rtol=1e-9, atol=0) if len(d) == len(w["d"]) else False), f"{name} of {key} left alone is {d}, documented {w['d']}", nodes=n)
            ctx.outcome(repr(sorted((a, b[0], tuple(b[2])) for a, b in face.items() if a in want)))


# every keyword that declares an output, alone and with a neighbour that is left alone
DECLARED = dict(val=3.25, units="km", res_units="m", desc="a word", lower=-4.0, upper=9.0, ref=7.0, ref0=2.0, res_ref=11.0)
KEPT = ("units", "res_units", "desc", "lower", "upper", "ref", "ref0", "res_ref")


def _forwarding(ctx):
    """Whatever a declaration of a utility says about the variable it declares is what the variable has."""
    from openconcept.mission import IntegratorGroup
    from openconcept.utilities import AddSubtractComp, ElementMultiplyDivideComp, Integrator, VectorConcatenateComp, VectorSplitComp
    from openconcept.utilities.math.integrals import OldIntegrator

    def added(cls, adder, *first, **kw):
        def f(decl):
            c = cls()
            getattr(c, adder)(*first, **kw, **decl)
            return c, ["out"]

        return f

    def made(cls, *first, **kw):
        return lambda decl: (cls(*first, **kw, **decl), ["out"])

    def integ(decl):
        c = om.Group()
        i = c.add_subsystem("i", Integrator(num_nodes=5, diff_units="s"), promotes=["*"])
        i.add_integrand("out", rate_name="r", **decl)
        i.add_integrand("other", rate_name="r2")
        return c, ["out", "out_final"]

    def old(decl):
        d = dict(decl)
        if "units" in d:
            d["quantity_units"] = d.pop("units")
        g = om.Group()
        g.add_subsystem("i", OldIntegrator(num_nodes=5, diff_units="s", **d), promotes_outputs=[("q", "out"), ("q_final", "out_final")])
        return g, ["out", "out_final"]

    def promoted(how):
        class G(IntegratorGroup):
            def setup(self):
                iv = self.add_subsystem("iv", om.IndepVarComp("a", val=1.0, units="km"))
                iv.add_output("b", val=2.0, units="km")
                if how == "add":
                    self.promote_add(sources=["iv.a", "iv.b"], prom_name="out", **self.decl)
                else:
                    self.promote_mult(source="iv.a", prom_name="out", factor=2.0, **self.decl)

        def f(decl):
            G.decl = decl
            return G(num_nodes=3), ["out"]

        return f

    import openmdao.api as om

    allk = tuple(DECLARED)
    cases = {
        "AddSubtractComp": (made(AddSubtractComp, "out", ["a", "b"]), allk),
        "AddSubtractComp.add_equation": (added(AddSubtractComp, "add_equation", "out", ["a", "b"]), allk),
        "ElementMultiplyDivideComp": (made(ElementMultiplyDivideComp, "out", ["a", "b"], input_units=["km", None]), tuple(k for k in allk if k != "units")),
        "ElementMultiplyDivideComp.add_equation": (added(ElementMultiplyDivideComp, "add_equation", "out", ["a", "b"], input_units=["km", None]), tuple(k for k in allk if k != "units")),
        "VectorConcatenateComp": (made(VectorConcatenateComp, "out", ["a", "b"], [2, 1]), allk),
        "VectorConcatenateComp.add_relation": (added(VectorConcatenateComp, "add_relation", "out", ["a", "b"], [2, 1]), allk),
        "VectorSplitComp": (made(VectorSplitComp, ["out", "rest"], "a", [2, 1]), allk),
        "VectorSplitComp.add_relation": (added(VectorSplitComp, "add_relation", ["out", "rest"], "a", [2, 1]), allk),
        "Integrator.add_integrand": (integ, ("val", "units", "lower", "upper")),
        "OldIntegrator": (old, ("units", "lower", "upper")),
        "IntegratorGroup.promote_add": (promoted("add"), allk),
        "IntegratorGroup.promote_mult": (promoted("mult"), tuple(k for k in allk if k not in ("units",))),
    }
    import itertools

    for what, (build, keys) in cases.items():
        subsets = [c for r in (0, 1, 2) for c in itertools.combinations(keys, r)] + [keys]
        for given in subsets:
            if "res_units" in given and "units" not in given and "units" in keys:
                continue
            decl = {k: DECLARED[k] for k in given}
            ctx.ev()
            ctx.state((what, given))
            tag = f"forward:{what}:{'+'.join(given) or 'nothing'}"
            try:
                comp, names = build(decl)
                p = om.Problem(reports=False)
                p.model.add_subsystem("c", comp, promotes_outputs=["*"])
                if isinstance(comp, IntegratorGroup):
                    p.model.set_input_defaults("c.ode_integ.duration", 1.0, units="s")
                p.setup(check=False)
                p.final_setup()
            except Exception as err:
                ctx.true(f"{tag}:refused", False, f"{what} with {decl} is refused: {type(err).__name__} {str(err)[:200]}")
                continue
            meta = p.model.get_io_metadata(iotypes="output", metadata_keys=("val",) + KEPT, return_rel_names=False)
            meta = {m["prom_name"]: m for m in meta.values()}
            for n in names:
                m = meta[n]
                for k in keys:
                    if k == "val":
                        if "val" in given:
                            ctx.true(f"{tag}:{n}:val", np.allclose(p.get_val(n, units=m["units"]), DECLARED["val"]), f"{n} starts at {m['val']}, declared {DECLARED['val']}")
                        continue
                    if k == "desc":
                        if "desc" in given:
                            ctx.true(f"{tag}:{n}:desc", m["desc"] == decl["desc"], f"{n} is described as {m['desc']!r}")
                        continue
                    got = m[k]
                    if k in ("units", "res_units"):
                        want = decl.get(k)
                        if k == "units" and want is None:
                            continue
                        ctx.true(f"{tag}:{n}:{k}", got == want or factor(got, want) == (1.0, 0.0), f"{k} of {n} is {got}, declared {want}")
                        continue
                    want = {"lower": None, "upper": None, "ref": 1.0, "ref0": 0.0}.get(k)
                    if k == "res_ref":
                        want = decl.get("ref", 1.0)  # the scale of the variable unless stated
                    want = decl.get(k, want)
                    if k in ("lower", "upper"):
                        got = I.bound(got)
                    else:
                        got = None if got is None else float(np.ravel(got)[0])
                    ctx.true(f"{tag}:{n}:{k}", got == want, f"{k} of {n} is {got}, declared {want}")
                ctx.outcome(what, n, repr([m[k] for k in KEPT]))

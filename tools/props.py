#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="exploration", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, level=level, state=state, observe=observe))


ENUM = "bounded exhaustive enumeration of configurations and input assignments on the real code against a reference model"
NOTE = "Complete over the stated finite alphabets and configurations (every assignment with up to k deviations from the base, full product where it fits); silent about values outside the alphabets. Trusts OpenMDAO, numpy and the reference model written from the documentation."

prop(
    "C01", "Integration of rates over a mission segment follows the declared quadrature",
    "Integrating a rate over a segment (or over consecutive segments) gives, at every node and at the end, the initial value plus the exact result of the declared quadrature (Simpson or third-order backward differences) of the rates, for every grid size, time specification, number of integrands, subset of counted segments, start/end option and unit declaration. Quadratic states are reproduced exactly, a zero or negative duration is handled, and the reported derivatives are those of the quadrature. Grids the quadrature cannot handle are refused.",
    ["inputs", "configurations"], "all rate vectors (by an exhaustive unit basis, the map being linear), initial values, durations of either sign, odd grids to 21 nodes (41 thorough), all flag combinations and up to three segments with every counted subset",
    "Tests use a handful of grids and smooth profiles with one option set each; errors confined to one node, one option combination, zero duration or a counted subset are invisible to them.",
    ["openconcept/utilities/math/integrals.py"], [("quadrature matrices", "openconcept/utilities/math/integrals.py"), ("integrand bookkeeping", "openconcept/utilities/math/integrals.py")],
    "exhaustive enumeration over configurations and a complete linear basis of inputs, against exact rational quadrature", "Because the map is linear in rates/initial value and bilinear with the step, the explored basis decides every input of an explored configuration. Bounded by grid size and three segments/integrands.",
)
prop(
    "C02", "Reported derivatives are the derivatives of the computed values",
    "For every analysis in the library, in every configuration and at every differentiable input point, the total derivatives reported of each output with respect to each input equal the derivatives of the values the analysis computes. In particular no declared dependency is missing, duplicated, transposed, of the wrong sign or in the wrong units, and none goes stale when the inputs change.",
    ["inputs", "configurations"], "every catalogued analysis and configuration, every enumerated input point including zeros, limits and both sides of every switch-over, every input direction",
    "Existing derivative checks run at one or two points with one option set; a wrong branch, boundary or option-dependent Jacobian passes them and gradient-based design then silently stalls.",
    ["openconcept/propulsion", "openconcept/aerodynamics", "openconcept/atmospherics", "openconcept/utilities", "openconcept/thermal", "openconcept/weights", "openconcept/costs", "openconcept/energy_storage"],
    [("compute_partials / setup_partials of every component", "openconcept/**/*.py")],
    "bounded exhaustive enumeration of (configuration, point, direction) with finite-difference oracle on the implementation", NOTE + " Points within one step of a kink are skipped and counted.",
)
prop(
    "C03", "Each analysis point depends only on its own inputs",
    "In any analysis vectorised over analysis points, the results at a point are exactly those of analysing that point alone. They do not depend on how many other points there are, on their values, or on their order.",
    ["inputs", "configurations"], "every catalogued vectorised analysis, up to 9 points (21 thorough) drawn from the alphabet, all rotations, reversal, adjacent pairs and repetition",
    "Tests mostly use constant or linearly spaced vectors of one length, which hide neighbouring-point leakage, masks computed once, or size-dependent branches.",
    ["openconcept/propulsion", "openconcept/aerodynamics", "openconcept/atmospherics", "openconcept/thermal", "openconcept/utilities"],
    [("vectorised compute methods and per-node masks", "openconcept/**/*.py")],
    "exhaustive enumeration of point orderings and sizes, differential against single-point runs", NOTE,
)
prop(
    "C04", "Results depend on current inputs and options, never on earlier runs",
    "After any sequence of running with different inputs, linearising, setting up again, and running other independent analyses in the same process, the values and derivatives are those of a fresh analysis given the current inputs only. User inputs are never modified by an analysis.",
    ["histories", "inputs"], "every operation sequence of length 3 (4 thorough) over {run A, run B, run C, linearise, set up again, run another instance}, for every catalogued analysis",
    "Unit tests build a fresh problem, run it once and stop; caches, accumulated lists and class-level state only misbehave on the second or third operation.",
    ["openconcept/propulsion", "openconcept/aerodynamics", "openconcept/utilities", "openconcept/thermal", "openconcept/weights"],
    [("instance/class caches and option accumulators", "openconcept/**/*.py")],
    "explicit-state exploration of all operation histories to a depth on the real code, state = current inputs", "Complete for all histories to the depth over the operation alphabet (driven as a de Bruijn word); the reference model's state is just the current input set and every step is validated against a fresh instance.", "model_checking",
)
prop(
    "C09", "Vector algebra utilities evaluate exactly the declared expression",
    "The add/subtract, multiply/divide, concatenate and split utilities compute, element by element and in the declared units, exactly the expression that was declared: every listed input, in the listed order, with its scaling factor, sign or division flag. This holds for every vector length, input length, equation count, unit combination and order of declaration, and under complex step the imaginary parts are the exact derivatives.",
    ["inputs", "configurations"], "all listed option combinations (number of inputs 1-4, shapes 1..3x3, scaling factors, division flags, units, several equations) crossed with the input alphabet",
    "Tests fix one declaration pattern each; broadcasting rows, unit bookkeeping and repeated declarations fail only in particular combinations.",
    ["openconcept/utilities/math/add_subtract_comp.py", "openconcept/utilities/math/multiply_divide_comp.py", "openconcept/utilities/math/combine_split_comp.py"],
    [("equation bookkeeping, shapes and units", "openconcept/utilities/math")], ENUM, NOTE,
)
prop(
    "C10", "Selection, interpolation, extrema and differencing meet their definition",
    "The selector passes through, at each point, the input its selector names; the interpolator returns evenly spaced values from start to end; the extrema utilities return the largest/smallest element; labels copy values under new names and units. Finite differencing of a vector is exact for polynomials up to its declared order, within each declared segment and never across segment boundaries.",
    ["inputs", "configurations"], "all listed option combinations, grid sizes and units crossed with the input alphabet, ties and extreme positions included",
    "Tests cover one grid and one ordering; ties, segment boundaries, single-segment names, first/last elements are the cases that break.",
    ["openconcept/utilities/selector.py", "openconcept/utilities/linearinterp.py", "openconcept/utilities/math/derivatives.py", "openconcept/utilities/math/max_min_comp.py", "openconcept/utilities/dvlabel.py"],
    [("compute methods and stencils", "openconcept/utilities")], ENUM, NOTE,
)
prop(
    "C12", "Atmospheric properties and airspeeds follow the standard atmosphere",
    "For every altitude in the modelled range, temperature offset and airspeed, the temperature, pressure, density, speed of sound, Mach number, dynamic pressure and true/equivalent airspeed conversions are those of the 1976 standard atmosphere and the defining relations, in any units. Equivalent and true airspeed agree at sea level standard density and convert back and forth exactly.",
    ["inputs", "configurations"], "altitudes from below sea level through both sides of every layer boundary, airspeeds and temperature offsets from the alphabet, full product",
    "Tests compare a few altitudes to a table; layer boundaries, offsets, zero speed and unit handling at other values are not covered.",
    ["openconcept/atmospherics"], [("layer interpolation and relations", "openconcept/atmospherics")], ENUM, NOTE,
)
prop(
    "C13", "Electrical and shaft power components balance power, heat, weight and cost",
    "In every power splitter, motor, generator, turboshaft and propeller model the output power, heat rejection, fuel flow, weight, cost and sizing margin follow from input power or throttle, rating and efficiency by the documented relations, so that input power equals output power plus heat. The power splitter never delivers more than it receives, and propeller thrust follows the interpolated performance map at every advance ratio, including static operation.",
    ["inputs", "configurations"], "all option combinations listed (split rule, efficiencies, weight/cost coefficients, blade counts) crossed with throttle, power, rating, speed and altitude alphabets including zeros and saturation",
    "Tests fix one rating and a linear throttle sweep; saturation, zero power, boundary splits and cross-option behaviour are not sampled.",
    ["openconcept/propulsion/splitter.py", "openconcept/propulsion/motor.py", "openconcept/propulsion/generator.py", "openconcept/propulsion/turboshaft.py", "openconcept/propulsion/propeller.py", "openconcept/propulsion/empirical_data/prop_maps.py"],
    [("component compute methods and performance maps", "openconcept/propulsion")], ENUM, NOTE,
)
prop(
    "C15", "Batteries conserve energy and report state of charge consistently",
    "A battery's state of charge decreases by exactly the energy drawn divided by the stored energy, integrated over the segment, and its heat, weight, cost and sizing margin follow from load, efficiency and specific properties. This holds for any load history including charging, zero load and over-rated load, and any segment duration.",
    ["inputs", "configurations"], "all option combinations crossed with load histories on a basis, durations, battery weights and initial charges from the alphabet",
    "Tests use one constant load; sign, unit and integration errors at other loads or grid sizes are not seen.",
    ["openconcept/energy_storage/battery.py"], [("battery model and charge integration", "openconcept/energy_storage/battery.py")], ENUM, NOTE,
)
prop(
    "C19", "Wing planform quantities are those of the described planform",
    "Area, span, aspect ratio, mean aerodynamic chord, sweep and wetted area computed from any planform description (trapezoidal or sectional, any number of sections) equal the exact geometric quantities of that planform. Vortex-lattice meshes, thickness distributions and spanwise interpolations generated from the same descriptions reproduce them node by node.",
    ["inputs", "configurations"], "2-5 sections, tapers including 0 and 1, all chord/sweep/span assignments from the alphabet, all panel-count combinations for meshes",
    "Tests check one or two planforms; degenerate sections, section ordering and section counts are not covered.",
    ["openconcept/geometry", "openconcept/aerodynamics/openaerostruct/mesh_gen.py"], [("planform integrals", "openconcept/geometry/wing_planform.py"), ("mesh generation", "openconcept/aerodynamics/openaerostruct/mesh_gen.py")], ENUM, NOTE,
)
prop(
    "C20", "Lift, drag polar, stall speed and maximum lift follow their definitions",
    "Drag follows the parabolic polar, lift the lift coefficient, and stall speed the weight, wing area and maximum lift coefficient, for any inputs in any units. Maximum lift estimates and section-based wave drag follow the cited methods for all flap settings, sweeps, section layouts and Mach numbers.",
    ["inputs", "configurations"], "all option combinations crossed with the input alphabet (zero and negative lift, zero dynamic pressure, flap angles to full deflection)",
    "Tests use one aircraft's numbers.",
    ["openconcept/aerodynamics/aerodynamics.py", "openconcept/aerodynamics/CL_max_estimation.py", "openconcept/aerodynamics/openaerostruct/wave_drag.py"], [("polar, stall, maximum lift and wave drag models", "openconcept/aerodynamics")], ENUM, NOTE,
)
prop(
    "C22", "Parasite drag buildups follow the cited component method",
    "The parasite drag coefficient of a jet transport or blended wing body is the sum over its parts of skin friction, form and interference factors and wetted area over the reference area, plus flap, slat and excrescence increments in the configuration asked for. It follows the cited formulas for every option and input, with laminar and turbulent friction blended by the stated laminar fraction.",
    ["inputs", "configurations"], "all option combinations (clean/takeoff configuration, wing included or not, laminar fractions) crossed with geometry and flight condition alphabets",
    "Tests compare against recorded numbers for one aircraft; unit mistakes in one branch or mis-summed parts at other inputs are not visible.",
    ["openconcept/aerodynamics/drag_jet_transport.py", "openconcept/aerodynamics/drag_BWB.py"], [("drag buildup", "openconcept/aerodynamics")], ENUM, NOTE,
)
prop(
    "C23", "Tail sizing and operating cost models follow their formulas",
    "Tail areas from volume coefficients and the operating cost breakdown follow the documented formulas for every aircraft and option, in any units, and total cost equals the sum of its parts.",
    ["inputs", "configurations"], "all option combinations crossed with the input alphabet",
    "Tests use one aircraft each.",
    ["openconcept/stability", "openconcept/costs"], [("sizing and cost formulas", "openconcept/stability, openconcept/costs")], ENUM, NOTE,
)

if __name__ == "__main__":
    extra = os.path.join(V, "tools", "props_more.py")
    if os.path.exists(extra):
        exec(compile(open(extra).read(), extra, "exec"))
    P.sort(key=lambda p: p["id"])
    NA = []
    checks = []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None),
            )
            if p["state"]:
                d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
            f.write(json.dumps(d) + "\n")
            mod = glob.glob(os.path.join(V, "mc", "checks", p["id"].lower() + "_*.py"))
            if len(mod) == 1:
                src = open(mod[0]).read()
                assert f'LEVEL = "{p["level"]}"' in src, p["id"]
                checks.append(
                    dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"])
                )
            else:
                NA.append(dict(property=p["id"], reason=p.get("na", "no check built yet")))
    m = dict(
        version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA,
        notes="Everything runs on the real Python code of /repo through its public API; no hooks are needed. The checks import /repo's current working tree directly (nothing is built).",
    )
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks")

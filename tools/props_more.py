prop(
    "C05", "Drag surrogates are trained on the current wing and meet the required lift",
    "The training data of a vortex-lattice or aerostructural drag polar are at all times those of the component's own current geometry, thickness and temperature inputs on its own training grid, with their derivatives, whatever was run, set up, linearised or failed before and however many components or problems share the process, and unchanged inputs trigger no new analyses. The polar finds the angle of attack that gives the required lift and returns drag as dynamic pressure times area times wing plus non-wing drag coefficient, with consistent wing weight, failure index and total derivatives.",
    ["histories", "fault_sequences", "configurations", "inputs"], "every word of the stated depth over runs, linearisations, failing analyses, setups and multi-instance models; every single input entry; every geometry form, panel count and node count of the alphabet",
    "Tests train one or two models once in a process; results kept from another problem, a failed training or a changed input are only visible in longer histories.",
    ["openconcept/aerodynamics/openaerostruct/drag_polar.py", "openconcept/aerodynamics/openaerostruct/aerostructural.py", "openconcept/aerodynamics/openaerostruct/CL_max_critical_section.py"],
    [("training data components and their shared store", "openconcept/aerodynamics/openaerostruct/drag_polar.py (VLMDataGen), aerostructural.py (OASDataGen)"), ("drag polars", "VLMDragPolar, AerostructDragPolar, AerostructDragPolarExact, CLmaxCriticalSectionVLM")],
    "explicit-state exploration of operation histories with fault injection at each analysis on the real components, plus complete configuration enumeration and conformance runs on real OpenAeroStruct", "Histories use analytic analyses in place of OpenAeroStruct; the real solver and process pool are covered on small grids only. Components of one process share surf_options as documented.", "model_checking",
)
prop(
    "C06", "Tagged rates are integrated over their phase and carried over phase links",
    "Every rate tagged for integration, wherever it sits in a phase, is integrated over that phase's duration, its state has the declared name, units, initial and final values, and every declared phase link starts each state of the later phase at its final value in the earlier one unless that state is skipped. This holds for any number of phases, integrators and nesting levels, in any link order, and after the same model is set up again.",
    ["configurations", "inputs", "histories"], "every trajectory of 1-3 phases over six kinds of integration site (all subsets), every ordered link set, every single skipped state, and every sequence of {set up, run, run with other inputs} to the stated depth",
    "Tests build a few fixed trajectories and set each up once; a state lost for one combination of nesting, promotion and links, or on a second setup, is invisible to them.",
    ["openconcept/mission/mission_groups.py", "openconcept/utilities/math/integrals.py"],
    [("PhaseGroup/IntegratorGroup/TrajectoryGroup configure", "openconcept/mission/mission_groups.py")],
    "explicit-state exploration of model configurations and setup/run histories on the real code, state = phase inputs, against an exact integration model", "Complete over the stated trajectories and histories; rates are independent inputs here (feedback through solved missions is C07).", "model_checking",
)
prop(
    "C07", "A solved mission flies the requested profile and its books balance",
    "A converged mission analysis satisfies, at every node of every phase, the requested altitudes, speeds, climb rates, range and reserve rules, the force balance along and normal to the flight path, and the consistency of distance, altitude, fuel and weight histories across all phases. Results do not depend on the starting guess, on an earlier solution or on a repeated setup, and total derivatives are those of the solved mission.",
    ["inputs", "configurations", "histories"], "basic, with-reserve and full takeoff mission profiles, grid sizes, and all assignments of mission parameters, speed schedules and aircraft with at most two deviations from the base; all short histories of solving and setting up",
    "Tests compare final fuel numbers of shipped examples with recorded values; errors that shift one phase, one option, one grid or a second solve do not show there.",
    ["openconcept/mission/profiles.py", "openconcept/mission/phases.py", "openconcept/mission/mission_groups.py"],
    [("phase residuals, profile links and duration balances", "openconcept/mission/phases.py, openconcept/mission/profiles.py")],
    "bounded exhaustive exploration of solved missions and solve/setup histories against an independent reference mission", "Compared within solver tolerance and the shared quadrature; analytic aircraft models with the documented interface stand for the user's aircraft.",
)
prop(
    "C08", "Takeoff phases satisfy the balanced field conditions",
    "A converged takeoff analysis accelerates, rejects, continues with one engine out and rotates or transitions to the obstacle height with consistent speed, distance and altitude histories. The decision speed is the one at which accelerate-stop and accelerate-go distances are equal, or the rotation speed when the field is not balanced below it, and the engine-out climb gradient follows the thrust, drag and weight.",
    ["inputs", "configurations"], "both transition methods, grid sizes, aircraft and speed assignments with at most two deviations, both sides of the switch to v1 = vR, and a complete grid of the decision-speed equation",
    "Tests check a few takeoff lengths of shipped aircraft; the switch between balanced and unbalanced fields and the phases' dependence on individual inputs are not sampled.",
    ["openconcept/mission/phases.py", "openconcept/mission/profiles.py"], [("takeoff phases and balanced field solver", "openconcept/mission/phases.py")],
    "bounded exhaustive exploration of solved takeoffs against an independent collocation and bracketed decision speed", "Within solver tolerance; the takeoff phases are analysed at sea level as coded.",
)
prop(
    "C11", "Flight mechanics helpers satisfy the equations of motion",
    "Ground speed and flight path angle, lift coefficient for the required load, horizontal and vertical accelerations, steady climb angle and braking forces follow from the point-mass equations of motion at every node. Phase durations, speed-reference and flip helpers return the quantities they declare, in any units and at limits such as zero climb rate, full braking and vertical clipping.",
    ["inputs", "configurations"], "full alphabets of speeds, angles, weights, thrusts, drags and brake settings including zeros and limits",
    "Tests exercise constant vectors at one point; sign and branch errors elsewhere pass.",
    ["openconcept/mission/phases.py"], [("kinematic components", "openconcept/mission/phases.py")], ENUM, NOTE,
)
prop(
    "C14", "Engine decks reproduce their cycle data and scale as documented",
    "Each tabulated engine reproduces its cycle data at every tabulated condition in the declared units, per point and in any batch. The engine scaled to another rating gives thrust and fuel flow in proportion to the rating at the same throttle, temperatures and margins unscaled, and throttle and derivatives are consistent after any history of runs and setups. The propeller maps reproduce their published tables at every knot, on the stretched axes of the scaled map too.",
    ["inputs", "configurations", "histories"], "every tabulated point of every deck (620/615/1530) and knot of every propeller map, every deck x fuel x rating x batch size for scaled engines, all short histories",
    "Tests check one to three points per deck; a unit slip, a swapped axis or a wrong scaling at other ratings is not sampled.",
    ["openconcept/propulsion/cfm56.py", "openconcept/propulsion/N3.py", "openconcept/propulsion/rubberized_turbofan.py"],
    [("surrogate training and wrappers", "openconcept/propulsion/cfm56.py, N3.py"), ("rating scaling", "openconcept/propulsion/rubberized_turbofan.py")],
    "exhaustive enumeration of every tabulated point and of scaled-engine histories on the real code", "The tables shipped in empirical_data are the ground truth; off-table interpolation is judged only for batch consistency and derivatives.",
)
prop(
    "C21", "Empty weight estimates follow the cited statistical methods",
    "Component and total empty weights of turboprops, jet transports, blended wing bodies and wing structures follow the cited weight equations for every option, in any units. The operating empty weight is the sum of its declared parts with the declared fudge factors.",
    ["inputs", "configurations"], "all option combinations crossed with aircraft geometry, weight and engine alphabets, both sides of every switch",
    "Tests compare one aircraft with recorded weights.",
    ["openconcept/weights"], [("weight equations", "openconcept/weights")], ENUM, NOTE,
)
prop(
    "C16", "Thermal loops, exchangers and refrigerators balance heat and follow their laws",
    "Every cold plate, motor and battery cooling system, reservoir, refrigerator, heat exchanger, hose, pump and manifold conserves mass and energy and follows its documented law at every node, steady or unsteady, for every option and unit. Temperatures approach the source only as far as effectiveness allows, refrigerator work matches its coefficient of performance, and split fractions or reversed flows outside the model are refused.",
    ["inputs", "configurations"], "all option combinations crossed with alphabets of flows, temperatures, heats and geometry including limits (zero heat, full bypass, equal temperatures, balanced capacity), every placement of out-of-range values among the points",
    "Tests compare one operating point of each part with recorded values, many with equal or zero side inputs (e.g. fouling on one side), so swapped sides and ignored options pass.",
    ["openconcept/thermal"],
    [("coolant loops and cold plates", "openconcept/thermal/thermal.py, battery_cooling.py, motor_cooling.py"), ("refrigerator", "openconcept/thermal/chiller.py"), ("heat exchanger", "openconcept/thermal/heat_exchanger.py"), ("hose, pump, manifold", "openconcept/thermal/hose.py, pump.py, manifold.py")], ENUM, NOTE,
)
prop(
    "C17", "Ram air ducts conserve mass, momentum and energy in compressible flow",
    "Each duct station satisfies the isentropic relations, continuity, heat addition and pressure recovery or loss it is given, the nozzle is choked exactly when its pressure ratio is below critical, and net force is gross thrust less ram drag. The assembled duct finds the mass flow consistent with all its stations and a heat exchanger inside it, per point and whatever the batch.",
    ["inputs", "configurations"], "alphabets of flight conditions, areas, losses, heat and pressure additions for each relation and station; assembled ducts with every input varied alone or in pairs",
    "Tests fix one flight condition with default losses; choked nozzles, losses at other stations and per-point behaviour are not sampled.",
    ["openconcept/thermal/ducts.py"],
    [("duct stations, nozzles and assembled ducts", "openconcept/thermal/ducts.py")], ENUM, NOTE,
)
prop(
    "C18", "Heat pipes follow their resistance, wall and heat transfer limit laws",
    "For every tilt, wick, wall, length and pipe count a heat pipe's resistance is the sum of its wick, wall and vapour terms, its wall resists the ammonia design pressure with the declared safety factor, and its limit follows the flooding correlation at the current temperature. Condenser temperature is evaporator temperature less heat per pipe times resistance, and a warning is raised exactly when some point exceeds the threshold.",
    ["inputs", "configurations"], "all listed option combinations crossed with alphabets of diameters, lengths, heats, temperatures and pipe counts; every tabulated ammonia point and two points between; every placement of values around each warning limit",
    "Tests use the default wick and one or two points, so an ignored option or a warning that looks at one point passes.",
    ["openconcept/thermal/heat_pipe.py"], [("heat pipe model", "openconcept/thermal/heat_pipe.py")], ENUM, NOTE,
)
prop(
    "C24", "Hydrogen tanks keep mass and carry walls sized for their loads",
    "A liquid hydrogen tank holds its initial fill less what was drawn, at every node and across linked phases, with matching fill level and total weight. Its inner wall resists the operating pressure, its outer wall the outside pressure in the more critical buckling mode, and wall and insulation weights follow from the capsule geometry, for every option and unit.",
    ["inputs", "configurations"], "all listed options crossed with radii, lengths (zero included), pressures, gaps, layers and flow histories; every sequence of up to three linked phases over three flow histories",
    "Tests check one tank and a constant flow in a single phase; a wrong mode, an ignored option or mass lost at a phase link passes.",
    ["openconcept/energy_storage/hydrogen"], [("tank and wall models", "openconcept/energy_storage/hydrogen/*.py")], ENUM, NOTE,
)
prop(
    "C25", "Input dictionaries, labels, declared sums and plots carry data through unchanged",
    "Values read from an input dictionary appear with their declared value, shape and unit, a missing name is refused, and the dictionary is never changed by later use. Labels, promoted sums and factors deliver exactly what was declared, and trajectory, mesh and force plots show exactly the solution they are given in the requested units.",
    ["histories", "configurations", "inputs"], "every value kind, unit, depth and subset of entries; every history to depth 4 of setting, running, setting up again and building a second component; every layout, page, case and phase count of the alphabet; every mesh shape",
    "Tests build one dictionary once and do not draw any plot.",
    ["openconcept/utilities/dict_indepvarcomp.py", "openconcept/utilities/dvlabel.py", "openconcept/mission/mission_groups.py", "openconcept/utilities/visualization.py"],
    [("dictionary inputs", "openconcept/utilities/dict_indepvarcomp.py"), ("labels", "openconcept/utilities/dvlabel.py"), ("promoted sums and factors", "IntegratorGroup.promote_add, promote_mult"), ("plots", "openconcept/utilities/visualization.py")],
    "explicit-state exploration of operation histories plus complete enumeration of configurations on the real code", "Figures are inspected as drawn objects; rendering to files is matplotlib's.", "model_checking",
)
prop(
    "C26", "Assembled propulsion systems deliver power, heat, mass and fuel consistently",
    "In every shipped propulsion system each part receives the power, rating, throttle, failure flag, heat and coolant of its documented source, bus demand is met by the declared split of generator and battery, and total thrust, fuel flow, heat and component masses are the sums over all parts. Cooling loops close with each station obeying its law and temperatures integrated exactly, and a run never uses quantities of an earlier run.",
    ["inputs", "configurations"], "each shipped system crossed with alphabets of throttle, flight condition, ratings, hybridization, failed propulsor, battery mass, flows and duct areas; every input varied alone and in pairs at several node counts",
    "Tests exercise the systems only inside one mission each with both engines alike, so a swapped rating, a forgotten connection or a lagged input passes.",
    ["openconcept/propulsion/systems"],
    [("turboprop systems", "openconcept/propulsion/systems/simple_turboprop.py"), ("series hybrids", "openconcept/propulsion/systems/simple_series_hybrid.py"), ("electric systems", "openconcept/propulsion/systems/simple_all_electric.py"), ("cooled systems", "openconcept/propulsion/systems/thermal_series_hybrid.py")], ENUM, NOTE,
)
prop(
    "C27", "Malformed declarations and out-of-domain values are refused, valid ones run",
    "A declaration that contradicts its documentation (list lengths or sizes that do not match, unknown rules, engines, configurations or grid sizes, ill-defined links or phases) and a value outside its documented domain at any analysis point are refused with an error rather than evaluated to something. Every well-formed declaration and in-domain value is accepted and evaluated as declared, also after an earlier refusal on the same problem.",
    ["inputs", "configurations", "histories"], "every combination of list lengths, sizes, rules and choices of the alphabets; every placement of in-range, boundary and out-of-range values over the points; every word of depth 3 (4 thorough) over valid and invalid inputs on one live problem",
    "Tests try one malformed call per message; a guard that looks at the first point only, accepts a wrong length or refuses a boundary value passes them.",
    ["openconcept/utilities", "openconcept/propulsion", "openconcept/aerodynamics/openaerostruct", "openconcept/mission", "openconcept/weights"],
    [("declaration checks of the vector algebra utilities", "openconcept/utilities/math"), ("value checks of splitters and heat exchangers", "openconcept/propulsion/splitter.py, openconcept/utilities/selector.py"), ("phase links", "openconcept/mission/mission_groups.py"), ("wing sections and meshes", "openconcept/aerodynamics/openaerostruct")],
    "explicit-state exploration of histories of valid and invalid inputs plus complete enumeration of declarations on the real code", "Any exception counts as a refusal; types and wording are not judged. Limited to the guards the documentation states.", "model_checking",
)
prop(
    "C28", "Every class offers its documented inputs, outputs, options, units and defaults",
    "For every public analysis class, in every configuration and at every number of analysis points, each documented input, output and option exists in its documented role, with its declared shape and a unit of the declared dimension and scale, and outputs keep their declared bounds. Inputs and options left alone keep their declared defaults, so a run that names no units or leaves a parameter out keeps its meaning. Every declaration keyword given to a generic utility (value, units, bounds, reference scaling, description) reaches the variable it declares.",
    ["configurations"], "every class of the library, default options, every flag flipped, every listed choice, four grid sizes; every input, documented output and option of each; every keyword of every declaring utility",
    "Tests set nearly every input explicitly and read with explicit units, so a changed default, a scalar turned vector or a variant missing an input is never noticed.",
    ["openconcept"], [("declared inputs, outputs and options", "openconcept/**/*.py")],
    "complete enumeration of classes, configurations and sizes on the real code against a recorded table of the declared interface", "The table records the declarations of the reviewed tree, where docstrings disagree with declared defaults (listed in DESIGN.md) the declaration counts. Additional inputs, outputs, options and classes are allowed.", "exploration",
)

"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
O = "openconcept/"
prop("C01", "Every component's supplied derivatives are the true derivatives",
 "For every component and group the library ships, in every documented option configuration, the derivative of each output with respect to each input that it hands to the optimizer equals the true derivative of that output at that point. A pair it reports as independent really does not influence each other. This holds at every physically valid point where the outputs are differentiable, whatever was evaluated before.",
 ["inputs", "configurations"], "all components x option values x vector lengths x physically valid inputs (each array entry independent), away from documented non-differentiable points",
 "The tests run derivative checks at one hand-picked (mostly constant) input per component and mostly default options; wrong terms that vanish there (zero inputs, equal vector entries, unexercised options or regimes) pass.",
 [O+"utilities", O+"propulsion", O+"thermal", O+"energy_storage", O+"weights", O+"aerodynamics", O+"atmospherics", O+"geometry", O+"mission/phases.py", O+"costs", O+"stability"],
 [("hand-written partial derivatives", "compute_partials / linearize of every ExplicitComponent / ImplicitComponent"), ("declared sparsity", "declare_partials calls in every setup")],
 ["compute_totals / check_partials data"])
prop("C02", "State integration follows the documented scheme however time is given",
 "Integrating any set of rates over one phase starts at the given initial value, equals the documented quadrature at every node (Simpson: exact for rates that are quadratic polynomials in time, and for cubic ones at the ends of its two-step intervals; third-order backward differences, which need at least five nodes: exact for quadratic rates), and reports a final value equal to its last node. The result is linear in the rates and initial value, independent of the other states integrated by the same component, consistent with the units declared for rate, time and state, and the same whether time is given as a step, a duration or start and end bounds.",
 ["inputs", "configurations"], "all rate histories, initial values, node counts, both methods, all ways of giving time, rate and time units, any number of states, zero or given start, final-only or full output",
 "Tests use a few fixed polynomials, one or two states and default units; the tables of weights and the index bookkeeping for many states, options and units are only sampled.",
 [O+"utilities/math/integrals.py"], [("quadrature matrices", "simpson_cache_matrix, bdf3_cache_matrix"), ("accumulation", "multistep_integrator"), ("integrand bookkeeping", "Integrator.add_integrand / compute")])
prop("C03", "Multi-segment integration equals chaining the segments",
 "Integrating a quantity over several consecutive segments in one component gives, at every node, the same values as integrating each segment on its own and passing the end value of one as the start of the next. Segments that are not to be counted contribute nothing to the accumulated value, and the initial value, units and time specification (step or bounds) act as they do for a single segment.",
 ["inputs", "configurations"], "all segment lists and subsets counted, segment step sizes, rate histories, node counts, methods, start options",
 "Tests cover two or three fixed segment layouts with smooth rates.",
 [O+"utilities/math/integrals.py"], [("segment weights", "OldIntegrator.setup / multistep_integrator")])
prop("C04", "Numerical time derivatives are exact to their stated order",
 "The numerical differentiation utility reproduces exactly, at every node including segment ends, the time derivative of any polynomial up to its stated order of accuracy, segment by segment with independent step sizes. It is linear in its input, inverse-proportional to the step, and rejects node counts too small for the requested order.",
 ["inputs", "configurations"], "all polynomials up to the order, node counts, number and step size of segments, both orders, units",
 "Tests use one fixed function with one step size and compare few points.",
 [O+"utilities/math/derivatives.py"], [("stencils", "first_deriv_second_order_accurate_stencil, first_deriv_fourth_order_accurate_stencil"), ("component", "FirstDerivative")])
prop("C05", "Vector arithmetic utilities compute exactly the equations they are given",
 "Each vector arithmetic utility (weighted sum, elementwise product and quotient, concatenation, splitting, maximum and minimum, selection, linear interpolation) returns for every input exactly what its definition says, for each of any number of equations added to it and in any order, with the units of operands and results taken into account. Ill-formed requests (wrong vector lengths, missing names, duplicate or inconsistent sizes, an undefined selection) are refused with an error rather than computed.",
 ["inputs", "configurations"], "all operand values, vector lengths, scalar-vector mixes, units, scaling factors, numbers and order of equations, repeated model set-ups",
 "Tests exercise each utility with one or two fixed configurations; the bookkeeping over several equations, lengths, units and repeated set-ups is not explored.",
 [O+"utilities/math", O+"utilities/selector.py", O+"utilities/linearinterp.py"], [("sum", "AddSubtractComp"), ("product", "ElementMultiplyDivideComp"), ("concatenate and split", "VectorConcatenateComp, VectorSplitComp"), ("selection", "SelectorComp"), ("extremes", "MaxComp, MinComp"), ("interpolation", "LinearInterpolator")])
prop("C06", "Atmosphere follows the 1976 standard and is self-consistent",
 "At every altitude within the documented range pressure and temperature match the 1976 US standard atmosphere (apart from the documented smoothing around the tropopause, within which they join continuously and with continuous slope), pressure falls monotonically, and density, speed of sound, airspeed conversion, Mach number and dynamic pressure satisfy the ideal-gas and airspeed definitions exactly. A temperature increment changes temperature by exactly that amount and leaves pressure unchanged, and each node's result depends on that node's altitude only.",
 ["inputs"], "all altitudes, airspeeds and temperature increments, vectors mixing all atmospheric regions in any order",
 "Tests compare a handful of tabulated altitudes; continuity and consistency across regions and for mixed vectors is a statement over a continuum.",
 [O+"atmospherics"], [("pressure and temperature fits", "atmospherics_data.py"), ("derived properties", "density_comp, speedofsound_comp, true_airspeed, mach_number_comp, dynamic_pressure_comp, compute_atmos_props")])
prop("C07", "A converged mission satisfies steady-flight balance and reaches its targets",
 "At every node of every climb, cruise, descent, reserve and loiter phase of a converged mission, lift balances weight on the flight path and thrust balances drag plus the weight component along it, the trajectory follows the requested airspeed and vertical speed, and throttle is what achieves it. Phases join with continuous altitude, range, time and states; the profile reaches the requested cruise altitude, mission range, reserve range, reserve altitude and loiter duration; ground speed and elapsed time are consistent with the states.",
 ["inputs", "configurations"], "all mission profiles without takeoff, mission ranges, altitudes, speeds, vertical speeds, weights, wind-free atmospheres, aircraft parameters for which the mission converges, node counts",
 "Integration tests run a few example aircraft at one mission each and compare totals with stored numbers, so a violated balance at untested inputs or nodes is invisible.",
 [O+"mission/phases.py", O+"mission/profiles.py"], [("force balance", "SteadyFlightPhase, SteadyFlightCL"), ("kinematics", "Groundspeeds"), ("targets", "BalanceComp in profiles")])
prop("C08", "Takeoff analysis balances the field and respects the equations of motion",
 "A converged takeoff analysis gives equal distances for continuing and rejecting the takeoff at the decision speed, or a decision speed equal to rotation speed when that is critical, and every ground-roll, braking, rotation and climb-out phase satisfies the horizontal and vertical equations of motion with the stated rolling or braking friction, thrust and engine-out condition. Phases start and end at the speeds and heights stated (decision, rotation, obstacle) and the distances add up.",
 ["inputs", "configurations"], "all takeoff weights, thrust levels, wing and lift parameters, runway altitudes, speed factors and node counts for which the analysis converges; both takeoff models",
 "Existing tests compare the field length of a few example aircraft with stored values.",
 [O+"mission/phases.py", O+"mission/profiles.py"], [("balanced field residual", "BFLImplicitSolve"), ("ground roll and rotation", "GroundRollPhase, RotationPhase, RobustRotationPhase"), ("climb-out", "TakeoffTransition, TakeoffClimb, ClimbAngleComp"), ("equations of motion", "HorizontalAcceleration, VerticalAcceleration, Groundspeeds")])
prop("C09", "Every tagged state is integrated and carried between phases exactly once",
 "In any hierarchy of model groups inside a phase, every output tagged for integration is integrated over that phase's time with the requested initial value, units and bounds, whatever its depth, promotion or name and however many others there are. Across linked phases the final value of each named state equals the initial value of the same state in the next phase unless it is excluded or not linked, and untagged outputs are left alone.",
 ["configurations", "inputs"], "all nestings, promotions, numbers of tagged states, tag options, phase counts, link and exclusion sets and rate values",
 "Tests build two or three small fixed hierarchies.",
 [O+"mission/mission_groups.py"], [("state discovery", "find_integrators_in_model, get_prom_name"), ("automatic integrators", "IntegratorGroup"), ("linking", "TrajectoryGroup.link_phases, PhaseGroup")])
prop("C10", "Vectorized results at a node depend on that node's inputs only",
 "For every component that takes a number of analysis points, evaluating a vector of points gives at each point the same values as evaluating that point alone; permuting, duplicating or extending the points permutes, duplicates or extends the results. This excludes only utilities whose purpose is to couple points in time.",
 ["inputs", "configurations"], "all vectorized components and option configurations, point counts and heterogeneous per-point inputs that straddle regime boundaries",
 "Tests use constant or gently varying vectors of one length, so cross-talk, wrong masks and broadcasting slips do not show.",
 [O+"atmospherics", O+"aerodynamics", O+"propulsion", O+"thermal", O+"energy_storage"], [("num_nodes vectorization", "setup/compute of every component with a num_nodes option")])
prop("C11", "Propulsion components conserve power and obey their sizing laws",
 "Motors, generators, turboshafts, power splits and propellers split their input power exactly into useful output and losses according to the given efficiencies, consumption and split settings, clipped only as documented, and their cost, weight and sizing margins follow the stated linear or published laws. Propeller thrust, power and advance ratio satisfy the standard non-dimensional definitions for every supported blade count and operating regime from static to cruise.",
 ["inputs", "configurations"], "all throttles, ratings, efficiencies, split rules and amounts, weight and cost coefficients, blade counts, propeller speeds and flight conditions in range",
 "Tests run each component at one or two operating points with mostly default options.",
 [O+"propulsion/motor.py", O+"propulsion/generator.py", O+"propulsion/turboshaft.py", O+"propulsion/splitter.py", O+"propulsion/propeller.py", O+"propulsion/empirical_data/prop_maps.py"], [("power balance", "SimpleMotor, SimpleGenerator, SimpleTurboshaft, PowerSplit"), ("propeller", "SimplePropeller, PropCoefficients, ThrustCalc, WeightCalc")])
prop("C12", "Propulsion architectures balance power, fuel, thrust and weight end to end",
 "In every assembled propulsion system that can be run, total thrust, fuel flow, electrical load and component weight are the sums over its units, power delivered to each unit equals power consumed there, a disabled propulsor produces no thrust while the others are unaffected, and a hybrid system's engine and battery together supply exactly the electrical demand in the requested proportion. Heat removed from each cooled component equals the heat its coolant loop receives.",
 ["inputs", "configurations"], "all supplied propulsion architectures, throttles, ratings, hybridization fractions, propeller speeds, flight conditions and engine-out settings for which the system converges",
 "Existing tests touch most systems only through one example mission.",
 [O+"propulsion/systems"], [("turboprop", "simple_turboprop.py"), ("hybrid", "simple_series_hybrid.py, thermal_series_hybrid.py"), ("electric", "simple_all_electric.py")])
prop("C13", "Thermal components conserve energy and respect physical bounds",
 "Every thermal component (lumped mass, massless component, cold plate, motor and battery cooling, reservoir, flow split and combine, heat pump, heat pipe, hose, pump) satisfies its energy and mass balance exactly: heat in equals heat stored plus heat out plus enthalpy rise of the coolant. Effectiveness stays between zero and one, heat pump work, duty and coefficient of performance stay consistent in every bypass setting, and sizes and weights follow the stated laws for every option value.",
 ["inputs", "configurations"], "all flow rates, temperatures, heat loads, sizes, options including quasi-steady and unsteady modes and all heat pipe geometry and material options",
 "Tests compare isolated operating points and mostly default options with stored numbers.",
 [O+"thermal/thermal.py", O+"thermal/manifold.py", O+"thermal/chiller.py", O+"thermal/heat_pipe.py", O+"thermal/motor_cooling.py", O+"thermal/battery_cooling.py", O+"thermal/hose.py", O+"thermal/pump.py"], [("balances", "compute of each component"), ("heat pump", "chiller.py"), ("heat pipe", "heat_pipe.py")])
prop("C14", "Heat exchangers and ducts obey heat-transfer and compressible-flow laws",
 "A heat exchanger transfers the same heat out of the hot stream as into the cold stream, never more than the ideal maximum, with geometry, friction, conductance, fouling and pressure drop following the documented correlations for each side. Ducts conserve mass and energy: total and static states satisfy the isentropic relations and their inverses, area, Mach number and mass flow agree, heat addition raises total temperature accordingly, and the nozzle is choked exactly when the pressure ratio requires it.",
 ["inputs", "configurations"], "all flow rates, fluids, fin geometries, fouling factors, inlet conditions, areas, losses, heat additions and node counts in range",
 "Tests check a single design point with default options.",
 [O+"thermal/heat_exchanger.py", O+"thermal/ducts.py"], [("heat exchanger", "heat_exchanger.py"), ("ducts", "ducts.py")])
prop("C15", "Battery state of charge accounts for exactly the energy drawn",
 "Over any load history the drop in a battery's state of charge times its energy capacity equals the energy drawn, heat is the stated inefficiency share of the load, and the sizing margin, cost and component weight follow the stated laws. Initial charge, weight and specific energy act with their declared units, and a battery used within a chain of phases starts each phase where the previous one ended.",
 ["inputs", "configurations", "histories"], "all load histories, weights, efficiencies, specific energies and powers, initial charges, phase durations and node counts",
 "Tests use constant loads.",
 [O+"energy_storage/battery.py"], [("state of charge", "SOCBattery"), ("losses and sizing", "SimpleBattery")])
prop("C16", "Hydrogen tank mass and structure follow from contents, pressure and geometry",
 "Through any history of inflow and outflow, liquid mass in the tank equals the initial fill minus what was withdrawn, fill level is that mass over full capacity, and total weight is contents plus dry weight. Wall thicknesses satisfy the stated pressure-vessel and vacuum-buckling formulas for cylinder and end caps (the governing one being used), insulation weight follows layers and area, and the weight is built from both walls, insulation and stiffening with the given materials and factors.",
 ["inputs", "configurations", "histories"], "all radii, lengths, pressures, fill levels, materials, safety factors, insulation settings, withdrawal histories and phase durations",
 "Tests compare a few points with stored numbers.",
 [O+"energy_storage/hydrogen"], [("tank", "LH2_tank_no_boil_off.py"), ("structure", "structural.py")])
prop("C17", "Planform geometry, tail sizing and meshes describe the requested shape",
 "Derived planform quantities (span, aspect ratio, area, mean chord, sweep, wetted area, tail areas by volume coefficient) satisfy their geometric definitions for every trapezoidal or sectioned wing. Generated meshes have the requested planform area, span, taper, sweep and section positions with the requested panel counts and spacing, are ordered tip to root and leading to trailing edge, are planar and never folded, and spanwise interpolations are exact for linear distributions on that same mesh.",
 ["inputs", "configurations"], "all section counts, panel counts per region, section offsets, chords and positions, areas, aspect ratios, tapers and sweeps, region selections, scaling on or off",
 "Tests use a few simple shapes.",
 [O+"geometry", O+"stability", O+"aerodynamics/openaerostruct/mesh_gen.py"], [("planform", "wing_planform.py, wetted_area.py"), ("tail sizing", "tail_volume_coefficient_sizing.py"), ("meshes", "mesh_gen.py")])
prop("C18", "Empty-weight buildups equal the sum of their published component laws",
 "Each component weight equals its published regression for all aircraft parameters, and the total empty weight equals the sum over components with structural, total and wing factors applied exactly as documented, for every supported aircraft class (small turboprop, twin series hybrid, jet transport, blended wing body). Every option reaches the component it is documented to influence and no other.",
 ["inputs", "configurations"], "all aircraft parameters and option values",
 "Tests evaluate one aircraft per class with default options.",
 [O+"weights"], [("regressions", "weights_turboprop.py, weights_jet_transport.py, weights_BWB.py"), ("buildups", "SingleTurboPropEmptyWeight, TwinSeriesHybridEmptyWeight, JetTransportEmptyWeight, BWBEmptyWeight")])
prop("C19", "Aerodynamic forces, drag buildup and maximum lift follow their definitions",
 "Lift, parabolic-polar drag and stall speed satisfy their defining equations for every flight condition. The parasite drag buildups sum skin friction, form, interference and flap terms of exactly the configured components, each normalized by reference area, with the documented laminar fraction, roughness, Mach and Reynolds behaviour in takeoff and cruise configuration; maximum-lift and wave-drag estimates follow their stated formulas, including continuity and onset at the critical Mach number.",
 ["inputs", "configurations"], "all flight conditions, reference areas, drag options, component sets, section layouts and selections, flap settings",
 "Tests compare single conditions with stored values.",
 [O+"aerodynamics"], [("polar", "aerodynamics.py"), ("buildups", "drag_jet_transport.py, drag_BWB.py"), ("maximum lift", "CL_max_estimation.py"), ("wave drag", "openaerostruct/wave_drag.py")])
prop("C20", "Vortex-lattice drag polars agree with direct analysis and never go stale",
 "Training data behind a surrogate drag polar equals a direct analysis at every training point, for whatever sequence of geometry, thickness and temperature changes preceded it; the surrogate reproduces that data at the training points and returns the drag of the wing at the requested lift coefficient plus the non-wing drag. Each input (area, sections, twist, thickness) affects the analysed wing at the spanwise station it is documented to describe.",
 ["histories", "inputs", "configurations"], "all sequences of input changes and re-evaluations, with repeats and small changes, all three geometry parameterizations, panel counts and surface options",
 "Tests run once per fresh model, so a stale cache or a mis-mapped spanwise distribution is not observed.",
 [O+"aerodynamics/openaerostruct"], [("training cache", "VLMDataGen.compute, OASDataGen.compute"), ("surrogate", "VLMDragPolar, AerostructDragPolar"), ("direct analysis", "VLM, Aerostruct"), ("maximum lift", "CLmaxCriticalSectionVLM")])
prop("C21", "Engine deck models interpolate their decks and scale with rating",
 "Each turbofan deck model reproduces its tabulated thrust, fuel flow and temperature at the tabulated points within surrogate accuracy and stays continuous between them; a rubberized engine multiplies thrust and fuel flow by the ratio of its rating to the deck's rating (and by the fuel-energy ratio for hydrogen), leaving the other outputs unscaled.",
 ["inputs", "configurations"], "all throttles, altitudes, Mach numbers, ratings, hybridization levels, engine choices and fuel choices within the deck",
 "Tests evaluate a few points per deck.",
 [O+"propulsion/cfm56.py", O+"propulsion/N3.py", O+"propulsion/rubberized_turbofan.py"], [("decks", "CFM56, N3, N3Hybrid"), ("scaling", "RubberizedTurbofan")])
prop("C22", "Operating cost is the documented sum of its cost elements",
 "Fuel, electricity, depreciation, maintenance, crew and component costs each follow the documented formula for every mission and aircraft, and the reported totals are the sums of exactly the listed elements scaled with the documented units and option values. Additional component costs, when given, contribute linearly.",
 ["inputs", "configurations"], "all weights, cost inputs, component cost lists and option values",
 "One test evaluates one aircraft.",
 [O+"costs"], [("cost model", "TurbopropOperatingCost")])
prop("C23", "Results depend on current inputs only, not on what was evaluated before",
 "Evaluating a model at some inputs gives the same outputs and derivatives regardless of which other inputs were evaluated or differentiated before, of how many times the model was set up, and of other models living in the same process. Options and lists handed in by the user are never modified.",
 ["histories", "inputs", "configurations"], "all components and sequences of set inputs, evaluate, differentiate, set up again, with several instances interleaved",
 "Each test builds a fresh model and evaluates it once.",
 [O+"atmospherics", O+"propulsion", O+"thermal", O+"utilities", O+"mission", O+"aerodynamics"], [("values cached between calls", "self.* set in compute and read in compute_partials"), ("class-level caches and mutable options", "setup of each component")])
prop("C24", "Whole-mission total derivatives match re-evaluated missions",
 "For any converged mission or takeoff analysis, the total derivatives of mission results (fuel burn, final states, field length, weights) with respect to design inputs equal the change of those results when the inputs are perturbed and the mission is solved again. This holds for every profile type and connected propulsion system.",
 ["inputs", "configurations"], "all profile types, aircraft models and design points for which the mission converges, all pairs of result and design input",
 "Tests never compare total derivatives of a mission with re-solved missions over varying design points.",
 [O+"mission", O+"utilities/math/integrals.py", O+"propulsion/systems"], [("total derivatives", "partials of every component in the mission plus balances in profiles.py")])
prop("C25", "Trajectory plots show exactly the mission data requested",
 "Every curve drawn by the trajectory plotting helpers consists of exactly the requested quantity against the requested abscissa, for exactly the requested phases in order, converted to the requested units, with labels, legend and markers as asked. Wing-mesh and force plots draw exactly the given mesh, mirrored when symmetric, with force densities per unit of actual panel width.",
 ["inputs", "configurations"], "all phase lists, variable lists, unit choices, label and marker options, meshes and force fields",
 "There are no tests of plotted content.",
 [O+"utilities/visualization.py"], [("trajectory plots", "plot_trajectory, plot_trajectory_grid"), ("wing plots", "plot_OAS_mesh, plot_OAS_force_contours")])
prop("C26", "Dictionary-driven inputs deliver the declared values, units and names",
 "A component filled from a nested data dictionary exposes exactly the listed quantities under the listed names with the dictionary's values, shapes and units, separator and default handling as documented, and refuses names or structures that are absent. Relabelled design variables pass values through unchanged with unit conversion.",
 ["inputs", "configurations"], "all nested dictionaries, names, shapes, units and lists of requested quantities, repeated set-ups",
 "Tests use a single small dictionary.",
 [O+"utilities/dict_indepvarcomp.py", O+"utilities/dvlabel.py"], [("dictionary inputs", "DictIndepVarComp, DymosDesignParamsFromDict"), ("labels", "DVLabel")])
prop("C27", "Results do not depend on the units in which quantities are handed over",
 "Every dimensional input and output of the library carries the unit of its physical quantity. Supplying the same physical value in another compatible unit, directly or through a connection from a source declared in that unit, reading outputs in another unit, or building a utility with other unit options, yields the same physical results.",
 ["inputs", "configurations"], "all components, propulsion systems, engine decks and utilities, input values, compatible units per input and output, direct setting or connection, unit options of the utilities",
 "Tests hand every quantity over in the component's own unit, mostly set directly.",
 [O+d for d in ("aerodynamics", "atmospherics", "costs", "energy_storage", "geometry", "mission", "propulsion", "stability", "thermal", "utilities", "weights")], [("all components", "declared input and output units"), ("systems", "promotion and set_input_defaults"), ("utilities", "units options")])
prop("C28", "Ill-posed requests are refused and out-of-range operation is flagged, only then",
 "A request the library cannot answer correctly (wrong node count, section list, split rule, method, deck, surface options that differ inside one model, malformed data names, non-physical values at any node) ends in an error. Operation outside the data (heat pipe temperature or load, missing units, invalid selections) warns if any node is affected, at every evaluation. Well-posed requests pass without either.",
 ["inputs", "configurations"], "component options, node counts and positions of the affected node, values on and beyond the limits, histories of good and bad evaluations, all components with inputs in their range",
 "Tests raise some of these errors once, with one offending value in one position, and do not check that edge values and healthy nodes are accepted.",
 [O+"thermal/heat_pipe.py", O+"thermal/manifold.py", O+"thermal/heat_exchanger.py", O+"thermal/ducts.py", O+"aerodynamics", O+"propulsion", O+"mission", O+"utilities"],
 [("heat pipe", "QMaxWarning, HeatPipeVaporTempDrop"), ("flow split", "FlowSplit"), ("sections", "num_sections / num_y checks of SectionPlanformMesh, ThicknessChordRatioInterp, SectionLinearInterp"), ("surface options", "VLMDataGen.setup, OASDataGen.setup"), ("utilities", "Integrator, first_deriv, AddSubtractComp and relatives")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))

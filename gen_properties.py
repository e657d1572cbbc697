#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to maintain)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=s, meaning=s, where=s.split(".")[0]) for s in state], observe_at=observe, hook_needed=None)))

prop("C01", "Time marching is exact, monotone and hits every requested time",
 "In a transient run every accepted step advances the clock by exactly the step size that was used to solve it, the clock never decreases and never passes the final time, and the run stops when the clock has reached the final time (within the 1e-5 relative closeness the code uses). Every milestone, and every time at which a text export was requested, that lies between the start and the final time is one of the times at which the model is solved and exported. This holds for any initial step size and any adaptive settings; the part about milestones and requested times is claimed for steps that converge at the first attempt (what happens to the clock when a step has to be retried is listed as a known finding).",
 ["inputs", "histories"],
 "all step-size settings, milestone lists of any length and order, text-export times, final times and iteration counts reported by the solver; all numbers of steps",
 "The tests step a few fixed settings; whether a milestone is jumped depends on the exact history of step sizes.",
 ["festim/stepsize.py", "festim/generic_simulation.py", "festim/h_transport_problem.py", "festim/exports/txt_export.py"],
 [("milestone and final-time clipping", "Stepsize.adapt, Stepsize.next_milestone, Simulation.iterate"),
  ("time loop", "Simulation.run_transient, Simulation.iterate"),
  ("text-export times become milestones", "Simulation.initialise")],
 ["Simulation.t", "Stepsize.value", "Stepsize.milestones"], ["times of the derived-quantity rows and of the text-export columns", "Simulation.t after each iterate()"])

prop("C02", "Adaptive step-size law, and a diverged step is never accepted",
 "After a converged step an adaptive step size is multiplied by the change ratio when the solver needed fewer than five iterations and divided by it otherwise, then capped by the (possibly time-dependent) maximum step size; a non-adaptive step size changes only to hit milestones and the final time. When the solver does not converge the step is retried from the state before the step with the step size divided by the ratio, and an error is raised if no minimum step size is set, if the step size falls below it, or if the step size is not adaptive. The state that is carried to the next step, exported, or returned from a steady run is therefore always one for which the solver reported convergence.",
 ["inputs", "histories", "fault_sequences"],
 "all ratios > 1, step sizes, caps (constant or function of time), minimum step sizes, iteration counts and every pattern of solver failures",
 "Tests sample a handful of (iteration count, convergence) pairs and never a solver that fails several times in a row inside a run.",
 ["festim/stepsize.py", "festim/h_transport_problem.py", "festim/generic_simulation.py"],
 [("step-size law", "Stepsize.adapt"), ("retry loop", "HTransportProblem.update"), ("steady failure", "Simulation.run_steady")],
 ["Stepsize.value", "HTransportProblem.u", "HTransportProblem.u_n"], ["Stepsize.value after adapt()", "solution after iterate()", "exceptions"])

prop("C03", "The mobile-hydrogen equation solved is the documented balance",
 "For every model the equation solved for mobile hydrogen is, in each material separately and with that material's own properties, the implicit-Euler balance of the local concentration with Arrhenius Fickian diffusion, the thermodiffusion (Soret) flux D Q c grad(T) / (k_B T^2) exactly when it is enabled, and minus each volumetric source on exactly its volumes, and the time-derivative term is absent in steady state. The diffusion operator is the divergence in the mesh's coordinate system (cartesian, cylindrical or spherical). Each material, subdomain and source contributes exactly once.",
 ["inputs", "configurations"],
 "any number of materials (single or several subdomains each), sources on single or several volumes, all coordinate systems, steady or transient, Soret on or off with constant or temperature-dependent heat of transport",
 "The repository's form tests compare UFL objects for a few cases (several of those tests fail in this environment) and never cover curvilinear Soret or several subdomains per material.",
 ["festim/concentration/mobile.py", "festim/h_transport_problem.py", "festim/sources"],
 [("diffusion form", "Mobile.create_diffusion_form"), ("source form", "Mobile.create_source_form"), ("assembly of the residual", "HTransportProblem.define_variational_problem")],
 ["HTransportProblem.F"], ["the residual form handed to the nonlinear solver", "computed concentration profiles"])

prop("C04", "Trapping and detrapping exchange conserves hydrogen",
 "For each trap and each of the trap's materials, with the k_0, E_k, p_0, E_p and density given for that material (a material with one subdomain), the trapped concentration changes by k_0 exp(-E_k/k_B T) c_m (n - c_t) - p_0 exp(-E_p/k_B T) c_t plus that trap's own sources, and in those materials only. The mobile equation loses exactly what the traps gain, term by term, so that the total of mobile and trapped hydrogen is unchanged by trapping. In steady state the trapped concentration is zero in every material that does not host the trap.",
 ["inputs", "configurations"],
 "any number of traps, any number of materials per trap with scalar or per-material parameters, materials given as object or name, transient or steady, with or without chemical-potential conservation",
 "Tests check one or two traps with chosen parameters; conservation is a cancellation between two separately written terms for every pairing of traps and materials.",
 ["festim/concentration/traps/trap.py", "festim/concentration/traps/traps.py", "festim/concentration/mobile.py"],
 [("trap form", "Trap.create_trapping_form, Trap.create_source_form"), ("mobile side", "Mobile.create_diffusion_form"), ("sum over traps", "Traps.create_forms")],
 ["HTransportProblem.F"], ["the residual form handed to the nonlinear solver", "inventories of a closed system"])

prop("C05", "Extrinsic and neutron-induced trap densities follow their rate laws",
 "In a transient run the density of every extrinsic trap evolves by implicit Euler from zero according to dn/dt = phi_0 [(1 - n/n_amax) eta_a f_a + (1 - n/n_bmax) eta_b f_b], and of every neutron-induced trap according to dn/dt = phi K (1 - n/n_max) - A_0 exp(-E_A/k_B T) n, each with its own parameters. The density that was computed is the one used in the trapping terms, and at each step the previous density is the one computed at the step before.",
 ["inputs", "histories"],
 "all parameter values (constant or time-dependent expressions), any number and mix of traps, any number of steps",
 "Tests integrate one extrinsic trap with fixed parameters against an analytic curve with a tolerance; the neutron-induced form test is one of the failing ones.",
 ["festim/concentration/traps/extrinsic_trap.py", "festim/concentration/traps/neutron_induced_trap.py", "festim/concentration/traps/traps.py", "festim/h_transport_problem.py"],
 [("density forms", "ExtrinsicTrap.create_form_density, NeutronInducedTrap.create_form_density"), ("set-up and hand-over", "Traps.initialise_extrinsic_traps, Traps.solve_extrinsic_traps, Traps.update_extrinsic_traps_density")],
 ["ExtrinsicTrapBase.density", "ExtrinsicTrapBase.density_previous_solution"], ["density fields after each step"])

prop("C06", "The heat equation solved is the documented one",
 "When temperature is computed, the equation solved is, per material with that material's (possibly temperature-dependent) properties, rho c_p dT/dt by implicit Euler (only in a transient heat problem) plus heat conduction in the mesh's coordinate system, minus each heat source on exactly its volumes, minus each heat flux on exactly its surfaces, with prescribed temperatures on exactly theirs. A transient heat problem starts from its initial condition, takes at each step the temperature computed at the step before as the previous one, and a stationary one is solved once, before anything else uses the temperature.",
 ["inputs", "configurations", "histories"],
 "any materials, subdomains, sources, fluxes, prescribed temperatures and coordinate systems; all steps",
 "Tests check the cartesian form of one or two materials; curvilinear coordinates with callable properties or subdomain lists are not covered.",
 ["festim/temperature/temperature_solver.py"],
 [("heat form", "HeatTransferProblem.define_variational_problem"), ("boundary values", "HeatTransferProblem.create_dirichlet_bcs"), ("stepping", "HeatTransferProblem.create_functions, HeatTransferProblem.update")],
 ["HeatTransferProblem.F", "HeatTransferProblem.T", "HeatTransferProblem.T_n"], ["residual form and boundary conditions handed to the solver", "temperature field"])

prop("C07", "Every flux boundary condition enters with its law, once per surface",
 "Each flux condition adds, on each of its surfaces exactly once and nowhere else, an inward flux equal to its law evaluated with its own parameters: prescribed value, recombination -Kr_0 exp(-E_Kr/k_B T) c^n, dissociation Kd_0 exp(-E_Kd/k_B T) P, mass transfer -h (c - c_ext), convection -h (T - T_ext), or the user's function of temperature and concentration. A condition on hydrogen enters only the mobile-hydrogen equation and a condition on temperature only the heat equation. c is the hydrogen concentration also when the chemical potential is the unknown.",
 ["inputs", "configurations"],
 "any number and mix of flux conditions, one or several surfaces each, constant or expression parameters, with and without chemical-potential conservation",
 "Tests build each flux alone on one surface and compare UFL objects; combinations, several surfaces and chemical potential are not covered.",
 ["festim/boundary_conditions/fluxes", "festim/concentration/mobile.py", "festim/temperature/temperature_solver.py"],
 [("flux laws", "*.create_form in boundary_conditions/fluxes"), ("surface loop", "Mobile.create_fluxes_form, HeatTransferProblem.define_variational_problem"), ("routing", "HTransportProblem.attribute_flux_boundary_conditions")],
 ["HTransportProblem.F", "HeatTransferProblem.F"], ["residual forms handed to the solvers"])

prop("C08", "Surface kinetics exchanges hydrogen conservatively with the bulk",
 "On each of its surfaces a surface-kinetics condition makes the adsorbed concentration change by J_vs + J_bs - J_sb and the bulk receive J_sb - J_bs minus lambda_IS dc/dt, where J_bs = k_bs c (1 - c_s/n_surf) and J_sb = k_sb c_s (1 - c/n_IS), with rates given as constants or as functions of temperature and both concentrations. Each surface has its own adsorbed unknown, initialised to the given initial value, and what the surface gains from the bulk is exactly what the bulk loses. The storage terms are absent in steady state.",
 ["inputs", "configurations"],
 "any number of conditions and surfaces, constant or callable rates, transient or steady, together with any number of traps",
 "Tests use one condition per surface with chosen rates and compare one form.",
 ["festim/boundary_conditions/fluxes/surface_kinetics.py", "festim/h_transport_problem.py"],
 [("kinetics form", "SurfaceKinetics.create_form"), ("unknowns per surface", "HTransportProblem.define_function_space, HTransportProblem.initialise_concentrations")],
 ["SurfaceKinetics.solutions", "HTransportProblem.F"], ["residual form", "adsorbed hydrogen export"])

prop("C09", "Prescribed concentrations follow their law on exactly their surfaces",
 "The value imposed by a prescribed-value condition is the given value, Sieverts' law S_0 exp(-E_S/k_B T) sqrt(P), Henry's law H_0 exp(-E_H/k_B T) P, the implantation formula phi R_p/D + sqrt((phi + Kd P)/Kr) (second term only when recombination is given, dissociation only when that is given), or the user's function, evaluated with the local temperature and the current parameter values. It is imposed on the field named, on each named surface and on no other.",
 ["inputs", "configurations"],
 "all parameter values, positions, temperatures and times; any number of surfaces and fields (mobile or any trap)",
 "Tests evaluate each law at a few points for one parameter set.",
 ["festim/boundary_conditions/dirichlets", "festim/h_transport_problem.py"],
 [("laws", "sieverts_law, henrys_law, dc_imp"), ("pointwise evaluation", "BoundaryConditionExpression.eval"), ("imposition", "DirichletBC.create_dirichletbc, HTransportProblem.create_dirichlet_bcs")],
 ["HTransportProblem.bcs"], ["list of boundary conditions handed to the solver", "values of the expressions"])

prop("C10", "Chemical-potential runs convert concentrations consistently everywhere",
 "When conservation of chemical potential is requested, concentration and unknown are related in every material by c = S theta (Sieverts materials) or c = S theta^2 (Henry materials) with S that material's solubility at the local temperature, and this same relation is used in the balance (with the previous temperature for the previous concentration), in the initial values, in prescribed concentrations, in fluxes, in surface kinetics and in every exported concentration. Hence initial and prescribed concentrations are the ones exported, and the quantity that is continuous at interfaces is the unknown.",
 ["inputs", "configurations"],
 "any materials with either law, any temperature, initial values, prescribed values and fluxes",
 "Tests cover one or two Sieverts materials; the five places that convert are never compared with each other.",
 ["festim/concentration/theta.py", "festim/boundary_conditions/dirichlets/dirichlet_bc.py", "festim/materials/materials.py"],
 [("conversions", "Theta.get_concentration_for_a_given_material, Theta.mobile_concentration, Theta.initialise, Theta.create_form_post_processing, BoundaryConditionTheta.eval_cell"), ("solubility and law markers", "Materials.solubility_as_function, Materials.create_solubility_law_markers")],
 ["Theta.S", "Materials.henry_marker", "Materials.sievert_marker"], ["residual form", "post-processed concentration", "imposed boundary values"])

prop("C11", "Every time-dependent input is evaluated at the time being solved",
 "Whenever an equation is solved for time t, every time-dependent input of the model - prescribed temperature, sources, trap densities, prescribed values and their parameters, flux parameters, surface-kinetics parameters, rate-law parameters of extrinsic traps, heat sources and heat fluxes - has the value it takes at t, not at an earlier time. The previous temperature used at t is the temperature of the previous step.",
 ["inputs", "histories"],
 "every kind of input at every place it can be given, every step, re-used objects",
 "Tests check that some expression lists contain some objects; whether the expression really reaches the update before every solve is a path property over all input kinds.",
 ["festim/h_transport_problem.py", "festim/helpers.py", "festim/temperature", "festim/boundary_conditions", "festim/concentration"],
 [("collection of expressions", "sub_expressions lists, HTransportProblem.define_variational_problem, HTransportProblem.create_dirichlet_bcs"), ("update before solve", "HTransportProblem.update, HeatTransferProblem.update, Temperature.update")],
 ["HTransportProblem.expressions", "Expression.t"], ["value of each input at each solve"])

prop("C12", "Derived quantities equal their defining integrals in every geometry",
 "Each derived quantity returns its definition evaluated on the exported field over exactly the named volume or surface: integral, mean, extreme value over a volume, outward-gradient flux of hydrogen (with the thermodiffusion part exactly when it is enabled) or heat, point value, or adsorbed amount. In cylindrical and spherical geometry the integrand carries the factor r or r^2 and the result the angular factor of the requested angular range, means are weighted by the same factor, and out-of-range angular ranges are rejected. The hydrogen flux uses the diffusivity, and the heat flux the conductivity, of the material adjacent to the surface.",
 ["inputs", "configurations"],
 "all fields, volumes, surfaces, angular ranges, geometries and material properties",
 "Tests evaluate each quantity for one or two fields and radii.",
 ["festim/exports/derived_quantities", "festim/materials/materials.py"],
 [("definitions", "compute() of each derived quantity"), ("measures and properties", "DerivedQuantities.assign_measures_to_quantities, DerivedQuantities.assign_properties_to_quantities")],
 ["DerivedQuantity.function, dx, ds, n, D, thermal_cond, Q, T"], ["value returned and stored by each quantity"])

prop("C13", "Exports happen on schedule and the tables are complete and aligned",
 "Derived quantities are computed at iterations 0, n, 2n, ... and written at the requested cadence (by default once, at the final time; always in steady state); each computed row holds the time followed by one value per quantity in order, under a header with one title per quantity in the same order, and each quantity's own record agrees with the table. XDMF exports are written every n-th iteration or only at the last time, text exports gain one column per requested time (every time when none is requested) with the column title of that time, aligned with the coordinate column.",
 ["inputs", "histories"],
 "all cadences, lists of quantities and exports, histories of times and final times, steady and transient",
 "Tests call the scheduling predicates for a few integers; table integrity over whole histories is not covered.",
 ["festim/exports/exports.py", "festim/exports/txt_export.py", "festim/exports/xdmf_export.py", "festim/exports/derived_quantities/derived_quantities.py"],
 [("scheduling", "DerivedQuantities.is_compute, is_export, XDMFExport.is_export, TXTExport.is_it_time_to_export, is_last"), ("table", "DerivedQuantities.compute, make_header, TXTExport.write")],
 ["DerivedQuantities.data", "DerivedQuantities.t", "TXTExport.data", "TXTExport.header", "Exports.nb_iterations"], ["files written", "data attributes"])

prop("C14", "Sources, conditions, initial values and exports reach the named field",
 "A source, boundary condition, initial value or export that names a field (mobile hydrogen as 0, \"0\" or \"solute\"; the i-th trap of the model, numbered by position, as i or its string; temperature as \"T\"; total retention; adsorbed hydrogen) acts on, or reads, exactly that field and no other, for every spelling of the name, and a radioactive decay on all fields acts once on mobile hydrogen and once on every trap, with decay rate lambda times that field's own concentration. The exported retention is mobile plus all trapped hydrogen. Trap concentrations exported are those of the same time step as the mobile concentration. (A flux condition acts on mobile hydrogen or temperature; one that names a trap adds nothing to any other field.)",
 ["inputs", "configurations"],
 "any number of traps, sources, conditions, initial values, exports and every spelling of a field",
 "Tests route one or two objects; a spelling that is accepted but not routed gives a silently wrong model.",
 ["festim/generic_simulation.py", "festim/h_transport_problem.py", "festim/exports/exports.py"],
 [("routing tables", "Simulation.attribute_source_terms, attribute_boundary_conditions, HTransportProblem.initialise_concentrations, Simulation.update_post_processing_solutions, Exports.write")],
 ["Mobile.sources", "Trap.sources", "HTransportProblem.boundary_conditions", "Simulation.label_to_function"], ["which equation, unknown or file the object ends up in"])

prop("C15", "Inconsistent models are rejected before anything is solved",
 "Initialising a model raises an error whenever: a prescribed value or surface-kinetics condition shares a surface and field with another condition, a condition, source or initial value names a field that does not exist, surface kinetics is used in more than one dimension, heat sources or heat boundary conditions are given without a heat problem, a coordinate system does not fit the mesh dimension, the step size or final time is missing in a transient run or a step size is given in a steady one, temperature is missing, material ids repeat, a property is given for some materials only, one-dimensional borders do not tile the interval from zero to the mesh size, a needed thermal property or initial temperature is missing, or a trap names the same material twice or a material name that does not exist. Models free of these defects are accepted.",
 ["inputs", "configurations"],
 "all combinations and positions of the offending and the sound parts, any number of conditions, materials, traps",
 "Tests try one example of each error; acceptance and rejection must hold for every position in lists of any length.",
 ["festim/generic_simulation.py", "festim/materials/materials.py", "festim/meshing/mesh_1d.py", "festim/concentration/traps/trap.py", "festim/temperature/temperature_solver.py"],
 [("checks", "Simulation.check_boundary_conditions, check_mesh_dim_coords, initialise, Materials.check_*, Mesh1D.define_measures, Trap.make_materials")],
 ["exceptions raised by initialise()"], ["outcome of initialise()"])

prop("C16", "Local material properties are those of the material at that point",
 "At any point of the domain the diffusivity, solubility, thermal conductivity, heat capacity, density and heat of transport used are those of the material whose subdomain contains the point, evaluated by the Arrhenius law or the material's own function at the local temperature. In one dimension each cell gets the subdomain of the material whose borders contain its midpoint, and the two ends get surface marks 1 and 2. Looking a material up by id, by one of its several ids, or by name returns that material or raises an error.",
 ["inputs", "configurations"],
 "any number of materials, single and multiple ids and borders, any point, cell and temperature",
 "Tests evaluate two or three materials at a few points.",
 ["festim/materials/materials.py", "festim/meshing/mesh_1d.py", "festim/meshing/mesh_from_vertices.py"],
 [("lookup", "Materials.find_material*, find_subdomain_from_x_coordinate"), ("evaluation", "ArheniusCoeff.eval_cell, ThermalProp.eval_cell"), ("marking", "Mesh1D.define_volume_markers, define_surface_markers")],
 ["volume and surface markers", "Materials.D, S, thermal_cond, heat_capacity, density, Q"], ["values of the coefficient expressions", "markers"])

prop("C17", "The model's lists only ever contain objects of the right kind, in order",
 "The lists of materials, traps, exports and derived quantities accept, through construction, item assignment, append, insert, extend and in-place addition, exactly the objects of their kind, keep them in the order a plain list would, and raise a type error for anything else, which is never admitted (an extend that fails may keep the sound objects that came before the offending one). The model attributes accept a list, the container or a single object and always end up holding the container with those objects.",
 ["inputs", "histories"],
 "all operation sequences and arguments",
 "Tests try a few wrong types per method.",
 ["festim/materials/materials.py", "festim/concentration/traps/traps.py", "festim/exports/exports.py", "festim/exports/derived_quantities/derived_quantities.py", "festim/generic_simulation.py"],
 [("validated list operations", "Materials, Traps, Exports, DerivedQuantities"), ("attribute setters", "Simulation.traps, materials, exports, T, dt")],
 ["list contents"], ["list contents and exceptions after each operation"])

prop("C18", "Initialising again gives the same model as initialising afresh",
 "Initialising the same model objects a second time, after an initialisation or a completed run, and running again solves the same equations with the same boundary and initial conditions at the same times, evaluates the same time-dependent inputs, and exports on the same schedule, as a freshly built identical model does. Nothing computed, counted or recorded in the first run leaks into the second.",
 ["histories", "configurations"],
 "any model, any number of earlier initialisations and runs",
 "One test re-initialises one model; leaks show only in particular features (exports, initial temperature, counters).",
 ["festim/generic_simulation.py", "festim/h_transport_problem.py", "festim/exports", "festim/temperature/temperature_solver.py"],
 [("state reset", "Simulation.initialise, HTransportProblem.initialise, Exports.initialise_derived_quantities")],
 ["Exports.nb_iterations", "Traps.sub_expressions", "source and BC lists", "DerivedQuantities.data"], ["forms, conditions, schedules and tables of the second run"])

prop("C19", "Each step hands the computed state on, and solver settings are respected",
 "At every step the nonlinear problem solved is the model's full residual with all of its prescribed values, its Jacobian is the derivative of that residual with respect to the unknown, and the solver runs with the tolerances, iteration limit, linear solver and preconditioner requested for it (hydrogen, heat and extrinsic-trap solvers each with their own). After a converged step the previous state equals the state just computed, and exports see that computed state. Initial values given for a field are the previous state of the first step, and unspecified fields start at zero.",
 ["inputs", "histories"],
 "all settings, models, initial conditions and numbers of steps",
 "Tests read back a few solver parameters and one update.",
 ["festim/h_transport_problem.py", "festim/nonlinear_problem.py", "festim/concentration/concentration.py", "festim/temperature/temperature_solver.py", "festim/concentration/traps/extrinsic_trap.py"],
 [("solve", "HTransportProblem.solve_once, Problem.F, Problem.J"), ("hand-over", "HTransportProblem.update_previous_solutions"), ("settings", "define_newton_solver"), ("initial values", "Concentration.initialise, HTransportProblem.initialise_concentrations")],
 ["HTransportProblem.u, u_n, F, J, bcs, newton_solver"], ["problem handed to the solver", "state before and after a step"])

with open("/verif/properties.jsonl", "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")

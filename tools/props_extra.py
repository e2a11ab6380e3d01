prop(
    "P07",
    "A run takes exactly the time steps asked for and ends at the final time",
    "For any time step dt > 0 and final time t_end, a run advances the state in consecutive steps: every step starts "
    "from the state the previous one produced, uses dt except that the last one is shortened so that the run ends at "
    "t_end, and the run stops there: as many steps as announced, no additional step of negligible length, and no step "
    "missed. Simulation time and step number always correspond to the state: after k steps the time is k dt. Filters "
    "are applied once after each step and each state is handed to the output once, with its own step number.",
    ["inputs", "histories"],
    "all dt and t_end (real numbers, with or without a shortened last step, also with the rounding errors of floating "
    "point), arbitrary integrators and filters, up to 12 steps",
    "The tests run fixed dt and t_end that divide exactly; accumulated rounding (dt = 0.1) and partial last steps are not "
    "covered, and an extra or missing step changes results without failing.",
    ["wx_factory/simulation/simulation.py", "wx_factory/integrators/integrator.py"],
    [("time loop", "Simulation.run, Simulation.step"), ("step count", "Simulation.__init__ (num_steps)")],
    SYM,
    "dt and t_end are free reals; integrator and filter are arbitrary functions (fresh symbols per call); rounding is "
    "modelled as a bounded relative error on each operation. Bounded in the number of steps.",
)
prop(
    "P08",
    "Output, statistics and saved states come at the configured steps only",
    "Results, statistics and restart states are written exactly at the steps whose number is a multiple of the "
    "corresponding frequency (never when it is 0), the first state included, each once, under the right step number; "
    "state files of different steps have different names. The report at the end gives the elapsed times of any duration. Writing output, "
    "computing statistics or saving the state never changes the model state.",
    ["inputs", "configurations"],
    "all frequencies 0..14 and steps 0..12; all state values; Cartesian, shallow-water and 3-D Euler runs",
    "Tests use one or two fixed frequencies and never compare the state before and after output; the netCDF writer in "
    "fact modified the state of shallow-water runs with topography.",
    ["wx_factory/output/output_manager.py", "wx_factory/output/output_cubesphere.py", "wx_factory/output/output_cartesian.py",
     "wx_factory/output/output_cubesphere_netcdf.py", "wx_factory/output/diagnostic.py"],
    [("schedule", "OutputManager.step"), ("state files", "OutputManager.state_file_name"), ("writers", "__write_result__")],
    SYM,
    "Frequencies are symbolic integers and state values free reals; writers run on the real code with an in-memory "
    "netCDF file.",
)
prop(
    "P09",
    "A saved state restores exactly and a resumed run repeats the original one",
    "A state saved at a step comes back bit for bit when a run starts at that step: every value at its own grid point, "
    "on any admissible number of processes (which may differ from the number that wrote it), with step number and time "
    "to match. A run stopped at any step and resumed performs exactly the steps the uninterrupted run would have "
    "performed from there (a multi-step integrator starts anew, without its history), up to the same end. If the file for the requested step is missing or unusable (wrong size, "
    "truncated), all processes start together from the initial condition at step 0.",
    ["inputs", "configurations", "histories", "crash_points"],
    "all state values, all dt and t_end; written by 6/24 and read by 6/24 processes; any stop point within 6 steps; "
    "missing, truncated, or wrongly sized files",
    "The tests restart one case on one process count with one step.",
    ["wx_factory/simulation/simulation.py", "wx_factory/output/state.py", "wx_factory/output/output_manager.py", "wx_factory/output/output_cubesphere.py",
     "wx_factory/process_topology.py"],
    [("save", "OutputManager.__save_state__, output.state.save_state"), ("load", "Simulation._determine_starting_state, output.state.load_state"),
     ("tiles", "ProcessTopology.gather_cube, distribute_cube")],
    SYM,
    "States are free reals carried through the real save and load code as tagged values; bounded process counts and steps.",
)
prop(
    "P13",
    "2-D cubed-sphere geometry: points on the sphere, metric, wind conversion",
    "Every grid point of the 2-D cubed sphere lies on the sphere; longitude, latitude and the Cartesian coordinates given "
    "for it agree with each other and with the rotation of the grid; points on shared panel edges coincide. The metric "
    "coefficients are those of the gnomonic map (covariant tensor = inner products of the basis vectors, contravariant "
    "tensor its inverse, area element the square root of the determinant, Christoffel symbols the derivatives of the "
    "metric plus the Coriolis terms). Converting a zonal/meridional wind to contravariant components and back is "
    "the identity and represents the same physical vector.",
    ["inputs", "configurations"],
    "all wind values, all points of each panel, several rotations of the grid; any number of tiles",
    "Tests check a few derived properties with loose tolerances; a wrong term in one metric coefficient only slightly "
    "changes results (the area element was in fact wrong).",
    ["wx_factory/geometry/cubed_sphere_2d.py", "wx_factory/geometry/metric2d.py", "wx_factory/geometry/sphere.py", "wx_factory/geometry/cubed_sphere.py"],
    [("grid points", "CubedSphere2D.__init__"), ("metric", "Metric2D"), ("winds", "CubedSphere2D.wind2contra, contra2wind")],
    SYM,
    "Local coordinates and winds are free reals at rational rotations of the grid; identities are decided by z3 after "
    "rewriting tan/cos/sin to algebraic form.",
)
prop(
    "P14",
    "Element operators are exact on polynomials; filters damp what they should",
    "On every geometry, the discrete operators of an element are exact for polynomials: values on the element's "
    "boundary (west/east, south/north, down/up) are those of the polynomial through the element's points, the "
    "derivative of such a polynomial is exact when the boundary values are continuous (and has the DFR correction "
    "otherwise), quadrature weights integrate it exactly, and fields in the element layout and in the line layout give "
    "the same result. The modal filter leaves the mean and the resolved low-order modes unchanged and multiplies the others "
    "by the configured damping only; the sponge layer relaxes vertical momentum above its height only; without filters "
    "the state is unchanged.",
    ["inputs", "configurations"],
    "all polynomial coefficients and element values; 2-7 points per direction (9 in depth); Cartesian, 2-D and 3-D "
    "cubed-sphere elements",
    "The tests look at no operator directly; a wrong entry of one operator matrix degrades convergence without failing.",
    ["wx_factory/geometry/operators.py", "wx_factory/geometry/quadrature.py", "wx_factory/geometry/cartesian_2d_mesh.py"],
    [("operators", "DFROperators"), ("filters", "DFROperators.apply_filters"), ("quadrature", "gauss_legendre")],
    SYM,
    "Coefficients and values are free reals in [-1, 1]; claims are linear and decided up to the rounding of the matrix entries.",
)
prop(
    "P15",
    "Each time integrator solves its own equation to its nominal order",
    "One step of each integrator approximates the exact solution of dQ/dt = R(Q) with a local error of at least the order "
    "its name promises: euler1 (1), tvdrk3 (3), epi2..epi6, epi_stiff3..6, srerk3..6, ros2, rosexp2 (2), whichever "
    "exponential solver is configured (given one that returns the phi functions it is asked for), for constant steps and after a change of the time step. The implicit "
    "methods (backward Euler, Crank-Nicolson, BDF2 with its first step and variable steps) solve their defining equation. "
    "Splittings perform the sub-steps of their scheme in order, and the simulation "
    "time of each step is right.",
    ["inputs", "histories"],
    "all coefficients of polynomial right-hand sides (1-2 unknowns, degree up to 4) and all initial states; step size as "
    "a formal parameter, up to 6 steps of history; all configurable exponential solvers",
    "The tests run the integrators to completion without measuring their order: wrong coefficients were indeed present in "
    "BDF2 and the stiff EPI methods.",
    ["wx_factory/integrators/euler1.py", "wx_factory/integrators/tvdrk3.py", "wx_factory/integrators/epi.py", "wx_factory/integrators/epi_stiff.py",
     "wx_factory/integrators/srerk.py", "wx_factory/integrators/ros2.py", "wx_factory/integrators/rosexp2.py", "wx_factory/integrators/bdf2.py",
     "wx_factory/integrators/backward_euler.py", "wx_factory/integrators/crank_nicolson.py", "wx_factory/integrators/integrator.py"],
    [("steps", "Integrator.step, <Integrator>.__step__"), ("coefficients", "Epi.__init__, EpiStiff.__init__, Srerk.__init__")],
    SYM + " and truncated power series in the step size",
    "State and right-hand-side coefficients are free reals; the expansion in h of the computed step is compared term by term "
    "with the exact flow. Krylov solvers and nonlinear solvers are replaced by their specification (own properties).",
)
prop(
    "P12",
    "Shallow-water tendencies are the flux-form balance; mass is conserved",
    "On the cubed sphere, the shallow-water right-hand side returns for every point of every element the flux-form balance "
    "of mass and momentum: derivative of the physical fluxes inside the element, corrected at the element's four sides with "
    "interface fluxes, plus Coriolis, metric and topography terms. Each interface has one flux, which both adjacent elements "
    "use; it is the upwind (AUSM) flux of the two states that meet there, equals the physical flux when they agree, and the "
    "mass flux is the same seen from either side. So the mass of a tile changes only by what flows through its edges. The values "
    "sent to neighbouring tiles are the traces on the edges, halo values are used at the right place, and the state passed "
    "in is not modified.",
    ["inputs", "configurations"],
    "all states with positive depth, all metric, topography and halo values; 1x1 to 2x2 elements of 2-3 points (3x3 in depth)",
    "The tests run a few steps of standard cases without comparing with a reference: a wrong term or a mixed-up interface "
    "gives plausible fields.",
    ["wx_factory/rhs/rhs_sw.py"],
    [("tendencies", "RhsShallowWater.__compute_rhs__")],
    SYM + "; large equalities by sweeping equal sub-terms bottom-up",
    "The real right-hand side runs on free state, metric, topography and halo values; every tendency is compared with the "
    "balance written out element by element.",
)
prop(
    "P10",
    "Cartesian Euler tendencies are the flux-form balance with closed walls",
    "For 2-D Cartesian runs the right-hand side, compiled kernels included, returns for every point of every element the "
    "flux-form balance of mass, momentum and potential temperature: derivative of the physical fluxes inside the element, corrected on "
    "its four sides with interface fluxes, plus gravity. Each interface has one AUSM flux of the two states that meet there, "
    "used by both elements, equal to the physical flux when the states agree; nothing but pressure acts on the outer walls. So "
    "total mass and total potential temperature never change. The kernels read and write only inside their arrays, the state is not modified, and "
    "an evaluation does not depend on, nor change, an earlier one.",
    ["inputs", "configurations"],
    "all states with positive density and temperature; all element sizes; 1x1 to 3x2 elements of 2-3 points (3x3, 4 points in depth)",
    "The tests run a few steps of bubble cases without a reference: a wrong flux gives plausible fields (the advective part of the "
    "normal momentum flux was indeed missing).",
    ["wx_factory/rhs/rhs_dfr.py", "wx_factory/pde/pde_euler_cartesian.py", "wx_factory/pde/interface.cpp", "wx_factory/pde/kernels/riemann_flux.hpp",
     "wx_factory/pde/kernels/pointwise_flux.hpp", "wx_factory/pde/kernels/boundary_flux.hpp"],
    [("tendencies", "RHSDirecFluxReconstruction"), ("kernels", "riemann_eulercartesian_ausm_2d, pointwise_eulercartesian_2d, boundary_eulercartesian_2d_kernel")],
    "symbolic execution of the real Python code and of the C++ kernels' LLVM IR (clang), z3 decides each assertion",
    "Free state and element size; the C++ kernels are compiled to LLVM IR from the working tree and interpreted on the same terms. "
    "Double-precision kernels; bounded element counts and points.",
)
prop(
    "P11",
    "3-D Euler tendencies are the flux-form balance; mass is conserved",
    "On the 3-D cubed sphere, the Euler right-hand side returns for every point of every element the flux-form balance of mass, "
    "momentum and potential temperature: derivative of the physical fluxes, corrected on the six sides of the element with interface "
    "fluxes, plus metric, Coriolis and gravity terms (and the damping layer of the Schar cases). Each interface has one Rusanov flux of "
    "the two states that meet there, used by both elements; surface and top let no mass through, so the mass of a tile changes only by what "
    "flows through its lateral edges. The values sent to neighbouring tiles are the traces on the edges, halo values are used "
    "at the right place, the state is not modified and an evaluation does not depend on, nor change, an earlier one. Tendencies are zero "
    "for the pure transport cases.",
    ["inputs", "configurations"],
    "all states with positive density and temperature, all metric, Christoffel and halo values; 1x1x1 to 2x2x2 elements of 2-3 points",
    "The tests run a few steps of standard cases without comparing with a reference: a wrong metric term or a mixed-up interface gives "
    "plausible fields.",
    ["wx_factory/rhs/rhs_dfr.py", "wx_factory/pde/pde_euler_cubesphere.py", "wx_factory/pde/fluxes.py", "wx_factory/init/dcmip.py"],
    [("tendencies", "RHSDirecFluxReconstruction_mpi"), ("fluxes and forcing", "PDEEulerCubesphere, rusanov_3d_*_new"), ("damping", "dcmip_schar_damping")],
    SYM + "; large equalities by sweeping equal sub-terms bottom-up",
    "The real right-hand side runs on free state, metric, Christoffel symbols and halo values; every tendency is compared with the "
    "balance written out element by element.",
)
prop(
    "P18",
    "Output files and statistics hold the model's fields at the right points",
    "In cubed-sphere runs, each written field appears in the output file at the panel, row, column and level of its grid point, whatever the "
    "number of processes, together with that point's longitude, latitude and elevation, under the time of its step: for shallow water the height of the "
    "surface (topography included), east and north wind, relative vorticity (curl of the wind, each element's polynomial differentiated "
    "exactly) and potential vorticity; for Euler runs density, winds, potential temperature and pressure. One process writes the one "
    "file. The statistics printed for shallow-water runs are the integrals of mass, energy and potential enstrophy over "
    "the sphere, their change relative to the first state, and, for Williamson's test 2, the l1, l2 and linf errors of the height.",
    ["inputs", "configurations"],
    "all states with positive depth or density; 6 and 24 processes; elements of 2-3 points; shallow water (with and without topography) and Euler",
    "The tests do not open the files that runs write, nor compare the statistics: the vorticity and one of the coordinates were indeed "
    "wrong, and output of Euler runs on 24 processes failed.",
    ["wx_factory/output/output_cubesphere_netcdf.py", "wx_factory/output/output_cubesphere.py", "wx_factory/output/diagnostic.py",
     "wx_factory/geometry/cubed_sphere_2d.py", "wx_factory/geometry/cubed_sphere_3d.py"],
    [("file", "OutputCubesphereNetcdf"), ("statistics", "OutputCubesphere.__blockstats__"), ("diagnostics", "relative_vorticity, potential_vorticity, total_energy, global_integral_2d")],
    SYM,
    "Runs of simulated processes write free states through the real output code into an in-memory file, of which every entry is "
    "compared; what is printed is parsed back to terms.",
)
prop(
    "P20",
    "An invalid value (NaN) on any process stops the run on all of them",
    "If after any time step any value of the state on any process is NaN, every process stops with an error at that "
    "step, before that state is output; no process goes on or waits for one that has stopped. Without a NaN the run goes on "
    "to its end on all processes.",
    ["inputs", "schedules", "histories"],
    "all combinations of valid and invalid values on 1, 2, 3 and 6 processes, up to 3 steps, several orders of execution",
    "No test produces a NaN, least of all on one process of several: a check that only looks at local values would "
    "hang the others in the next exchange.",
    ["wx_factory/simulation/simulation.py"],
    [("detection", "Simulation._check_for_nan"), ("loop", "Simulation.step, Simulation.run")],
    SYM,
    "Whether each value is NaN is a free condition; all processes of a simulated MPI world run the real loop.",
)
prop(
    "P23",
    "3-D cubed-sphere geometry over topography: points, metric, Coriolis, winds",
    "For any ground elevation, every point and every element face of the 3-D cubed sphere lies at the height z = h + (z_top - h) eta above the "
    "sphere, at the longitude, latitude and Cartesian position of its gnomonic coordinates on the rotated grid, in both storage layouts. The "
    "metric tensor, its inverse and the volume element are those of the terrain-following coordinates in the deep and in the shallow "
    "atmosphere, with the slope of the coordinate surfaces differentiated within the element and, at faces, averaged over the two elements "
    "(or tiles) that share them. The Christoffel symbols rotate the basis vectors with the planet (Coriolis terms) and, together with the "
    "discrete derivative, leave sqrt(g) h^ab without covariant derivative. Converting zonal, meridional and vertical wind to contravariant components "
    "(over topography: their horizontal part) and back represents the same vector. Small-planet cases scale radius and rotation.",
    ["inputs", "configurations"],
    "all ground elevations, winds and slopes of neighbour tiles; all six panels, deep and shallow atmosphere, several rotations of the "
    "grid; 2x2x2 elements of 1 point, and 2x2x2 points per element",
    "The tests do not compare the 3-D metric with anything; two of its terms were wrong, and the wind conversion over topography is (known finding).",
    ["wx_factory/geometry/cubed_sphere_3d.py", "wx_factory/geometry/metric3d.py", "wx_factory/geometry/operators.py", "wx_factory/geometry/sphere.py"],
    [("grid", "CubedSphere3D.__init__, apply_topography"), ("metric", "Metric3DTopo.build_metric"), ("winds", "CubedSphere3D.wind2contra, contra2wind_3d")],
    SYM,
    "Topography, winds and neighbour slopes are free reals; z3 compares with an embedding of the sphere written down independently.",
)
prop(
    "P05",
    "A configuration is taken only if valid, and each option has the value given",
    "For any schema and configuration file: an option's value is taken exactly when it lies in the range the schema declares (both ends "
    "included; one of the selectable values; for a list, every entry; an integer option takes no fractional number), and the option then has "
    "precisely that value; any other value is refused with an error. An option that is not given has its default, its own copy of it; without a default it is an error, "
    "and so is a schema whose default lies outside the range. An option with a dependency exists (and is checked) exactly when the option "
    "it depends on has one of the listed values. The same for the model's own schema: numeric ranges, choices in any "
    "letter case, finite volumes with one point per element only. Limits written as expressions have their arithmetic value.",
    ["inputs", "configurations"],
    "all numbers in values, limits, selectable values and defaults; scalars and lists; every numeric and choice option of the model's schema",
    "The tests read a handful of files; values at the limits, lists with one bad entry or shared defaults are not among them, and the model's own "
    "schema accepted any output format.",
    ["wx_factory/common/configuration.py", "wx_factory/common/configuration_schema.py", "wx_factory/common/eval_expr.py", "config/config-format.json"],
    [("ranges", "ConfigFieldRange"), ("values", "ConfigurationField.read"), ("dependencies", "Configuration._get_option"), ("schema", "ConfigurationSchema")],
    SYM,
    "Numbers in the texts of schema and configuration are tokens for free symbols; words of choice options are picked by a symbolic index.",
)
prop(
    "P06",
    "Grid angles survive their 24-bit encoding",
    "Any angle is encoded as an integer of 24 bits that decodes to the nearest representable angle, in [-pi, pi[ and equal to the original "
    "up to whole turns and half a unit (2 pi / 2^24); every one of the 2^24 codes decodes to an angle that encodes to the same code, "
    "bits beyond the 24th are ignored, and the configuration type angle24 holds exactly the decoded angle.",
    ["inputs"],
    "all angles from -20 to 20, all codes",
    "The tests try a few dozen angles; an error in rounding or at the end of the range would go unnoticed and shift the grid.",
    ["wx_factory/common/angle24.py"],
    [("encoding", "encode, decode, angle24")],
    SYM,
    "Angle and code are free; the float type that angle24 derives from is replaced by one that holds symbols.",
)
prop(
    "P16",
    "KIOPS and PMEX return the combination of phi functions they are asked for",
    "When the Krylov space of the operator is exhausted within the maximum size, kiops and pmex return at every requested output time t "
    "exactly sum_k t^k phi_k(tA) u_k for the vectors given (phi_0 alone, phi_1, or up to phi_3), divided by t with task1, whatever the scale "
    "of the vectors, the length of the interval and the way the unknowns are spread over the processes, and the vectors are left unchanged. After an accepted substep that "
    "does not reach the end, the computation continues from the time reached with the forcing of that time.",
    ["inputs", "configurations"],
    "all entries of a nilpotent Hessenberg operator with 2 to 4 unknowns; up to three output times; 1 to 3 processes; up to phi_3",
    "The tests of the solvers use one matrix and one step without substeps or exhausted space: pmex was wrong in the "
    "latter case, and both in the former.",
    ["wx_factory/solvers/kiops.py", "wx_factory/solvers/pmex.py"],
    [("solvers", "kiops, pmex")],
    SYM,
    "The real solver runs on operators with free entries; z3 compares with the finite sum of the phi functions of a nilpotent operator.",
)
prop(
    "P17",
    "FGMRES minimises the residual, reports it truly and stops alike on all processes",
    "For any linear operator, right-hand side, initial guess and preconditioner: fgmres returns the vector of smallest residual in the space "
    "it has searched (after each restart cycle); the norm of the residual, the norm of the right-hand side, the number of iterations and the "
    "history it returns are the true ones of the whole vector over all processes; the flag is 0 exactly when the residual met the "
    "tolerance; a zero right-hand side and an exact initial guess are returned as they are. Every process returns the same "
    "flag, norms and number of iterations, and none leaves the solver before the others. Inputs are not modified.",
    ["inputs", "schedules"],
    "all operators of 2 to 4 unknowns (or arbitrary results of the operator), guesses and preconditioners; restart 1 to 3, two cycles, 1 to 3 processes",
    "The tests solve a few fixed systems on one process: stagnation was decided by each process on its own, which blocks the others, and "
    "an exact guess gave NaN.",
    ["wx_factory/solvers/fgmres.py", "wx_factory/solvers/global_operations.py"],
    [("solver", "fgmres"), ("rotations", "_rotg"), ("norms", "global_norm, global_dotprod")],
    SYM,
    "The real solver runs in a simulated MPI world with free vectors; the operator returns fresh symbols, or is a matrix of free entries.",
)
prop(
    "P22",
    "Jacobian-vector products are those of the right-hand side's derivative",
    "matvec_fun returns dt J(Q) v, with J the derivative of the right-hand side at Q, as a flat vector, for every state, vector and time "
    "step: with complex steps (the default) exact for quadratic right-hand sides and beyond that up to the third derivative times the square "
    "of a small step; with finite differences the quotient between Q + eps v and Q, exact for linear right-hand sides and beyond that up to the second derivative times "
    "a small step. matvec_rat and MatvecOpRat return v - dt/2 J v in the latter sense. State and vector are not modified.",
    ["inputs"],
    "all states, vectors, time steps and coefficients of polynomial right-hand sides (degree up to 3), several shapes",
    "The tests run solvers on top of these products, where a wrong term only slows convergence down or lowers the order in time.",
    ["wx_factory/solvers/matvec.py"],
    [("products", "matvec_fun, matvec_rat, MatvecOpRat")],
    SYM,
    "State, vector, step and coefficients are free; complex numbers are pairs of symbols.",
)

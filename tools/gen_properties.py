#!/usr/bin/env python3
"""Writes ../properties.jsonl (the committed file is its output)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SMOKE = "The shipped tests only run whole simulations and look for an error exit, so a wrong but finite value passes; "

p("P01", "Model time arithmetic follows its calendar exactly",
  "For every valid date and every positive or negative increment, moving a model time by microseconds, seconds, hours, days, months or years gives the date and time of day that the declared calendar (365-day no-leap, or standard with Gregorian leap years) prescribes, and the result is a valid date. Moving forward and back by the same fixed amount of time restores the start, many small moves equal one large one, comparisons order times chronologically, and the elapsed seconds between two no-leap times equal the increment that separates them.",
  ["inputs", "histories"], "All calendars, valid dates and sequences of signed increments, including leap days, month and year ends and exact multiples of a day or a year.",
  SMOKE + "they use a handful of no-leap start dates and whole-second steps, never a negative step, a leap year or a year boundary.",
  ["src/base/TimeObj.cpp", "src/base/TimeObj.h"],
  [("normalisation of time fields", "Time::NormalizeTime"), ("increments", "Time::AddSeconds/AddMonths/AddTime/operator+="), ("difference and ordering", "Time::operator-, operator<, GetSeconds")],
  [("date and time fields", "year, month, day, second of day, microsecond", "Time::m_iYear ... m_iMicroSecond")])

p("P02", "Times and durations written as text are read back as the same time",
  "Every valid time or duration, printed in any of the full formats the program writes (long, short with microseconds, restart or log form), parses back to an equal time, and every documented text form of a time or duration given to an option means exactly the amount of time it spells. Malformed text is refused with an error and never read as some other time.",
  ["inputs"], "All valid times, all documented fixed and delta-time spellings (1d2h, 90s, 0001-01-01-00000.000000, 1y, ...) and near-miss malformed strings.",
  SMOKE + "about a dozen literal durations occur in the test command lines and none is ever compared with the time it should mean.",
  ["src/base/TimeObj.cpp", "src/atm/CommandLine.h"],
  [("parser", "Time::FromFormattedString / FromLongString / FromShortString"), ("printer", "Time::ToString, ToShortString, ToLongString"), ("typed command-line times", "CommandLineParameterDeltaTime / FixedTime")])

p("P03", "Quadrature rules are exact for every polynomial they promise",
  "For every supported number of points and every interval, Gauss points and weights integrate all polynomials of degree up to 2n-1 exactly and Gauss-Lobatto points and weights all polynomials up to 2n-3 with both end points included; points are distinct, increasing, inside the interval and symmetric, and weights are positive and sum to the interval length. Legendre polynomial values, derivatives and roots agree with the three-term recurrence.",
  ["inputs", "configurations"], "All supported point counts and arbitrary intervals, polynomials with arbitrary coefficients, all Legendre degrees up to the supported maximum.",
  SMOKE + "they run with order 4 (a few with others), so most rules are never evaluated and none is checked against an integral.",
  ["src/base/GaussQuadrature.cpp", "src/base/GaussLobattoQuadrature.cpp", "src/base/LegendrePolynomial.cpp"],
  [("tabulated rules", "GaussQuadrature::GetPoints, GaussLobattoQuadrature::GetPoints"), ("roots and evaluation", "LegendrePolynomial::Evaluate, EvaluateDerivative, AllRoots, AllDerivativeRoots")])

p("P04", "Polynomial interpolation and differentiation reproduce polynomials",
  "For every set of distinct nodes and every polynomial whose degree is below the node count, the computed interpolation weights reproduce its value, and the computed differentiation weights its derivatives of the requested order, at every target point including the nodes themselves; interpolation weights sum to one and differentiation weights to zero. The basis-function and correction-function derivatives that the element scheme uses obey the same rule.",
  ["inputs"], "Node counts 1 to 10 with arbitrary (also unsorted, shifted, scaled) distinct nodes, all derivative orders supported, arbitrary targets and polynomials.",
  SMOKE + "they only ever use Gauss-Lobatto nodes at the default order, and never compare with an exact value.",
  ["src/base/PolynomialInterp.cpp", "src/base/PolynomialInterp.h", "src/atm/FluxCorrectionFunction.cpp"],
  [("Lagrangian and Vandermonde coefficients", "PolynomialInterp::LagrangianPolynomialCoeffs, DiffLagrangianPolynomialCoeffs, Diff2/Diff3"), ("flux correction", "FluxCorrectionFunction::GetDerivatives")])

p("P05", "Dense, banded and least-squares linear algebra solve the stated problem",
  "For every well-conditioned system the wrapped solvers return a solution whose residual is at rounding level, for one or many right-hand sides, and leave the answer in the documented place; inverses and generalized inverses satisfy their defining identities, and matrix products equal the textbook sum. Inconsistent dimensions are refused rather than computed with.",
  ["inputs"], "Random sizes, shapes, bandwidths and right-hand sides of well-conditioned systems.",
  SMOKE + "only the column-solver shape of one default configuration is exercised.",
  ["src/base/LinearAlgebra.cpp", "src/base/LinearAlgebra.h"],
  [("LAPACK wrappers", "LAPACK::DGESV, DGBSV, DGBTRF/DGBTRS, DTPSV, GeneralizedInverse, GeneralizedInverseSVD, DGEMM")])

p("P06", "Array containers keep every element distinct, in order and unaliased",
  "For every shape, each index of a multidimensional array addresses its own element, the storage is contiguous in row-major order, filling through one index set and reading through raw storage agree, and copying, assigning, resizing, scaling, zeroing or detaching behave as values: changing a copy never changes the original. Arrays packed into one shared block occupy disjoint ranges, cover exactly the reported size, and reading the block elsewhere reproduces every array.",
  ["inputs", "histories"], "Random shapes and random sequences of allocate, index, copy, assign, scale, pack, attach and detach.",
  SMOKE + "overlap, stale contents or an aliased copy in a rarely used shape goes unseen.",
  ["src/base/DataArray1D.h", "src/base/DataArray2D.h", "src/base/DataArray3D.h", "src/base/DataArray4D.h", "src/base/DataContainer.cpp"],
  [("row-major indexing", "DataArrayND::operator(), operator[]"), ("value operations", "operator=, operator+=, Scale, AddProduct, Zero"), ("packing", "DataContainer::PushDataChunk/AttachTo/Allocate")])

p("P07", "Options mean what was typed and bad input is refused",
  "Every option given on a command line is stored with exactly the typed value whatever the order of options, options not given keep their documented default, and unknown options or values of the wrong kind stop the program instead of being ignored. A preferences text yields for each name exactly the value written for it, whatever the spacing, comments, blank lines or line endings at the end of file.",
  ["inputs"], "Random option sets, orders, values and preferences files, and malformed variants.",
  SMOKE + "each uses one fixed well-formed command line and none reads a preferences file.",
  ["src/base/CommandLine.h", "src/base/Preferences.cpp", "src/base/STLStringHelper.h"],
  [("option table", "BeginCommandLine/ParseCommandLine"), ("preferences parser", "Preferences::ParsePreferences")])

p("P08", "Cubed-sphere coordinate and vector transforms are consistent and invertible",
  "For every point of the sphere, converting among Cartesian, latitude-longitude and every cube panel's gnomonic or equiangular coordinates and back returns the same point, neighbouring panels agree on shared points, and the panel chosen for a point is one that contains it. Vectors and covectors converted between latitude-longitude and panel components, or from one panel to another, come back unchanged, keep their physical length and direction and their mutual pairing.",
  ["inputs"], "All panels, points (including edges, corners and near poles) and vectors.",
  SMOKE + "an error on one panel or in one of the thirty panel-to-panel cases still yields finite fields.",
  ["src/atm/CubedSphereTrans.cpp", "src/atm/CubedSphereTrans.h"],
  [("point transforms", "CubedSphereTrans::XYZFromXYP, XYPFromRLL, ABPFromRLL, RLLFromABP, RLLFromXYP"), ("vector transforms", "VecTransABPFromRLL, CoVecTransABPFromRLL, VecPanelTrans, CoVecPanelTrans"), ("relative coordinates", "RelativeCoord, RelativePanel")])

p("P09", "Panel adjacency, directions and index mapping describe one closed sphere",
  "Walking off any panel edge and straight back returns to the starting place, opposite directions pair up, and the mapping of node or element indices across every panel edge joins exactly the nodes that coincide in space. For every panel count, resolution and decomposition each patch's listed neighbours are mutual and geometrically adjacent, and every point of the domain belongs to a patch.",
  ["inputs", "configurations"], "All panels, directions, edge positions, resolutions, patch counts and halo widths.",
  SMOKE + "a swapped or reversed edge keeps every value finite.",
  ["src/atm/CubedSphereTrans.cpp", "src/atm/Direction.cpp", "src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/Connectivity.cpp"],
  [("panel relations", "CubedSphereTrans::DirectionFromPanel, PanelFromDirection, OpposingDirection, RelativeCoord"), ("patch relations", "Grid::InitializeConnectivity, GetPatchFromCoordinateIndex, GetOpposingDirection")])

p("P10", "Discrete geometry matches the true geometry of the domain",
  "For every resolution, order, level count and terrain, node weights sum to the true surface area (sphere or rectangle) and, with height, to the true volume to the accuracy of the scheme; node positions, Coriolis parameter and heights are those of the declared mapping with bottom on the terrain and top at the model top. The stored metric and its inverse are inverse to one another, and the area elements and slopes are those derived from the node positions.",
  ["configurations", "inputs"], "Both grids, resolutions, horizontal and vertical orders, staggerings, stretchings, domain sizes and smooth terrains.",
  SMOKE + "no test computes an area or compares a metric term.",
  ["src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/GridSpacing.cpp", "src/atm/VerticalStretch.h", "src/atm/Grid.cpp"],
  [("metric terms", "GridPatch*GLL::EvaluateGeometricTerms"), ("node placement", "GridSpacing*, Grid::InitializeVerticalCoordinate, EvaluateTopography"), ("stretching", "VerticalStretchFunction")])

p("P11", "Halo exchange delivers exactly the neighbour's values",
  "After an exchange every halo value of every patch that lies inside the domain equals the value owned by the neighbouring patch at the same physical point (for velocities, re-expressed in the receiving patch's coordinates), interior values are unchanged, and this holds for state, tracers, and other exchanged fields. It holds for every patch count, process count, resolution and halo size, and however messages are timed.",
  ["configurations", "schedules", "inputs"], "All supported patch counts and process counts, both grids, boundary kinds, element orders, arbitrary field contents.",
  SMOKE + "three fixed process counts are run and their results are never compared.",
  ["src/atm/Connectivity.cpp", "src/atm/Grid.cpp", "src/atm/GridPatch.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/ConsolidationStatus.cpp"],
  [("packing and unpacking", "ExteriorNeighbor::PackSend, UnpackReceive"), ("exchange", "Grid::Exchange, ExchangeBuffers"), ("panel rotation of vectors", "TransformHaloVelocities")])

p("P12", "Element averaging makes fields continuous without changing totals",
  "After averaging, every physical point held by several elements or patches carries one value (for velocity, one physical vector), the area-weighted total of each scalar is unchanged, points inside elements are untouched, and averaging again changes nothing. This holds at panel edges and cube corners and for every decomposition.",
  ["inputs", "configurations"], "Arbitrary discontinuous nodal data, resolutions, orders, patch counts and both grids.",
  SMOKE + "a missed or doubly counted edge yields slightly different finite fields.",
  ["src/atm/GridGLL.cpp", "src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/Grid.cpp"],
  [("direct stiffness summation", "GridCSGLL::ApplyDSS, GridCartesianGLL::ApplyDSS, GridGLL::PostProcessSubstage")])

p("P13", "Results do not depend on how the domain is split",
  "Running the same simulation with a different number of patches or processes gives the same fields, tracers, diagnostics and output files up to rounding. Repeating a run with the same split gives identical results.",
  ["configurations", "schedules"], "Shallow-water and nonhydrostatic cases on both grids, all process counts, patch layouts and message timings.",
  SMOKE + "the parallel runs are only checked for completing.",
  ["src/atm/Grid.cpp", "src/atm/Connectivity.cpp", "src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/OutputManagerReference.cpp"],
  [("patch distribution", "Grid::DistributePatches, ApplyDefaultPatchLayout"), ("global reductions", "Grid::Checksum, ReduceInterpolate")])

p("P14", "Vertical column operators are exact on polynomials of their order",
  "For every level count, vertical order and grid spacing, interpolating a column between levels and interfaces reproduces every polynomial of degree within the operator's order, differentiating gives its derivative, second differentiating its second derivative and integrating its integral; constants are preserved exactly and their derivative is zero. Composed operators equal applying them in turn.",
  ["inputs", "configurations"], "All operator kinds (interpolation, first and second derivative, integral, penalty) and staggerings, orders, level counts, non-uniform spacings, columns.",
  SMOKE + "one or two vertical orders are run and no column result is compared.",
  ["src/atm/LinearColumnOperator.cpp", "src/atm/LinearColumnOperatorFEM.cpp", "src/atm/GridGLL.cpp"],
  [("operator assembly", "LinearColumnInterpFEM, LinearColumnDiffFEM, LinearColumnDiffDiffFEM, LinearColumnIntFEM::Initialize*"), ("application", "LinearColumnOperator::Apply, ComposeWith")])

p("P15", "Every time integrator reaches its stated order for state and tracers",
  "For every selectable integrator and any smooth split right-hand side, one step agrees with the exact solution to the scheme's stated order as the step shrinks, and for tracers exactly as for the prognostic state. A field whose rate of change is zero is left unchanged, and a linear conserved quantity of the right-hand side is conserved.",
  ["inputs", "histories"], "All selectable schemes, random linear and nonlinear explicit and implicit right-hand sides, sequences of steps including the first and the last.",
  SMOKE + "a wrong stage weight or a stale stage gives a finite, plausible field.",
  ["src/atm/TimestepSchemeStrang.cpp", "src/atm/TimestepSchemeERK.cpp", "src/atm/TimestepSchemeARS222.cpp", "src/atm/TimestepSchemeARS232.cpp", "src/atm/TimestepSchemeARK232.cpp", "src/atm/TimestepSchemeGARK2.cpp", "src/atm/TimestepSchemeARS343.cpp", "src/atm/TimestepSchemeARS443.cpp", "src/atm/TimestepSchemeSSP3332.cpp", "src/atm/GridPatch.cpp"],
  [("stages", "TimestepScheme*::Step"), ("stage combinations", "Grid::LinearCombineData, CopyData")])

p("P16", "The dynamics conserve total mass and tracer mass",
  "For every initial state, terrain, resolution, integrator and level configuration, a step of the flow solver without sources changes the global mass of fluid and of every tracer by no more than rounding, on the sphere and in periodic or closed boxes. The same holds for the diffusion operators.",
  ["inputs", "configurations", "histories"], "Random perturbed states and tracers, terrains, both grids, all integrators and dynamics variants, one and many steps.",
  SMOKE + "no test compares mass before and after.",
  ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/GridPatch.cpp"],
  [("flux-form updates", "HorizontalDynamicsFEM::StepShallowWater, StepNonhydrostaticPrimitive, VerticalDynamicsFEM::StepImplicit/UpdateColumnTracers"), ("averaging", "Grid::ApplyDSS")])

p("P17", "Tracers follow the flow: uniform mixing ratio stays uniform, linearly",
  "A tracer whose mixing ratio is uniform keeps that uniform ratio to the fluid under transport, several tracers evolve independently of each other and of their order, and transport scales with the tracer amount. Tracers never influence the flow in a run without moist physics.",
  ["inputs", "histories"], "Random winds, densities and tracer sets, integrators and dynamics variants.",
  SMOKE + "tracers are carried in few tests and never compared.",
  ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/HorizontalDynamicsFEMV2.cpp", "src/atm/VerticalDynamicsFEM.cpp"],
  [("tracer fluxes", "HorizontalDynamicsFEM::StepNonhydrostaticPrimitive tracer update"), ("vertical tracer update", "VerticalDynamicsFEM::UpdateColumnTracers")])

p("P18", "The tracer filter yields non-negative tracers and keeps their mass",
  "After any step, no tracer value that is exposed to output or physics is negative when the element or column held a non-negative amount, and the correction that achieves this leaves the tracer mass of each element or column unchanged. Fields that are already non-negative are not altered by the correction.",
  ["inputs"], "Arbitrary tracer fields with negative excursions, orders, level counts.",
  SMOKE + "no test inspects tracer signs.",
  ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/HorizontalDynamicsFEMV2.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEMV2.cpp"],
  [("filters", "HorizontalDynamicsFEM::FilterNegativeTracers, VerticalDynamicsFEM::FilterNegativeTracers")])

p("P19", "Exact steady states stay steady",
  "An atmosphere at rest in hydrostatic balance, a shallow-water layer at rest over any terrain, and uniform flow in a periodic box remain unchanged up to truncation error that vanishes with resolution (rounding for the layer at rest), whichever integrator, staggering and decomposition is used. A rotating balanced flow keeps its exact shape to the order of the scheme.",
  ["configurations", "histories"], "Terrains, background profiles, rotation rates, resolutions, orders and integrators.",
  SMOKE + "no test compares the end state with the initial one.",
  ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp"],
  [("pressure gradient and gravity", "HorizontalDynamicsFEM, VerticalDynamicsFEM::BuildF"), ("initialisation", "GridPatch*GLL::EvaluateTestCase")])

p("P20", "Simulations respect the symmetries of the domain",
  "Rotating the initial state by a quarter turn about the polar axis, reflecting it in the equator, shifting it periodically by whole elements or mirroring it in a periodic box gives the rotated, reflected, shifted or mirrored solution, up to rounding. Swapping the two horizontal axes of a non-rotating box swaps the solution.",
  ["inputs", "configurations"], "Random states and terrains, all symmetry operations, both grids, integrators and dynamics variants.",
  SMOKE + "no test runs a transformed twin.",
  ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/Connectivity.cpp"],
  [("panel-local update", "HorizontalDynamicsFEM"), ("panel coupling", "Connectivity, ApplyDSS")])

p("P21", "Computed tendencies converge to the equations of motion",
  "For every smooth flow, the rate of change the solver computes for velocity, height or density, heat content and tracers approaches the analytic right-hand side of the shallow-water or nonhydrostatic equations on the rotating sphere or plane as resolution grows. Interchangeable dynamics options approach the same rate of change, and the shallow-water rate of change conserves total energy.",
  ["inputs", "configurations"], "Smooth random fields, terrains, rotation, both grids, orders, dynamics variants.",
  SMOKE + "a wrong term or sign gives a different but finite flow.",
  ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/HorizontalDynamicsFEMV2.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEMV2.cpp"],
  [("explicit tendencies", "HorizontalDynamics*::StepExplicit, VerticalDynamics*::StepExplicit"), ("implicit tendencies", "VerticalDynamics*::StepImplicit")])

p("P22", "Diffusion damps the right scales at the right rate and nothing else",
  "Horizontal diffusion with coefficient nu reduces a field's deviation at the rate of the corresponding power of the Laplacian, never increases variance, leaves constants and the global mean unchanged, acts on rotational and divergent wind through their own coefficients only, and does nothing when the coefficient is zero. Its strength follows the documented resolution scaling.",
  ["inputs", "configurations"], "Smooth and random fields, orders two and four, coefficients, resolutions, both grids.",
  SMOKE + "diffusion strength is never measured.",
  ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/HorizontalDynamicsFEMV2.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp"],
  [("operators", "ApplyScalarHyperdiffusion, ApplyVectorHyperdiffusion, StepAfterSubCycle"), ("curl and divergence", "ComputeCurlAndDiv")])

p("P23", "The implicit vertical solve satisfies its own equations",
  "For every column and step size in the stable range, the implicitly advanced column solves the vertical equations to solver tolerance: for small steps it agrees with advancing the same terms explicitly, and with the other available vertical solvers to first order. Values outside the vertically coupled variables, and neighbouring columns, are not touched.",
  ["inputs", "configurations"], "Random columns, staggerings, orders, level counts, solvers and step sizes.",
  SMOKE + "solver residuals are never inspected.",
  ["src/atm/VerticalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEMV2.cpp", "src/atm/VerticalDynamicsSchur.cpp", "src/atm/JacobianFreeNewtonKrylov.cpp"],
  [("Newton solve", "VerticalDynamicsFEM::StepImplicit, BuildF, BuildJacobianF"), ("explicit form", "StepImplicitTermsExplicitly")])

p("P24", "Thermodynamic conversions are mutually consistent",
  "For every physical state, converting among pressure, Exner pressure, density-weighted potential temperature, temperature and potential temperature and back returns the start, the conversions satisfy the ideal-gas and Poisson relations for the current constants, and changing a constant changes every derived constant accordingly. Switching a state between conserved and primitive variables and back restores it.",
  ["inputs"], "All physical ranges of density, temperature and pressure and all settings of the constants.",
  SMOKE + "no conversion is checked against its inverse.",
  ["src/atm/PhysicalConstants.h", "src/atm/EquationSet.cpp"],
  [("conversions", "PhysicalConstants::PressureFromRhoTheta, RhoThetaFromPressure, ExnerPressureFromRhoTheta, ..."), ("variable change", "EquationSet::ConvertComponents")])

p("P25", "Held-Suarez forcing relaxes temperature and wind as defined",
  "For every state and latitude, the idealised forcing moves potential temperature toward the prescribed equilibrium and low-level wind toward rest, never past them, at the published rates for the state's own pressure; above the boundary layer wind is untouched and density never changes. A state at equilibrium and at rest is unchanged.",
  ["inputs", "configurations"], "Random thermodynamic columns, winds, latitudes, step sizes, staggerings and levels.",
  SMOKE + "its output is only checked for being finite.",
  ["src/atm/HeldSuarezPhysics.cpp", "src/atm/HeldSuarezPhysics.h"],
  [("forcing", "HeldSuarezPhysics::Perform")])

p("P26", "Cloud microphysics keep water and stay physical",
  "For every moist column, one application of the warm-rain microphysics leaves vapour, cloud and rain non-negative, changes column water only by the precipitation it reports, exchanges heat in proportion to condensation or evaporation, brings cloudy air to saturation without cloud in subsaturated air, and leaves a dry column unchanged. Coupling it to the model changes only the tracers and heat it is meant to change.",
  ["inputs"], "Random columns of temperature, pressure, vapour, cloud and rain, depths and step sizes.",
  SMOKE + "moist runs are only checked for being finite.",
  ["test/dcmip2016/interface/kessler.f90", "test/dcmip2016/KesslerPhysics.cpp"],
  [("column physics", "kessler.f90 KESSLER"), ("coupling", "KesslerPhysics::Perform")])

p("P27", "The chemistry keeps total chlorine and moves toward equilibrium",
  "For every non-negative chlorine state, place, time step and light level, the two-species chemistry leaves total chlorine unchanged, keeps both species non-negative and moves toward, never beyond, photochemical equilibrium; at equilibrium it changes nothing. Splitting a step gives the same result as one step.",
  ["inputs"], "Random concentrations, latitudes, longitudes and steps.",
  SMOKE + "the chemistry output is only checked for being finite.",
  ["test/dcmip2016/interface/terminator.f90", "test/dcmip2016/TerminatorPhysics.cpp"],
  [("analytic solution", "tendency_Terminator, initial_value_Terminator"), ("coupling", "TerminatorPhysics::Perform")])

p("P28", "A run resumed from a restart file equals the uninterrupted run",
  "Stopping a simulation at any restart file and resuming from it produces the same later states, tracers, diagnostics and output times as never stopping, on either grid, with any terrain, tracers and process count. The restart file alone carries all that is needed.",
  ["histories", "crash_points", "configurations"], "All test cases, stopping times, output intervals, grids, integrators.",
  "The restart tests fail in the shipped suite (the resumed program stops with an error), so nothing compares a resumed run with an uninterrupted one.",
  ["src/atm/OutputManagerComposite.cpp", "src/atm/Model.cpp", "src/atm/Grid.cpp", "src/base/FunctionTimer.cpp"],
  [("writer and reader", "OutputManagerComposite::Output, Input"), ("restart", "Model::SetGridFromRestartFile, Grid::FromFile")])

p("P29", "Steps, outputs and periodic activities happen exactly on schedule",
  "For every start, end, step and output interval, the simulation ends exactly at the requested end with no step longer than requested, output is written for the start, the end and each multiple of the interval that the run reaches, each once and labelled with the time of the state it holds, and files are split at the requested number of outputs. Periodic activities run when due and receive the time elapsed since they last ran.",
  ["inputs", "histories"], "Random steps, end times, output intervals (divisible or not) and outputs per file.",
  SMOKE + "only that some output file exists is checked.",
  ["src/atm/Model.cpp", "src/atm/OutputManager.cpp", "src/atm/OutputManagerReference.cpp", "src/atm/WorkflowProcess.cpp"],
  [("time loop", "Model::Go"), ("output scheduling", "OutputManager::IsOutputNeeded, ManageOutput, InitialOutput, FinalOutput"), ("periodic processes", "WorkflowProcess::IsReady")])

p("P30", "Gridded output shows the model's fields at the stated coordinates",
  "Output files give, for every requested grid size and height, the model field at each listed longitude, latitude or x, y and level: smooth fields are reproduced to interpolation accuracy, constants exactly, winds as eastward and northward (or x and y) components, and derived quantities (temperature, surface pressure, vorticity, divergence, topography) as defined from the state. Interpolation to any set of points of the domain succeeds and finds each point's owner.",
  ["inputs", "configurations"], "Random smooth fields, winds, output grids, point sets incl. panel edges and poles, grids and staggerings.",
  SMOKE + "output contents are never compared with the state.",
  ["src/atm/OutputManagerReference.cpp", "src/atm/Grid.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp"],
  [("interpolation", "GridPatch*GLL::InterpolateData, Grid::ReduceInterpolate"), ("coordinates", "OutputManagerReference::CalculatePatchCoordinates, Output")])

p("P31", "Reported diagnostics equal their definitions",
  "The printed or returned checksums, norms, total energy, enstrophy and vertical momentum equal the area- or volume-weighted sums that define them, for every state, grid and decomposition, and the vorticity and divergence fields equal those of the velocity. A constant field's mean is that constant and norms are homogeneous.",
  ["inputs", "configurations"], "Random states, both grids, decompositions, staggerings.",
  SMOKE + "checksums are only tested for being finite.",
  ["src/atm/Grid.cpp", "src/atm/GridPatch.cpp", "src/atm/OutputManagerChecksum.cpp"],
  [("reductions", "Grid::Checksum, ComputeTotalEnergy, ComputeTotalPotentialEnstrophy, ComputeTotalVerticalMomentum"), ("curl and divergence", "ComputeVorticityDivergence")])

p("P32", "Absorbing layers relax the flow toward the reference and nothing else",
  "Where the absorbing strength is zero the state is untouched, elsewhere each damped variable moves toward the reference state by the amount implied by the strength and the step and never past it, and variables that are not damped keep their values. A state equal to the reference is unchanged.",
  ["inputs"], "Random states, references, strengths, steps, staggerings and both grids.",
  SMOKE + "the layer's effect is never measured.",
  ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/HorizontalDynamicsFEMV2.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/GridPatchCSGLL.cpp"],
  [("relaxation", "HorizontalDynamicsFEM::ApplyRayleighFriction")])

p("P33", "Post-processing tools preserve the data they convert",
  "Converting a model output file to the conventions format, or extracting surface fields from it, copies every selected value to the right place under the right name and units, computes derived fields by their definition, keeps the time axis, and refuses input that lacks what it needs. Values outside the selection do not leak in.",
  ["inputs"], "Random output-like files: sizes, fields, times, level sets, missing variables.",
  "The tools are built but no test runs them.",
  ["util/CFConverter/CFConverter.cpp", "util/ExtractSurface/ExtractSurface.cpp"],
  [("conversion", "CFConverter main"), ("extraction", "ExtractSurface main")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")

"""Which harness decides which property, and how many cases each tier runs."""
import os
H = "harness/"
CHECKS = {}

def cpp(name, src=None, libs=("base", "atm"), quick=(1000, 30), thorough=(20000, 600), **kw):
    d = {"name": name, "srcs": [H + (src or name + ".cpp")], "libs": libs,
         "quick": {"cases": quick[0], "time": quick[1]}, "thorough": {"cases": thorough[0], "time": thorough[1]}}
    for k in ("srcs_extra",):
        if k in kw: d["srcs"] += kw.pop(k)
    d.update(kw)
    return d

CHECKS["P01"] = {
    "parts": [cpp("p01", libs=("base",), quick=(100000, 25), thorough=(6000000, 600))],
    "rule": "a generated history of time operations in which at least one operation carries into the date (or two times that differ)",
    "assumptions": ["years 1..9998", "adding months keeps the day number and overflows into the next month, as the code documents by normalizing"],
    "min": 2000}
CHECKS["P02"] = {
    "parts": [cpp("p02", libs=("base",), quick=(200000, 25), thorough=(4000000, 600))],
    "rule": "generated date with a time of day, duration text with several characters, or malformed text",
    "assumptions": ["negative durations have no text form"],
    "min": 2000}
CHECKS["P03"] = {
    "parts": [cpp("p03", libs=("base",), quick=(20000, 30), thorough=(1000000, 600))],
    "rule": "a rule with at least two points on a random interval, or a Legendre polynomial of degree at least 2",
    "assumptions": ["up to 40 points", "tolerances of 1e-13 relative to the interval: the tables carry 15 digits"],
    "min": 1000}
CHECKS["P04"] = {
    "parts": [cpp("p04", quick=(60000, 30), thorough=(3000000, 600))],
    "rule": "at least three interpolation nodes, or a correction function of order at least two",
    "assumptions": ["targets are nodes themselves or at least 1e-6 of the node range away from one",
                    "tolerance follows the rounding amplification of the product formulas (stated in harness/p04.cpp)"],
    "min": 1000}
CHECKS["P05"] = {
    "parts": [cpp("p05", libs=("base",), quick=(6000, 40), thorough=(400000, 600))],
    "rule": "a system, product or vector operation of dimension at least two",
    "assumptions": ["matrices are generated diagonally dominant up to a row permutation or weakly perturbed from that, so that they are well conditioned",
                    "LU without solve is used for square matrices only, as everywhere in the model"],
    "min": 1000}

ASAN = dict(flags=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"),
            env={"ASAN_OPTIONS": "alloc_dealloc_mismatch=0:detect_leaks=0:abort_on_error=1", "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1"})
CHECKS["P06"] = {
    "parts": [cpp("p06", libs=("base",), quick=(6000, 40), thorough=(600000, 600), **ASAN)],
    "rule": "an operation history in which at least three operations change array contents or binding, or a container of at least two chunks",
    "assumptions": ["indices inside the array", "memory attached to an array is as large as the array's padded byte size",
                    "two arrays attached to the same memory are not assigned to one another"],
    "min": 1000}
CHECKS["P07"] = {
    "parts": [cpp("p07", quick=(8000, 30), thorough=(60000, 300)), cpp("p07u", libs=("base",), quick=(10000, 25), thorough=(200000, 300))],
    "rule": "a command line with at least two options or a bad one, or a preferences text with at least two entries",
    "assumptions": ["integer and real values are written as numbers (the code documents no refusal of others)",
                    "a value never begins with two dashes followed by text: that is an option by definition",
                    "a preference written twice is outside the statement except that one of the written values is kept (the first)"],
    "min": 1000}
CHECKS["P08"] = {
    "parts": [cpp("p08", quick=(100000, 25), thorough=(5000000, 600))],
    "rule": "a point away from the panel centre, or a vector at a generated point",
    "assumptions": ["at a pole, east and north are those of the longitude the code itself assigns to that point",
                    "vectors within 1e-9 of a pole (but not at it) are not generated: rounding leaves no direction there",
                    "panel-to-panel transforms are used where the point is at least 8 degrees inside the other panel's half sphere"],
    "min": 5000}
CHECKS["P09"] = {
    "parts": [cpp("p09", quick=(6000, 30), thorough=(1000000, 600))],
    "rule": "an index or point on or beyond a panel edge, or a layout of several patches",
    "assumptions": ["layouts are the ones a process count selects: equal squares of each panel on the sphere, strips in the box",
                    "directions of points exactly on a panel edge or diagonal are not compared"],
    "min": 3000}
CHECKS["P10"] = {
    "parts": [cpp("p10", quick=(3000, 30), thorough=(200000, 600))],
    "rule": "a whole grid built over generated terrain, spacing and constants, every node of it compared",
    "assumptions": ["the terrain-following coordinate is linear on the sphere and the documented faster decay in a box",
                    "two-dimensional equation sets carry no height, interface staggering no interfaces",
                    "the beta plane of a box is centred at half its width"],
    "min": 300}
CHECKS["P11"] = {
    "parts": [cpp("p11", quick=(5000, 30), thorough=(300000, 600))],
    "rule": "an exchange of generated values on a grid with several elements or patches, halos poisoned beforehand",
    "assumptions": ["a variable is exchanged where the solver keeps it (level or interface)", "halo width one, as in every program",
                    "velocities at panel seams agree to 1e-12, everything else exactly"],
    "min": 500}
CHECKS["P12"] = {
    "parts": [cpp("p12", quick=(5000, 30), thorough=(300000, 600))],
    "rule": "averaging of generated discontinuous values on a grid with several elements or patches",
    "assumptions": ["flat ground at walls", "Lorenz and Charney-Phillips staggering in 3D"],
    "min": 500}
CHECKS["P15"] = {
    "parts": [cpp("p15", quick=(4000, 30), thorough=(400000, 600))],
    "rule": "a generated nonlinear split system advanced with several step sizes, or a generated system with a conserved sum or a steady field",
    "assumptions": ["systems of three state fields and two tracers with rates of order one, constant step size",
                    "measured order at least the stated order less 0.35", "the experimental split-explicit scheme needs its own vertical dynamics and is excluded"],
    "min": 300}
CHECKS["P24"] = {
    "parts": [cpp("p24", quick=(60000, 30), thorough=(3000000, 600))],
    "rule": "a pair of temperature and pressure under generated constants, a pointwise state, or a whole grid initialised from generated functions",
    "assumptions": ["cp exceeds R by a factor of at least 1.6", "the tolerance grows with the conditioning of the exponents"],
    "min": 5000}
CHECKS["P13"] = {
    "parts": [cpp("p13", quick=(4000, 45), thorough=(200000, 700))],
    "rule": "1-4 steps of a generated run (shallow water or nonhydrostatic, sphere or box, any scheme, diffusion, friction, topography, tracers) with one cut of the grid and with another, or as a real mpirun of 2-6 processes: state and tracers at every node, global totals, energy and interpolated values agree to 1e-9 of their scale",
    "assumptions": ["cuts are those selected by a patch count the layout supports (6 n^2 on the sphere, strips in the box)", "where mpirun cannot start at all the case is discarded, not judged"],
    "min": 300}
CHECKS["P14"] = {
    "parts": [cpp("p14", quick=(60000, 30), thorough=(3000000, 600), **ASAN)],
    "rule": "a column of at least two elements of order at least two (or finite volumes), or operators with more than one row and column",
    "assumptions": ["columns of 1 to 6 elements of orders 1 to 8, height ratios up to 12; finite volumes of orders 2, 4 and 6",
                    "tolerance 1e-11 of the sum of |coefficient| |value| of the row"],
    "min": 1000}
CHECKS["P16"] = {
    "parts": [cpp("p16", quick=(4000, 35), thorough=(200000, 600))],
    "rule": "one to three steps of a moving or perturbed flow (any integrator), or one operation of a step on a rough state",
    "assumptions": ["nonhydrostatic runs: Lorenz staggering, at least two vertical elements, horizontal and vertical method of the same version",
                    "tolerance 1e-12 of the sum of absolute values; 1e-10 for density under the implicit solve of method v1",
                    "a tracer that went negative is left to P18; flows that lose half their smallest density in a step are not integrable and discarded"],
    "min": 300}
CHECKS["P17"] = {
    "parts": [cpp("p17", quick=(4000, 35), thorough=(200000, 600))],
    "rule": "a moving or perturbed flow with one to four tracers advanced one to four steps",
    "assumptions": ["mixing ratios agree to 1e-12 (shallow water), 1e-8 (nonhydrostatic), 1e-7 (ark232)", "linearity is checked where the non-negativity filter cannot act",
                    "no scalar diffusion over shallow-water terrain (the surface height is diffused, not the depth)"],
    "min": 300}
CHECKS["P18"] = {
    "parts": [cpp("p18", quick=(4000, 35), thorough=(300000, 600))],
    "rule": "an operation in which the filter removed at least one negative value, or a step that moves a sharp non-negative tracer",
    "assumptions": ["groups are the nodes of an element on one level (horizontal step, diffusion) or of a column (implicit vertical step)",
                    "a group whose tracer mass itself went below zero has no non-negative field of that mass and is not judged",
                    "whole steps: Strang and ERK schemes (the IMEX schemes end in linear combinations that are not filtered)",
                    "tolerance 1e-12 of the largest value, 1e-7 for the implicit vertical step (at most 40 s long)"],
    "min": 300}
CHECKS["P19"] = {
    "parts": [cpp("p19", quick=(6000, 30), thorough=(300000, 600))],
    "rule": "a layer at rest over terrain, a uniform or resting atmosphere, or a balanced flow integrated at two resolutions",
    "assumptions": ["shallow-water layers at rest and horizontally uniform states keep to rounding (1e-10, 1e-8 after the implicit solve)",
                    "rest over terrain and balanced rotation: errors fall when the resolution is doubled (by a factor of at least 0.75 or 0.9 for stretched columns; 0.85 for balanced flow)",
                    "no-slip walls hold the vertical velocity of their columns, so columns at rest beside them may differ"],
    "min": 300}
CHECKS["P20"] = {
    "parts": [cpp("p20", quick=(6000, 35), thorough=(300000, 600))],
    "rule": "a generated flow (smooth or rough, any integrator, with or without terrain, walls, diffusion) and its image under a symmetry of grid and rotation, both stepped",
    "assumptions": ["sphere: the 48 symmetries of the cube, those that keep the rotation vector when there is rotation; box: shifts by elements, mirrors, exchange of axes where the Coriolis parameter allows",
                    "tolerances 1e-10 (shallow water), 1e-8 (nonhydrostatic), 1e-7 (ark232); time steps up to 60 s for nonhydrostatic runs",
                    "nonhydrostatic states start with vertical motion: the linearised implicit solve has a kink at zero vertical velocity"],
    "min": 300}
CHECKS["P21"] = {
    "parts": [cpp("p21", quick=(6000, 45), thorough=(300000, 700))],
    "rule": "the same smooth state on a mesh and on one twice as fine: computed tendencies against the analytic right-hand sides (high-order differences of the generating functions); or any shallow-water state for the energy balance",
    "assumptions": ["shallow water: error falls at least as 3/2^(order-1) per doubling; three dimensions: error at least almost halves on uniform levels and falls on stretched ones (first order there)",
                    "nonhydrostatic tendencies are those of the fully explicit dynamics, away from the first and last interface for vertical velocity; the second method over flat ground",
                    "beta-plane boxes are judged away from the rows where the Coriolis parameter jumps", "energy balance to 1e-11 of its terms, plus rounding of the state"],
    "min": 150}
CHECKS["P22"] = {
    "parts": [cpp("p22", quick=(6000, 35), thorough=(300000, 600))],
    "rule": "eigenfunctions of the Laplacian (plane waves, spherical harmonics of degree 1 and 2) in scalars, tracers and both kinds of wind, or a rough state diffused once",
    "assumptions": ["rates agree with the eigenvalue to the resolution of the wave (2e-3 for scalars, 2e-2 for wind when resolved; looser below 9 points per wave and for order 3)",
                    "wind under fourth-order diffusion of order-3 elements on the sphere is judged by its energy only", "explicit diffusion inside its stability limit",
                    "no-slip walls change wind and vertical velocity themselves"],
    "min": 300}
CHECKS["P23"] = {
    "parts": [cpp("p23", quick=(12000, 35), thorough=(400000, 600))],
    "rule": "a column state off balance advanced implicitly: rate against the explicit dynamics for small steps, residual of its own equations for long ones, or one column altered",
    "assumptions": ["rates agree to 1e-3 or with an error that falls in proportion to the step", "the linearised solve leaves a residual quadratic in the distance from a settled state (first method: vertical velocity only, its heat and density fluxes have a kink at rest)",
                    "no-slip walls excluded; second method over flat ground; Schur solver excluded"],
    "min": 300}
CHECKS["P25"] = {
    "parts": [cpp("p25", quick=(6000, 35), thorough=(300000, 600))],
    "rule": "columns of any surface pressure, temperature (also exactly at equilibrium) and wind, with arbitrary values in the arrays the solver does not keep, forced once with any period from 1 s to 2.9 days",
    "assumptions": ["published forcing: Held and Suarez (1994), temperature relaxed at constant density, wind damping between exp(-k dt) and 1/(1+k dt)",
                    "surface pressure between the exact one and the one extrapolated from the levels (0.2 per cent margin); boxes use their second coordinate as latitude, as the forcing does",
                    "temperature kept on levels (no dynamics keep it on interfaces)"],
    "min": 300}
CHECKS["P31"] = {
    "parts": [cpp("p31", quick=(9000, 35), thorough=(400000, 600))],
    "rule": "a smooth or rough state with vertical motion on any grid; every checksum type, energy, enstrophy, vertical momentum, vorticity and divergence against sums and element derivatives computed independently",
    "assumptions": ["weights are the element areas of the grid (their total is P10)", "with vertical velocity on interfaces, velocity on levels and density on interfaces are brought up to date first, as the model does before it prints energy",
                    "nonhydrostatic energy is defined for the covariant vertical velocity of the V1 method; vertical momentum is the sum of density times the stored vertical velocity",
                    "the enstrophy of the nonhydrostatic model is a placeholder in the code (zonal momentum) and is not judged", "relative tolerance 1e-11 of the sum of absolute terms"],
    "min": 300}
CHECKS["P32"] = {
    "parts": [cpp("p32", quick=(6000, 35), thorough=(300000, 600))],
    "rule": "a rough state next to an absorbing layer (upper, lateral, uniform, none) updated once with and without friction, or uniform flow carried through whole steps of any scheme",
    "assumptions": ["the factor applied to the distance from the reference lies between exp(-strength*step) and 1/(1+strength*step)",
                    "damped: every shallow-water variable; wind, vertical velocity and heat content of the nonhydrostatic model; density and tracers are not",
                    "whole steps: vertically resolved background, within 1 per cent of the wind"],
    "min": 300}
CHECKS["P28"] = {
    "parts": [cpp("p28", quick=(6000, 40), thorough=(300000, 600))],
    "rule": "a run of 2-6 steps (shallow water or nonhydrostatic, sphere or box, topography, stretching, diffusion, friction, tracers, last step whole or short) writing restart files through the composite output manager, resumed from one of them through the model programs' own set-up and run to the same end: outputs, totals, times and constants equal to 1e-9 relative",
    "assumptions": ["Strang schemes are excluded: they carry part of a step over, which the restart file does not hold", "file names resolve whole seconds, so two restart files within one second of model time overwrite each other", "the output interval divides the restart interval"],
    "min": 300}
CHECKS["P29"] = {
    "parts": [cpp("p29", quick=(40000, 25), thorough=(2000000, 400))],
    "rule": "a run of at least three steps with at least one output manager, through the model's own time loop with a recording integrator, outputs and activities: any start, length, step and intervals (multiples or not of the step, below the step, months, none), any number of outputs per file, fresh or resumed",
    "assumptions": ["output or activity is due at the first step that reaches a multiple of its interval; with an interval below the step it happens at every full step",
                    "the 365-day calendar (the standard calendar refuses differences of times, so the loop refuses it)"],
    "min": 300}
CHECKS["P30"] = {
    "parts": [cpp("p30", quick=(4000, 40), thorough=(200000, 600))],
    "rule": "arbitrary continuous nodal fields interpolated to points anywhere (element, panel and patch edges, corners, poles, ends of the domain) and heights, or written through the reference output manager and read back with the netCDF library",
    "assumptions": ["oracle: Lagrange interpolation inside the element that holds the point (any of them on shared edges); columns are polynomials of the degree the column interpolation reproduces when heights are not the grid's own",
                    "horizontal wind is not judged within 0.1 degree of the poles", "boxes with finite volume columns give their own levels only", "Richardson number output is not judged"],
    "min": 300}

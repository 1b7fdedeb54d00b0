#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the text stays in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in (state or [])],
                    "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": hook}})

prop("C01", "Neighbour lists are exactly the particles within the radius",
 "After every neighbour search, each particle still in the simulation lists exactly the other in-simulation particles whose distance is strictly smaller than the search radius: each once, with its true distance, never itself and never a removed particle. This holds for every domain box (flat, smaller than a cell, not a multiple of the radius, away from the origin), every 1D/2D/3D placement including cell faces and domain faces, and whatever was searched before with the same searcher.",
 ["inputs","histories"], "all placements of a few particles over an alphabet of critical coordinates (domain faces, cell faces, just inside/outside), all particle types, several domains and radii, all short sequences of moves and re-searches",
 "The one test samples 100 random points in one 2D box with one search; cell/domain faces, 3D, exact-radius distances, types and re-use of the searcher are never reached.",
 ["src/neighbor_searcher.cpp","src/bucket.cpp","src/bucket.hpp"],
 [("cell grid with one layer of padding","src/bucket.cpp Bucket::Bucket"),("3x3x3 cell scan","src/neighbor_searcher.cpp NeighborSearcher::setNeighbors")],
 ["Particle::neighbors after NeighborSearcher::setNeighbors"],
 [("bucket.first/next/last","linked lists of particles per cell, reset at each search","src/bucket.cpp")])
prop("C02", "Particles that leave the domain are removed, safely and for good",
 "A particle whose position is outside the closed domain box on any axis, or is not a number, becomes a removed (ghost) particle at the next search, keeps its position and velocity frozen from then on, and never comes back; a particle inside or exactly on a face is never removed. Whatever the positions are, no memory outside the simulation's own data is touched.",
 ["inputs","histories"], "all placements over inside / on each face / one ulp outside / far outside / infinite / NaN per axis, and all short trajectories that leave and would re-enter",
 "No test puts a particle outside the domain; the tests are not run under a memory checker.",
 ["src/bucket.cpp","src/mps.cpp"],
 [("domain test before cell indexing","src/bucket.cpp Bucket::storeParticles"),("type checks in every stage","src/mps.cpp")],
 ["Particle::type/position/velocity after searches and after MPS::stepForward"],
 [("Particle::type","Ghost = removed","src/particle.hpp")])
prop("C03", "Removed particles have no influence",
 "Adding, moving or altering removed (ghost) particles, at any position, velocity and density, never changes the trajectory, pressure, number density, surface state or Courant number of the rest; a ghost itself reports zero pressure and zero number density after each step.",
 ["inputs","histories"], "all small configurations of fluid/wall/dummy particles, with every choice of ghosts overlaid, both pressure methods, several steps, compared against the same run without ghosts",
 "No test runs a time step.",
 ["src/mps.cpp","src/bucket.cpp","src/pressure_calculator/explicit.cpp","src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"],
 [("ghosts are not stored in cells","src/bucket.cpp"),("ghosts skipped in every stage","src/mps.cpp")],
 ["MPS::particles after each MPS::stepForward"])
prop("C04", "Walls never move and no particle changes identity",
 "Wall and dummy-wall particles keep their position and velocity bit for bit through every step, whatever hits them; and no step changes a particle's index, density or fluid type, or its type except to removed when it has left the domain.",
 ["inputs","histories"], "all small configurations over all types, velocities, overlaps and both pressure methods, over several steps",
 "No test runs a time step.",
 ["src/mps.cpp","src/particle.cpp"],
 [("inverse density 0 for non-fluid","src/particle.cpp Particle::inverseDensity"),("fluid-only updates","src/mps.cpp moveParticle, moveParticleUsingPressureGradient, calGravity")],
 ["MPS::particles after each MPS::stepForward"])
prop("C05", "Kernel and reference values are the full lattice sums",
 "The weight is re/r - 1 inside the radius and 0 from the radius on. The reference number density n0 and the Laplacian coefficient lambda0 are the sum of weights, and the weight-averaged squared distance, over all sites of the regular square (2D) or cubic (3D) lattice within the radius, for every spacing and every radius larger than the spacing; and a simulation uses, for number density, gradient and Laplacian, the values of that operator's own radius.",
 ["inputs","configurations"], "grid of radius/spacing ratios from just above 1 to beyond 6, several spacings, 2D and 3D, all assignments of different radii to the three operators",
 "The tests check one spacing and one ratio (1.5) and three weights.",
 ["src/weight.cpp","src/refvalues.cpp","src/mps.cpp"],
 [("kernel","src/weight.cpp weight"),("lattice loop","src/refvalues.cpp RefValues::RefValues"),("per-operator values","src/mps.cpp MPS::MPS")],
 ["weight()","RefValues::n0/lambda","MPS::refValuesFor*"])
prop("C06", "Gravity and free flight",
 "A fluid particle with no neighbours gains exactly gravity times dt per step in velocity and then moves by its new velocity times dt, and nothing else happens to it. Gravity is the configured vector, or, in norm-and-angle form, the vector of that norm turned counter-clockwise from -Y in the XY plane by the angle in degrees.",
 ["inputs","configurations","histories"], "all gravity vectors over a small alphabet, all angles over a grid, both dimensions, both pressure methods, all starting velocities over an alphabet, several steps",
 "No test runs a time step or reads gravity.",
 ["src/mps.cpp","src/mps_factory.cpp"],
 [("acceleration accumulate and reset","src/mps.cpp calGravity, moveParticle"),("norm/angle conversion","src/mps_factory.cpp MPSFactory::create")],
 ["MPS::particles after MPS::stepForward","MPS::gravity"],
 [("Particle::acceleration","must be zero between steps","src/particle.hpp")])
prop("C07", "Viscosity is the documented Laplacian of velocity",
 "In each step the acceleration of a fluid particle due to viscosity is nu * 2d / (n0 lambda0) times the sum over all neighbours within the Laplacian radius (fluid, wall and dummy wall) of the velocity difference times the weight, evaluated at start-of-step positions and velocities of all particles; hence uniform velocity gives none, and a closed set of fluid particles keeps its total velocity.",
 ["inputs","configurations"], "all small clusters over lattice and off-lattice sites, all types, all velocity assignments over an alphabet, distances below/at/above each operator's radius, 2D and 3D",
 "No test runs the viscosity stage.",
 ["src/mps.cpp"], [("two-pass acceleration then move","src/mps.cpp calViscosity, moveParticle")],
 ["velocity change over MPS::stepForward with zero pressure"])
prop("C08", "Collisions separate particles and conserve momentum",
 "Two particles nearer than the collision distance after prediction, one at least a fluid, exchange an impulse along their line only if they approach: the relative normal speed becomes minus the restitution coefficient times what it was, the tangential part and the pair's density-weighted momentum are unchanged, and they are pushed apart to exactly the collision distance with the density-weighted centre fixed. Against a wall or dummy wall all of it goes to the fluid particle; at or beyond the collision distance nothing happens; several simultaneous contacts are each resolved in this way, one after the other, so that the density-weighted momentum and centre of a set of fluid particles are still conserved.",
 ["inputs","configurations"], "all pairs over types, densities, directions, distances below/at/above the collision distance, approaching/separating/tangential velocities, restitution 0..1, both index orders; all triples on a small set of sites",
 "No test runs the collision stage.",
 ["src/mps.cpp","src/particle.cpp"], [("each pair once","src/mps.cpp MPS::collision"),("inverse density","src/particle.cpp Particle::inverseDensity")],
 ["MPS::particles after MPS::stepForward with zero pressure"])
prop("C09", "Number density and free-surface classification",
 "In each step the number density of every non-ghost particle is the sum of weights over its neighbours within the number-density radius at the predicted positions, and 0 for ghosts. With the implicit method each fluid or wall particle is then classified as free surface exactly when its number density is below threshold times n0 and, if the distribution check is on, it has no neighbours or some component of the sum of its neighbours' relative positions exceeds in magnitude the distribution threshold times the spacing; otherwise it is inner; ghosts and dummy walls are ignored.",
 ["inputs","configurations"], "all occupancy patterns of a small lattice patch over {empty, fluid, wall, dummy, ghost}, thresholds on both sides, both detectors, 2D and 3D",
 "No test covers number density or either detector.",
 ["src/mps.cpp","src/surface_detector/number_density.cpp","src/surface_detector/distribution.cpp","src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp","src/mps_factory.cpp"],
 [("number density","src/mps.cpp calNumberDensity"),("detectors","src/surface_detector/*.cpp"),("classification","free_surface.cpp setBoundaryCondition")],
 ["Particle::numberDensity","Particle::boundaryCondition"])
prop("C10", "Implicit pressure solves the documented Poisson equation",
 "With the implicit method the pressure is the solution of the discrete Poisson equation with compressibility and relaxation terms, in which inner particles couple to all non-ignored neighbours within the Laplacian radius with coefficient 2d/(n0 lambda0) w / density, while free-surface, dummy-wall and ghost particles are held at zero; negative results are then set to zero. Repeated calls on changed particles depend only on the current particles.",
 ["inputs","histories","configurations"], "all small clusters over types, classification outcomes, number densities and densities, compared with an independent dense solve; all short sequences of calls on one calculator",
 "No test covers the pressure calculation.",
 ["src/pressure_calculator/implicit.cpp","src/pressure_calculator/pressure_poisson_equation.cpp","src/pressure_calculator/dirichlet_boundary_condition.cpp","src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"],
 [("matrix assembly and solve","pressure_poisson_equation.cpp"),("equation reset between calls","pressure_poisson_equation.cpp resetEquation"),("clipping","implicit.cpp removeNegativePressure")],
 ["MPS::pressureCalculator->calc(particles)"],
 [("matrixTriplets, sourceTerm","system of the current call only","pressure_poisson_equation.hpp")])
prop("C11", "Explicit pressure follows the equation of state",
 "With the explicit method every non-ghost particle's pressure is c^2 * density * (n - n0)/n0, with that particle's own number density n and density, when n exceeds n0, and 0 otherwise; ghosts have 0; and the pressures reported at the end of a step follow the same law.",
 ["inputs","configurations"], "all combinations over types, number densities below/at/above n0, densities and sound speeds for small sets, and all small compressed clusters through whole steps",
 "No test covers the pressure calculation.",
 ["src/pressure_calculator/explicit.cpp","src/mps.cpp","src/mps_factory.cpp"], [("equation of state","explicit.cpp Explicit::calc")],
 ["MPS::pressureCalculator->calc(particles)","Particle::pressure after MPS::stepForward"])
prop("C12", "Pressure correction is the documented repulsive gradient",
 "In each step a fluid particle is corrected by the acceleration -(1/density)(d/n0) times the sum over fluid and wall neighbours within the gradient radius of (P_j - Pmin_i) r_ij w / r^2, where Pmin_i is the smallest pressure among itself and those neighbours; velocity changes by that times dt and position by that times dt^2. Every pair term therefore pushes the particle away from its neighbour, and equal pressures produce no correction.",
 ["inputs","configurations"], "all small clusters over sites, types and densities, with pressures produced by the equation of state, distances below/at/above the gradient radius, 2D and 3D, both index orders",
 "No test covers the gradient or correction stage.",
 ["src/mps.cpp"], [("minimum pressure","src/mps.cpp setMinimumPressure"),("gradient","src/mps.cpp calPressureGradient"),("correction","src/mps.cpp moveParticleUsingPressureGradient")],
 ["velocity and position change over MPS::stepForward"])
prop("C13", "The Courant number is the true maximum of the last step",
 "After each step the reported Courant number is the maximum over fluid particles of final speed times dt over the particle spacing, 0 when there is no fluid, regardless of earlier steps and of walls or ghosts; and an error is written to standard error exactly in the steps where it exceeds the configured limit.",
 ["inputs","histories"], "all velocity assignments over an alphabet for small sets of all types, several steps, limits just below/at/above",
 "No test runs a time step.",
 ["src/mps.cpp"], [("reset and maximum","src/mps.cpp MPS::calCourant")], ["MPS::courant","standard error"])
prop("C14", "A step depends only on the visible state; restarts continue the run",
 "The outcome of a time step is determined by the settings and the particles' types, positions, velocities and densities alone: a simulation created anew from that state gives the same next step as one that has already run for any number of steps. So restarting from a written particle file, with the time it records, continues the run up to the precision of the file (which carries no densities: all particles have the default density).",
 ["histories","crash_points"], "all histories up to a few steps of all small configurations, both methods: at every point a fresh simulation is forked from the visible state and compared; every output file of short runs used as restart point",
 "No test runs a step, let alone two.",
 ["src/mps.cpp","src/pressure_calculator/implicit.cpp","src/pressure_calculator/pressure_poisson_equation.cpp","src/simulation.cpp","src/saver.cpp"],
 [("accelerations zeroed","src/mps.cpp"),("neighbour lists, matrix and pressures rebuilt","src/neighbor_searcher.cpp, pressure_poisson_equation.cpp")],
 ["MPS::particles after stepForward, live vs. fresh","output files of restarted runs"],
 [("Particle::acceleration/neighbors/minimumPressure, matrixTriplets, bucket lists","scratch that must not leak into the next step","src")])
prop("C15", "Results do not depend on threads",
 "Built with OpenMP, a step is free of data races and gives, for every number of threads and every interleaving of them, the same particle state as the serial program (up to floating-point rounding).",
 ["schedules","inputs"], "every team size up to the bound, every interleaving of the parallel regions of whole steps (by partial-order reduction: all conflicting accesses are enumerated under a controlled scheduler) for a set of small configurations that reach every parallel loop",
 "The tests are built without OpenMP and never run a parallel loop.",
 ["src/mps.cpp","src/bucket.cpp","src/neighbor_searcher.cpp","src/pressure_calculator/explicit.cpp","src/pressure_calculator/implicit.cpp","src/pressure_calculator/pressure_poisson_equation.cpp","src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"],
 [("loops write only their own particle; the others stay serial","#pragma omp parallel for in src")],
 ["memory accesses in parallel regions; MPS::particles after MPS::stepForward"])
prop("C16", "The physics has no preferred frame or numbering",
 "Shifting everything (particles and domain), mirroring or permuting the axes (with gravity and domain), and renumbering the particles, each commute with stepping the simulation, up to floating-point rounding, as long as no particle has several simultaneous collisions (which are resolved one after the other).",
 ["inputs","configurations"], "all small 2D and 3D clusters with both methods, all stages active, against every axis permutation and mirror, several shifts and all renumberings",
 "No test runs a time step.",
 ["src/mps.cpp","src/bucket.cpp","src/neighbor_searcher.cpp","src/surface_detector/distribution.cpp","src/pressure_calculator/pressure_poisson_equation.cpp"],
 [("vector formulas without axis-specific terms; index arithmetic per axis","src")], ["MPS::particles after MPS::stepForward"])
prop("C17", "Output cadence: right times, right count, nothing missing",
 "A run writes output 0 with the initial state at the start time, then advances by dt until the time reaches the end time, and after a step writes the next output exactly when the elapsed time since the start has reached output number times the output period, at most one per step. Outputs are numbered consecutively from 0000 and each exists in all three formats, carrying the same time and the state of the particles at that time.",
 ["configurations"], "grid of dt, output period, end time and start time (including start time not zero or past the end, period smaller than dt, not a multiple of dt), each input format, both VTK encodings, each output checked against an independently computed trajectory",
 "No test runs the main loop.",
 ["src/simulation.cpp","src/saver.cpp"], [("main loop","src/simulation.cpp Simulation::run"),("cadence","Simulation::saveCondition"),("numbering","src/saver.cpp Saver::save")],
 ["files in the output directory after a run of the program"],
 [("Saver::fileNumber","next output number","src/saver.hpp")])
prop("C18", "All output formats state the same, and the VTK files are well-formed",
 "For any particle set and time, the profile, CSV, ASCII VTK and binary VTK files contain every particle once, in index order, with its own values of the fields the format has (type, fluid type, position, velocity, pressure, number density, number-density ratio to the given n0, boundary condition): exactly in binary, to the six significant digits written in text. The VTK files are well-formed with correct counts, types, component numbers, cell connectivity and offsets, appended blocks with correct byte offsets and lengths, and the time.",
 ["inputs"], "all particle sets up to a few particles over an alphabet of field values (negative, zero, tiny, huge, extremes of integers, all types and states), several times and n0, parsed by independent readers",
 "The tests only check that a file appears.",
 ["src/particles_exporter.cpp"], [("writers","src/particles_exporter.cpp toProf, toCsv, toVtuAscii, toVtuBinary")], ["written files"])
prop("C19", "Loading gives back exactly what the file says",
 "Loading a profile, CSV or ASCII VTK file, whether written by the program or by hand in the documented syntax, yields the file's start time and every particle in file order with consecutive indices and its type, position and velocity, and fluid type and density where the format carries them. A density that is absent or negative becomes the configured default and an absent fluid type becomes 0; CSV columns may come in any order and a CSV without one of the required columns is refused; a binary VTK file is refused.",
 ["inputs"], "all small particle sets over value alphabets for each format, all column orders and all subsets of columns, write-then-load of every set, all combinations of given/negative/absent densities",
 "One test loads one two-particle VTK file and does not look at densities; the CSV and profile loaders have no test.",
 ["src/particles_loader/csv.cpp","src/particles_loader/prof.cpp","src/particles_loader/vtu.cpp","src/loader.cpp"],
 [("parsers","src/particles_loader/*.cpp"),("choice by extension","src/loader.cpp getParticlesLoader")], ["result of the loaders"])
prop("C20", "A cut-off or inconsistent particle file is refused",
 "A profile, CSV or ASCII VTK particle file that ends early, at any line or field boundary, or that holds fewer particles than it declares, is refused with an error and a failing exit; it is never turned into a simulation with missing, extra or invented particles.",
 ["inputs","crash_points"], "every truncation of small valid files of each format at every line and field boundary, every single-line deletion, and declared counts larger than what is there",
 "No test loads a damaged file.",
 ["src/particles_loader/prof.cpp","src/particles_loader/csv.cpp","src/particles_loader/vtu.cpp"],
 [("stream state and count checks after parsing","src/particles_loader/*.cpp")], ["result of the loaders, exit status"])
prop("C21", "Every setting is honoured, and incomplete settings are refused",
 "Each entry of the settings file reaches the simulation with its value: lengths given as ratios are scaled by the particle spacing, the search radius is the largest of the three radii, domain extents match their axes, the particle path is taken relative to the settings file whatever the working directory, a build with OpenMP works with the given number of cores, and the documented defaults apply when optional entries are absent. A settings file missing any required entry, or with an entry of the wrong kind or an unknown pressure method or particle file type, ends the program with a failing status before any particle output is written.",
 ["configurations"], "every entry varied one at a time and in pairs over distinguishing values, every entry removed and made malformed, several path forms and working directories",
 "No test loads settings.",
 ["src/loader.cpp","src/mps_factory.cpp","src/main.cpp"], [("settings reader","src/loader.cpp loadSettingYaml"),("selection","src/mps_factory.cpp MPSFactory::create")],
 ["Loader::load result, MPSFactory::create result, exit status of the program"])
prop("C22", "The program never overwrites inputs or saved copies and fails visibly",
 "The program copies the settings and particle file byte for byte into the output directory, and refuses to run, with a failing status, when one of the copies is already there, leaving it untouched. It likewise fails with a message when the settings file, the particle file or the output directory does not exist or an argument is missing; the input files are never modified and nothing is created outside the output directory.",
 ["configurations","histories"], "all combinations of argument forms, presence/kind of settings file, particle file and output directory, and pre-existing copies, plus all two-run histories",
 "No test runs the program.",
 ["src/main.cpp","src/loader.cpp","src/saver.cpp"], [("argument actions","src/main.cpp main"),("refuse existing copy","src/loader.cpp copyInputFileToOutputDirectory")],
 ["exit status, file system before/after"])
prop("C23", "A failed or interrupted write is never passed off as good output",
 "If any write, open, create or close on an output file fails at any point of a run, the program ends with a failing status and a message instead of reporting success. If the program is killed at any point, every particle output file on disk is either complete and equal to that of an undisturbed run or is refused when loaded.",
 ["fault_sequences","crash_points"], "every output system call of short runs, each failing in turn with no-space or I/O error or writing only part, and the process killed before each of them; every file then loaded",
 "No test injects a fault.",
 ["src/particles_exporter.cpp","src/saver.cpp","src/loader.cpp","src/particles_loader/prof.cpp","src/particles_loader/csv.cpp","src/particles_loader/vtu.cpp"],
 [("stream checks when a file is finished","src/particles_exporter.cpp"),("completeness checks when loading","src/particles_loader/*.cpp")],
 ["exit status, standard error, files on disk"])
prop("C24", "Generators overwrite existing input only on an explicit yes",
 "A generator that finds one of its output files already present writes nothing unless the user answers y or Y; n or N, or the end of input, leaves every file as it was; any other answer asks again, and it always terminates. Without existing files it writes exactly the requested formats without asking, creating the directory if needed, and an empty or unknown format list writes nothing.",
 ["histories","configurations"], "all answer sequences up to a bound over {y,Y,n,N,other,blank} with and without end of input, all states of the directory, all format lists",
 "No test covers the generators.",
 ["generator/generator_src/generator_dialogue.cpp"], [("dialogue loop","generator_dialogue.cpp GeneratorDialogue::generatorDialogue")], ["files, exit, output of the generator"])
prop("C25", "Generated tanks are complete, closed and inside the sample domain",
 "Each generator emits exactly one particle per site of its lattice region: every site of the documented fluid box is fluid, every site of the surrounding floor and sides up to the tank height is wall within two layers and dummy wall beyond (the dam-break tank's top three rows are wall throughout), and no other site is occupied. All particles are at rest and inside the domain of the sample settings, the spacing equals the sample settings' spacing, and the profile and VTK files describe the same particles.",
 ["inputs"], "every site of the lattice around each tank, against an independent description of the geometry",
 "No test runs the generators.",
 ["generator/generate_dambreak.cpp","generator/generate_hydrostatic.cpp","input/dambreak/settings.yml","input/hydrostatic/settings.yml"],
 [("region tests","generator/*.cpp")], ["files written by the generators"])
prop("C26", "Profile-to-CSV conversion loses nothing",
 "Converting any profile file in the documented layout to CSV with the provided script keeps the start time, the particle count and every particle, in order and with every value unchanged, with or without a newline at the end of the file or blank lines; loading the CSV gives the same simulation as loading the profile file. With a wrong number of arguments it fails and writes nothing.",
 ["inputs"], "all small profile files over an alphabet of values and line layouts, both files loaded and compared",
 "No test runs the script.",
 ["scripts/prof_to_csv.sh"], [("line loop","scripts/prof_to_csv.sh")], ["converted file, exit status"])
prop("C27", "Runner scripts delete only the project's own results",
 "From whatever directory and through whatever path it is called, the runner script clears only the contents of the project's own dam-break result directory and runs the program there with the project's settings; it never removes anything elsewhere, in particular not when the project path contains blanks. The safe runner runs the named project into a result directory of its own, removes nothing at all, and without a project name it does nothing and fails.",
 ["configurations"], "all combinations of project path (plain, with blanks), calling directory, call form, pre-existing results and decoy directories, with the destructive commands replaced by recorders",
 "No test runs the scripts.",
 ["scripts/runner.sh","scripts/safe_runner.sh"], [("cd to the project root","scripts/*.sh")], ["recorded rm/mkdir/mps calls and their directories"])
prop("C28", "A whole step is the documented sequence of stages",
 "With all stages active, each step applies gravity and viscosity at the old positions, moves, resolves collisions, re-evaluates neighbours, number density and pressure at the moved positions and then applies the pressure correction, exactly as documented; the resulting positions, velocities, pressures and number densities agree with an independent implementation of the method, step after step.",
 ["inputs","histories","configurations"], "all small clusters over sites, types, velocities and densities with every stage active, both pressure methods and both surface detectors, 2D and 3D, over several steps",
 "No test runs a time step.",
 ["src/mps.cpp","src/mps_factory.cpp","src/pressure_calculator","src/surface_detector"],
 [("stage order","src/mps.cpp MPS::stepForward"),("assembly from settings","src/mps_factory.cpp MPSFactory::create")], ["MPS::particles after MPS::stepForward"])
prop("C29", "The console reports every step truthfully",
 "A run prints one line per time step to standard output, in order, with the number of steps made, the time reached, the end time, the number of outputs written so far and the Courant number of that step, and one line with step and time to standard error. Elapsed, remaining and total time are hours, minutes and seconds (both below 60) of the time actually passed, of the average per step times the steps between start and end time less what has passed, and of the whole run. The end of the simulation is announced only by a run that completed.",
 ["inputs","configurations","histories"], "all schedules over alphabets of time step, period, start and end, all speeds over an alphabet, and a clock advancing by each of many amounts per reading",
 "No test runs a simulation; the durations depend on a clock the tests do not control.",
 ["src/simulation.cpp","src/simulation.hpp","src/saver.cpp","src/mps.cpp"],
 [("step report","src/simulation.cpp Simulation::timeStepReport"),("duration formatting","src/simulation.hpp Simulation::calHourMinuteSecond")], ["standard output and standard error of the program"])

prop("C30", "The physics has no built-in scale",
 "The same flow stated in other units of length, time and density (every setting and every particle converted consistently, the Courant limit and the dimensionless settings unchanged) evolves the same: after each step, converted back, positions, velocities, pressures, number densities, surface states and the Courant number agree up to rounding. No absolute length, time, speed, density or pressure is built in, however small or large the numbers become.",
 ["inputs","configurations","histories"], "all small clusters, blocks, collapsing columns and slow populations with every stage active under each of a set of unit changes (powers of two over many orders of magnitude in length, time and density), over several steps",
 "No test runs a time step, and all fixed values of the tests are of the order of one.",
 ["src/mps.cpp","src/neighbor_searcher.cpp","src/bucket.cpp","src/weight.cpp","src/refvalues.cpp","src/surface_detector/distribution.cpp","src/pressure_calculator/explicit.cpp","src/pressure_calculator/pressure_poisson_equation.cpp"],
 [("formulas without absolute constants","src")], ["MPS::particles and MPS::courant after MPS::stepForward"])

prop("C31", "A pressure system without a solution ends the run visibly",
 "When in some step of an implicit run the documented pressure system has no solution (zero compressibility and a group of coupled inner particles that no free-surface particle holds at zero), the program ends in that step with a failing status and a message: it writes no output of that step or any later one and does not announce the end of the simulation as if it had succeeded. The outputs of the steps before stay, complete in all formats. Runs in which every system has a solution are not ended.",
 ["inputs","histories"], "every occupation of a small site set with every kind of companion, particles flying apart from each other until they meet in each of several steps, blocks, with and without compressibility, both methods",
 "No test runs the program; whether the solver has converged depends on the state of a step deep in a run.",
 ["src/pressure_calculator/pressure_poisson_equation.cpp","src/pressure_calculator/implicit.cpp","src/simulation.cpp"],
 [("solver status","src/pressure_calculator/pressure_poisson_equation.cpp PressurePoissonEquation::solve")], ["exit status, standard error and output files of the program"])

prop("C32", "A run depends on its settings and particles only",
 "Two runs of the same settings and the same particles write the same outputs, byte for byte, whatever the circumstances: the time of day and the time zone, the directory, the names and the way the paths are given, the format the particles are read from, the order of and comments in the settings, what else lies in the output directory and what earlier runs left there, the environment, the number of cores given to a serial build, addresses and earlier contents of memory.",
 ["configurations","histories","inputs"], "every single circumstance and every pair of circumstances, on several small systems with both pressure methods and both surface detectors",
 "No test runs the program, let alone twice.",
 ["src/main.cpp","src/simulation.cpp","src/loader.cpp","src/saver.cpp","src/particles_exporter.cpp","src/mps.cpp","src/particle.hpp"],
 [("a run","src/simulation.cpp Simulation::run"),("initial values","src/particle.hpp Particle")], ["all output files of the program"])

prop("C33", "A run's memory and open files do not grow with its length",
 "However many steps a run has and however many outputs it writes, it keeps no more memory and no more open files than a short run of the same system: what a step or an output needed is given back after it. A system that runs for a few steps runs for as many as the settings ask for, and all its outputs are written.",
 ["histories","configurations"], "several systems at rest, drifting, outside, reporting Courant numbers and in three dimensions, with both methods, both detectors and each cadence and encoding, over a doubling series of lengths with open files limited to sixteen",
 "No test runs more than one step of anything, and what is not given back shows only in long runs.",
 ["src/simulation.cpp","src/mps.cpp","src/saver.cpp","src/particles_exporter.cpp","src/neighbor_searcher.cpp","src/bucket.cpp","src/pressure_calculator/implicit.cpp","src/pressure_calculator/pressure_poisson_equation.cpp"],
 [("the time loop","src/simulation.cpp Simulation::run"),("the step","src/mps.cpp MPS::stepForward"),("an output","src/saver.cpp Saver::save")], ["memory allocated and not freed while the program runs, open files, outputs"])

prop("C34", "A whole run follows the documented method from input to outputs",
 "The outputs of a run of the program are the states of the documented method: output 0 is the input file's particles at its start time, and each later output follows from the one before by the steps between them, with the parameters exactly as the settings file states them (neighbours, gravity and viscosity, move, collisions, number density, surface detection, pressure, pressure gradient, correction), whatever the input format, the start time, the cadence, the speeds and the size. The three formats of an output agree, and the Courant number shown for a step is that step's. This includes the shipped examples.",
 ["inputs","configurations","histories"], "several two- and three-dimensional systems with walls, leavers, moving lids and fast jets under every combination of pressure method, detector, form of gravity, input format and cadence, and the shipped examples; every transition between outputs",
 "No test runs the program; the parts are each tested on a few values, their composition never.",
 ["src/main.cpp","src/simulation.cpp","src/loader.cpp","src/mps_factory.cpp","src/mps.cpp","src/saver.cpp","src/particles_exporter.cpp"],
 [("composition","src/simulation.cpp Simulation::Simulation, Simulation::run"),("wiring of the parts","src/mps_factory.cpp MPSFactory::create"),("order of the stages","src/mps.cpp MPS::stepForward")], ["all output files and the standard output of the program"])

prop("C35", "No run touches memory not its own or acts on values never set",
 "No run of the program, whatever its settings and particles (well-formed or damaged, in or out of the domain, on its exact borders, coincident, none at all; the particle distance and the effective radii being positive and the time steps finite in number), reads or writes memory outside the objects it owns or after their end, passes a bound of a container, overflows an integer, or lets a value that was never given decide what it does or reach a file. It either completes or fails with a message. A domain with more cells than the program can number is refused with a message.",
 ["inputs","configurations","histories"], "every combination of system (empty, single, coincident, on the borders and a rounding beyond them, outside, huge, flat and all of the whole-run systems), pressure method, detector, input format and encoding; every cut of the input files; every damage of every settings entry; domains up to sizes whose number of cells no integer holds; more than ten thousand outputs",
 "The tests run without monitors on a few values, and not one of them runs the program; an access a little past an array usually shows nothing.",
 ["src"],
 [("grid cells","src/bucket.cpp Bucket::storeParticles"),("lookup","src/neighbor_searcher.cpp NeighborSearcher::setNeighbors"),("defaults","src/particle.hpp Particle")], ["reports of the address and undefined-behaviour sanitizers, of the library's assertions and of memcheck"])

prop("C36", "Bodies of fluid out of each other's reach do not influence each other",
 "Two groups of particles that stay farther apart than the largest effective radius evolve, step after step, each exactly as in a run without the other (the implicit method within the accuracy of its solver), whatever the other group is: fast, dense, compressed, colliding, walls, removed particles or many bodies, near or far, in any direction and with any numbering before, after or between. The Courant number of both together is the greater of the two. No stage acts through a quantity of the whole population.",
 ["inputs","configurations","histories"], "every small cluster and block with every stage active beside every one of a set of other bodies at every place and with every interleaving of numbers, over several steps, together and alone",
 "The tests have one body of a few particles and run no step.",
 ["src/mps.cpp","src/neighbor_searcher.cpp","src/bucket.cpp","src/pressure_calculator","src/surface_detector"],
 [("sums over neighbours only","src/mps.cpp"),("coupling of the pressures","src/pressure_calculator/pressure_poisson_equation.cpp PressurePoissonEquation::setMatrixTriplets")], ["MPS::particles and MPS::courant after MPS::stepForward"])

for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))

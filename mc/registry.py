"""What decides each property: the parts of its check, its bounds and its assumptions."""

NUM = ("the reference model in lib/ref.hpp states the documented equations correctly; values outside the enumerated alphabets are not explored; agreement is required up to rounding "
       "(relative 1e-9 or better unless a case says otherwise), and cases within rounding of a discontinuity (cut-off radius, classification threshold, collision order) are counted as inconclusive")
BUILT = "the code is compiled by g++ from /repo/src at -O1 with -DNDEBUG and library assertions on, without OpenMP unless the property is about threads"
RUNS = "programs run as an unprivileged user in a fresh scratch directory; the file system keeps what was written"


def native(harness, mode, what, variant="plain"):
    return {"harness": harness, "mode": mode, "what": what, "variant": variant}


def python(module, cls, what):
    return {"module": module, "cls": cls, "what": what}


def C(parts, rule, quick, thorough, assumptions, level="model_checking", **kw):
    return {"parts": parts, "rule": rule, "bounds": {"quick": quick, "thorough": thorough}, "assumptions": list(assumptions), "level": level, **kw}


P, G, I = (lambda m, w, **k: native("phys", m, w, **k)), (lambda m, w: native("geo", m, w, variant="asan")), (lambda m, w: native("io", m, w, variant="asan"))

CHECKS = {
    "C01": C([G("C01", "neighbour search against all pairs")],
             "every placement of a few particles on boundary-rich coordinates, populations, histories of one searcher and domains of very many cells; non-trivial when a pair of neighbours exists",
             "8 boxes; every pair of placements on up to 8 coordinates per axis (cell, radius and domain borders, one unit or 1e-7 inside), 3 particles on 9 sites with every move between two searches, histories of 4 searches, populations of up to hundreds of neighbours over 3 searches, 5 boxes of 40000 to 1.3 million cells", "10 coordinates per axis, 4 particles, 5 searches, 4 type patterns", [NUM, BUILT]),
    "C02": C([G("C02", "one search with particles in and out of the domain, under sanitizers"), native("phys", "C02", "steps in which particles leave, under sanitizers", variant="asan")],
             "every site class of a particle against the domain (inside, on and around each face, far, infinite, not a number) in whole steps; non-trivial when a particle leaves",
             "15 coordinates on each axis (8 in 3D) and their products, every type, three pasts of the particle, two searches and a return; whole steps with the particle launched or placed outside, up to 5 steps, all pressure methods", "15 coordinates in 3D, up to 8 steps", [NUM, BUILT]),
    "C03": C([P("C03", "runs with and without removed particles")], "every coupled case with every set of removed particles inserted at every index position; non-trivial when the run has an interaction",
             "6 sets of removed particles at 3 index positions, 4 geometries, populations of many removed particles", "7 sets, 5 geometries", [NUM, BUILT]),
    "C04": C([P("C04", "identity and immobility over steps")], "every coupled case; non-trivial when it has a wall and a moving fluid particle", "3 speeds, 6 geometries, extreme speeds and distances, blocks and columns followed over many steps", "4 speeds, longer histories", [NUM, BUILT]),
    "C05": C([G("C05", "kernel values and lattice sums")], "every dimension, spacing, radius and distance of the alphabets; all non-trivial", "kernel at 34 distances for 7 radii; lattice sums for 2D radii up to 13 and 3D up to 7 spacings in steps of 0.0371 and at every lattice distance, 6 spacings; whole steps with every combination of 4 or 5 radii for the three operators",
             "3D radii up to 13 spacings, all operator radii in 3D", [NUM, BUILT]),
    "C06": C([P("C06", "gravity and free flight")], "every way to give gravity, velocities, companions; all non-trivial", "all pressure methods, both time step sizes", "as quick with more values", [NUM, BUILT]),
    "C07": C([P("C07", "viscosity against the documented Laplacian")], "every triple of particles on the site set with every type; non-trivial when a pair interacts", "all placements of 3 particles on 7 or 9 sites below, at and above each radius, 3 orders of radii, all types; blocks of 24 to 117 particles with walls, jitter, two densities and three velocity fields, 2 steps each; collapsing columns of 42 particles followed over 50 or 100 steps; systems of 1400 to 2000 particles over 2 steps",
             "larger velocity alphabet; blocks up to 440 particles; columns over 200 or 400 steps", [NUM, BUILT]),
    "C08": C([P("C08", "collisions of pairs and groups")], "every relative placement, velocity, type and density of a pair, and groups of 3 or 4 with momentum bookkeeping; non-trivial when a pair collides",
             "pairs in 10 directions at 5 distances with every type, 6 density pairs and up to 108 velocities; groups of 3 and 4 whose result must come from some order of their contacts; clouds of 24 to 117 particles (momentum, centre, energy); blocks of 24 to 117 particles with walls, jitter, two densities and three velocity fields, 2 steps each; collapsing columns of 42 particles followed over 50 or 100 steps; systems of 1400 to 2000 particles over 2 steps", "groups of 4 in full, larger clouds; blocks up to 440 particles; columns over 200 or 400 steps", [NUM, BUILT]),
    "C09": C([P("C09", "number density and surface classification")], "every occupation of the sites around a particle; non-trivial when the particle has a neighbour",
             "all occupations of the 2D and 3D site sets, 2 radii; after collisions, after a particle left, nearly coincident particles, exactly at the thresholds; blocks of 24 to 117 particles with walls, jitter, two densities and three velocity fields, 2 steps each; collapsing columns of 42 particles followed over 50 or 100 steps; systems of 1400 to 2000 particles over 2 steps", "3 radii, all types on each site; blocks up to 440 particles; columns over 200 or 400 steps", [NUM, BUILT]),
    "C10": C([P("C10", "implicit pressure against a dense solve; sequences of calls")], "every small particle set with every combination of boundary conditions, single calls and sequences on one calculator; non-trivial when an unknown is coupled",
             "sets of up to 4 particles with every type, density and number density, sequences of 2 calls; blocks of 24 to 117 particles with walls, jitter, two densities and three velocity fields, 2 steps each; collapsing columns of 42 particles followed over 50 or 100 steps; systems of 1400 to 2000 particles over 2 steps, systems of 350 particles that take many iterations", "sequences of 3 calls; blocks up to 440 particles; columns over 200 or 400 steps", [NUM, BUILT]),
    "C11": C([P("C11", "equation of state")], "every state of 3 particles and sequences of calls; all non-trivial", "all states of 3 particles (4 types, 2 densities, number densities from 0 to 1000 n0), 4 sound speeds; compressed clusters of up to 5 over 2 steps; blocks of 24 to 117 particles with walls, jitter, two densities and three velocity fields, 2 steps each; collapsing columns of 42 particles followed over 50 or 100 steps; systems of 1400 to 2000 particles over 2 steps", "every number density for every particle; blocks up to 440 particles; columns over 200 or 400 steps", [NUM, BUILT]),
    "C12": C([P("C12", "pressure gradient correction")], "every placement, type, pressure and density of small sets; non-trivial when a force acts", "5 sites, 3 radii; blocks of 24 to 117 particles with walls, jitter, two densities and three velocity fields, 2 steps each; collapsing columns of 42 particles followed over 50 or 100 steps; systems of 1400 to 2000 particles over 2 steps", "more values; blocks up to 440 particles; columns over 200 or 400 steps", [NUM, BUILT]),
    "C13": C([P("C13", "Courant number over steps")], "every assignment of velocities to 1 to 3 particles of every type, and steps after it; non-trivial when a fluid particle moves", "up to 3 particles of every type with 5 velocities over 2 steps; collapsing columns, blocks and clusters over up to 40 steps, systems of 1400 to 2000 particles with the fastest first, in the middle or last, with sound speeds from 0.1 to 1e5 times the usual", "up to 4 particles, 160 steps", [NUM, BUILT]),
    "C14": C([P("C14", "two simulations with the same visible state"), python("cli", "Restart", "every output file of short runs used to restart the program")], "every coupled case, every split point of its history; non-trivial when the state after the split evolves", "3 steps of 6 geometries and of blocks, 75 steps of collapsing columns, every step compared with a fresh simulation, new memory filled with different rubbish for the two; populations followed over 2100 steps; every output of 20 or so program runs used for a restart", "6 steps, 150 steps, 4200 steps", [NUM, BUILT]),
    "C15": C([native("omp", "C15", "whole steps of the OpenMP build under a controlled scheduler", variant="omp")],
             "every coupled case with every team size, every order of the threads at synchronisation points up to the preemption bound; conflicting accesses not ordered by the runtime are reported as races, so without synchronisation one schedule stands for all; non-trivial when a region ran with several threads",
             "teams of 2, 3 and 8, 2 steps, 2 preemptions; systems of up to 200 particles with walls, and of 1600, under fewer schedules; particles leaving at the first or second step", "teams of 2 to 8, 3 preemptions",
             [NUM, "code compiled by g++ with -fopenmp -O1; memory accesses inside precompiled libraries are not seen; relaxed memory effects do not matter while there are no races", "static schedules are those of gcc's code; ordered constructs and tasks are not explored"],
             technique="stateless model checking of the real code: controlled OpenMP runtime with happens-before race detection as partial-order reduction, schedules enumerated at synchronisation points"),
    "C16": C([P("C16", "translated, turned, mirrored and renumbered runs")], "every coupled case under every map; non-trivial when it has an interaction", "4 translations, 11 axis maps, 5 renumberings, on clusters of up to 5 and blocks of 42 to 64 particles", "all 47 axis maps, 23 renumberings", [NUM, BUILT]),
    "C17": C([python("cli", "Cadence", "outputs of whole runs against the schedule and free flight")],
             "every combination of time step, period, start and end; non-trivial when the run completes", "5 steps, 8 periods, 6 starts, 6 ends, all formats; steps that end just before or after an output is due; one run of more than 9999 outputs; an output at every step with steps that are no binary fractions", "several thousand more schedules, one run of more than 32767 outputs",
             [RUNS, "where a time comparison is within rounding of equality both answers are accepted; exactly representable schedules leave no such freedom"]),
    "C29": C([python("cli", "Report", "console lines of whole runs under a controlled clock")],
             "every schedule with every speed and every advance of the clock; non-trivial when steps are made", "11 schedules, 19 clocks, 5 speeds; runs of 34816 and 1152 steps", "32 clocks, 105472 steps",
             [RUNS, "the clock is read through the C library; the number of readings per step is left open"]),
    "C22": C([python("cli", "Refusals", "the whole directory tree before and after each call"), python("cli", "Twins", "two programs started at once, every switch between them at file system calls")], "every combination of settings argument, output argument, particle file and earlier contents with at most one of them unusual; all non-trivial",
             "one unusual circumstance at a time (thirteen earlier contents, among them empty and identical copies), all two-run histories; two programs with up to three switches among the first 24 file system calls of each", "all combinations; switches among all calls", [RUNS]),
    "C23": C([python("cli", "Faults", "faults injected at every output system call")], "every output system call of an undisturbed run, disturbed in every way; all but the undisturbed runs are non-trivial",
             "5 short runs (up to 90 particles, text and binary); calls fail with no-space or I/O error, store part, fail from there on, or the program is killed before the call", "9 runs, also files larger than a buffer",
             [RUNS, "a single write system call is atomic with respect to a kill", "one fault per run (a full disk persists)"], technique="fault enumeration by explicit-state model checking: every output system call of the real program disturbed in every way under a tracer"),
    "C18": C([I("C18", "files against independent readers")], "every field value in every field, all sizes, exporters used twice, files overwritten; all non-trivial", "sizes 0 to 300, 3000 and 70000, 12 values, 9 fields", "sizes to 200000, all times", [BUILT]),
    "C19": C([I("C19", "loaded particles against the text")], "every file variant; all non-trivial", "0 to 4 particles, all column and array orders by rotation and swap, six spellings of numbers, indentation, extreme fluid types, line ends; 60 to 6000 particles, written by hand and by the program", "8 value rotations; 70000 particles",
             [BUILT, "the CSV library's decimal parsing may differ by rounding (relative 1e-14 allowed)"]),
    "C20": C([I("C20", "damaged files")], "every cut at a line or field boundary, every missing line or field, raised counts; non-trivial when something of substance is missing", "0 to 3 particles; files of 120 particles written by the program", "0 to 5 particles", [BUILT]),
    "C21": C([I("C21", "settings to simulation"), python("cli", "SettingsRefused", "the program on complete and incomplete settings"), python("cli", "Threads", "threads of the program built with OpenMP")], "every pair of entries with every pair of values; every entry missing or of a wrong kind; all non-trivial", "29 entries, 2 to 5 values each (also beyond the usual ranges), pairs; 18 misshapen entries; 7 numbers of threads under 4 environments", "12 numbers of threads",
             [BUILT, "refusals in this part are observed inside a forked process"]),
    "C24": C([python("tools", "Dialogue", "generators in every directory state under every answer sequence")], "every sequence of answers, state of the directory and format list; all non-trivial",
             "answer sequences up to 3 over 9 words, with and without end of input", "up to 4", [RUNS]),
    "C25": C([python("tools", "Layout", "every lattice site of and around the tanks")], "every lattice row of each tank in each format, and the whole file; all non-trivial", "all sites of the tank and at least six sites around it", "same",
             ["text carries six digits"]),
    "C26": C([python("tools", "ProfToCsv", "profile files converted, compared and loaded")], "every layout of small files, every value in every field; all non-trivial", "0 to 4 particles, 7 values, 4 endings, blank lines; 9 to 1100 particles", "14 value rotations", [RUNS]),
    "C27": C([python("tools", "Runners", "the scripts in recorded scratch projects")], "every project path, call form, calling directory and earlier content; all non-trivial", "12 project paths, 11 call forms, 5 earlier contents",
             "all combinations with CDPATH and HOME", [RUNS, "removal commands are found through PATH; the scripts run as a user who can remove nothing outside the case's scratch directory", "the PowerShell runner is not covered: no PowerShell here"]),
    "C28": C([P("C28", "whole steps against the reference model")], "every coupled case, several steps; non-trivial when particles interact", "2 steps, 6 geometries; blocks of 24 to 117 particles with walls, jitter, two densities and three velocity fields, 2 steps each; collapsing columns of 42 particles followed over 50 or 100 steps; systems of 1400 to 2000 particles over 2 steps; a population followed over 2100 steps", "12000 steps; 5 steps, 6 geometries; blocks up to 440 particles; columns over 200 or 400 steps", [NUM, BUILT]),
    "C30": C([P("C30", "runs in other units of length, time and density")], "every coupled case, block, column and population under every change of units, several steps, both runs on the real code; non-trivial always",
             "9 changes of units by factors from 2^-34 to 2^25; clusters of up to 4 over 3 steps, blocks of 24 to 117 over 3, columns over 30, slow populations over 20 steps", "25 changes of units up to 2^40, clusters of up to 5",
             ["units are changed by powers of two, which floating-point numbers take exactly, so both runs round alike", BUILT]),
    "C31": C([python("cli", "Unsolvable", "whole runs that meet a pressure system without a solution")], "every occupation of six sites with every companion, solvable and not; particles flying until they meet; non-trivial when the run has to end",
             "63 occupations, 5 companions, with and without compressibility; pairs meeting in step 1 to 5; blocks of 9 and 36", "both methods with every companion, blocks of 100", [RUNS, "systems whose right-hand side sums to nearly zero over a group are left out"]),
    "C32": C([python("cli", "Reproducible", "the same run under other circumstances, byte for byte")], "every circumstance and every pair of circumstances; non-trivial when the state changes during the run",
             "12 circumstances with 2 to 5 values, every one for 16 systems, every pair for 4", "every pair for 16 systems", [RUNS, "memory contents before use are varied through the C library's allocator and the environment; the serial build"]),
    "C33": C([python("cli", "Sustained", "memory kept over the number of steps, under a limit of open files")], "every system, method, detector, cadence and encoding, run for 3 or 4 numbers of steps; all non-trivial",
             "6 systems of 48 to 64 particles, up to 1600 steps or 100 outputs in every format, 16 open files", "input formats; up to 12800 steps or 800 outputs", [RUNS, "memory is what the C library's allocator has given out; memory taken from the system directly is not seen", "growth below 16 bytes per step is not reported"]),
    "C34": C([python("cli", "WholeRuns", "outputs of whole runs followed with the reference model")], "every combination of system, method, detector, form of gravity, input format and cadence; non-trivial when the reference decides at least one step between outputs",
             "8 systems of 31 to 120 particles of one or several densities in 2D and 3D over 12 steps, with Courant numbers to 2; the shipped examples (627 and 1752 particles) as profile and CSV with both methods over 6 steps", "three sets of radii, 60 steps; the examples over 40 outputs with both detectors", [NUM, RUNS, "outputs carry no densities: those of the input are used throughout"]),
    "C36": C([P("C36", "bodies apart from each other, together and alone")], "every coupled case and block with every companion body at every place and in every order of numbering, followed together and alone; non-trivial when the bodies stay apart",
             "8 companions of 1 to 48 particles, 4 places, 3 orders, equally fast or one 10^5 times slower; clusters of up to 4 and blocks of 20 to 150 over 3 steps, particles meeting in one of 6 steps", "clusters of up to 5, 6 steps", [NUM, BUILT]),
    "C35": C([python("cli", "Sound", "whole runs of instrumented programs")], "every combination of system, method, detector, input format and encoding, every cut of an input file and every damage of a settings entry; all non-trivial",
             "20 systems of 0 to 120 particles over 6 steps under the address and undefined-behaviour sanitizers, a part of them over 3 steps under memcheck; 25 cuts per format; 31 entries with up to 15 values; 29 large domains", "40 steps, every case under memcheck too; 50 cuts per format",
             [RUNS, "what the monitors see: out-of-bounds and freed memory, integer and shift overflow, null and misaligned access, library preconditions; memory without a value when it decides a branch or is written"]),
}

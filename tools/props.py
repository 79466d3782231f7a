"""Per-property configuration of the driver and of the manifest."""
PROPS = {
    "C01": {
        "stages": [{"harness": "c01"}],
        "rule": "every system of the library x every integrator x save point x transport mode; some of them late in a run of 1700 steps"
                "a case is non-trivial when at least one resumed state was compared with the uninterrupted run",
        "technique": "bounded-exhaustive exploration of save/load histories on the real library, differential oracle (uninterrupted twin)",
        "note": "all listed systems x 16 integrators x save points x 6 transports; the oracle is the uninterrupted run of the same build; nothing is claimed about systems or run lengths outside the bound",
    },
    "C02": {
        "stages": [{"harness": "c02", "flavor": "asan", "timeout": 90}],
        "rule": "every truncation and header corruption of the checkpoints of every system; non-trivial when at least one damaged file was presented",
        "technique": "exhaustive fault enumeration on checkpoint files (all truncations, all header byte values) against the real loader under ASan/UBSan",
        "note": "quick: all truncations of the first 600 bytes and every 13th beyond; thorough: every byte; corruption of payload values is not detectable by the format and not claimed",
    },
    "C04": {
        "stages": [{"harness": "c04", "timeout": 60}],
        "rule": "every sequence of 12 operations (steps of 4 lengths, null and negative steps, settings changes) up to depth 3 (quick) or 4 (thorough) for each of 16 integrators on a line system, one less on 4 more systems; non-trivial when a clock or state comparison was made; late in a run (up to 1e5 s) with 4 step lengths for every integrator",
        "technique": "bounded-exhaustive exploration of operation sequences on the real library against a clock model and two differential oracles (request split in inner steps; fresh system with the final settings)",
        "note": "all sequences up to the depth; time-dependent loads covered by a wave system; accumulation of rounding beyond 12 steps is not explored",
    },
    "C05": {
        "stages": [{"harness": "c05", "flavor": "asan", "timeout": 60}],
        "rule": "every ordered mix of up to 3 (quick) or 4 (thorough) coupled objects of 5 kinds x 4 placements of free objects x every sequence of 3 velocity patterns (a fifth of them for mixes of 3 in the quick tier), and 8 mixes of 11 to 15 objects; non-trivial when kinematics or forces were compared; each kind at a lattice of orientations of up to several turns with 3 step lengths and integrators; and the loads of every ordered pair against the reference model with 3 step lengths",
        "technique": "bounded-exhaustive enumeration of coupled systems and prescribed motions on the real library under ASan, against rigid kinematics and the same object alone",
        "note": "all mixes and motions within the bound; buffers are exactly sized so that ASan sees any access beyond the count",
    },
    "C06": {
        "stages": [{"harness": "c06", "timeout": 60}],
        "rule": "every step of every run of 18 systems x 16 integrators, 2 initial condition methods, a lattice of 4 body kinds x 27 orientations x 2 line directions and 5 rod kinds x 26 directions x 2 segmentations; non-trivial when an invariant was evaluated",
        "technique": "exhaustive enumeration of configurations with invariants evaluated in every reached state of the real library",
        "note": "all runs of the enumerated configurations for 6 (quick) or 25 (thorough) coupling steps; other geometries are not claimed",
    },
    "C15": {
        "stages": [{"harness": "c15", "flavor": "asan", "timeout": 60}],
        "rule": "every interface function x every invalid argument kind x life-cycle stage on 2 systems (all 17 in the thorough tier), and all of them at once at every step of every system; non-trivial when an error code or the continuation was compared",
        "technique": "exhaustive enumeration of invalid calls and life-cycle stages on the real library under ASan/UBSan, with the undisturbed run as oracle",
        "note": "invalid arguments: null handles and vectors, numbers and indices out of range, unknown integrators, unusable files; null output arguments and dangling handles are not claimed",
    },
    "C17": {
        "stages": [{"harness": "c17", "flavor": "asan", "timeout": 60}],
        "rule": "every grid of up to 3x3 nodes over an alphabet of 3 depths (2 for 9 nodes), uniform and non-uniform ticks and 3 row orders, queried inside, on the ticks, at the border and outside; 216 slopes x line directions with contact checked at every node and step; every system with a flat file against the depth option; grids of up to 11x40 nodes",
        "technique": "exhaustive enumeration of small bathymetry grids x query lattice on the real library against a bilinear model, conformance of every contact transition, differential flat-file oracle",
        "note": "values are read in single precision by the library, hence 1e-6 relative tolerance; the larger grids are single instances, not enumerated",
    },
    "C22": {
        "stages": [{"harness": "c22", "timeout": 60}],
        "rule": "18 systems x 27 transformations (11 rotations, 3 translations, 4 mirrors, line end swaps, renumberings, unused types, split attachments and combinations) x 2 motions (3 motions and 6 integrators in the thorough tier), states mapped and compared at every step; exact quarter turns of systems lying exactly in a vertical plane are included",
        "technique": "exhaustive enumeration of equivalent descriptions of every system on the real library, compared state by state along the whole run (metamorphic differential oracle)",
        "note": "tolerances absorb rounding only (1e-6 m over 10 steps); wave systems are only transformed by the symmetries the wave field has",
    },
    "C07": {
        "stages": [{"harness": "c07", "timeout": 60}],
        "rule": "segment counts (1 to 24; 60 in the thorough tier) x 10 line types (constant and tabulated, up to 27 rows, stiffness, damping and bending) x 7 kinds of ends (points, rod ends A and B, either direction) x 6 geometries (slack, taut, crossing the surface, along the surface, on the seabed with and without friction) x 4 water states (with and without pressure bending; one with waves) x every sequence of driven motions up to depth 2 (quick: 3 motions, a third of the water states) or 3 (thorough: 4 motions), each step compared, plus runs of hundreds of steps of some of them; non-trivial when at least one transition was compared; and, in turn, with everything exactly in one of the vertical planes of the axes or along one vertical line",
        "technique": "explicit enumeration of configurations and motion histories; every transition of the real library is checked for conformance against an independent model of the line (one explicit Euler step from the observed state)",
        "note": "1e-8 relative agreement of tensions, every load component, masses, and the motion of each internal node at each step; other geometries and longer histories are not claimed; line ends on rods carry no bending moment in this version and the model assumes so",
    },
    "C08": {
        "stages": [{"harness": "c08", "timeout": 60}],
        "rule": "6 kinds of points (free, fixed, coupled, on coupled, fixed and free bodies) x every list of up to 3 attached lines (4 ways of attaching each) and lists of 5 and 11 x 8 sets of point properties x 3 depths x 2 segment counts x still, moving water and waves x every sequence of 3 driven motions up to depth 2 (quick, a fifth of the lattice, less for lists of 3) or 3 (thorough, whole lattice), each step compared, plus runs of hundreds of steps of some of them; non-trivial when at least one transition was compared; and, in turn, with everything exactly in one of the vertical planes of the axes; some of them with motions and water 7 to 13 times as quick",
        "technique": "explicit enumeration of configurations and motion histories; every transition of the real library is checked for conformance against an independent model of the points (one explicit Euler step from the observed state)",
        "note": "1e-8 relative agreement of the net force, mass, coupling force and motion at each step; the loads of the attached line ends come from the same independent line model used for C07",
    },
    "C09": {
        "stages": [{"harness": "c09", "timeout": 60}],
        "rule": "7 kinds of rods (free, pinned, coupled pinned, coupled, fixed, on a body, pinned to a body) x 10 directions (vertical, upside down, horizontal, inclined) x 6 depths (deep, dry, crossing the surface, just below it, on the seabed) x segment counts (1 to 22) x every subset of 3 line attachments, and 7 more x 3 rod types x still, moving water and waves x every pair of 3 driven motions (quick: an eleventh of the lattice; thorough: all of it), each step compared, plus runs of hundreds of steps of some of them; and rods of no segments of 10 kinds x every subset of 4 lines x 16 integrators x 3 bending stiffnesses against the same system with a point; non-trivial when at least one transition was compared; and, in turn, with everything exactly in one of the vertical planes of the axes; some of them with motions and water 7 to 13 times as quick",
        "technique": "explicit enumeration of configurations and motion histories; every transition of the real library is checked for conformance against an independent model of the rod (one explicit Euler step from the observed state)",
        "note": "1e-8 relative agreement of the 6 component force, 6x6 mass, coupling force, and linear and angular motion at each step; zero-length rods and rods within 0.001 rad of vertical at the surface are not claimed",
    },
    "C10": {
        "stages": [{"harness": "c10", "timeout": 60}],
        "rule": "4 kinds of bodies (free, coupled pinned, coupled, fixed) x 6 sets of properties (centre of gravity, inertia, volume, drag areas, added mass) x 12 orientations (upside down and at the gimbal singularity among them) x every subset of attachments (points, fixed rod, pinned rod, lines), and 13 of them at once, x 3 depths x still, moving water and waves x every pair of 3 driven motions (quick: a quarter of the lattice; thorough: all of it), each step compared, plus runs of hundreds of steps of some of them; non-trivial when at least one transition was compared; and, in turn, with everything exactly in one of the vertical planes of the axes; some of them with motions and water 7 to 13 times as quick",
        "technique": "explicit enumeration of configurations and motion histories; every transition of the real library is checked for conformance against an independent model of the body (one explicit Euler step from the observed state)",
        "note": "1e-8 relative agreement of the 6 component force, 6x6 mass, coupling force, and linear and angular motion at each step; the model follows the documented equations of this version, where bodies are fully submerged and the gyroscopic moment is not included",
    },
    "C03": {
        "stages": [{"harness": "c03", "timeout": 90}, {"harness": "c03t", "flavor": "tsan", "timeout": 90}],
        "rule": "every system x 16 integrators repeated with 6 patterns of memory garbage (heap and stack); every interleaving of the create, initialise, step, save, load, failed create and close calls of every pair of systems (5 calls each) and of triples (3 calls each); concurrent threads on pairs and fours of systems under ThreadSanitizer; non-trivial when observations were compared bit by bit",
        "technique": "exhaustive enumeration of the interleavings of API call sequences of several systems on the real library with a bit-exact solo oracle; happens-before race detection (TSan) on concurrent threads",
        "note": "interleavings at the granularity of API calls are exhaustive within the bound; inside calls, systems share no memory, which TSan checks on the executions made (any pair of unordered conflicting accesses is reported whatever the schedule); memory which is read before being written is exposed by the garbage patterns",
    },
    "C20": {
        "stages": [{"harness": "c20", "timeout": 120}],
        "rule": "every sequence of 11 changes on either of two lines (22 operations: longer, shorter, pay out, haul in, hold, stiffer, softer, pressure bending on and off, internal pressure, present values) up to depth 3 (4 in the thorough tier for one system) on 4 systems, two steps after each, all loads and motions compared; every system x 16 integrators x 3 step lengths for the rate and the present values; lines of up to 24 segments with great changes, and systems of 13 lines; non-trivial when a transition was compared",
        "technique": "bounded-exhaustive exploration of sequences of live changes on the real library; every transition is checked for conformance against the independent line model with the changed properties, and the getters after every operation",
        "note": "1e-8 relative agreement of loads and motions, 1e-12 of the lengths; the internal damping keeps the value computed at initialisation, as documented",
    },
    "C21": {
        "stages": [{"harness": "c21", "timeout": 60}],
        "rule": "every subset of 6 groups of objects (points, free points, rods, bodies, pinned rods, with their lines) with and without currents x every sequence of 3 operations (set either of two fields, with a different value at each node, or hold) up to depth 3 (quick) or 5 (thorough), coordinates, loads and motions compared at each step; every system without water x 16 integrators against the same flow given in a file",
        "technique": "bounded-exhaustive exploration of object mixes and sequences of kinematics settings on the real library; every transition is checked for conformance against the independent model where each node has its own kinematics; differential oracle for the other integrators",
        "note": "each node is given a value of its own, so that values reaching another node are seen; the time argument of the setter is not used by the library and is not claimed",
    },
    "C16": {
        "stages": [{"harness": "c16", "timeout": 120}],
        "rule": "the wave number on a lattice of 12 depths x 3 gravities x 600 (4000) frequencies of either sign; 4 wave modes x 4 current modes x 4 spectra or series x 4 grids x unified or separate current grid x 3 depths (shallow to kh > 89) x flat and uneven bed, each at 150 places (inside and outside the grid, above the surface and below the bed) x 10 to 14 instants (samples, between them, end of the period, later periods); tables of more than ten entries along every axis in every mode; the loads of a system with all kinds of objects, submerged and through the surface, over 14 (40) steps for each mode; non-trivial when values were compared; late instants (up to an hour, 57 periods of the grid) included",
        "technique": "explicit enumeration of a lattice of wave and current configurations, places and instants of the running real library, each value checked against an independent implementation of linear wave theory, stretching and multilinear interpolation; the loads at the nodes are checked by conformance of every transition against the independent model",
        "note": "2e-5 relative agreement of elevation, velocity, acceleration and pressure (the library solves the wave number with seven digits); the dynamic pressure is not provided in the mode which sums components, and components at the Nyquist frequency of the FFT mode and non-zero mean elevations in it are not claimed",
    },
    "C12": {
        "stages": [{"harness": "c12", "flavor": "asan", "timeout": 120}],
        "rule": "a system with every kind of object and every valid output channel: all of them at once in 3 orders x 6 spellings x units on and off x integrators, each alone and with each spelling; 76 invalid channels x 3 positions; 13 output periods x 7 patterns of time steps x 24 (120) steps; every one of the 1024 subsets of line outputs x segment counts x units x water, every subset of rod outputs; names of the files; non-trivial when values were compared; output periods of up to 2500 steps, and late in a run (up to 54000 s)",
        "technique": "exhaustive enumeration of output requests, output periods and step patterns on the real library under ASan/UBSan; every cell written is compared with the value returned by the interface (or derived from it) at that instant",
        "note": "6 significant digits; accelerations are compared with the change of velocity of one Euler step; quantities of the last evaluation of the loads are accepted at the start or at the end of the step; the units row of the line files is only checked for its length",
    },
    "C14": {
        "stages": [{"harness": "c14", "flavor": "asan", "timeout": 30, "env": {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:max_allocation_size_mb=400"}}],
        "rule": "explicit enumeration: every mutation of the given kinds (file missing, a folder, empty, other line ends or separators, truncated at any line (with and without final newline) and, in the thorough tier, at any byte; each line deleted, duplicated, swapped, blanked, replaced by garbage; each field deleted, duplicated, cut, replaced by each of 21 values) of the input file and of every auxiliary file of 13 systems",
        "technique": "model checking of the implementation: exhaustive exploration of all the single-fault mutations (bounded alphabet) of a set of input decks covering every section and auxiliary file, each driven through create, initialise, step and close twice on the real library built with address and undefined behaviour sanitizers, monitored for crashes, hangs, memory and descriptors left behind",
        "note": "A state is (created, initialised, stepped); the answer has to be the same when the attempt is repeated. Requesting huge initial condition phases (dtIC, TmaxIC) is not explored: it is a long run, not a hang. Allocations above 300 MB fail as when the memory is exhausted.",
    },
    "C13": {
        "stages": [{"harness": "c13", "flavor": "rel"}],
        "rule": "explicit enumeration: every documented spelling, letter case and spacing of attachments, line ends, section titles, options and multi-valued fields; every option omitted, with its default and with other values, alone and in pairs; every position of the options; every field of every section at several values",
        "technique": "model checking of the implementation against an independent reference model: a system is described with plain numbers and its input file written in every notation of a bounded grammar; each file is run on the real library and every step of the run compared with the reference, that never sees the file; options unknown to the reference are compared between omitted, default and other values",
        "note": "A state is the observable state after a step; model traces are validated by comparing each step of the library with the reference. Documented defaults are those of the docs (inputs.rst); tab separated files are not documented as accepted and are not explored here.",
    },
    "C19": {
        "stages": [{"harness": "c19", "flavor": "asan", "timeout": 300}],
        "rule": "explicit enumeration: every sequence of calls of length 3 (4 in the thorough tier) over 11 calls of the legacy interface (initialise from four valid and three invalid sources, step with valid and null arguments, external water kinematics, close), and of length 5 (6 in the thorough tier) over 6 of them, with the queries after each call or just at the end, valid or not",
        "technique": "model checking of the implementation: exhaustive exploration of the call sequences up to a depth on the real legacy interface, in lockstep with a model of the single system (absent, or the system of the last successful initialisation) whose answers are given by a mirror system driven through the current interface",
        "note": "A state is everything that the legacy queries show. Every third sequence is repeated to find memory and files left behind by it (address sanitizer accounting). A set of runs over all the system kinds compares the two interfaces step by step.",
    },
    "C24": {
        "stages": [{"harness": "c24", "flavor": "asan", "timeout": 120,
                    "extra": {"src": ["wrappers/python/cmoordyn.cpp"],
                              "cflags": ["-I/usr/include/python3.12"],
                              "ldflags": ["-lpython3.12"]}}],
        "rule": 'every sequence of 2 operations (3 in the thorough tier; 3 and 4 for the systems with every kind of object) of 8 (step, line length and its rate, stiffness, pressures, external water kinematics, save and load, serialize and deserialize, and a block of about 150 wrong calls) on 20 systems, initialised with and without equilibrium, plus every pair of log level and message level; all the getters of all the objects are compared after every operation',
        "technique": 'model checking of the implementation: exhaustive exploration of call sequences up to a depth, in lockstep on two sibling systems, one driven through the real Python module (interpreter embedded, under ASan/UBSan) and the other one through the C interface; every transition is validated by comparing every answer and getter bit for bit',
        "note": 'The library is built without VTK, whose functions are only compared in their error answers. Leaks on the error paths are not looked at.',
    },
    "C28": {
        "stages": [{"harness": "c28", "flavor": "asan", "timeout": 60,
                    "extra": {"variant": "_vtk", "src": ["source/Util/VTK_Util.cpp"],
                              "cflags": ["-DUSE_VTK", "-isystem/usr/include/vtk-9.1"],
                              "ldflags": ["-lvtk%s-9.1" % l for l in (
                                  "IOXML IOXMLParser IOGeometry IOCore FiltersGeneral FiltersCore "
                                  "CommonExecutionModel CommonDataModel CommonTransforms CommonMath "
                                  "CommonMisc CommonCore").split()]}}],
        "rule": 'every sequence of 2 operations (3 in the thorough tier; 3 and 4 for the systems with every kind of object) of 6 (step, line length, external water kinematics, a mesh of each of two formats for the bodies, and a block of wrong calls) on 19 systems; after each of them the file of each object and that of the whole system are written, read back and compared in full: points, cells and fields',
        "technique": 'model checking of the implementation: exhaustive exploration of call sequences up to a depth; in every state reached, the files of every object and of the whole system are written by the real code, read back and compared with what the C interface answers',
        "note": 'The library is built with VTK here. The files are read back with the readers of VTK. The net forces of the nodes of a rod are only checked by their sum; the water velocity at the nodes of a line in still water and with external water kinematics. STL files that are not meshes are accepted by the reader of VTK and not claimed.',
    },
    "C27": {
        "stages": [{"harness": "c27", "flavor": "asan", "timeout": 120,
                    "extra": {"cflags": ["-I{repo}/wrappers/matlab", "-I{verif}/harness/mex"]}}],
        "rule": 'every sequence of 2 operations (3 in the thorough tier; 3 and 4 for the systems with every kind of object) of 7 (step, line length and its rate, stiffness, pressures, external water kinematics, save and load, and a block of wrong calls) on 20 systems, initialised with and without equilibrium, plus every pair of log level and message level; all the getters of all the objects are compared after every operation',
        "technique": 'model checking of the implementation: exhaustive exploration of call sequences up to a depth, in lockstep on two sibling systems, one driven through the real MATLAB functions (compiled against a stand-in of the MATLAB data and engine interface, under ASan/UBSan) and the other one through the C interface; every transition is validated by comparing every answer and getter bit for bit',
        "note": 'MATLAB is not available: the stand-in implements the part of its C++ data interface which the functions use. The library is built without VTK, whose functions are only compared in their error answers.',
    },
    "C26": {
        "stages": [{"harness": "c26", "flavor": "asan", "timeout": 120,
                    "extra": {"src": ["wrappers/python/cmoordyn.cpp"],
                              "cflags": ["-I/usr/include/python3.12"],
                              "ldflags": ["-lpython3.12"]}}],
        "rule": 'every valid combination of 4 kinds of bodies, 8 of rods, 5 of line ends, 4 of failures, 2 orders of adding and 2 ways of giving the values (constructor or properties); 5 steps (12 in the thorough tier)',
        "technique": 'explicit enumeration of descriptions: each is built by the real generator and, independently, from an input file written by the harness; both systems are run in lockstep and every state is compared bit for bit',
        "note": 'The names of materials are not changed after the lines that use them are created.',
    },
    "C25": {
        "stages": [{"harness": "c25", "flavor": "asan", "timeout": 120,
                    "extra": {"fortran": ["wrappers/fortran/MoorDyn.f90"],
                              "fharness": ["c25_f.f90"],
                              "ldflags": ["-lgfortran"]}}],
        "rule": 'every sequence of 2 operations (3 in the thorough tier; 3 and 4 for the systems with every kind of object) of 7 (step, line length and its rate, stiffness, pressures, external water kinematics, save and load, refused calls) on 20 systems, initialised with and without equilibrium, plus every pair of log level and message level; all the getters of all the objects and nodes, one beyond the last included, are compared after every operation',
        "technique": 'model checking of the implementation: exhaustive exploration of call sequences up to a depth, in lockstep on two sibling systems, one driven through the real Fortran module and the other one through the C interface, under ASan/UBSan; every transition is validated by comparing every answer and getter bit for bit',
        "note": 'Arrays are given as contiguous; the time given to MD_ExternalWaveKinSet is not used by the library and is not observed. The library is built without VTK, whose functions are only compared in their error answers.',
    },
    "C23": {
        "stages": [{"harness": "c23", "flavor": "rel", "timeout": 300}],
        "rule": "explicit enumeration: every sequence of length 4 (5 in the thorough tier) of the 13 logging calls (5 verbosities, 5 log levels, two log files, an unusable one), and one call less from each value of the writeLog option, with a message of each level after each call; every pair of calls on two systems; every threshold for the inner messages of 20 runs",
        "technique": "model checking of the implementation: exhaustive exploration of the logging call sequences up to a depth on the real library, with the terminal captured at the file descriptors, against a model with state (verbosity, log level, open file, contents); the messages of the library itself are compared between terminal and log file, and between thresholds, along runs of every system kind, and the results bit by bit",
        "note": "A state is (verbosity, log level, log file) of each system, and the observables of the runs. The error echo of the C functions (lines starting with 'Error (') is an answer to the caller rather than a message, and is not considered.",
    },
    "C18": {
        "stages": [{"harness": "c18", "flavor": "rel", "timeout": 300}],
        "rule": "explicit enumeration: every combination of 4 line weights (sinking and buoyant), 3 stiffnesses, 9 spans, 10 lengths, on the seabed or not, upwards or downwards (with azimuth, number of segments and length notation cycling through their values); every system kind x integrator x initial condition method for the restored properties; every system kind x method for the equilibrium; every system kind for skipped initial conditions",
        "technique": "model checking of the implementation: exhaustive exploration of the lattice of initial configurations on the real library, against an independent elastic catenary solved by nested bisection in extended precision; the state left by the initial condition phase is transferred to a system that never had one and both are stepped in lockstep, and left at rest to check that the state is an equilibrium",
        "note": "A state is the set of positions and velocities. The catenary is demanded wherever the iterative solver is well conditioned; elsewhere (nearly vertical lines, transition between shapes, stiff buoyant lines) the straight line is admitted too, but no other shape. Drag scaling makes the dynamic method find another equilibrium in a current, and waves start after the initial conditions: those are not asked to stay at rest.",
    },
    "C11": {
        "stages": [{"harness": "c11", "flavor": "rel", "timeout": 600}],
        "rule": "explicit enumeration: 9 smooth systems (lines, bending lines, free points, rods and bodies of every kind, waves) x 2 motions of the coupled objects x every integrator (implicit ones with 1, 2, 4 and 6 iterations; up to 20 in the thorough tier) x inner time steps T/8 to T/64 (T/128), every ordered pair of integrators switched in mid run, every integrator name x 4 spellings x 3 ways to select it",
        "technique": "model checking of the implementation: exhaustive exploration of the lattice (system, motion, integrator, inner time step, switch) on the real library; on every path the error against the limit motion must fall at the order of the scheme, and the rate of change of the positions must be the velocities",
        "note": "A state is the set of positions and velocities. The limit motion is the one of Runge-Kutta 4 at T/256, which Euler and Runge-Kutta 2 must approach with their own orders. Adams-Bashforth, Heun, ACA and Wilson are demanded the first order everywhere: the second one is a known finding, since the repairs would make the existing tests unstable.",
    },
}

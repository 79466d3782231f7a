#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand,
its output is committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m) for n, m in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A saved state resumes exactly where it was saved",
 "Saving a system at any moment (to a file or to a memory buffer) and loading it into a freshly initialised system of the same input file, into one which followed another history, or back into the same system, continues exactly as the uninterrupted run: same clock, positions, velocities, line tensions and coupling forces at every later step, whatever the time integrator. Saving has no effect on the system being saved, and saving again what was just loaded gives the same data.",
 ["histories","crash_points","configurations"], "every system kind, integrator, save point, transport and continuation",
 "The tests save and load one system, with one integrator, at one instant, and do not compare the continuation with an uninterrupted run.",
 ["source/IO.cpp","source/IO.hpp","source/Time.hpp","source/Time.cpp","source/Body.cpp","source/Rod.cpp","source/Point.cpp","source/Line.cpp","source/MoorDyn2.cpp"],
 [("Serialize/Deserialize of each entity and of the integrator","source/*.cpp"),("Save/Load","source/IO.cpp")],
 ["MoorDyn_Save","MoorDyn_Load","MoorDyn_Serialize","MoorDyn_Deserialize","state getters"])
prop("C02", "A damaged or foreign checkpoint is refused and changes nothing",
 "Loading a checkpoint that is missing, truncated at any byte, extended, or whose signature, version or length field was altered returns an error code, never crashes, and leaves the system exactly as it was, so the run continues as if the load had not been attempted. A checkpoint written completely is always accepted.",
 ["crash_points","fault_sequences","inputs"], "every truncation length and every header byte corruption of the checkpoints of every system kind",
 "The tests only load intact files.",
 ["source/IO.cpp","source/MoorDyn2.cpp"],
 [("header and length checks","source/IO.cpp: IO::LoadFile")], ["MoorDyn_Load","state getters"])
prop("C03", "Systems are deterministic and independent of each other",
 "What a system computes depends only on its own input files and on the calls made to it: running the same calls again gives bit identical results, and creating, stepping, saving, loading, failing to create or closing other systems in between, in any order, changes nothing. Different systems can be driven concurrently from different threads with the same results and without data races.",
 ["schedules","histories","programs"], "every interleaving of short call sequences of two or three systems",
 "Each test drives a single system in a single process.",
 ["source/MoorDyn2.cpp","source/Time.cpp","source/Waves.cpp","source/Waves/WaveGrid.cpp","source/Log.cpp","source/Misc.cpp"],
 [("per-instance state","source/MoorDyn2.cpp: MoorDyn"),("static and global variables","source/*.cpp")],
 ["state getters","coupling forces"])
prop("C04", "A step advances the clock by exactly the requested amount",
 "Each successful step moves the simulation time forward by exactly the requested time step, whatever the integrator and however the request relates to the inner time step, and reports that time to the caller; a non-positive time step leaves the state and the clock untouched and just reports forces. Changing the inner time step, the CFL factor or the integrator during the run keeps the clock and the state, and is read back by the corresponding getter.",
 ["programs","histories","configurations"], "every sequence of steps and settings changes up to a depth, for every integrator",
 "The tests use one integrator and one time step each, and never look at the returned time.",
 ["source/MoorDyn2.cpp","source/MoorDyn2.hpp","source/Time.cpp","source/Time.hpp"],
 [("inner loop of a step","source/MoorDyn2.cpp: MoorDyn::Step"),("Step of each scheme","source/Time.cpp"),("SetDt, SetCFL, SetTimeScheme","source/MoorDyn2.hpp")],
 ["MoorDyn_Step time argument","time column of the outputs","MoorDyn_GetDt","MoorDyn_GetCFL","MoorDyn_GetTimeScheme"])
prop("C05", "Coupled objects follow the driver and report their own forces",
 "The number of coupled degrees of freedom equals the entries read by initialisation and steps and written as forces: coupled bodies first (6 each), then coupled rods (6 when clamped, 3 when pinned), then coupled points (3), each in input order. After each step every coupled object is exactly at the given position plus the given velocity times the time step, with that velocity, and the force entries of each object are the loads of that object; no entry beyond that count is read or written.",
 ["configurations","programs","inputs"], "every mix and input order of coupled bodies, rods and points up to a size, and every sequence of prescribed motions up to a depth",
 "The tests couple just one kind of object at a time.",
 ["source/MoorDyn2.cpp","source/MoorDyn2.hpp","source/Body.cpp","source/Rod.cpp","source/Point.cpp"],
 [("DOF unpacking","source/MoorDyn2.cpp: MoorDyn::Init, MoorDyn::Step"),("GetForces, NCoupledDOF","source/MoorDyn2.hpp"),("initiateStep, updateFairlead, getFnet","source/Body.cpp, source/Rod.cpp, source/Point.cpp")],
 ["MoorDyn_NCoupledDOF","MoorDyn_Step forces","body, rod, point getters"])
prop("C06", "Whatever is attached stays attached",
 "At every instant the ends of each line coincide in position and velocity with the point or rod end they are attached to; points and rods attached to a body move rigidly with it (position and velocity of rigid body kinematics); the nodes of a rod stay evenly spaced along a straight segment of constant length; anchors and fixed objects never move; the attachments reported by the interface are those of the input file.",
 ["histories","configurations"], "every step of every run of every system kind and integrator",
 "The tests check final positions of single objects only.",
 ["source/Body.cpp","source/Rod.cpp","source/Point.cpp","source/Line.cpp","source/Misc.cpp"],
 [("setDependentStates","source/Body.cpp"),("setDependentKin, setState","source/Rod.cpp"),("setKinematics","source/Point.cpp"),("setEndKinematics","source/Line.cpp")],
 ["node, point, rod and body kinematics getters","MoorDyn_GetPointAttached"])
prop("C07", "Line nodes obey the lumped-mass line model",
 "For every state of a line, each internal node accelerates as its mass (structural plus added mass) times acceleration equal to the documented loads: axial stiffness acting only in tension (linear or tabulated), internal damping, bending stiffness, pressure bending, weight and buoyancy, transverse and tangential drag relative to the water, added mass and Froude-Krylov forces of the water acceleration, and seabed contact and friction. The tensions and load components reported for each node are those of that same state.",
 ["configurations","histories","inputs"], "a lattice of line types, segment counts, geometries and prescribed motions, at every step",
 "The tests compare a few whole-system runs against tolerances wide enough to hide an error in a single load component.",
 ["source/Line.cpp","source/Line.hpp","source/Misc.cpp"],
 [("getStateDeriv","source/Line.cpp"),("initialisation of stiffness and damping","source/Line.cpp: Line::setup, Line::initialize")],
 ["line node position, velocity, tension, weight, drag, seabed force, curvature, mass and force getters"])
prop("C08", "Points obey Newton's law with all the loads they carry",
 "Each free point accelerates as its mass, plus the mass of the attached half segments, plus its added mass, times acceleration equal to the sum of its weight, buoyancy, hydrodynamic drag and the loads of every attached line end. For any kind of point the reported net force and mass are those sums, and lines may be attached in any number and by any of their ends.",
 ["configurations","histories","inputs"], "a lattice of point properties, numbers of attached lines and states, at every step",
 "The tests do not check the forces on points.",
 ["source/Point.cpp","source/Line.cpp"],
 [("doRHS, getNetForceAndMass, getStateDeriv","source/Point.cpp"),("getEndStuff","source/Line.cpp")],
 ["point position, velocity, force and mass getters","coupling forces"])
prop("C09", "Rods obey rigid rod dynamics with all the loads they carry",
 "Free rods accelerate in their six degrees of freedom, and pinned rods in rotation about the pinned end, as given by their mass and rotational inertia, added mass, weight, buoyancy (including partial submergence), hydrodynamic drag and inertia loads on the sides and ends, seabed contact, and the loads of the attached lines. The loads of coupled and fixed rods reported to the driver are the same sum including inertia. A rod of no segments (zero length) moves as a point does.",
 ["configurations","histories","inputs"], "a lattice of rod kinds, properties, orientations, submergences and motions, at every step",
 "The tests cover a couple of hanging or floating rods in equilibrium.",
 ["source/Rod.cpp","source/Misc.cpp"],
 [("doRHS, getStateDeriv, getNetForceAndMass","source/Rod.cpp")],
 ["rod node kinematics, force and mass getters","coupling forces"])
prop("C10", "Bodies obey rigid body dynamics with all the loads they carry",
 "Free bodies accelerate in their six degrees of freedom, and coupled pinned bodies in rotation, as given by their mass, centre of gravity, rotational inertia, added mass, volume, drag areas, and the loads and masses of every attached point and rod. The loads of coupled bodies reported to the driver are the same sum including inertia.",
 ["configurations","histories","inputs"], "a lattice of body properties, orientations, attachments and motions, at every step",
 "The tests cover an excentric body, a rotating body, and a drag case.",
 ["source/Body.cpp","source/Misc.cpp"],
 [("doRHS, getStateDeriv","source/Body.cpp"),("translateMass6, rotateMass6, translateForce3to6DOF","source/Misc.cpp")],
 ["body state, force and mass getters","coupling forces"])
prop("C11", "Every integrator converges to the same motion at its order",
 "For a smooth system all the time integrators converge to the same motion as the inner time step is reduced, the error falling at least with the formal order of the scheme (Runge-Kutta 4 the fourth; Runge-Kutta 2, midpoint and Anderson the second; the others at least the first), and the position and velocity histories stay mutually consistent. The integrator is selected by its name, case insensitively, through the input file or the interface.",
 ["configurations","inputs"], "every integrator x every system kind x a sequence of inner time steps",
 "The tests just check that each integrator does not blow up.",
 ["source/Time.cpp","source/Time.hpp"],
 [("Step of each scheme","source/Time.cpp"),("create_time_scheme","source/Time.cpp")],
 ["state getters"])
prop("C12", "Output files hold the requested channels at the requested instants",
 "The main output file and the ones of each line, rod and body have the names documented, a header with the requested channels in order, a units line unless disabled, one row per output instant (every step, or one per output period) starting at time zero, and every value equals the quantity reported by the interface at that instant. Channels of unknown objects or quantities are never written as data of another object.",
 ["programs","configurations","inputs"], "every output channel kind, output period, step pattern and object kind up to a bound",
 "The tests never read the output files back.",
 ["source/MoorDyn2.cpp","source/Line.cpp","source/Rod.cpp","source/Body.cpp","source/Point.cpp"],
 [("AllOutput","source/MoorDyn2.cpp"),("output channels parser","source/MoorDyn2.cpp: ReadInFile"),("GetLineOutput, GetRodOutput, GetBodyOutput, GetPointOutput","source/*.cpp")],
 ["output files","state getters"])
prop("C13", "Input notations and defaults are equivalent and option values take effect",
 "All the documented spellings of attachments, line ends, options and section titles, with any letter case and spacing, describe the same system; an omitted option is the same as its documented default; the order in which options are given does not matter. Each option and property of the input file changes the computed behaviour as documented.",
 ["inputs","configurations"], "every documented synonym, default and option value, one or two at a time, over a set of systems",
 "Each test has one input file in one notation.",
 ["source/MoorDyn2.cpp","source/Misc.cpp"],
 [("ReadInFile, readOptionsLine, readBody, readRod, readLineProps","source/MoorDyn2.cpp"),("decomposeString, str::split","source/Misc.cpp")],
 ["MoorDyn_Create","state getters"])
prop("C14", "Malformed input files are refused without crashing",
 "Whatever text is given as input file or auxiliary file (missing, empty, truncated at any line, with any line or field deleted, duplicated or replaced), creating and initialising a system either succeeds or reports failure through a null handle or an error code; it never crashes, hangs or reads outside its memory, and a system that could not be created leaves nothing behind.",
 ["inputs","fault_sequences"], "every single line or token deletion, duplication and replacement, and every truncation, of the input files of every system kind",
 "The tests only use well formed files.",
 ["source/MoorDyn2.cpp","source/MoorDyn2.hpp","source/Misc.cpp","source/Seafloor.cpp","source/Waves.cpp","source/Waves/WaveGrid.cpp"],
 [("ReadInFile and the section readers","source/MoorDyn2.cpp")],
 ["MoorDyn_Create","MoorDyn_Init"])
prop("C15", "Interface misuse is reported by error codes",
 "Every interface function called with a null handle, a null kinematics vector, an object number or node index out of range, an unknown or unusable setting or an unusable file, returns an error code or a null handle as documented and has no other effect: it never crashes, and the system keeps working as if the call had not been made, before and after initialisation. Valid numbers always return the object with that number.",
 ["programs","inputs"], "every interface function x every kind of invalid argument x every life-cycle stage",
 "The C API test only covers a handful of null handles.",
 ["source/MoorDyn2.cpp","source/Line.cpp","source/Point.cpp","source/Rod.cpp","source/Body.cpp","source/Waves.cpp","source/Seafloor.cpp"],
 [("CHECK_ macros and C wrappers","source/*.cpp")], ["all C API functions"])
prop("C16", "Water kinematics are those of the given waves and currents",
 "At any place and time, the water velocity, acceleration, surface elevation and dynamic pressure applied to the system are those of the given currents plus linear wave theory for the given components or elevation series (including stretching and direction), obtained in each mode by evaluation at the nodes or by interpolation of the grid, and zero in still water. The wave number satisfies the dispersion relation for every frequency and depth.",
 ["inputs","configurations"], "a lattice of places and times x wave and current modes",
 "The tests compare a few series with reference data.",
 ["source/Waves.cpp","source/Waves/WaveGrid.cpp","source/Waves/SpectrumKin.cpp","source/Waves/WaveSpectrum.cpp","source/Waves.hpp"],
 [("getWaveKin and grid interpolation","source/Waves.cpp, source/Waves/WaveGrid.cpp"),("constructWaveGrid*, SpectrumKin","source/Waves/*.cpp"),("WaveNumber","source/Waves.cpp")],
 ["MoorDyn_GetWavesKin","WaveNumber"])
prop("C17", "The seafloor is the bilinear surface of the given depths",
 "With a bathymetry file the depth at any place is the bilinear interpolation of the given grid, clamped to its border outside of it, its minimum and average are those of the grid, and seabed contact happens at that depth; without it, the depth is the water depth option everywhere.",
 ["inputs","configurations"], "every place of a lattice finer than the grid, inside and outside, over all the small grids of a depth alphabet",
 "The seafloor test samples one file.",
 ["source/Seafloor.cpp","source/Seafloor.hpp","source/Misc.hpp"],
 [("getDepthAt, interp2","source/Seafloor.cpp, source/Misc.hpp")],
 ["MoorDyn_GetDepthAt","MoorDyn_GetAverageDepth","MoorDyn_GetMinDepth","seabed forces"])
prop("C18", "Initialisation gives the static equilibrium asked for",
 "The initial shape of a line between its ends is the elastic catenary (resting on the seabed when an end lies on it) wherever the solver finds it, in the vertical plane of its ends and with its unstretched length and weight in water, or a straight line otherwise. Initialising with a long enough initial condition phase leaves the system near static equilibrium at time zero with the original properties restored; skipping that phase leaves every object exactly where it was defined.",
 ["inputs","configurations"], "a lattice of line lengths, spans, weights and stiffnesses x initial condition options",
 "A few tests initialise systems, none checks the equilibrium or that properties are restored.",
 ["source/QSlines.hpp","source/Line.cpp","source/MoorDyn2.cpp"],
 [("Catenary","source/QSlines.hpp"),("icLegacy, icStationary","source/MoorDyn2.cpp")],
 ["line node getters after MoorDyn_Init and MoorDyn_Init_NoIC"])
prop("C19", "The legacy interface behaves as the current one with a single system",
 "Driving a system through the version 1 functions gives the same positions, tensions and forces as the current interface with the same input file. Any sequence of initialise, step, query and close calls is answered consistently: calls without an initialised system report an error, closing and initialising again starts a fresh system, and an initialisation that fails leaves the previous system, if any, working and nothing else behind.",
 ["programs","histories"], "every sequence of legacy calls up to a depth",
 "No C++ test exercises the legacy interface beyond a single run.",
 ["source/MoorDyn.cpp","source/MoorDyn.h"],
 [("wrappers over a global system","source/MoorDyn.cpp")],
 ["MoorDynInit","MoorDynStep","MoorDynClose","GetFairTen","GetFASTtens","GetNodePos"])
prop("C20", "Live changes of a line take effect at once and only on that line",
 "Setting the unstretched length, its rate, the stiffness, or the internal pressure of a line during a run is read back by the getters, changes the dynamics of that line from the next step exactly as a line with that property in that state, and nothing else. Setting a property to its present value has no effect.",
 ["programs","histories"], "every sequence of changes and steps up to a depth over two lines",
 "The tests change just one property in one direction.",
 ["source/Line.cpp","source/Line.hpp"],
 [("setUnstretchedLength, setConstantEA, setPin...","source/Line.cpp, source/Line.hpp")],
 ["line setters and getters","node tension"])
prop("C21", "Externally given water kinematics reach the right nodes",
 "With external wave kinematics the number of coordinates and the coordinates given are those of every node of lines, points, rods and bodies in the documented order; the velocities and accelerations set by the driver are the ones each node feels, held or interpolated in time as documented, until new ones are set.",
 ["programs","configurations"], "every mix of objects up to a size and every sequence of settings and steps up to a depth",
 "One test sets one velocity for one node set.",
 ["source/Waves.cpp","source/Waves.hpp","source/MoorDyn2.cpp"],
 [("ExternalWaveKin*","source/MoorDyn2.cpp"),("setWaveKinematics","source/Waves.cpp")],
 ["MoorDyn_ExternalWaveKinInit","MoorDyn_ExternalWaveKinGetCoordinates","MoorDyn_ExternalWaveKinSet"])
prop("C22", "The physics is independent of frame, labelling and line direction",
 "Moving the whole system and its prescribed motion horizontally, rotating it about the vertical or mirroring it across a vertical plane gives the moved, rotated or mirrored motion and forces; swapping the ends of a line, renumbering objects or changing the order in which they are listed, splitting identical attachments or declaring unused types changes nothing.",
 ["configurations","inputs"], "every system kind x every transformation of a finite set",
 "No test compares two equivalent descriptions of the same system.",
 ["source/Line.cpp","source/Rod.cpp","source/Body.cpp","source/Point.cpp","source/Misc.cpp","source/MoorDyn2.cpp"],
 [("loads and kinematics","source/*.cpp")],
 ["state getters","coupling forces"])
prop("C23", "Log messages go exactly where and when they are asked to",
 "A message is printed on the terminal (errors on the standard error, the others on the standard output) if its level is at least the verbosity, and is written to the log file if one is set and its level is at least the log level, whatever the order in which verbosity, log file and log level are set and changed; a log file that cannot be opened changes nothing; logging never affects the computed results.",
 ["programs","histories"], "every sequence of logging calls up to a depth",
 "No test looks at the log.",
 ["source/Log.cpp","source/Log.hpp","source/MoorDyn2.cpp"],
 [("Log::Cout, MultiStream","source/Log.hpp, source/Log.cpp")],
 ["standard output and error","log file"])

prop("C24", "The Python module behaves as the C interface",
 "Every function of the Python module does to the system and answers exactly what its C counterpart does: a system driven through the Python module and one driven through the C interface by the same calls give bit for bit the same forces, states, getters of every object, water kinematics, depths and saved data, and each resumes what the other one saved. A wrong call (wrong number or type of values, wrong kind of object, index out of range, data of another size, missing file) raises an exception and has no effect; no function releases, keeps or changes the objects it is given.",
 ["programs","histories","inputs"], "every system kind and every sequence of calls up to a depth, with every wrong call at every point",
 "The Python tests run one step of one system and use a handful of the functions.",
 ["wrappers/python/cmoordyn.cpp","wrappers/python/moordyn/moordyn.py"],
 [("extension module","wrappers/python/cmoordyn.cpp"),("Python functions","wrappers/python/moordyn/moordyn.py")],
 ["return values and exceptions of the moordyn functions","C getters of the same system"])

prop("C25", "The Fortran module behaves as the C interface",
 "Every function of the Fortran module does to the system and answers exactly what its C counterpart does: a system driven through the Fortran module and one driven through the C interface by the same calls give bit for bit the same forces, states, getters of every object, water kinematics, depths and return codes, and the C interface resumes what the Fortran module saved.",
 ["programs","histories"], "every system kind and every sequence of calls up to a depth",
 "The Fortran test makes one run of one system and uses a handful of the functions.",
 ["wrappers/fortran/MoorDyn.f90"],
 [("C bindings and array functions","wrappers/fortran/MoorDyn.f90")],
 ["return values of the MD_ functions","C getters of the same system"])

prop("C27", "The MATLAB functions behave as the C interface",
 "Every function of the MATLAB interface does to the system and answers exactly what its C counterpart does: a system driven through the MATLAB functions and one driven through the C interface by the same calls give bit for bit the same forces, states, getters of every object, water kinematics, depths and saved data. A call with a wrong number or type of arguments, or whose C counterpart fails, raises a MATLAB error.",
 ["programs","histories","inputs"], "every system kind and every sequence of calls up to a depth, with every wrong call at every point",
 "No test runs the MATLAB functions.",
 ["wrappers/matlab"],
 [("argument checks and conversions","wrappers/matlab/moordyn_matlab.h"),("functions","wrappers/matlab")],
 ["outputs and errors of the MoorDynM_ functions","C getters of the same system"])

prop("C28", "The VTK files hold the state of the objects",
 "In every state of a run, the VTK file of a line, point, rod or body, and each block of the file of the whole system (bodies, points, rods and lines, in that order), holds that object as the other functions of the interface show it: its nodes and how they are joined, velocities, masses, net forces, drag, curvature, segment lengths and their rates, elastic tensions and submergence; a body is drawn as its axes or the mesh given for it, turned and moved as the body is. Saving does not change the system. Saving to a place that cannot be written, a missing or unreadable mesh and null objects give an error, and change nothing.",
 ["programs","histories","inputs"], "every system kind, and every sequence of calls up to a depth before saving",
 "The VTK test writes the files of one system at its initial state, and reads none of them.",
 ["source/Line.cpp","source/Rod.cpp","source/Point.cpp","source/Body.cpp","source/MoorDyn2.cpp","source/Util/VTK_Util.cpp"],
 [("lines","source/Line.cpp"),("bodies and their meshes","source/Body.cpp"),("whole system","source/MoorDyn2.cpp")],
 ["files of the SaveVTK functions","C getters of the same system"])

prop("C26", "A system described through the Python generator is the system built",
 "The system which Mooring().Create() of the Python generator gives is the one described: the same as that of an input file holding the given line and rod materials, bodies, rods, points, lines (attached to points or to either end of rods), failures and options, whatever the order in which the objects are added and whether their values are given at construction or changed later through their properties.",
 ["inputs","programs"], "every combination of the kinds of bodies, rods, points, line ends and failures, orders of adding and ways of giving the values",
 "The generator test describes one system of points and lines, and does not look at the result.",
 ["wrappers/python/moordyn/Generator/Mooring.py","wrappers/python/moordyn/Generator/Entity.py","wrappers/python/moordyn/Generator/Body.py","wrappers/python/moordyn/Generator/Rod.py","wrappers/python/moordyn/Generator/Point.py","wrappers/python/moordyn/Generator/Line.py","wrappers/python/moordyn/Generator/Failure.py"],
 [("input file writer","wrappers/python/moordyn/Generator/Mooring.py")],
 ["states and forces of the generated system"])


NA = {}

def main():
    claimed = [p for p in P if p["id"] in props.PROPS]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in claimed:
        c = props.PROPS[p["id"]]
        checks.append(dict(property=p["id"],
            quick_cmd="python3 run.py %s quick" % p["id"],
            thorough_cmd="python3 run.py %s thorough" % p["id"],
            technique=c["technique"], level="model_checking", level_note=c["note"]))
    m = dict(version=1, setup_cmd="g++ --version",
        hooks=dict(guard="none", enable="no hook is needed: the harnesses drive the public C API of the library built from /repo/source", source_commits=[]),
        checks=checks,
        not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in P if p["id"] not in props.PROPS],
        notes="See DESIGN.md.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()

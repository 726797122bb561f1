GH = " Callees in other classes enter through their contracts, which are proved on their own bodies; the number of attached objects is symbolic. In the bounded companion runs and in the native cross-check the real attached objects are used."
HOW["C08"] = "contracts/c08_line.cc, c08_point.cc, c08_rod.cc, c08_body.cc: setState, setKinematics, initiateStep, updateFairlead, setDependentStates and setEndKinematics/setEndOrientation of each class, on arbitrary states; the ghost lists of what each attached object was told are compared with the rigid motion of the parent; wrong types must throw." + GH
prop("C08", "Attached objects follow what carries them",
     "Whatever moves (a body, a rod, a point, prescribed by the coupling or integrated), everything attached to it is placed by the rigid motion of its parent: every point and rod attached to a body is put at the body position plus its rotated relative position, moving with the body velocity plus angular velocity cross that arm (pinned rods keep their own orientation and rotation), every line end attached to a point or a rod end gets exactly the position and velocity of that end, and the rod ends are a rod length apart along the rod axis. Coupled objects move from the prescribed position with the prescribed velocity linearly in time during a step. A state is written only to objects that have one: setting the state or stepping an object of another type raises an error.",
     ["inputs", "configurations", "histories"], "for every pose, velocity, object type, number of attached points, rods and lines and number of rod nodes or line segments",
     TESTS + "; no test attaches several objects to a moving body and checks each of them.",
     [LN, "source/Point.cpp", "source/Rod.cpp", "source/Body.cpp"],
     [("setState, initiateStep, updateFairlead, setKinematics, setDependentStates", "source/Point.cpp, source/Rod.cpp, source/Body.cpp"), ("setState, setEndKinematics, setEndOrientation", LN)],
     "rotation helpers enter through their real code")
HOW["C09"] = "contracts/c09_point.cc: the real Point::doRHS, getNetForceAndMass, getFnet and getStateDeriv." + GH
prop("C09", "Loads, mass and motion of points",
     "The net force on a point is the sum over all attached line ends of the end force plus its own weight, buoyancy when under water, drag on the relative flow velocity, fluid inertia, external force and seabed reaction; its mass is its own mass plus added mass plus the mass of the attached line ends. A free point accelerates so that mass times acceleration is the net force. A point fixed to a body passes on to it its net force with the centripetal force of its mass, the moment of the net force about the body reference, and its mass about that reference.",
     ["inputs", "configurations"], "for every number of attached lines, every state of the point and of the water, every mass for which the mass matrix can be inverted",
     TESTS + "; points with several lines are only seen through integrated trajectories.",
     ["source/Point.cpp"], [("Point::doRHS, getNetForceAndMass, getStateDeriv", "source/Point.cpp")], "the end loads of the lines enter through getEndStuff's contract")
HOW["C10"] = "contracts/c10_rod.cc for Rod::doRHS with a symbolic number of nodes: loads at an arbitrary inner node, at both ends, submergence of an arbitrary node in each position relative to the surface, assembly of force and inertia about end A; contracts/c10_motion.cc for getNetForceAndMass, getFnet and getStateDeriv, with doRHS leaving arbitrary loads and solveMat6 assumed to solve the system." + GH
prop("C10", "Loads, mass and motion of rods",
     "Every node of a rod lies on the straight line between the ends and carries its share of dry weight, side buoyancy (the part of the upthrust normal to the axis), transverse drag and fluid inertia on the relative flow, seabed reaction, structural and added mass, each scaled by how much of the node is under water: the share of its length along the axis below the surface, whichever end is up, weighed with the share of its cross section. The ends add hydrostatic and dynamic pressure, axial drag, axial inertia and added mass of the end faces and the loads and masses of all attached lines. The rod's net force, moment, mass and inertia are the sums over the nodes about end A. A rod passes to a body its loads and mass moved to the body reference; a free rod accelerates so that mass times acceleration is load, a pinned rod rotates so that the moments about its end balance; orientation changes with half the angular velocity times the quaternion; a coupled rod reports its load minus its inertia.",
     ["inputs", "configurations"], "for every number of rod segments, every node, every rod pose not closer than 0.06 degrees to vertical, every fluid state, seabed and number of attached lines",
     TESTS + "; they sample one rod geometry per case; the upside-down rod crossing the surface, for one, is not tested.",
     ["source/Rod.cpp", "source/Rod.hpp"], [("Rod::doRHS, getNetForceAndMass, getFnet, getStateDeriv", "source/Rod.cpp"), ("getCentripetalForce", "source/Rod.hpp")],
     "cross sections that cut the surface are not decided (circular segment area); exact-touch cases are not decided")
HOW["C11"] = "contracts/c11_body.cc for Body::doRHS and getFnet, contracts/c11_motion.cc for getStateDeriv, with solveMat6 assumed to solve the system." + GH
prop("C11", "Loads, mass and motion of bodies",
     "The net load on a body about its reference point is its weight and buoyancy with their moment about the rotated centre of gravity, the centripetal force of its mass, its translational and rotational drag in the body axes, and the loads of every attached point and rod about the same reference; its mass matrix is its own one rotated to the current orientation plus those of everything attached. A free body accelerates so that mass times acceleration is load, a pinned one rotates so that the moments balance; position changes with velocity and the quaternion with half the angular velocity times the quaternion; a coupled body reports load minus inertia, a pinned one no moment. A body without state refuses to give a state derivative.",
     ["inputs", "configurations"], "for every body property, pose, motion, fluid velocity and number of attached points and rods",
     TESTS + "; bodies are only seen through integrated trajectories.",
     ["source/Body.cpp"], [("Body::doRHS, getFnet, getStateDeriv", "source/Body.cpp")], "loads of attached objects enter through the contracts proved in C09 and C10")
HOW["C12"] = "contracts/c12_state.cc: the real operators of source/State.cpp / State.hpp (copy, +, -, Mix, scaling by a time step, MakeStationary, Newmark, Wilson) on states with a symbolic number of lines, points, rods and bodies and a symbolic number of nodes per line; every element is compared with the algebraic definition at an arbitrary index."
prop("C12", "Algebra of the integrator states",
     "The state of the simulated system behaves as a vector: copying a state copies every entry of it, adding, subtracting, scaling and mixing act on every line node, point, rod and body separately and do what the arithmetic says (positions and velocities of a state advance by the time step times the derivative, entry by entry, the orientation quaternion of rods and bodies included); the Newmark and Wilson helpers advance positions and velocities with their documented combination of old and new derivatives; combining states of different sizes is refused with an error and never reads outside them.",
     ["inputs", "configurations"], "for every number of lines, points, rods, bodies and nodes per line and every value",
     TESTS + "; they integrate single points and lines only, so rod and body operators are never exercised on their own.",
     ["source/State.cpp", "source/State.hpp"],
     [("operators of StateVar, StateVarDeriv, MoorDynState, DMoorDynStateDt", "source/State.cpp, source/State.hpp")],
     "the quaternion part of Newmark, Wilson and MakeStationary is not stated (see DESIGN)")
HOW["C13"] = "contracts/c13_schemes.cc: the real Step of every explicit and implicit scheme, on states with a symbolic number of nodes, points, rods and bodies; TimeSchemeBase::Update and CalcStateDeriv enter through their contract (place the system in a state, return its derivative there), which C14 checks on the real code. The contract records where and when each derivative was taken."
prop("C13", "One step of each time scheme is the scheme it claims to be",
     "For every system, state and time step: Euler, Heun, second and fourth order Runge-Kutta, Adams-Bashforth and the implicit Euler, Newmark and Wilson schemes take their derivatives at the states and (Heun excepted) times their definitions prescribe, combine them with the coefficients of the scheme, number by number over the whole state, advance the clock by exactly the time step, and leave the system placed in the new state at the new time; Adams-Bashforth keeps the derivatives of the previous steps in order and starts up with lower orders.",
     ["inputs", "histories", "configurations"], "for every number of nodes, points, rods and bodies, every derivative the system may return and every time step; implicit iterations fixed at 1 to 3",
     TESTS + "; time_schemes compares one trajectory with a tolerance.",
     ["source/Time.cpp", "source/Time.hpp"], [("Step of every scheme", "source/Time.cpp")],
     "the Anderson scheme, the stationary scheme and the masks of local schemes are not decided; the orientation quaternion of Newmark and Wilson is left out (see DESIGN)")
HOW["C14"] = "contracts/c14_dispatch.cc: the real TimeSchemeBase::Update, CalcStateDeriv, Add*, Remove* with two objects of every kind (bounded), all values arbitrary, every type of every kind enumerated; the functions of the objects are recorders."
prop("C14", "Every object takes part in the integration with its own state",
     "Placing the system in a state hands every line and every free or pinned object the entry of that state which belongs to it, exactly once, moves every coupled object with its own fairlead at the current coupling time, and places bodies before the rods they may carry; evaluating the derivatives updates the water first, asks every line, then every free or pinned point, rod and body exactly once, stores each result in the entry of that object and leaves the others alone, and evaluates the loads of every coupled object after the lines; adding an object appends one state and derivative for it and keeps the others, removing one removes its entry and no other, and the same object cannot be added twice.",
     ["inputs", "configurations"], "for two objects of every kind (bound), all types, all state values",
     TESTS + "; no test removes an object from a running scheme or uses every type in one system.",
     ["source/Time.cpp", "source/Time.hpp"], [("TimeSchemeBase::Update, CalcStateDeriv", "source/Time.cpp"), ("AddPoint.., RemovePoint..", "source/Time.hpp")],
     "bounded: two objects of each kind")
HOW["C15"] = "contracts/c15_factor.cc: interp_factor for tables of any length (the search loop is unrolled by its exit index); contracts/c15_tables.cc: interp and Line::getNonlinearE, getNonlinearEI, getNonlinearC against interp_factor's contract, with tables of any length."
prop("C15", "Tables are followed piecewise linearly and nonlinear material curves with them",
     "Looking a value up in a table of strictly increasing abscissas finds the interval that holds it and the factor that reproduces it; outside the table the first or last entry is taken. The interpolated value is the entry itself at an abscissa and never leaves the interval spanned by its two neighbours. A line with a tabulated stress-strain, bending or damping curve never pulls in compression and uses as stiffness and damping the ratio of the interpolated load over strain, curvature or strain rate (never negative damping for an odd curve under compression, finite at rest), and the constant when no curve is given.",
     ["inputs", "configurations"], "for every table length, every strictly increasing table and every looked up value",
     TESTS + "; they use a handful of fixed curves.",
     ["source/Util/Interp.hpp", LN], [("interp_factor, interp", "source/Util/Interp.hpp"), ("getNonlinearE, getNonlinearEI, getNonlinearC", LN)],
     "tables with repeated abscissas are not stated")
HOW["C16"] = "contracts/c16_line.cc and c16_objects.cc: every query and setter of Line.h, Point.h, Rod.h and Body.h (files excepted) on objects in an arbitrary state, lines and rods of any length and any node index; exceptions thrown by the classes are followed into the handlers of the C functions."
prop("C16", "The C interface reports the state of the objects and rejects what does not exist",
     "Every query of the C interface of lines, points, rods and bodies returns the quantity it names of the object it was given: identifiers, types, number of segments and nodes, positions, velocities, net force, tension (end segments at the ends, average of the neighbours inside), bending, weight, drag, fluid inertia, seabed force, curvature, full mass matrices, fairlead tension, and a maximum tension no node of the line exceeds. A null handle or a node or attachment index that does not exist is answered with MOORDYN_INVALID_VALUE and leaves the caller's memory untouched. What a setter sets (unstretched length, pay-out speed, axial stiffness, internal pressure, pressure bending) is what is reported and used afterwards, for every segment of the line.",
     ["inputs", "configurations"], "for every line and rod length, every node index inside or outside, every stored value and type",
     TESTS + "; they call a few of these functions on one line and never compare matrices, node loads or the tension of every node.",
     ["source/Line.cpp", "source/Line.hpp", "source/Point.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Misc.hpp"],
     [("MoorDyn_GetLine*, MoorDyn_SetLine*", LN), ("getNode*, setUnstretchedLength, updateUnstretchedLength", "source/Line.hpp"), ("MoorDyn_GetPoint*, MoorDyn_GetRod*, MoorDyn_GetBody*", "source/Point.cpp, source/Rod.cpp, source/Body.cpp"), ("vec2array, mat2array, mat62array", "source/Misc.hpp")],
     "a point with up to three attached lines; NaN detection is outside real arithmetic")
HOW["C17"] = "contracts/c17_grid.cc: Seafloor::getDepthAt on grids with any number of points per axis (nested vectors with symbolic extents); contracts/c17_water.cc: WaveGrid::getWaveKin and CurrentGrid::getCurrentKin on four-dimensional grids of any size, with interp_factor through the contract C15 proves and the depth through the one of c17_grid.cc. Instants beyond the series (the series repeats) are checked for a series of three samples: bounded."
prop("C17", "Seafloor, wave and current grids are interpolated multilinearly",
     "For every grid: the depth at a place is the bilinear mean of the four corners of the cell that holds it (never above or below its corners), constant beyond the grid and along an axis with a single point. Wave height, velocity, acceleration and dynamic pressure of a wave or current grid are the multilinear mean in x, y, z and time of the cell and the two samples that hold the place and instant; the water column of waves is stretched from the bottom up to the wave, with the surface values above it; the time series repeats without a jump, the interval after the last sample leading back to the first.",
     ["inputs", "configurations"], "for every number of grid points per axis (up to 16000) and every strictly increasing axis, every value on the grid, every place and instant; repeated series with three samples",
     TESTS + "; they read a handful of fixed grid files and never look at places between, on and beyond the points together.",
     ["source/Util/Interp.hpp", "source/Seafloor.cpp", "source/Waves.cpp"],
     [("interp2, interp3, interp4, interp4Vec", "source/Util/Interp.hpp"), ("Seafloor::getDepthAt", "source/Seafloor.cpp"), ("WaveGrid::getWaveKin, CurrentGrid::getCurrentKin, SeafloorProvider", "source/Waves.cpp")],
     "a wave that reaches the bottom (zero water column) is excluded; the repeated series is bounded to three samples")
HOW["C18"] = "contracts/c18_water.cc: the real Waves::updateWaves, getWaveKin, getWaveKinematicsPoints, setWaveKinematics, addLine.. with an arbitrary wave and current model (uninterpreted functions of place and time behind the real abstract classes), two objects of every kind, lines and rods of any length; contracts/c18_spectrum.cc: SpectrumKin::getWaveKin with two components, through Eigen's dynamic arrays."
prop("C18", "Every node receives the water motion of its own place and of the present time",
     "After an update of the waves every node of every line and rod, every point and every body has the velocity and acceleration of waves plus currents at its own position and at the present time, and the wave height and dynamic pressure of the waves there; without waves or without currents the other one alone. Motions supplied by the caller reach the nodes in exactly the order in which their places were reported, plus currents if there are any, and too few of them are rejected. A query at an arbitrary place gives the same sum. A spectrum gives the sum of the linear waves of its components: height, velocity decaying over the stretched water column, and as acceleration the time derivative of the velocity.",
     ["inputs", "configurations", "histories"], "for every wave and current model, time and position, every line and rod length (two objects per kind: bound), two spectral components (bound)",
     TESTS + "; they run waves on single lines and compare a few numbers with tolerances.",
     ["source/Waves.cpp", "source/Waves.hpp", "source/Waves/SpectrumKin.cpp"],
     [("Waves::updateWaves, getWaveKin, setWaveKinematics, getWaveKinematicsPoints, kinematicsForAllNodes, addLine..", "source/Waves.cpp"), ("SpectrumKin::getWaveKin", "source/Waves/SpectrumKin.cpp")],
     "bounded: two objects per kind, two spectral components; lines of 2 and 3 segments for motions supplied by the caller")
HOW["C19"] = "contracts/c19_coupling.cc: the real MoorDyn::Step, Init, GetForces and NCoupledDOF (source/MoorDyn2.cpp, .hpp) on systems with up to three coupled bodies, rods and points each (coupled and pinned mixed, one uncoupled object in front of each list), with the real initiateStep and getFnet of the objects. The time scheme is a recorder derived from the real TimeScheme; the loop over internal time steps is proved for any number of them (invariant: time left plus time taken is constant and the time left never negative). Output, water setup and the placing of objects inside Init enter as recorders."
prop("C19", "A coupling step moves the right objects for the right time and returns their forces",
     "In a step of the whole system the coupled degrees of freedom are read, and the forces returned, in one order: bodies, then rods, then points, each in the order of definition, six entries for a coupled and three for a pinned body or rod and three for a point; nothing is written beyond them. Every coupled object receives its own position and velocity (and bodies and rods the acceleration that takes the previous velocity to the new one in the step); Init places them in the same order. The system is advanced by positive internal steps, none longer than the model's time step, which add up to exactly the time asked for, and the time reported is the old time plus that. A step of zero or negative length advances nothing and only returns the forces; systems without coupled objects need no arrays, otherwise null arrays are rejected before anything changes; a failure of the time scheme or of the output is returned as its error code.",
     ["inputs", "configurations", "histories"], "for every position, velocity, load, time, requested step and internal time step (any number of internal steps); up to three coupled objects per kind (bound)",
     TESTS + "; most couple a single body or a few points and never mix pinned and coupled objects of all kinds.",
     ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/Misc.hpp"],
     [("MoorDyn::Step, MoorDyn::Init", "source/MoorDyn2.cpp"), ("MoorDyn::GetForces, NCoupledDOF", "source/MoorDyn2.hpp"), ("array2vec, vec2array", "source/Misc.hpp")],
     "bounded: up to three coupled objects per kind; line failures (documented for MoorDyn-F only) and the initial condition solvers are not decided")

# -*- coding: utf-8 -*-
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=[dict(name=n, where=w) for n, w in mech], technique=technique, note=note, **kw))


LIM = ' Exploration only: it says nothing about inputs, schedules or classes the workload does not drive.'

P('P01', 'Touching bodies are always detected, and only those, in open space',
  'In a simulation without periodic boundaries, at every step every pair of bodies that is allowed to interact (not members of the same clump, not separated by group masks) and whose shapes geometrically touch carries exactly one established contact, and a pair whose shapes do not touch never gets one. This holds whatever the motion, the skin distance and reuse interval of the collision detection, the thread count, and whichever bodies were inserted (also at the id of an erased one), erased or given new velocities between steps; the contact records the true normal, overlap and contact point.',
  ['inputs', 'histories', 'configurations'], 'All sets of spheres, boxes, facets and walls, all motions, all interleavings of steps with insertion and erasure of bodies, all collider settings and thread counts.',
  'Unit tests look at one or two fixed contacts with one thread; missed contacts depend on the motion since the last sort, on the skin, on the split of the bounds among threads and on the history of erased ids.',
  ['pkg/common/InsertionSortCollider.cpp', 'pkg/common/Collider.cpp', 'pkg/common/InteractionLoop.cpp', 'pkg/common/Bo1_Aabb.cpp', 'pkg/common/Dispatching.cpp', 'pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Box_Sphere_ScGeom.cpp'],
  [('sort and sweep with a skin, insertion sort inversions, bound overlap test', 'pkg/common/InsertionSortCollider.cpp'), ('bounding volumes', 'pkg/common/Bo1_Aabb.cpp, pkg/common/Dispatching.cpp'), ('narrow phase', 'pkg/dem/Ig2_*.cpp')],
  'online monitor of the real run: brute-force contact oracle after every step', 'Every step of randomised histories is compared with an independent brute-force geometry oracle (pairs within rounding of touching are not judged).' + LIM)

P('P02', 'Contact detection is right across periodic boundaries and sheared cells',
  'In a periodic simulation every pair of particles of which some periodic image touches carries exactly one established contact, with the geometry of the nearest image, and pairs without touching images carry none. This holds at every step for skewed, rotated and deforming cells, for particles placed any number of cell lengths away from the origin, and for every skin, reuse interval and thread count.',
  ['inputs', 'histories', 'configurations'], 'All particle sets smaller than half the cell, all cell shapes and velocity gradients, all image offsets and histories.',
  'The tests step two spheres in a few fixed cells; wrap-around order, image offsets and shear only go wrong for particular positions relative to the boundary.',
  ['pkg/common/InsertionSortCollider.cpp', 'core/Cell.hpp', 'core/Cell.cpp', 'pkg/common/InteractionLoop.cpp', 'pkg/common/Bo1_Aabb.cpp'],
  [('periodic sort with wrapped bounds and periods', 'pkg/common/InsertionSortCollider.cpp'), ('image offset kept in the interaction', 'pkg/common/InteractionLoop.cpp'), ('shear and unshear of points', 'core/Cell.hpp')],
  'online monitor of the real run: minimum-image brute-force oracle after every step', 'Compared with an independent search over all neighbouring images at every step.' + LIM)

P('P03', 'Interactions always agree with the bodies they join',
  'After any history of steps, body insertions and erasures, explicit creation and erasure of interactions, clearing and reloading, the set of interactions contains each unordered pair at most once, looks the same whether enumerated globally, per body, counted, or looked up in either order, and joins only bodies that exist. Removing a body or an interaction removes it from every view at once (erasure requested for a running contact takes effect within one step), and nothing else disappears.',
  ['histories', 'schedules'], 'All histories of insertion, erasure, stepping, clearing and reloading; all thread counts.',
  'Tests call one or two container functions; the two storages (global list and per-body maps) diverge only after particular sequences of erasures.',
  ['core/InteractionContainer.cpp', 'core/InteractionContainer.hpp', 'core/Interaction.cpp', 'core/BodyContainer.cpp', 'py/wrapper/yadeWrapper.cpp'],
  [('linear list plus per-body maps', 'core/InteractionContainer.cpp'), ('erasure of interactions with their body', 'core/BodyContainer.cpp'), ('conditional erasure of unreal interactions', 'pkg/common/InteractionLoop.cpp')],
  'reference-model monitor over randomised operation histories', 'A Python set model shadows the container through random histories.' + LIM)

P('P04', 'Body ids are unique and stable, and every view of the bodies agrees',
  'A body keeps the id it was given until it is erased; ids of live bodies are unique, an erased id is never returned by enumeration, lookup or iteration, and every accessor (length, iteration, indexing from either end, membership) agrees with the history of insertions and erasures. Invalid ids are refused with an error and leave the simulation unchanged, and after erasures the simulation keeps running and keeps treating the remaining bodies as before.',
  ['histories', 'inputs'], 'All histories of insertion (at the end or at a given id), erasure, clumping and stepping, with valid and invalid ids.',
  'Tests erase one body from a short list; reuse of ids, holes, and out-of-range ids are not covered.',
  ['core/BodyContainer.cpp', 'core/BodyContainer.hpp', 'py/wrapper/yadeWrapper.cpp'],
  [('indexed vector with empty slots', 'core/BodyContainer.cpp'), ('checks of ids in the scripting layer', 'py/wrapper/yadeWrapper.cpp')],
  'reference-model monitor over randomised operation histories', 'A Python dict model shadows the container.' + LIM)

P('P05', 'No applied force or torque is ever lost, duplicated or left over',
  'Between two resets, the force and torque read back for a body equal the sum of everything applied to it by any thread plus its permanent force, whatever the ids, the order of application, the growth of the body set and the number of threads. Permanent forces and torques persist over resets and steps exactly until changed or fully reset; ordinary ones vanish at each reset; prescribed displacements and rotations are applied exactly once.',
  ['histories', 'schedules', 'inputs'], 'All sequences of applying, reading, synchronising, resetting, stepping and adding bodies, with any ids and thread counts.',
  'Existing tests set one permanent force on one body with one thread.',
  ['core/ForceContainer.hpp', 'core/ForceContainerParallel.cpp', 'py/wrapper/yadeWrapper.cpp', 'pkg/common/ForceResetter.hpp'],
  [('per-thread accumulators summed on synchronisation', 'core/ForceContainerParallel.cpp'), ('growth on demand', 'core/ForceContainerParallel.cpp')],
  'reference-model monitor over operation histories, forces applied from parallel regions of the real engines', 'Sums are compared with an exact shadow ledger.' + LIM)

P('P06', 'Internal contact forces balance: momentum is conserved',
  'For every contact law, the forces a contact exerts on its two bodies are opposite and their moments balance, so in an isolated undamped system the total linear momentum never changes and, in open space, neither does the total angular momentum, at any step, for any overlap, velocity, friction, cohesion, spin, thread count or mix of particle sizes. In a periodic cell the same holds for linear momentum, and shifting particles by whole cell vectors changes no force.',
  ['inputs', 'configurations'], 'All contact laws for spheres, all states of the particles, open and periodic space.',
  'A unit test compares one scalar for a fixed pair; balance must hold for every relative motion and law.',
  ['pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/ViscoelasticPM.cpp', 'pkg/dem/ConcretePM.cpp', 'pkg/dem/ScGeom.cpp', 'pkg/dem/LudingPM.cpp', 'pkg/dem/JointedCohesiveFrictionalPM.cpp'],
  [('force applied with opposite sign at the contact point', 'pkg/dem/*.cpp contact laws'), ('incident velocity and shear update', 'pkg/dem/ScGeom.cpp')],
  'conservation monitor on per-body forces and momenta at every step, for every contact law', 'Tolerances scale with the largest contact force (rounding).' + LIM)

P('P07', 'Bodies move by the laws of motion',
  'At every step each free body changes velocity by the applied force over its mass (with the gravity and the numerical damping that were set) and position by its new velocity, and spins by the applied torque likewise, orientation staying a unit rotation. Blocked degrees of freedom and non-dynamic bodies keep exactly the velocity they were given and move with it, whatever else acts on them (in a deforming periodic cell, plus the mean field), and bodies excluded by the integration mask do not move.',
  ['inputs', 'configurations', 'histories'], 'All states, forces, blocked axes, damping, gravity, masks and body shapes (spherical and aspherical), with and without a periodic cell.',
  'Tests integrate a single body along one axis; combinations of blocking, damping, asphericity, masks and periodicity are open.',
  ['pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/NewtonIntegrator.hpp', 'core/State.cpp', 'core/State.hpp'],
  [('leapfrog update with Cundall damping', 'pkg/dem/NewtonIntegrator.cpp'), ('blocked degrees of freedom', 'core/State.hpp')],
  'differential monitor: an independent integrator predicts every body at every step', 'Rigid-rotation of aspherical bodies is judged by conservation of angular momentum and energy to the accuracy of the scheme.' + LIM)

P('P08', 'Clumps move as one rigid body with the right mass properties',
  'The members of a clump keep their relative positions and orientations at every step and move with the velocity field of one rigid body; the clump has the mass, centre of mass and inertia of its members (overlaps accounted for as requested), collects all forces and torques acting on them, and members never interact with each other. Clumping, adding, releasing or erasing members, or erasing the clump, in any order keeps membership consistent on both sides and moves no member; clumping, adding and releasing also recompute these properties.',
  ['inputs', 'histories'], 'All member sets, positions, sizes, and all histories of clump editing and motion.',
  'Tests build one clump of two spheres; editing histories and general rigid motion are not covered.',
  ['core/Clump.cpp', 'core/Clump.hpp', 'py/wrapper/yadeWrapper.cpp', 'pkg/dem/NewtonIntegrator.cpp'],
  [('mass properties summed with parallel-axis transport', 'core/Clump.cpp'), ('members moved with the clump', 'core/Clump.hpp'), ('force collection', 'core/Clump.hpp')],
  'invariant and reference-model monitor at every step of random clump histories', 'Overlapping members are judged with the tolerance of the sampling the user requested.' + LIM)

P('P09', 'The periodic cell deforms and wraps as prescribed',
  'At every step the cell follows the velocity gradient it was given: base vectors, deformation gradient, volume and strain stay mutually consistent, and a gradient changed during a run takes effect at the next step. Wrapping any point returns the equivalent point inside the cell and the exact number of periods, shearing and unshearing are inverse, particles follow the homogeneous deformation exactly when asked to, and results do not depend on which periodic image a particle is stored in.',
  ['inputs', 'histories', 'configurations'], 'All cell shapes, velocity gradients and their changes in time, all points and images.',
  'Tests use one or two gradients and check a couple of components.',
  ['core/Cell.hpp', 'core/Cell.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/PeriIsoCompressor.cpp'],
  [('integration of the deformation gradient and cached derived quantities', 'core/Cell.cpp'), ('wrap functions', 'core/Cell.hpp'), ('mean-field velocity of particles', 'pkg/dem/NewtonIntegrator.cpp')],
  'differential monitor against an independent cell integrator; algebraic round-trip oracle for points', 'Rounding-level tolerances.' + LIM)

P('P10', 'Saving and restoring a simulation loses nothing',
  'A simulation saved between any two steps, to a file in any supported format or to memory, and restored in the same or another process, has the same bodies, contacts with their history, engines, cell, materials, clock and settings, and continued from there gives the same trajectory (up to rounding) as if it had never been interrupted. Saving never alters the running simulation, repeated save and restore is idempotent, and a restored simulation is independent of the original.',
  ['histories', 'crash_points', 'inputs'], 'All simulation states at all steps (mid-contact, after erasures, with clumps, masks and periodic cells), all formats.',
  'One test saves a few engine lists; continuation from arbitrary states, after erasures and for every class, is not covered.',
  ['lib/serialization/ObjectIO.hpp', 'lib/serialization/Serializable.hpp', 'core/Omega.cpp', 'core/Scene.cpp', 'core/InteractionContainer.cpp', 'py/wrapper/yadeWrapper.cpp'],
  [('archives per format', 'lib/serialization/ObjectIO.hpp'), ('attributes of every class registered for saving', 'lib/serialization/Serializable.hpp'), ('re-linking of interactions after load', 'core/InteractionContainer.cpp')],
  'differential monitor: the restored simulation runs next to the uninterrupted one; deep comparison of every attribute', 'Continuation is compared bitwise with one thread where the format is exact, and to rounding for text formats.' + LIM)

P('P11', 'Results do not depend on the number of threads, and threads do not race',
  'The same simulation run with any number of threads gives the same contacts and, up to the rounding of reordered sums, the same forces, positions and velocities as with one thread; with one thread repeated runs are identical bit for bit. No step reads memory that another thread writes without synchronisation in a way that can change a result.',
  ['schedules', 'configurations'], 'All thread counts and interleavings of the parallel loops of a step.',
  'All tests run with one thread.',
  ['pkg/common/InteractionLoop.cpp', 'pkg/common/InsertionSortCollider.cpp', 'core/ForceContainerParallel.cpp', 'core/InteractionContainer.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'lib/base/openmp-accu.hpp'],
  [('per-thread accumulators', 'core/ForceContainerParallel.cpp, lib/base/openmp-accu.hpp'), ('locks of the interaction container', 'core/InteractionContainer.cpp'), ('parallel insertion sort by chunks', 'pkg/common/InsertionSortCollider.cpp')],
  'differential monitor over thread counts, with a substitute OpenMP runtime that permutes and delays threads, and a race detector', 'The race detector sees only the interleavings driven.' + LIM)

P('P12', 'Starting, pausing and stepping execute exactly the steps asked for',
  'Running for a number of steps, stepping one at a time, sub-stepping through the engines, and running in the background with pauses all execute the same sequence of engine calls, each active engine once per step in list order; step count and time advance by exactly one step and one time increment. A run stops exactly at the requested step or time, nothing executes after a pause has been waited for, an error raised by an engine stops the run and reaches the caller, changes to the engine list take effect at the next step, and separate scenes do not affect each other.',
  ['schedules', 'histories'], 'All interleavings of run, pause, wait, step and engine-list changes between the script and the background thread.',
  'Tests run a few steps in the foreground.',
  ['core/Scene.cpp', 'core/Omega.cpp', 'core/ThreadRunner.cpp', 'core/SimulationFlow.cpp', 'py/wrapper/yadeWrapper.cpp'],
  [('step loop and sub-step state machine', 'core/Scene.cpp'), ('background thread with its mutexes', 'core/ThreadRunner.cpp'), ('deferred replacement of the engine list', 'core/Scene.cpp')],
  'trace-specification monitor on the recorded engine-call log under random control schedules', 'Wall-clock time is only a watchdog.' + LIM)

P('P13', 'Frictional contacts obey their elastic-frictional law',
  'For every imposed relative motion of two spheres, a frictional contact pushes with the normal stiffness times the overlap and never pulls, its tangential force changes by the tangential stiffness times the relative slip at the contact and turns with the contact, and never exceeds the friction limit; sliding dissipates and never creates energy. Stiffness and friction follow from the two materials independently of the order of the bodies, and the force is independent of the observer: rotating or translating the whole history rotates the forces with it.',
  ['inputs', 'histories'], 'All relative motions (sliding, rolling, twisting, separating and re-contact), sizes, materials and body orders, open and periodic.',
  'Tests check one static value.',
  ['pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/ScGeom.cpp', 'pkg/dem/FrictPhys.cpp', 'pkg/common/MatchMaker.cpp'],
  [('Coulomb truncation', 'pkg/dem/ElasticContactLaw.cpp'), ('rotation of the shear force and slip increment', 'pkg/dem/ScGeom.cpp'), ('averaging of material parameters', 'pkg/dem/FrictPhys.cpp')],
  'differential monitor: an independent contact model follows random driven histories', 'Compared at every step with an independent implementation.' + LIM)

P('P14', 'Cohesive, Hertzian and viscous contacts obey their laws',
  'Hertzian contacts give the Hertz force for the overlap, radii and elastic constants; viscoelastic contacts give the prescribed restitution and never pull when told not to; cohesive bonds transmit tension, shear, bending and twist up to their strengths, break exactly once when a strength is exceeded and never heal unless asked to. Each holds for every size ratio, material pair, loading path and body order, and the elastic part of the shear force respects the Coulomb limit in all of them.',
  ['inputs', 'histories'], 'All loading paths, materials, sizes and orders of bodies.',
  'Tests check a chain of cohesive spheres in one loading.',
  ['pkg/dem/HertzMindlin.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/ViscoelasticPM.cpp'],
  [('contact law functors', 'pkg/dem/*.cpp'), ('breakage conditions', 'pkg/dem/CohesiveFrictionalContactLaw.cpp')],
  'differential monitor: independent formulas and trace properties over random driven histories', 'Independent formulas written from the documentation.' + LIM)

P('P15', 'Energy bookkeeping balances',
  'With energy tracking on, the kinetic, elastic, frictionally dissipated and numerically damped energies reported plus the work done against gravity add up to a constant, up to the accuracy of the time step, over any collision history of frictional spheres; every dissipated total is monotonic, and tracking changes no trajectory.',
  ['inputs', 'histories'], 'All initial states, damping and friction values, thread counts.',
  'No test looks at the tracker.',
  ['core/EnergyTracker.hpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/Shop_01.cpp'],
  [('per-term accumulators', 'core/EnergyTracker.hpp'), ('work terms in the integrator', 'pkg/dem/NewtonIntegrator.cpp')],
  'conservation monitor over recorded energy terms', 'The tolerance is the second-order error of the time step, measured by halving it.' + LIM)

P('P16', 'A run distributed over processes gives the same result as a single process',
  'A scene distributed over message-passing processes by subdomain and advanced the same number of steps gives, after gathering, the same positions, velocities, orientations and spins of all particles and the same force on the shared boundary as the undivided run, for every assignment of particles to processes, number of processes and communication mode. Each particle is integrated by exactly one process and none is lost or duplicated by splitting, running and merging.',
  ['schedules', 'configurations', 'inputs'], 'All assignments of bodies to subdomains, process counts, communication modes and message timings.',
  'No test runs with more than one process.',
  ['py/mpy.py', 'core/Subdomain.cpp', 'core/Subdomain.hpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/common/Collider.cpp'],
  [('exchange of states of intersecting bodies and of boundary forces', 'py/mpy.py, core/Subdomain.cpp'), ('integration restricted to own bodies', 'pkg/dem/NewtonIntegrator.cpp')],
  'differential monitor: real multi-process runs against the single-process run', 'Contacts whose history would be lost by re-splitting are kept out of the re-splitting workloads.' + LIM)

P('P17', 'Generated packings lie where asked, without overlap, with the requested sizes',
  'Random clouds, regular packings and predicate-filled packings contain only spheres inside the requested region (periodic ones modulo the cell), clouds never overlap and have the requested number, size range and distribution, and regular packings have the exact lattice spacing. Boolean combinations of regions contain exactly the points set logic says, and packings can be stored, reloaded, translated, rotated, scaled and repeated without losing or altering spheres.',
  ['inputs'], 'All region shapes and combinations, sizes, gaps, seeds and cells.',
  'Only a doctest or two exercise packing.',
  ['py/pack/pack.py', 'py/pack/_packPredicates.cpp', 'py/pack/_packSpheres.cpp', 'pkg/dem/SpherePack.cpp'],
  [('cloud generation with overlap test', 'pkg/dem/SpherePack.cpp'), ('inclusion predicates with padding', 'py/pack/_packPredicates.cpp')],
  'post-condition monitor with an independent geometric oracle over random regions', 'Independent brute force.' + LIM)

P('P18', 'Exported particle data read back as the same particles',
  'Every particle set written by an exporter and read by the matching importer comes back with the same number, positions, sizes, orientation where recorded, masks and selected attributes (shifted and scaled exactly as requested), to the printed precision; filters export exactly the selected particles. Recorded plot data keep every value in the row and column it was recorded for, whatever columns appear later.',
  ['inputs', 'histories'], 'All particle sets, masks, shifts, scales and recording histories.',
  'No test writes files.',
  ['py/export.py', 'py/ymport.py', 'py/plot.py'],
  [('text formats', 'py/export.py, py/ymport.py'), ('column padding', 'py/plot.py')],
  'round-trip monitor over random particle sets and recording histories', 'Formats needing external programs are left out.' + LIM)

P('P19', 'The computed time step is the documented stable one, and is applied',
  'Each time step estimator returns the documented stability estimate taken over all particles and contacts present: the P-wave or Rayleigh time of the most critical sphere, or the safety factor times the smallest eigenperiod estimate of the free bodies (translational, rotational, moment and, if asked for, viscous stiffness of all their contacts; the members of a clump together). The automatic step follows changes of stiffness, mass and contacts at the next update, grows by at most 5 % per update, never exceeds the given maximum, leaves a fixed step alone when switched off, is independent of the order of bodies and of the number of threads, and is the step by which time and particles really advance. With density scaling every body is slowed down enough for its own critical step to reach the target step.',
  ['inputs', 'configurations'], 'All particle sizes, densities, stiffness and contact networks.',
  'No test reads the time step.',
  ['pkg/dem/GlobalStiffnessTimeStepper.cpp', 'core/TimeStepper.hpp', 'pkg/dem/Shop_01.cpp', 'pkg/dem/Shop_02.cpp', 'py/_polyhedra_utils.cpp'],
  [('per-body stiffness sums', 'pkg/dem/GlobalStiffnessTimeStepper.cpp'), ('P-wave and Rayleigh estimates', 'pkg/dem/Shop_02.cpp')],
  'differential monitor against independently computed limits, at every step', 'The per-contact stiffness formula is recomputed in the monitor.' + LIM)

P('P20', 'Macroscopic measures equal their definitions',
  'The stress tensors, fabric, kinetic energy, momentum, unbalanced force, porosity and void ratio, coordination number and region measures, and the Voronoi volumes, envelope caps and strains of the tesselation, reported for a simulation equal their definitions summed over the present bodies and contacts, for any state including erased bodies, clumps, walls and periodic or sheared cells. Asking for them never changes the simulation.',
  ['inputs', 'configurations'], 'All simulation states.',
  'Few measures are tested, on one state.',
  ['pkg/dem/Shop_01.cpp', 'pkg/dem/Shop_02.cpp', 'py/_utils.cpp', 'py/utils.py', 'pkg/dem/TesselationWrapper.cpp', 'lib/triangulation/Tesselation.ipp', 'lib/triangulation/KinematicLocalisationAnalyser.cpp'],
  [('sums over bodies and contacts', 'pkg/dem/Shop_01.cpp, pkg/dem/Shop_02.cpp')],
  'differential monitor: definitions recomputed from body and contact states', 'Rounding-level tolerances.' + LIM)

P('P21', 'Each pair of types is handled by the most specific routine, in either order',
  'For any set of installed handlers and any two objects, the handler chosen is the one registered for the closest types in their inheritance, the same for both orders of the pair, and the outcome of a contact does not depend on which body has the lower id or was created first. A pair with no handler gives no contact (or an error where documented), changing the handlers takes effect for every contact made afterwards, and the choice does not depend on which pairs were seen before.',
  ['inputs', 'configurations', 'histories'], 'All sets and orders of handlers, all shape and material pairs, all histories of previous dispatches.',
  'Tests register one dispatcher and query it.',
  ['lib/multimethods/DynLibDispatcher.hpp', 'core/Dispatcher.hpp', 'pkg/common/InteractionLoop.cpp', 'lib/multimethods/Indexable.hpp'],
  [('dispatch matrix with cached closest entries', 'lib/multimethods/DynLibDispatcher.hpp'), ('swap of interaction order', 'pkg/common/InteractionLoop.cpp')],
  'reference-model monitor on dispatch results over random handler sets; order-swap differential runs', 'The inheritance is taken from the class documentation of the running system.' + LIM)

P('P22', 'Every object keeps what is assigned to it',
  'For every class, each documented attribute holds the value last assigned (by constructor keyword, assignment or bulk update), independently of the other attributes and of other objects, survives copying through a saved simulation, and has a defined value in a new object. Ill-typed values, unknown names in constructors and bulk updates, and assignments to read-only attributes raise an error that leaves the attributes unchanged. The dictionary of attributes of an object reports all of them with the current values.',
  ['inputs', 'programs'], 'All classes, attributes, values and orders of assignment.',
  'Tests construct every class but do not assign attributes.',
  ['lib/serialization/Serializable.hpp', 'lib/serialization/Serializable.cpp', 'py/wrapper/yadeWrapper.cpp', 'core/State.hpp', 'core/Body.hpp'],
  [('generated accessors', 'lib/serialization/Serializable.hpp')],
  'model-based monitor over all registered classes and attributes', 'Attributes with documented side effects are excluded from the value comparison.' + LIM)

P('P23', 'Imposed motions and loads are applied exactly as prescribed',
  'Bodies driven by prescribed translation, rotation, helical, harmonic, interpolated or servo-controlled motion follow the prescribed path at every step for any axis, centre, speed and body set, and force-applying engines add exactly the prescribed force to exactly the listed bodies. Stress- and strain-controlled boundaries move towards the target without exceeding the maximum rate (walls of the triaxial box: in each increment, before the memory of earlier ones), keep the other directions as requested, report the actual stress, strain and work, and hold the target once reached.',
  ['inputs', 'histories'], 'All engine parameters, body sets, clumps included, and histories of changes.',
  'Tests cover none of the servo paths and two kinematic engines in one setting.',
  ['pkg/common/KinematicEngines.cpp', 'pkg/common/ForceEngine.cpp', 'pkg/common/GravityEngines.cpp', 'pkg/dem/PeriIsoCompressor.cpp', 'pkg/dem/TriaxialStressController.cpp', 'pkg/common/TorqueEngine.hpp'],
  [('velocity assignment to blocked bodies', 'pkg/common/KinematicEngines.cpp'), ('stress servo', 'pkg/dem/TriaxialStressController.cpp, pkg/dem/PeriIsoCompressor.cpp')],
  'differential monitor: prescribed paths recomputed independently at every step', 'Servo convergence is judged as bounded progress in steps.' + LIM)

P('P24', 'Pore flow conserves fluid and respects the pressure bounds',
  'In the pore-flow coupling, fluid volume is balanced: what enters through boundaries and imposed fluxes, plus what deforming pores squeeze out, leaves through boundaries, pore by pore and in total, also while the mesh is rebuilt, and a sealed compressible fluid answers a volume change with its bulk modulus. Imposed pressures and fluxes are honoured where they were imposed and blocked pores let nothing through; without sources, pressures lie between the imposed ones; a uniform pressure drives no flow and pushes with pressure times area on every wall. Pressures, fluxes and fluid forces respond linearly and reciprocally to what is imposed, scale with viscosity and permeability factor, are the same for every solver and number of threads and for rotated, mirrored or moved packings, and with constant conductivity per gradient reproduce a linear field exactly. In periodic cells the fluid forces sum to minus the mean gradient times the volume, and the permeability is symmetric. The pore network is the regular triangulation of the spheres, and an engine that rebuilds it gives the result of a fresh one.',
  ['inputs', 'histories', 'configurations'], 'All packings, boundary conditions, histories of deformation and remeshing, and solver choices.',
  'One check compares a single permeability value.',
  ['pkg/pfv/FlowEngine.ipp.in', 'pkg/pfv/FlowEngine.hpp.in', 'pkg/pfv/PeriodicFlowEngine.cpp', 'lib/triangulation/FlowBoundingSphere.ipp', 'lib/triangulation/FlowBoundingSphereLinSolv.ipp', 'lib/triangulation/PeriodicFlow.hpp', 'lib/triangulation/Network.ipp'],
  [('assembly and solution of the pore network', 'lib/triangulation/FlowBoundingSphereLinSolv.ipp, lib/triangulation/FlowBoundingSphere.ipp'), ('force integration', 'lib/triangulation/FlowBoundingSphere.ipp'), ('boundary conditions and remeshing', 'pkg/pfv/FlowEngine.ipp.in')],
  'conservation monitor on cell fluxes and forces, metamorphic relations between runs of the real engine', 'Solver tolerance; spheres in the corners of the box, whose pores have three walls, are left out of the sum of forces; sheared periodic cells, which the triangulation does not support, are not used.' + LIM)

P('P25', 'No script-driven operation corrupts memory or uses undefined values',
  'Creating, running, editing, erasing, saving and restoring simulations through the scripting interface, in any order, with valid arguments or with ids, indices, names and files that do not exist, never reads or writes memory it does not own, never takes a decision on a value that was not set, and never kills the process; invalid requests are answered with an error (errors of configuration that a contact functor finds while a step runs may end the run).',
  ['inputs', 'histories', 'programs'], 'All sequences of calls and arguments.',
  'A test that passes says nothing about reads past the end of a buffer or of unset values.',
  ['core/BodyContainer.cpp', 'core/InteractionContainer.cpp', 'core/ForceContainerParallel.cpp', 'core/Scene.cpp', 'pkg/common/InsertionSortCollider.cpp', 'py/wrapper/yadeWrapper.cpp'],
  [('index checks in the scripting layer', 'py/wrapper/yadeWrapper.cpp'), ('initialised attributes', 'lib/serialization/Serializable.hpp')],
  'memory checker (valgrind memcheck) on the real library under hostile operation histories', 'Memcheck does not see overflows inside one allocation or on the stack. Engines are combined only as documented (a law with the geometry it expects); bodies have a shape and a material.' + LIM)

P('P26', 'Convex polyhedra have exact mass properties and symmetric contacts',
  'A polyhedron built from any set of points has the volume, centroid and inertia of their convex hull, its vertices are the corners of the hull, and rotating or moving the points changes none of these; splitting yields the two parts on either side of the cut with their volume, mass, inertia and velocity. Two partly overlapping polyhedra are in contact exactly when their hulls share volume, the reported overlap volume and contact point are the true ones, independent of order and of rigid motion of both, across periodic boundaries too, the normal force follows from that volume, forces and moments balance, and each contact keeps its own shear history. The same holds against walls and facet plates; a sphere touches a polyhedron exactly when it is closer than its radius, with that penetration. Generated polyhedra lie in the box and do not overlap.',
  ['inputs'], 'All vertex sets and relative placements.',
  'One check drops a few polyhedra and looks at the end state.',
  ['pkg/dem/Polyhedra.cpp', 'pkg/dem/Polyhedra_Ig2.cpp', 'pkg/dem/Polyhedra_support.cpp', 'py/_polyhedra_utils.cpp', 'pkg/dem/Polyhedra_splitter.cpp'],
  [('hull and mass integration', 'pkg/dem/Polyhedra.cpp'), ('intersection of hulls', 'pkg/dem/Polyhedra_support.cpp')],
  'differential monitor: hull, volume and half-space intersection recomputed independently', 'Hull and half-space intersection come from qhull and linear programming (scipy); directions of contact normals, which the code fits to the rim of the overlap, are not judged.' + LIM)

P('P27', 'Particle sources and sinks account for every particle',
  'Particle factories insert only inside their region, never overlapping existing bodies, with the prescribed sizes, size distribution, velocities, material, mask and fixed degrees of freedom; they stop as soon as the requested mass, number or flow is reached (the last sphere may exceed the mass) and report exactly what they inserted. Domain limiters remove exactly the spheres and clumps outside (and selected by mask), with all clump members, and report exactly what they removed; spheres put back by the resetting engine land on the section without overlap and all others are left alone. Periodically scheduled engines run at exactly the prescribed steps or times, no more often than asked, and force and torque recorders write one line per run with the resultant over the listed bodies.',
  ['inputs', 'histories', 'schedules'], 'All regions, rates, limits, masks and step histories.',
  'No test covers factories; scheduling is tested for one period.',
  ['pkg/dem/SpheresFactory.cpp', 'pkg/dem/DomainLimiter.cpp', 'pkg/common/PeriodicEngines.hpp', 'pkg/common/PyRunner.hpp', 'pkg/common/ResetRandomPosition.cpp', 'pkg/dem/ForceTorqueRecorder.cpp', 'pkg/common/Recorder.hpp'],
  [('trial insertion with collision probe', 'pkg/dem/SpheresFactory.cpp'), ('erasure of bodies outside', 'pkg/dem/DomainLimiter.cpp'), ('period bookkeeping', 'pkg/common/PeriodicEngines.hpp')],
  'ledger monitor: every insertion, removal and activation is accounted for', 'Random streams are taken as they come.' + LIM)

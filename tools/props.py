#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  python3 tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from specs import SPECS
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None, na=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(na=na, rec=dict(
        id=pid, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None))))


prop("C01", "Closest points of two segments are the true minimum",
     """For any two segments in 3D, including parallel, crossing, touching, collinear and zero-length ones, the distance query
     returns the true minimum distance, two points that lie on the respective segments at the returned parameters in [0,1], and
     points whose distance equals the returned distance. The same holds for the distance of a point to a segment.""",
     ["inputs"], "all pairs of segments (and point/segment pairs) of ordinary scale",
     "The existing SylinderNear test checks a few thousand random pairs and never the degenerate ones; the guarantee is over all configurations.",
     ["Collision/DCPQuery.hpp"], [("region classification and constrained search", "DCPQuery::operator(), DistPointSeg")],
     ["return value, P/Q closest, s, t"])
prop("C02", "Every contact pair is collected exactly once, none is invented",
     """For every distribution of particles, collecting pair collisions yields exactly one constraint for each unordered pair of
     distinct particles, not both immovable, (and periodic image) whose surface separation is below the collision-buffer threshold, and none for any
     other pair, whatever the box periodicity, the number of MPI ranks, the number of threads, and the particle shapes (spheres,
     sphere-like and long spherocylinders with any collision-size ratios). Each constraint carries the true separation,
     unit normals that are opposite and point from the other particle, contact points on both bodies relative to their centres,
     and the ids and indices of the two particles in matching order.""",
     ["inputs", "configurations", "schedules"],
     "all particle sets, shapes, periodicities, rank counts and thread counts",
     "No existing test runs the neighbour search under periodic boundaries or on more than one rank against a complete reference; pairs lost at domain or box borders need specific geometry.",
     ["Sylinder/SylinderNear.hpp", "Sylinder/SylinderSystem.cpp", "FDPS/"],
     [("search radius and image exchange", "SylinderNearEP::getRSearch, TreeForForceShort::Symmetry"),
      ("gid ordering filter and narrow phase", "CalcSylinderNearForce::operator(), sp_sp, sp_sy, sy_sy")],
     ["ConstraintCollector::constraintPoolPtr after collectPairCollision"])
prop("C03", "Boundary projection returns the nearest boundary point, right side",
     """For a spherical shell, flat wall or tube boundary of any size, position and orientation, built directly or from YAML, projecting any
     query point (including the centre, the axis and points on the surface) gives a finite point on the surface at the minimum distance from the query and a delta of that
     length pointing to the allowed side, so that (query - projection).delta is negative exactly when the query is on the
     forbidden side; the self-check accepts such results and rejects a reversed or wrong delta.""",
     ["inputs", "configurations"], "all boundary shapes, inside/outside settings and query points",
     "The Boundary test samples random points of three fixed shapes.",
     ["Boundary/Boundary.cpp", "Boundary/Boundary.hpp"], [("project / check", "SphereShell, Wall, Tube")])
prop("C04", "Boundary contacts of all particles are collected exactly",
     """For every particle that can move and every configured boundary, the two ends of a long particle (the centre of a sphere-like one) yield
     exactly one one-sided constraint whenever they are on the forbidden side (the boundary itself included) or closer to the boundary than the collision radius
     (for a sphere-like one plus half its collision length) times one plus twice the collision buffer, and none otherwise (immovable particles have none). The recorded value is the signed gap between particle surface and boundary, the direction is
     the inward unit normal of the boundary there, and the force arm is the position of that end relative to the centre.""",
     ["inputs", "configurations", "schedules"], "all particle states, boundary lists, rank counts and thread counts",
     "The confinement test is not built here and only looks at final positions of one configuration.",
     ["Sylinder/SylinderSystem.cpp", "Boundary/Boundary.cpp"], [("collectBoundaryCollision", "Sylinder/SylinderSystem.cpp")])
prop("C05", "Constraint matrix and vectors represent exactly the collected blocks",
     """For any set of constraint blocks spread over any ranks and thread queues, including empty ones, the assembled system has one
     row per block in queue order; its transpose turns constraint magnitudes into exactly the forces and torques of the blocks
     (equal and opposite contact forces at the contact points, only body I for one-sided blocks), and its other columns are zero.
     The vectors carry each block's gap, initial guess, inverse stiffness and bilateral flag, and writing a solution back stores
     each value in its own block and scales that block's stress by it.""",
     ["inputs", "configurations"], "all block sets, distributions over ranks/threads and particle layouts",
     "No test assembles blocks that couple particles of different ranks or checks rows individually.",
     ["Constraint/ConstraintCollector.cpp", "Constraint/ConstraintOperator.cpp"],
     [("buildConstraintMatrixVector, buildConIndex, writeBackGamma", "Constraint/ConstraintCollector.cpp"),
      ("D M D^T + K^-1 apply", "Constraint/ConstraintOperator.cpp")])
prop("C06", "BCQP solvers return the bound-constrained minimiser",
     """For every symmetric positive definite problem and bounds (lower below upper), both bound-constrained quadratic solvers return a vector inside
     the bounds whose projected-gradient residual is below the requested tolerance (hence the unique minimiser) if double precision allows it, from any feasible initial guess
     including the solution, on any number of ranks, and report success. A run cut off by the iteration limit still returns a feasible vector and
     the iteration count never exceeds the limit.""",
     ["inputs", "configurations"], "all SPD matrices, right-hand sides, bound patterns, initial guesses, rank counts",
     "The existing solver test is random and was judged flaky; it only dumps results.",
     ["Constraint/BCQPSolver.cpp", "Constraint/BCQPSolver.hpp"], [("solveBBPGD, solveAPGD, boundProjection, checkProjectionResidual", "Constraint/BCQPSolver.cpp")])
prop("C07", "Solved constraints satisfy non-penetration, spring law and momentum",
     """After the constraint solve, every unilateral contact has a non-negative force and a non-negative predicted gap at the end of the step, and
     force and gap are complementary; every spring constraint has force equal to its stiffness times minus the predicted deviation, all to solver
     tolerance. The reported unilateral and bilateral forces and torques equal the sum of the blocks' contact forces at their contact points, the reported
     velocities equal mobility times these forces, and two-sided constraints exert zero net force and zero net torque.""",
     ["inputs", "configurations"], "all small contact/link graphs, gaps, velocities, solver choices, rank counts",
     "No test examines the solution of the constraint problem.",
     ["Constraint/ConstraintSolver.cpp", "Constraint/ConstraintOperator.cpp", "Constraint/BCQPSolver.cpp"],
     [("setup, solveConstraints, writebackGamma", "Constraint/ConstraintSolver.cpp")])
prop("C08", "LCP solvers return a solution of the complementarity problem",
     """For every symmetric positive definite operator and right-hand side, each linear-complementarity solver (gradient, accelerated
     gradient, Barzilai-Borwein and Newton type) ends with x >= 0, Ax+b >= 0 and x complementary to Ax+b to the requested tolerance whenever it reports success,
     from any non-negative initial guess and on any number of ranks (the Newton type to 1e-6 at best), and the gradient-type solvers do reach the tolerance given enough
     iterations. The Barzilai-Borwein solver returns the vector of the last residual in its history, the accelerated one that of the smallest.""",
     ["inputs", "configurations"], "all SPD problems and initial guesses of bounded size",
     "The CPSolver test runs one random problem and compares nothing.",
     ["Collision/CPSolver.cpp", "Collision/CPSolver.hpp"], [("LCP_BBPGD, LCP_APGD, LCP_mmNewton", "Collision/CPSolver.cpp")])
prop("C09", "Distributed directory lookup returns the owner's data for every id",
     """After building the directory from any distribution of distinct ids over ranks, each lookup returns for every
     requested id, in request order and with duplicates, the data registered for it, on whatever rank it was registered and
     whichever rank asks. This holds across any sequence of rebuilds and lookups, with empty ranks and empty requests.""",
     ["inputs", "histories", "configurations"], "all assignments of ids to ranks, request lists and rebuild/lookup sequences",
     "The ZDD test uses one random distribution and one lookup.",
     ["Trilinos/ZDD.hpp"], [("buildIndex, find", "ZDD")])
prop("C10", "All-to-all exchange delivers every item once, in order",
     """For any per-destination send counts (zeros, empty ranks, uneven sizes) and any trivially copyable item type, the vector exchange delivers
     to each rank exactly the items addressed to it, grouped by source rank in rank order and in sending order, with matching receive counts and displacements.""",
     ["inputs", "configurations"], "all send-count matrices and rank counts",
     "The CommMPI test is not built here and covers one pattern.",
     ["MPI/CommMPI.hpp"], [("exchange routines and MPI datatype creation", "MPI/CommMPI.hpp")])
prop("C11", "Sorting by tag is a stable permutation of tag/record pairs",
     """Sorting records with tags yields ascending tags, keeps the relative order of records with equal tags, and keeps each record
     with its own tag; nothing is lost, duplicated or altered, for any length, tag type and thread count.""",
     ["inputs", "configurations"], "all tag sequences", "The SortUtil test sorts one random array and prints it.",
     ["Util/SortUtil.hpp"], [("sortDataWithTag", "Util/SortUtil.hpp")])
prop("C12", "Mixed-pair interaction visits every neighbouring pair exactly once",
     """For any target and source particle sets, exchanged to the ranks of the domain decomposition (including empty ranks and sets), and any periodicity, the mixed-pair
     calculator invokes the interaction so that each target accumulates every source (and periodic image) within its search range exactly once, and
     results are returned in the order of the local targets.""",
     ["inputs", "configurations", "schedules"], "all target/source sets, periodicities, rank and thread counts",
     "The MixPair test uses one random data set per run and a separate verifier.",
     ["MPI/MixPairInteraction.hpp", "FDPS/"], [("MixPairInteraction", "MPI/MixPairInteraction.hpp")])
prop("C13", "Base64 arrays decode back to the exact bytes in the VTK layout",
     """Encoding any byte string yields its standard (RFC 4648) base64 text appended to the output, with the number of characters reported; decoding gives back exactly the
     original bytes and stops at invalid characters and at the end mark. An encoded numeric array is the 32-bit byte count followed by the raw little-endian
     values, and a written XML data array declares the matching name, type and component count.""",
     ["inputs"], "all byte strings and arrays", "No existing test encodes anything.",
     ["Util/Base64.hpp", "Util/Base64.cpp", "Util/IOHelper.hpp"], [("kwsysBase64_Encode/Decode, getBase64FromVector", "Util/Base64.hpp"), ("writeDataArrayBase64", "Util/IOHelper.hpp")])
prop("C14", "Written data files hold exactly the system state, readable by VTK",
     """The parallel VTK files of a snapshot, read with a standard VTK reader, contain every particle of every rank exactly once with its end points and
     all its data fields in the declared type and width, and every constraint block exactly once with its contact points and fields; the header lists exactly the
     arrays that the pieces contain and one piece per rank. The text file lists every particle and every link exactly once; the box file spans the simulation box.""",
     ["inputs", "configurations"], "all particle/constraint sets, rank and thread counts",
     "No existing test reads any output file back.",
     ["Sylinder/Sylinder.hpp", "Constraint/ConstraintCollector.cpp", "Util/IOHelper.hpp", "Sylinder/SylinderSystem.cpp"],
     [("writeVTP/writePVTP", "Sylinder, ConstraintCollector"), ("writeAscii", "SylinderSystem, Sylinder")])
prop("C15", "Rigid motion: orientation stays a unit quaternion and rotates exactly",
     """Advancing an orientation by an angular velocity (of ordinary, not vanishing magnitude) over a time step rotates every body-fixed vector by exactly that angle about that axis in the lab
     frame and keeps the quaternion normalised, for any orientation, including over long chains; a particle step also moves the centre by velocity times the time step and
     changes nothing else. Orientations generated from uniform numbers are unit quaternions uniformly distributed over rotations.""",
     ["inputs", "histories"], "all orientations, angular velocities, time steps and step sequences",
     "No test checks orientation updates.",
     ["Util/EquatnHelper.hpp", "Sylinder/Sylinder.cpp"], [("rotateEquatn, setUnitRandomEquatn", "EquatnHelper"), ("stepEuler", "Sylinder")])
prop("C16", "Mobility is block-diagonal SPD with the documented drag; immovable is zero",
     """For every particle shape and orientation the drag coefficients are positive and proportional to viscosity (Stokes drag of the enclosing sphere when the
     length is less than the diameter, slender-body drag otherwise), and the mobility operator applied to forces and torques gives for each particle its own
     velocity: parallel and perpendicular drag along and across its axis, isotropic rotational drag, no coupling to other particles. Immovable particles get exactly zero
     velocity from any force and from Brownian motion.""",
     ["inputs", "configurations"], "all shapes, orientations, particle layouts and rank counts",
     "No test evaluates drag or mobility.",
     ["Sylinder/Sylinder.cpp", "Sylinder/SylinderSystem.cpp"], [("calcDragCoeff", "Sylinder"), ("calcMobMatrix, calcVelocityBrown", "SylinderSystem")])
prop("C17", "Domain decomposition conserves particles; periodic wrap keeps them in box",
     """Applying the box boundary condition, decomposing the domain and exchanging particles keeps every particle exactly once across all ranks with all its data unchanged except
     that in periodic directions the centre is moved by whole box lengths into [low, high); non-periodic coordinates are untouched. Every particle ends on the rank
     whose subdomain holds it, is labelled with that rank, and global indices number the particles consecutively over the ranks.""",
     ["inputs", "configurations", "histories"], "all particle positions, periodicities, rank counts and operation sequences",
     "No existing test runs the exchange on several ranks and counts particles.",
     ["Sylinder/SylinderSystem.cpp", "FDPS/"], [("applyBoxBC, decomposeDomain, exchangeSylinder, updateSylinderMap", "SylinderSystem")])
prop("C18", "Restart continues from the saved snapshot without loss",
     """Restarting from the last written snapshot restores every particle (id, group, sizes, immovable flag, position, axis direction, velocity to stored precision), every link, the
     step counter, the snapshot counter and a new random seed different from the previous ones; the next step and snapshot numbers follow the saved ones and no existing snapshot
     is overwritten. A deterministic run that is interrupted and restarted follows the uninterrupted run up to the precision of the stored fields, on any number of ranks.""",
     ["histories", "configurations"], "all run lengths, restart points, link sets and rank counts",
     "No existing test performs a restart.",
     ["Sylinder/SylinderSystem.cpp"], [("writeResult/writeTimeStepInfo, reinitialize, setInitialFromVTKFile, setLinkMapFromFile", "SylinderSystem")])
prop("C19", "Adding particles and links keeps ids unique and all ranks consistent",
     """Any sequence of additions of particles from any ranks gives each new particle a fresh id unique over all ranks, returned to the caller in the
     order of its particles, and leaves existing particles and ids unchanged. Added links are known identically on all ranks whichever rank added them, in forward and reverse
     direction, each link once, and links added produce exactly one spring constraint per link between the plus end of the first and the minus end of the second particle, at the
     nearest periodic image.""",
     ["histories", "inputs", "configurations"], "all sequences of additions over ranks",
     "The API test is not built here and checks nothing automatically.",
     ["Sylinder/SylinderSystem.cpp"], [("getMaxGid, addNewSylinder, addNewLink, collectLinkBilateral", "SylinderSystem")])
prop("C20", "A crash while writing never leaves an unusable restart point",
     """If the program stops at any point while a snapshot is being written, the restart record still names a complete, readable snapshot that
     was written before it: either the previous one or the new one, never a torn record and never one whose data files are missing or incomplete. This holds also for a run that was itself restarted from what a crash left, crashing again.""",
     ["crash_points", "histories"], "every prefix of the file operations of a snapshot, on any rank",
     "Tests do not crash the program.",
     ["Sylinder/SylinderSystem.cpp"], [("writeResult, writeTimeStepInfo", "SylinderSystem")])
prop("C21", "Configuration values reach the run unchanged; missing ones are handled",
     """Every parameter given in the configuration file is used with exactly the given value, every optional parameter that is absent takes its documented default
     independently of the others (initial box defaults to the simulation box, timer level to log level), boundaries are built in order with their own settings, and a missing required parameter or a
     wrong array size stops the program with an error instead of running with garbage.""",
     ["configurations"], "all subsets of present/absent parameters and values",
     "Existing tests use a single configuration file.",
     ["Sylinder/SylinderConfig.cpp", "Util/YamlHelper.hpp", "Boundary/Boundary.cpp"], [("SylinderConfig(std::string)", "Sylinder/SylinderConfig.cpp"), ("readConfig", "Util/YamlHelper.hpp")])
prop("C22", "Periodic image lies in the box and differs by whole box lengths",
     """The periodic image of any coordinate lies in [low, high), differs from it by a whole number of box lengths (to rounding), and a coordinate already in the box is unchanged. The
     closest-image form moves the target into the box the same way and returns the image of x that is within half a box length of it.""",
     ["inputs"], "all boxes and coordinates", "No test built here calls these functions.",
     ["Util/GeoUtil.hpp"], [("findPBCImage", "Util/GeoUtil.hpp")])
prop("C23", "Random streams of ranks and threads never overlap and are reproducible",
     """For a given seed, number of ranks and number of threads, every thread of every rank draws from its own disjoint part of one random sequence, so no underlying
     random number is used twice, across uniform, normal and log-normal draws; the same seed reproduces the same draws, and values lie in the documented ranges with the requested
     log-normal parameters.""",
     ["configurations", "schedules", "histories"], "all rank/thread layouts and draw sequences",
     "The TRngPool test is not built here.",
     ["Util/TRngPool.hpp"], [("stream partition by leapfrog", "TRngPool")])
prop("C24", "Distributing and collecting points preserves order and content",
     """Distributing points from the ranks and collecting them again on rank 0 or on all ranks preserves every value in rank order, keeps the components of each point
     together, and balances the counts to within one point, for any number of points (including fewer than ranks) and components; shifting and scaling, fixed and random point generation stay inside the requested box.""",
     ["inputs", "configurations"], "all point counts, dimensions and rank counts",
     "No test covers these utilities.",
     ["Util/PointDistribution.cpp"], [("distributePts, collectPts, collectPtsAll", "Util/PointDistribution.cpp")])
prop("C25", "Results do not depend on the thread schedule; no data races",
     """Parallel loops of the library never let two threads access the same memory location with one of them writing, unless synchronised, and their
     results (as sets, up to rounding of reductions) are the same for every order in which threads execute their shares and for every number of threads.""",
     ["schedules"], "all orders of thread execution",
     "Tests run whatever schedule happens.",
     ["Sylinder/SylinderSystem.cpp", "Sylinder/SylinderNear.hpp", "Constraint/ConstraintCollector.cpp", "Util/SortUtil.hpp", "Constraint/BCQPSolver.cpp"],
     [("per-thread constraint queues, OpenMP loops", "all parallel regions")])
prop("C26", "Collision stress of a contact follows the virial plus torque formula",
     """The stress recorded for a contact or link with unit force is the virial of the equal and opposite contact forces at the two centres plus the
     contribution of the contact torques through the bodies' inertia tensors; it depends only on relative positions, is covariant under rotations, does not depend on the order of
     the two bodies, and reduces to the centre-to-centre dyad for spheres. The summed stress counts each two-sided constraint once, separately for contacts and links, whatever the distribution over threads; the
    reported system stress is the sum over all ranks, divided by the number of particles and the thermal energy.""",
     ["inputs", "schedules"], "all contact geometries and distributions over queues",
     "The stress tests are not built here.",
     ["Sylinder/SylinderNear.hpp", "Constraint/ConstraintCollector.cpp"], [("collideStress", "CalcSylinderNearForce"), ("sumLocalConstraintStress", "ConstraintCollector")])
prop("C27", "Distributed maps and vectors preserve layout and values",
     """Maps built from local sizes are contiguous, in rank order and cover all entries exactly once, including ranks with no entries; maps built from owned indices own exactly these in
     the given order; two-block maps put on each rank its entries of the first block and then those of the second, the second numbered after all of the first. Vectors built from local
     data, or from two vectors as blocks, hold exactly these values in place, independently of later changes of the source. Dumped vectors and matrices list every global entry once, in
     order, with its value, whatever the distribution, and the operator interface for iterative solvers applies the operator in the requested mode.""",
     ["inputs", "configurations"], "all local size patterns and rank counts",
     "The TMAP/TpetraUtil tests print results only.",
     ["Trilinos/TpetraUtil.cpp", "Trilinos/TpetraUtil.hpp"], [("getTMAPFromLocalSize, getTVFromVector and others", "Trilinos/TpetraUtil.cpp")])
prop("C28", "Step loop: snapshots on schedule, monolayer stays flat, fixed stays fixed",
     """For every time step and snapshot interval the run writes a snapshot at step 0 and then exactly every snapshot interval (counted in whole time steps, at least one), numbered consecutively, holding the
     configuration before the step moves it, labelled with that step's time and recorded with that step and number in the restart record. In monolayer mode all centres stay on the mid plane and all axes in the plane after preparing a step, and no force, velocity or Brownian motion moves them out of it; with fixed
     particles no step moves anything.""",
     ["configurations", "histories"], "all dt/timeSnap pairs and mode flags, step sequences",
     "No test runs the step loop.",
     ["Sylinder/SylinderSystem.cpp"], [("getIfWriteResultCurrentStep, prepareStep, runStep, stepEuler, calcVelocityNonCon", "SylinderSystem")])
prop("C29", "Reported totals equal the sum of parts; observables match definitions",
     """After each step every particle's velocity is the sum of its non-Brownian, Brownian, collision and bilateral parts and its force the sum of its
     non-Brownian, collision and bilateral parts, with the non-Brownian velocity equal to mobility times given force plus given velocity (in a monolayer: its in-plane components), the collision and bilateral forces equal to the sum over the particle's constraints and their velocities to mobility times force, and nothing left over from previous steps; the particle moves and turns by its velocity and angular velocity times the time step. The bounding box is the exact
     component-wise extent of all particle ends over local and all particles, wherever they are; the reported polar and nematic order is the average over all particles, and
     the reported volume and volume fraction are those of the particles' spherocylinders.""",
     ["inputs", "configurations", "histories"], "all inputs to a step, rank counts and step sequences",
     "No test compares the decomposition.",
     ["Sylinder/SylinderSystem.cpp"], [("calcVelocityNonCon, saveForceVelocityConstraints, sumForceVelocity, calcBoundingBox, calcOrderParameter", "SylinderSystem")])
prop("C30", "Deterministic dynamics are independent of rank count and thread count",
     """Without Brownian motion, the same initial particles, links, boundaries, external forces and parameters give the same trajectories (to solver tolerance) for every number of MPI
     ranks and threads.""",
     ["configurations", "schedules"], "all rank and thread counts for a set of systems",
     "Tests never compare runs of different parallel layouts.",
     ["Sylinder/SylinderSystem.cpp", "Constraint/", "FDPS/"], [("whole step pipeline", "SylinderSystem::runStep")])
prop("C31", "Initial configuration honours the file or the configured distribution",
     """Particles read from a text file have exactly the given id, group (-1 if absent), type and radius, the centre, length and direction of the given end points to rounding (periodic centres up to whole box lengths), and links are the
     listed ones on every rank; particles generated from the configuration
     are the requested number with ids 0..N-1, spread uniformly inside the initial box (inside the inscribed circle in the y-z cross section when requested), have the requested radius, the requested length (random ones positive and below half
     the smallest box edge), and the direction of the configured vector, whose components outside [-1,1] are random; without any fixed component directions are uniform. A configured vector of zeros has no direction and is not meant.""",
     ["inputs", "configurations"], "all files and configurations",
     "No test checks the initial state.",
     ["Sylinder/SylinderSystem.cpp", "Util/GeoUtil.hpp"], [("setInitialFromFile, setInitialFromConfig, setInitialCircularCrossSection, getOrient", "SylinderSystem")])
prop("C32", "Gauss-Legendre rules integrate polynomials exactly up to degree 2N-1",
     """For every supported number of nodes N from 1 to 128 the tabulated rule has N ordered nodes symmetric in (-1,1), positive symmetric weights, and integrates every polynomial up to degree 2N-1 exactly to double precision.""",
     ["inputs"], "all N from 1 to 128", "No test uses the tables.",
     ["Util/Gauss_Legendre_Nodes_and_Weights.hpp"], [("Gauss_Legendre_Nodes_and_Weights", "Util/Gauss_Legendre_Nodes_and_Weights.hpp")])
prop("C33", "Brownian velocity obeys fluctuation-dissipation",
     """For every particle shape, orientation, viscosity, temperature and time step the Brownian velocity is linear in independent random numbers with covariance 2 kBT/dt times the
     particle's mobility (translation: parallel and perpendicular, rotation: isotropic, no coupling between them), up to a correction that vanishes with the time step and has zero mean;
     different particles on any ranks and threads are uncorrelated, and it is exactly zero for immovable particles and without temperature. It enters the particle velocity exactly once.""",
     ["inputs", "configurations"], "all shapes, orientations, physical parameters, rank and thread counts",
     "No test evaluates the Brownian velocity; its moments need all noise components separately.",
     ["Sylinder/SylinderSystem.cpp", "Util/TRngPool.hpp"], [("calcVelocityBrown, calcVelocityNonCon", "Sylinder/SylinderSystem.cpp")])

TECH = {
    "model_checking": "model checking of the implementation: exhaustive bounded exploration of operation sequences / configurations / schedules of the real code against a reference model",
    "exploration": "bounded exhaustive enumeration (explicit-state, stateless) of executions of the real code against a reference model",
    "fault_enumeration": "exhaustive enumeration of crash points of the real code with recovery checked at each",
}
if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["rec"]) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["rec"]["id"]
        if pid in SPECS:
            s = SPECS[pid]
            checks.append(dict(property=pid, quick_cmd="python3 check.py %s" % pid,
                               thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % pid,
                               technique=s.get("technique", TECH[s["level"]]), level=s["level"],
                               level_note=s.get("note", "exhaustive within: " + s["bound"])))
        else:
            na.append(dict(property=pid, reason=p["na"] or "not claimed yet: the machinery for it is not built"))
    m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
             notes="Every check rebuilds its harness from /repo's working tree. No hooks are used in /repo.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "unclaimed")

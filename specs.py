"""What each check builds and runs."""
C = "/opt/vp/compat"
COMMON = ("-std=c++14 -fopenmp -DNDEBUG -w -I@REPO@ -I@V@/lib -I@V@/stubs -isystem /usr/include/eigen3 "
          "-isystem /usr/include/trilinos -isystem /usr/include/vtk-9.1 -include " + C + "/trilinos13.hpp ")
FLAGSETS = {
    "plain": ("mpicxx", "-O2 -g1 " + COMMON),
    # every memory access of the code under test calls the recorder of lib/omprt.cpp
    "race": ("mpicxx", "-O1 -g1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -DPARTICLE_SIMULATOR_THREAD_PARALLEL "
             "-DPARTICLE_SIMULATOR_MPI_PARALLEL " + COMMON),
    "omprt": ("g++", "-std=c++17 -O2 -g1 -w -fno-builtin -I@V@/lib"),
    "fdps": ("mpicxx", "-O1 -g1 -DPARTICLE_SIMULATOR_THREAD_PARALLEL -DPARTICLE_SIMULATOR_MPI_PARALLEL " + COMMON),
}
_T = ("-L/usr/lib/x86_64-linux-gnu -ltrilinos_tpetra -ltrilinos_belostpetra -ltrilinos_belos -ltrilinos_kokkoskernels -ltrilinos_kokkoscore "
      "-ltrilinos_tpetraclassic -ltrilinos_teuchoscomm -ltrilinos_teuchoscore -ltrilinos_teuchosnumerics "
      "-ltrilinos_teuchosparameterlist -ltrilinos_teuchosremainder -ltrilinos_teuchoskokkoscompat "
      "-ltrilinos_teuchoskokkoscomm -Wl,-rpath," + C + " " + C + "/libtpetra_int_int.so -lblas -llapack")
_VTK = "-lvtkIOXML-9.1 -lvtkIOXMLParser-9.1 -lvtkCommonExecutionModel-9.1 -lvtkCommonDataModel-9.1 -lvtkCommonCore-9.1 -lvtksys-9.1"
WRAP = ("GOMP_parallel GOMP_barrier GOMP_critical_start GOMP_critical_end GOMP_critical_name_start GOMP_critical_name_end GOMP_atomic_start "
        "GOMP_atomic_end GOMP_single_start GOMP_loop_end GOMP_loop_end_nowait GOMP_parallel_sections GOMP_sections_start GOMP_sections_next "
        "GOMP_sections_end GOMP_sections_end_nowait GOMP_task GOMP_taskwait omp_get_thread_num omp_get_num_threads omp_get_max_threads "
        "omp_in_parallel omp_set_lock omp_unset_lock pthread_mutex_lock pthread_mutex_unlock __cxa_guard_acquire __cxa_guard_release "
        "__cxa_guard_abort free realloc memcpy memmove memset").split()
for _k in ["dynamic", "nonmonotonic_dynamic", "guided", "nonmonotonic_guided"]:
    WRAP += ["GOMP_loop_%s_start" % _k, "GOMP_loop_%s_next" % _k, "GOMP_loop_ull_%s_start" % _k, "GOMP_loop_ull_%s_next" % _k,
             "GOMP_parallel_loop_%s" % _k]
LIBSETS = {
    "none": "-fopenmp",
    "tri": "-fopenmp " + _T,
    "all": "-fopenmp " + _T + " " + _VTK + " -lyaml-cpp",
    "yaml": "-fopenmp -lyaml-cpp",
    "sys": "-fopenmp " + _T + " " + _VTK + " -lyaml-cpp -ltrilinos_zoltan",
    "race": " ".join("-Wl,--wrap=" + f for f in WRAP) + " -fopenmp " + _T + " " + _VTK + " -lyaml-cpp -ltrilinos_zoltan",
    "zoltan": "-fopenmp " + _T + " -ltrilinos_zoltan",
}
REPOSETS = {
    "geo": [],
    "base64": ["Util/Base64.cpp"],
    "sylinder": ["Sylinder/Sylinder.cpp", "Util/Base64.cpp"],
    "boundary": ["Boundary/*.cpp"],
    "config": ["Sylinder/SylinderConfig.cpp", "Boundary/*.cpp"],
    "constraint": ["Constraint/*.cpp", "Trilinos/*.cpp", "Util/Base64.cpp"],
    "cpsolver": ["Collision/*.cpp"],
    "tutil": ["Trilinos/TpetraUtil.cpp"],
    "points": ["Util/PointDistribution.cpp"],
    "system": ["Sylinder/*.cpp", "Boundary/*.cpp", "Constraint/*.cpp", "Trilinos/*.cpp", "Util/*.cpp", "MPI/*.cpp"],
}
BASE_ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive", "LC_ALL": "C.UTF-8", "HOME": "/root",
}
BINS = {
    "c01_dcp": dict(src=["harness/c01_dcp.cpp"], flags="plain"),
    "c03_boundary": dict(src=["harness/c03_boundary.cpp"], repo=["boundary"], flags="plain", libs="yaml"),
    "c11_sort": dict(src=["harness/c11_sort.cpp"], flags="plain"),
    "c13_base64": dict(src=["harness/c13_base64.cpp"], repo=["base64"], flags="plain"),
    "c22_pbc": dict(src=["harness/c22_pbc.cpp"], flags="plain"),
    "c15_rot": dict(src=["harness/c15_rot.cpp"], repo=["sylinder"], flags="fdps", libs="none"),
}
BINS["c32_gauss"] = dict(src=["harness/c32_gauss.cpp"], flags="plain")
BINS["c10_comm"] = dict(src=["harness/c10_comm.cpp"], flags="plain")
BINS["c09_zdd"] = dict(src=["harness/c09_zdd.cpp"], flags="plain", libs="zoltan")
BINS["c24_points"] = dict(src=["harness/c24_points.cpp"], repo=["points"], flags="plain")
BINS["c12_mix"] = dict(src=["harness/c12_mix.cpp"], flags="fdps")
for _n in ["c02_pairs", "c26_stress", "c04_walls", "c16_mob", "c33_brown", "c28_steps", "c29_parts", "c07_step", "c17_domain", "c19_add", "c31_init", "c14_files", "c20_crash", "c18_restart", "c30_layout"]:  # harnesses that drive the whole SylinderSystem
    BINS[_n] = dict(src=["harness/%s.cpp" % _n], repo=["system"], flags="fdps", libs="sys")
BINS["c25_threads"] = dict(src=["harness/c25_threads.cpp", ("lib/omprt.cpp", "omprt")], repo=["system", "cpsolver"], flags="race", libs="race")
BINS["c06_bcqp"] = dict(src=["harness/c06_bcqp.cpp"], repo=["constraint"], flags="plain", libs="tri")
for _n in ["c05_assembly", "c07_solve"]:
    BINS[_n] = dict(src=["harness/%s.cpp" % _n], repo=["constraint"], flags="plain", libs="tri")
BINS["c08_lcp"] = dict(src=["harness/c08_lcp.cpp"], repo=["cpsolver", "tutil"], flags="plain", libs="tri")
BINS["c21_config"] = dict(src=["harness/c21_config.cpp"], repo=["config"], flags="fdps", libs="yaml")
BINS["c27_maps"] = dict(src=["harness/c27_maps.cpp"], repo=["tutil"], flags="plain", libs="tri")
BINS["c23_rng"] = dict(src=["harness/c23_rng.cpp"], flags="plain")
SPECS = {}


def spec(pid, **k):
    SPECS[pid] = k


spec("C01", level="exploration",
     rule="every P0=0,P1,Q0,Q1 on the integer lattice [-n,n]^3 under 13 affine images (scale, offset, shear, near-parallel "
          "perturbation, one segment scaled by 1e-7, 1e-4 or shortened/lengthened by 10^3 and 10^5); a case (P1,Q0,image) with all Q1 is non-trivial because Q1 ranges over parallel, crossing, "
          "touching and degenerate segments",
     bound="n=2 (quick), n=3 for the unit image (thorough)",
     jobs=[dict(bin="c01_dcp")])

spec("C03", level="exploration",
     rule="every query point of 4 lattices around each of the sphere/wall/tube geometries (3 centres, 7 directions, 4 "
          "radii, inside/outside, built from YAML or by constructor); includes centre, axis, surface and near-surface "
          "points; every case is non-trivial (a projection is computed and compared with the exact distance)",
     bound="lattice half width 3 (quick), 6 (thorough)",
     jobs=[dict(bin="c03_boundary")])

spec("C11", level="exploration",
     rule="every tag sequence up to length 6 (8 thorough) over 4 values, all arithmetic tag patterns up to length 4099, "
          "all placements of two marked tags among equal ones, 5 tag types; non-trivial when the order changes",
     bound="lengths and alphabets as in the rule; 1 and 4 OpenMP threads",
     jobs=[dict(bin="c11_sort"), dict(bin="c11_sort", omp=4)])

spec("C13", level="exploration",
     rule="all byte strings of length <= 2, all (quick: every third last byte) of length 3, all byte values at spread "
          "positions for lengths to 70, arrays of every length to 70 (200) of 5 element types incl. NaN/inf/extremes; "
          "each compared with an RFC 4648 reference and decoded back",
     bound="as in the rule",
     jobs=[dict(bin="c13_base64")])

spec("C22", level="exploration",
     rule="9 boxes x lattice points, floating point neighbours of every box edge and half point, tiny offsets; all pairs "
          "for the closest image form; non-trivial when the point starts outside the box or a pair is formed",
     bound="3 box lengths on either side densely, 123 box lengths sparsely",
     jobs=[dict(bin="c22_pbc")])

spec("C15", level="exploration",
     rule="every lattice quaternion x every angular velocity direction of {-1,0,1}^3 x 7 magnitudes x 5 time steps, "
          "20000-step chains, helper matrices, midpoint lattices of the unit cube; non-trivial when the angle is not zero",
     bound="quaternion lattice |q|_1 <= 3 (quick), [-2,2]^4 (thorough)",
     jobs=[dict(bin="c15_rot")])

spec("C02", level="exploration",
     rule="two-particle sets: all ordered shape pairs x collision size ratios x placements (box corner, upper corner, middle) x "
          "displacement directions at distances just inside/outside the threshold x 8 periodicities; crowds of 3-150 particles of 4 "
          "shape mixes, 5 ratios, two box sizes (one shorter than the longest particle), 8 periodicities, twice per system; triples with a particle "
          "on a face, edge or corner of 6 boxes (125 combinations of faces and their neighbouring doubles) x 8 periodicities x 4 displacements; "
          "non-trivial when at least one pair must be collected",
     bound="3 ratios and 7 directions (quick), 5 and 26 (thorough); rank x thread layouts 1x1, 1x4, 2x2, 3x1, 4x1 (thorough 4x2, 6x1)",
     jobs=[dict(bin="c02_pairs"), dict(bin="c02_pairs", omp=4), dict(bin="c02_pairs", np=2, omp=2), dict(bin="c02_pairs", np=3),
           dict(bin="c02_pairs", np=4), dict(bin="c02_pairs", np=4, omp=2, thorough_only=True), dict(bin="c02_pairs", np=6),
           ])

spec("C09", level="model_checking",
     rule="all pairs of ownership maps of 3-4 ids over the ranks (build, lookup, rebuild with other owners and data, lookup) x request "
          "patterns (none, all, reversed with duplicates, one rank only), partial rebuilds for every subset, 17-1000 ids in five "
          "layouts; three data sizes, three id ranges; every lookup is compared with a plain map",
     bound="4 ids on 1-2 ranks, 3 ids on 3-4 ranks, histories of 2-3 build/lookup rounds",
     jobs=[dict(bin="c09_zdd"), dict(bin="c09_zdd", np=2), dict(bin="c09_zdd", np=3), dict(bin="c09_zdd", np=4),
           dict(bin="c09_zdd", np=6, thorough_only=True)])

spec("C10", level="model_checking",
     rule="every send-count matrix with entries 0..5 on 1-2 ranks, 0..2 on 3 ranks, sparse ones on 4 and 6 ranks, in three sending "
          "orders, every destination sequence up to length 4/3/2 on every rank and pair of ranks, large uneven exchanges; 4 item sizes; one CommMPI "
          "object and the same receive buffers through the whole history",
     bound="as in the rule; 1 and 2 threads",
     jobs=[dict(bin="c10_comm"), dict(bin="c10_comm", np=2), dict(bin="c10_comm", np=3), dict(bin="c10_comm", np=4),
           dict(bin="c10_comm", np=2, omp=2), dict(bin="c10_comm", np=6)])

spec("C24", level="exploration",
     rule="all point counts 0..40 (200) x 1..7 components distributed and collected to one/all ranks, all tuples of local sizes, "
          "generated and scaled points for 4 boxes x 5 shifts, filled vectors for 20 (200) seeds",
     bound="1-6 ranks",
     jobs=[dict(bin="c24_points", np=n) for n in (1, 2, 3, 4, 5, 6)])

spec("C32", level="exploration",
     rule="every N from 1 to 128 x every degree 0..2N-1 in monomial and Legendre basis, nodes and weights against a long double "
          "Newton iteration, three number types, output vectors empty, larger or smaller before; every case is non-trivial",
     bound="complete: N is limited to 128 by the library",
     jobs=[dict(bin="c32_gauss")])

spec("C12", level="exploration",
     rule="one target (3 ranges) on every lattice point against single sources and against all lattice sources (3 ranges up to beyond the box "
          "length) x 8 periodicities; single sources and targets that have left the periodic box; crowds of four shapes in nine growing and shrinking sizes incl. empty sets; fresh and reused "
          "calculators; counts, weights and displacement sums of every target are compared with all pairs and images; non-trivial "
          "when a pair is in range",
     bound="4^3 (quick) or 5^3 lattice; 1-4 and 6 ranks",
     jobs=[dict(bin="c12_mix"), dict(bin="c12_mix", np=2), dict(bin="c12_mix", np=3), dict(bin="c12_mix", np=4),
           dict(bin="c12_mix", np=2, omp=2), dict(bin="c12_mix", np=6, thorough_only=True)])

spec("C26", level="exploration",
     rule="contact pairs: all ordered pairs of 6 shapes x axis directions x 124 separations, each also with exchanged ids, translated and rotated; "
          "block sums: every assignment of 4 block kinds to up to 4 (5) blocks and of blocks to 1-4 thread queues; whole systems with "
          "links, walls and all periodicities: every block after the solve and the reported totals; non-trivial when a stress is non-zero",
     bound="as in the rule; quick: every third separation and fewer direction pairs; 1-4 ranks, 1-4 threads",
     jobs=[dict(bin="c26_stress"), dict(bin="c26_stress", omp=4), dict(bin="c26_stress", np=2, omp=2), dict(bin="c26_stress", np=3),
           dict(bin="c26_stress", np=4, thorough_only=True)])

spec("C06", level="exploration",
     rule="every symmetric positive definite matrix of the lattices (n=1..3) x right hand sides {-1.5,0,1}^n x 8 bound patterns per component "
          "(free, half-bounded, narrow, far away) x 4 initial guesses x 2 solvers x full and truncated runs, compared with the active-set "
          "solution; scaled problems up to 60 unknowns; the empty problem; every case is non-trivial",
     bound="n=2: every 7th (all), n=3: every 701st (31st) combination; 1-4 ranks with all local size patterns, strided; 1-2 threads",
     jobs=[dict(bin="c06_bcqp"), dict(bin="c06_bcqp", np=2), dict(bin="c06_bcqp", np=3), dict(bin="c06_bcqp", np=4, thorough_only=True),
           dict(bin="c06_bcqp", np=2, omp=2)])

spec("C08", level="exploration",
     rule="every symmetric positive definite matrix of the lattices (n=1..3) x right hand sides {-1.5,-0.01,0,1,30}^n x 5 initial guesses x 5 solver "
          "choices (mmNewton, APGD, BBPGD, and each gradient solver followed by Newton) x 4 tolerances, full and truncated runs, compared with the "
          "active-set solution; scaled problems up to 60 unknowns; the empty problem; every case is non-trivial",
     bound="n<=2: all, n=3: every 97th (7th) combination; 1-4 ranks with all local size patterns, strided; 1-2 threads",
     jobs=[dict(bin="c08_lcp"), dict(bin="c08_lcp", np=2), dict(bin="c08_lcp", np=3), dict(bin="c08_lcp", np=4, thorough_only=True),
           dict(bin="c08_lcp", omp=2)])

spec("C05", level="exploration",
     rule="every list of up to one block, and strided lists of two and three blocks, over (rank, thread queue, bodies, kind) x all distributions of 3 "
          "particles over the ranks x 1-3 queues, plus crowds of up to 300 blocks on 40 particles in four distributions; each: every entry of D^T and D, all "
          "vectors, the composite operator, writing back; non-trivial when there is a block",
     bound="1-4 ranks, 1-7 queues; two- and three-block lists strided to about 900 (12000) per layout",
     jobs=[dict(bin="c05_assembly"), dict(bin="c05_assembly", np=2), dict(bin="c05_assembly", np=3), dict(bin="c05_assembly", omp=4),
           dict(bin="c05_assembly", np=4, thorough_only=True)])

spec("C07", level="exploration",
     rule="graphs of up to 4 contacts, wall contacts, springs and rigid links on 1-3 bodies x 4 gaps each x 4 velocity fields x 2 solvers x time steps x "
          "initial guesses x mobilities x layouts over ranks and queues, full and truncated solves, crowds of up to 14 constraints; whole steps of the system with 1-22 bodies (contacts, "
          "links, 0-4 boundaries, 3 time steps x 3 viscosities x 3 stiffnesses x loads x solvers, two steps each) from the reported velocities; non-trivial when "
          "there is a constraint",
     bound="up to one constraint complete, two to four strided to about 900 (12000) graphs each; 1-4 ranks",
     jobs=[dict(bin="c07_solve"), dict(bin="c07_solve", np=2), dict(bin="c07_solve", np=3), dict(bin="c07_solve", np=4, thorough_only=True),
           dict(bin="c07_solve", np=2, omp=2, thorough_only=True),
           dict(bin="c07_step"), dict(bin="c07_step", np=2, omp=2), dict(bin="c07_step", np=3)])

spec("C04", level="exploration",
     rule="9 boundaries (spheres, walls, tubes, both sides) x 26 surface directions x 26 axis directions (every fourth) x 12-13 signed distances around "
          "the surface, contact and buffer thresholds x 6 shapes x 4 collision size/buffer settings; every list of up to three of six boundaries over "
          "crowds and nearly empty systems; non-trivial when a boundary is present",
     bound="as in the rule (quick: every third surface direction, every fifth list of three); rank x thread layouts 1x1, 1x4, 2x2, 3x1, 4x1",
     jobs=[dict(bin="c04_walls"), dict(bin="c04_walls", omp=4), dict(bin="c04_walls", np=2, omp=2), dict(bin="c04_walls", np=3),
           dict(bin="c04_walls", np=4)])

spec("C16", level="exploration",
     rule="drag of 7 radii x 15 aspect ratios x 5 viscosities; systems of 1-9 particles over all shape pairs, orientations, immovable patterns, periodicities: "
          "the whole mobility matrix is read out by unit loads and the velocity of given forces followed over two steps; immovable triples in contact, "
          "linked, at a wall, with noise, over 3 steps; non-trivial when there are particles",
     bound="as in the rule (quick: a third of the systems of more than two); rank x thread layouts 1x1, 1x4, 2x2, 3x1",
     jobs=[dict(bin="c16_mob"), dict(bin="c16_mob", omp=4), dict(bin="c16_mob", np=2, omp=2), dict(bin="c16_mob", np=3)])

spec("C33", level="model_checking",
     rule="the random numbers are replaced by scripted ones: every draw of every particle is set to +-1 standard deviation alone (and every pair of draws with "
          "all signs) and the response of the whole system recorded; the sum over draws is compared with 2 kBT/dt times the mobility; a state is a system, a transition a noise assignment",
     bound="1-4 (5) particles, 6 shapes, 31 orientations, 3 physical parameter sets, immovable patterns; layouts 1x1, 1x4, 2x2, 3x1",
     jobs=[dict(bin="c33_brown"), dict(bin="c33_brown", omp=4), dict(bin="c33_brown", np=2, omp=2), dict(bin="c33_brown", np=3)])

spec("C28", level="exploration",
     rule="snapshot predicate for 15 time steps x 40 multiples of it as interval (exact and rounded to 12 digits) and intervals below the step, at every step; "
          "whole runs of 3 time steps x 5 (9) intervals x 3 physics: snapshot numbers, content, labels and restart record after every step; monolayers of all "
          "axis directions x 8 periodicities x 3 boxes x forces/velocities/noise/links over 3 steps; fixed systems under all loads; non-trivial when a "
          "snapshot is due or a load acts",
     bound="82 (200) steps; quick: every second monolayer case, 3 of 9 orientation sets; layouts 1x1, 1x4, 2x2, 3x1",
     jobs=[dict(bin="c28_steps"), dict(bin="c28_steps", omp=4), dict(bin="c28_steps", np=2, omp=2), dict(bin="c28_steps", np=3)])

spec("C29", level="model_checking",
     rule="histories of 1-3 steps over 32 step kinds (given force, given velocity, noise, contacts, wall contacts each on/off), flat and free: "
          "every part of every particle's velocity and force after every step against the given loads and the constraint blocks; a state is a history, a "
          "transition a step; bounding box, order and volume of 1-5 (7) particles x 36 box offsets x 6 variants at 3 moments",
     bound="all histories of 1 and 2 steps, every 127th (5th) of 3; layouts 1x1, 1x4, 2x2, 3x1, 4x1",
     jobs=[dict(bin="c29_parts"), dict(bin="c29_parts", omp=4), dict(bin="c29_parts", np=2, omp=2), dict(bin="c29_parts", np=3), dict(bin="c29_parts", np=4)])

spec("C17", level="model_checking",
     rule="every sequence of the operations {apply box, decompose, exchange, prepare step, move to every face/outside pattern, move all to one spot} that keeps "
          "particles in the box before an exchange, on 4 boxes (rounding-prone edges, far from the origin) x 8 periodicities x 1-40 particles; a state is a sequence",
     bound="depth 1-3 complete, every third (all) of depth 4, every 61st (fifth) of depth 5 (every 101st of 6); 1, 2, 3, 4, 6, 8 ranks, 1-4 threads",
     jobs=[dict(bin="c17_domain"), dict(bin="c17_domain", np=2, omp=2), dict(bin="c17_domain", np=3), dict(bin="c17_domain", np=4),
           dict(bin="c17_domain", np=6), dict(bin="c17_domain", np=8)])

spec("C19", level="model_checking",
     rule="every sequence of additions of particles (patterns of counts per rank), additions of links (one rank, all ranks the same, all ranks "
          "different, repeated, reversed) and steps against a reference population and link set; after every operation the ids, the two link maps of every rank "
          "and the spring constraints are compared; link constraints for every lattice of distances in units of the box x periodicity; a state is a sequence",
     bound="sequences to the depth printed in the counters; 1 to 4 ranks, 1-2 threads",
     jobs=[dict(bin="c19_add"), dict(bin="c19_add", np=2, omp=2), dict(bin="c19_add", np=3), dict(bin="c19_add", np=4)])

spec("C27", level="exploration",
     rule="every pattern of local sizes over the ranks (ranks without entries and sizes around and above the chunk of the parallel copy included), every pair of patterns for two-block maps and vectors, every "
          "assignment of up to 8 entries to ranks in ascending and descending order; layout, ownership queries in both directions, values bit for bit, norms over all ranks, dumps read back; non-trivial: more than one "
          "rank or both blocks have entries",
     bound="1, 2, 3, 4, 6 ranks; sizes 0-17 and 1023-5000; dumps for patterns of {0,1,3,4} (2 ranks) and {0,2} (more)",
     jobs=[dict(bin="c27_maps", np=1, omp=4), dict(bin="c27_maps", np=2, omp=2), dict(bin="c27_maps", np=3), dict(bin="c27_maps", np=4), dict(bin="c27_maps", np=6)])

spec("C30", level="exploration",
     rule="whole runs of the real program for every layout of a list of ranks x threads against the same run on one rank and one thread: 22 systems (all periodicities, clusters across "
          "the corner of the box, links, plane and spherical walls, size ratios, monolayer, immovable and fixed particles, both solvers, forces and velocities, initial relaxation, more than 50 "
          "steps so that the domains are rebuilt); after every step position, axis, all velocity parts and constraint forces of every particle are compared; non-trivial: contact forces are present",
     bound="layouts 2, 3, 8 ranks x 1, 4 x 2, 1 x 8, 2 x 3 threads (thorough: 1-8 ranks x 1-8 threads, np x omp <= 8 or so; 46 systems)",
     assumptions=["solver residual 1e-9; positions agree to 1e-6, velocities and relative forces to 1e-4 (observed: 1e-11, 1e-8)",
                  "packings so dense that the constraints cannot be met have no unique motion and are not meant"],
     jobs=[dict(bin="c30_layout", stages=[dict(np=1, args=["--write"]), dict(np=2), dict(np=3), dict(np=8), dict(np=4, omp=2), dict(np=1, omp=8), dict(np=2, omp=3)]),
           dict(bin="c30_layout", thorough_only=True, stages=[dict(np=1, args=["--write"]), dict(np=5), dict(np=6), dict(np=7), dict(np=4), dict(np=3, omp=2), dict(np=2, omp=4),
                                                              dict(np=1, omp=2), dict(np=1, omp=3), dict(np=1, omp=5), dict(np=4, omp=1)])])

spec("C31", level="exploration",
     rule="files: every particle line of a lattice type x group (absent, negative, largest) x radius x length (0, 1e-8 .. 2.5) x 26 directions, with "
          "ids in any order and up to the largest integer, four layouts (tabs, exponents, comments, blank lines, links before, between and after), periodicity with centres outside "
          "the box; generator: every initOrient component in {-1,-0.5,0,0.6,1,random}^3 x box x circle x random length with every random number "
          "scripted (extremes, grid, hash)",
     bound="three fifths of the lattice lines per file (thorough: all), every (seventh on several ranks) generator setting (thorough: all); 1 to 3 ranks, 1-3 threads",
     jobs=[dict(bin="c31_init", omp=3), dict(bin="c31_init", np=2), dict(bin="c31_init", np=3, omp=2)])

spec("C21", level="exploration",
     rule="configuration files written from a table of all parameters: every subset of the 15 optional parameters with distinct values everywhere; every value of a lattice "
          "for every parameter and component x order of the keys x other options present or absent; every one and two missing required parameters, every wrong number of components, "
          "values of the wrong type (in a child process: it has to stop); every list of up to three of six boundaries x order of their keys, every omission in them",
     bound="32768 subsets, 5 (thorough: 31) key orders, block and flow style; fields compared on an object with a known pattern below it",
     jobs=[dict(bin="c21_config")])

spec("C14", level="exploration",
     rule="the writers for every number of pieces 1-5 x pattern of particles and constraint blocks per piece (none, one, many, empty pieces) x field values over all magnitudes, "
          "and snapshots of whole systems (1 to 90 particles x periodicity x links x boundary x written by the step loop, with arbitrary fields, several in a row); read back with the "
          "VTK parallel and serial readers and an independent reader of the text file and of the XML declarations, compared field by field with the particles and blocks of all ranks",
     bound="field values from a hash over 13 decades and special values; 1 to 4 and 8 ranks, 1-3 threads",
     jobs=[dict(bin="c14_files", np=1, omp=3), dict(bin="c14_files", np=2, omp=2), dict(bin="c14_files", np=3), dict(bin="c14_files", np=8)])

spec("C18", level="model_checking",
     rule="histories of the real program: uninterrupted runs of ten systems (links, walls, forces that depend on particle and step, immovable particles, monolayer, noise, size ratios, axes "
          "in all directions) are recorded; from the directory as it was at every snapshot the program is restarted on every number of ranks, with and without the Euler step, continued to the "
          "end, and restarted again from every snapshot the continued run writes; a state is a restored or continued configuration, compared with the recorded one",
     bound="5 to 13 steps, 2 to 5 snapshots, snapshot intervals 1-4, written by 1 to 3 ranks (thorough 6), restarted on 1 to 5 (8)",
     assumptions=["tolerance 1e-5 for what is stored (positions double, velocities and axes single precision), 2e-4 for the continued run"],
     jobs=[dict(bin="c18_restart", stages=[dict(np=1, args=["--write"]), dict(np=1), dict(np=2), dict(np=4, omp=2)]),
           dict(bin="c18_restart", stages=[dict(np=3, omp=2, args=["--write"]), dict(np=3), dict(np=1, omp=3), dict(np=2)]),
           dict(bin="c18_restart", stages=[dict(np=2, args=["--write"]), dict(np=2, omp=2), dict(np=5)]),
           dict(bin="c18_restart", thorough_only=True, stages=[dict(np=6, args=["--write"]), dict(np=6), dict(np=8), dict(np=1, omp=8), dict(np=7)])])

spec("C20", level="fault_enumeration",
     rule="the file operations of every rank during every step of runs of the real program, recorded at the system call level with the MPI operations that order the ranks; "
          "every consistent cut of them (a prefix per rank), and every cut with the last write of a rank shortened, gives one directory a crash can leave: the record in it must be one that "
          "was completed, with all files of that snapshot byte for byte; the model of the file system is compared with the real directory after every step; for every rank and every "
          "operation the directory left when that rank stops there and the others run on until they wait for it is restarted by the real program, which also writes the next snapshot over the remains; the file operations of that restarted run are recorded in turn and every cut of them is judged in the same way",
     bound="1 to 4 ranks (a second crash: 1 to 3), 3 snapshots (4) x 4 systems x 1-2 (3) steps per snapshot",
     assumptions=["the program stops, the operating system does not (no reordering of completed writes)", "MPI collectives order the ranks as the MPI standard requires and no more"],
     jobs=[dict(bin="c20_crash", np=1), dict(bin="c20_crash", np=2), dict(bin="c20_crash", np=3), dict(bin="c20_crash", np=4)])

spec("C23", level="model_checking",
     rule="the real pool of every rank of every job layout (the MPI queries are answered by the harness, TRNG is a stand-in that reports which element of its sequence each "
          "draw uses): all elements used by all ranks and threads must be distinct and of one sequence, twice with the same numbers, by thread id and inside a parallel region; "
          "every interleaving of the draws of three threads up to a depth; the distributions on a grid of the underlying numbers; a state is a layout or an order of draws",
     bound="1-9 ranks x 1-8 threads (thorough: 16 x 16) x 4 seeds x 4 draw patterns; 9^5 orders (thorough: 9^7); 20 log-normal parameter pairs",
     assumptions=["TRNG's split() gives disjoint subsequences, as documented (TRNG is not installed here)"],
     jobs=[dict(bin="c23_rng", omp=2)])

spec("C25", level="model_checking",
     rule="the real code (the whole SylinderSystem, the solvers, collectors, sorting, messages, pair interaction and the particle tree) runs under a "
          "controlled OpenMP runtime: one virtual thread at a time, the scheduler decides at every synchronisation point (region start and end, barriers, "
          "critical sections, atomics, locks, requests for chunks). Every scenario x every order of the threads, running on or alternating; every "
          "region with synchronisation x every schedule up to a preemption bound (depth-first, stateless). Every memory access of every region of every "
          "execution is checked for races (same bytes, two threads, one writes, no common lock, no barrier between), the results of every "
          "schedule and team size against each other. Without races the segments between synchronisation points commute, so the schedules of the "
          "synchronisation points stand for all interleavings",
     bound="20 scenarios; teams of 1, 2, 3, 4, 7 and 16 threads; all permutations up to 4 threads (whole system: 3), rotations and reversals beyond; at most "
           "2 (thorough 3) preemptions per region, 400 (whole system 25) schedules per region, thorough 5000 (150); 1-3 ranks",
     assumptions=["regions inside the numerical libraries (Kokkos, Tpetra, Eigen) run on the real runtime and are not recorded",
                  "accesses made by precompiled libraries are not recorded"],
     jobs=[dict(bin="c25_threads", np=1, omp=1, stages=[dict(args=["--T", "1", "--write"]), dict(args=["--T", "2"]), dict(args=["--T", "3"]),
                                                          dict(args=["--T", "4"]), dict(args=["--T", "7"]), dict(args=["--T", "16"])], timeout=dict(quick=500, thorough=3000)),
           dict(bin="c25_threads", np=2, omp=1, stages=[dict(args=["--T", "1", "--write"]), dict(args=["--T", "2"]), dict(args=["--T", "4"])]),
           dict(bin="c25_threads", np=3, omp=1, stages=[dict(args=["--T", "1", "--write"]), dict(args=["--T", "3"])])])

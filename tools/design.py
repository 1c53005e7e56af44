#!/usr/bin/env python3
"""Regenerates DESIGN.md from specs.py (what is enumerated), properties.jsonl (what is claimed) and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs

HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()

# pid: (oracle / deciding comparison, why the tests cannot decide it, limits and corrected false alarms)
N = {
"C01": ("exact minimum of the quadratic over the square in long double: the four corner/edge problems and the interior critical point; on top of it the "
        "symmetries (exchange, reversal of the segments, both call forms), parameters in [0,1] and points lying on the segments at those parameters",
        "the existing test draws random pairs, which are never parallel, collinear, touching or of zero length",
        "tolerance 1e-6 of the scale; scales 1e-7 to 250, length ratios 1e-5 to 1e3"),
"C02": ("brute force over all pairs and all periodic images, distance by an exact minimiser that is independent of DCPQuery; a multiset of (ids, image) "
        "is compared, then every field of every block",
        "the tree walk depends on the whole distribution, the periodicity, the split over ranks and the number of threads; the tests run one random box",
        "pairs within 1e-9 of the threshold are not judged. Corrected: pairs of two immovable particles are meant to be skipped (the statement says so)"),
"C03": ("closed-form distance to sphere, plane and cylinder in long double; the projected point must be on the surface, at that distance, and delta must point "
        "into the allowed side with the distance as length; `check()` must accept exactly the right answers and reject each perturbed one",
        "the test samples generic points; the centre, the axis, the surface and unnormalised YAML directions need to be hit on purpose", "-"),
"C04": ("the list of end points (or the sphere centre) of every particle against every boundary computed by the reference of C03; exactly one block for every point outside or closer than the buffer, compared field by field",
        "no test collects boundary contacts of a system with collision size ratios, spheres and several boundaries",
        "Corrected: immovable particles have no boundary constraint (statement). Tangential directions on the surface are only required to be a unit normal of the surface"),
"C05": ("dense matrix built from the blocks entry by entry; every entry of the distributed matrix, its transpose, all vectors, the action of the composite operator and the write-back are compared",
        "the layout depends on how blocks fall into thread queues and ranks; tests use one layout", "-"),
"C06": ("enumeration of all 3^n active sets gives the exact minimiser; for larger n a dense solver with residual check of the optimality conditions",
        "the tests solve one random well conditioned problem; guesses at the solution, bounds that touch, semi-bounded and empty problems are never met",
        "tolerance from the requested residual times the condition number; truncated runs only have to be feasible and not worse than the start"),
"C07": ("optimality conditions of the constraint problem recomputed from the blocks and the mobility with dense matrices (gap after the step >= 0, force >= 0, complementarity; spring law; action = reaction; velocities = mobility * force)",
        "there is no test of ConstraintSolver at all", "statement is limited to solved problems (residual below the tolerance)"),
"C08": ("enumeration of the active sets gives the exact solution; residual is recomputed",
        "tests only print the residual", "only the documented solver choices; truncated runs are judged by the returned history"),
"C09": ("a std::map of id to owner's data, updated with every round of the history", "Zoltan hashes ids over ranks: which path runs depends on ids, owners, duplicates and earlier rounds", "looking up an id that was never registered is outside the statement"),
"C10": ("the expected receive list is computed from the whole send matrix (all ranks know all inputs)", "one random exchange in the test; histories on one object, empty ranks and odd record sizes need enumeration", "the send buffer may be permuted, as documented"),
"C11": ("std::stable_sort on pairs", "stability and sizes around the chunk of the parallel sort are not covered by the test", "-"),
"C12": ("all target/source pairs and images by brute force; per target count, id weighted sum and displacement sum", "the test uses one open box with one thread",
        "search radius semantics: the larger of the two ranges (symmetric tree). FDPS cannot handle a system without any particle; that case is excluded"),
"C13": ("independent RFC 4648 encoder/decoder", "round trip tests never compare with the standard nor cover all tail lengths and special floating point values", "-"),
"C14": ("files are read back with VTK's own readers and by an independent parser and compared with the objects of all ranks", "tests write files and nobody reads them", "values in Float32 are compared after rounding to float; block order is free"),
"C15": ("rotation by Rodrigues' formula in long double", "unit length must survive long chains and tiny/huge angles", "-"),
"C16": ("closed-form slender body drag in long double; the operator is read out by unit loads", "tests never look at the mobility", "-"),
"C17": ("set of ids and all fields before/after each operation; position in [low,high) for periodic directions; owner's domain contains it; unchanged modulo the box",
        "the FDPS decomposition samples positions; which branch runs depends on the whole history of domains",
        "particles must be within one box length of the box before an exchange (documented requirement of FDPS). Found and fixed: a particle exactly at -0.0/just below the lower face was wrapped onto the upper face"),
"C18": ("recorded uninterrupted run; per particle comparison of every stored and continued value", "needs a complete directory of another run and several rank counts",
        "noise runs compare only what is stored (the stream is restarted). Corrected: coplanar crossing axes have a discontinuous contact normal, rounding to float flips it, so such lattices are excluded. Found and fixed: restart with another number of ranks looked for the snapshot in the wrong folder"),
"C19": ("reference multiset of ids and set of links; after each operation the maps of all ranks are equal to it", "needs several ranks adding different things in several orders",
        "ids of new particles are only required to be new and unique (they are shuffled with a random device). Found and fixed: link constraints in narrow periodic boxes, duplicate links"),
"C20": ("an abstract file system (directory tree with contents) that replays the recorded system calls; bound to the code by comparing its state with the real directory after every step; what may be recorded is decided by the reference list of completed snapshots; each kind of remaining directory is given to the real program for a restart",
        "no test stops a program in the middle of writing", "the operating system survives; completed writes are not reordered. Found and fixed: the restart record was written before the other ranks had finished, and in place"),
"C21": ("table of parameters written by hand from the documentation", "32768 combinations of optional keys and wrong inputs that must stop the program", "-"),
"C22": ("exact arithmetic on dyadic numbers and neighbouring doubles of all edges", "rounding at the edges decides", "-"),
"C23": ("the stand-in engine reports the absolute index of the element each draw used: indices over all ranks, threads and draws must be disjoint and identical in a second run", "statistical tests cannot see overlap; needs all layouts", "TRNG itself is not installed; its split/jump contract is assumed"),
"C24": ("the global list is known to every rank", "uneven remainders and dimension counts are not sampled", "-"),
"C25": ("(1) vector clocks per virtual thread and a shadow memory of all accesses reported by the compiler's -fsanitize=thread instrumentation: two accesses to one byte, one a write, without a happens-before edge are a race; (2) results after each schedule against the one-thread run",
        "a thread schedule cannot be chosen by a test; benign looking races never fail one",
        "runtime: `lib/omprt.cpp` replaces GOMP_* and omp_* at link time, threads pass a baton, the depth first search enumerates all orders of threads at every synchronisation point up to the preemption bound, and all choices at the first step of each region. "
        "Because race freedom is checked inside each phase, schedules that differ only inside a phase are equivalent and need not be enumerated. Accesses inside libraries that are not compiled here (Trilinos, VTK, MPI) are not seen. "
        "Corrected: the collision buffer before the first step and velocities right after a restart are not results; the order of blocks in a file is free; random ids of new particles are free. Found and fixed: FDPS copied the sorted tree by `omp parallel` without work sharing (every thread wrote everything)"),
"C26": ("the documented formula (virial plus torque term with the inertia integrals) evaluated in long double by direct numerical volume integrals, not by the closed form in the code; translation, rotation and exchange of the bodies", "tests never look at the stress", "-"),
"C27": ("replicated arrays", "one layout in the test", "-"),
"C28": ("integer arithmetic for the snapshot schedule; exact plane and in-plane axis for the monolayer; bitwise equality for fixed systems", "schedule depends on rounding of timeSnap/dt; needs many ratios",
        "found and fixed: intervals that are a rounding error below a multiple, intervals below the step, axes perpendicular to the plane. Corrected: position tolerance for narrow boxes"),
"C29": ("loads are known from the script, constraint forces are summed from the blocks by the harness", "no test reads the parts", "-"),
"C30": ("the same system on one rank and one thread", "tests compare nothing between layouts", "over-packed systems have no unique motion and are excluded; observed agreement 1e-11"),
"C31": ("independent parser / the documented distribution evaluated on the scripted random numbers as sets of allowed values (range, fixed components, circle)", "random placement hides wrong ranges", "the mean of the length distribution is ambiguous in the documentation and is judged only as the documented log-normal parameter"),
"C32": ("Newton iteration in long double and exactness on all monomials", "one digit in a table of 128 rules", "complete"),
"C33": ("sum over noise directions of response times response transposed must be 2kBT/dt times the mobility read out by unit loads; cross terms between draws, particles and translation/rotation must vanish", "a statistical test would need millions of samples for one digit", "the drift correction is judged to first order in its parameter"),
}
out = [HEAD.rstrip() + "\n"]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    pid = p["id"]; s = specs.SPECS[pid]; o, w, l = N[pid]
    lay = []
    for j in s["jobs"]:
        if "stages" in j:
            lay.append("stages " + "+".join("%dx%d" % (t.get("np", 1), t.get("omp", 1)) for t in j["stages"]))
        else:
            lay.append("%dx%d" % (j.get("np", 1), j.get("omp", 1)) + ("(thorough)" if j.get("thorough_only") else ""))
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append("*Level* %s. *Enumerated:* %s.\n*Bound:* %s. *Layouts (ranks x threads):* %s.\n*Oracle:* %s.\n*Why the tests cannot settle it:* %s.%s%s\n" % (
        s["level"], s["rule"].rstrip("."), s["bound"].rstrip("."), ", ".join(lay), o, w,
        "" if l == "-" else "\n*Limits and notes:* " + l + ".",
        "\n*Assumptions:* " + "; ".join(s["assumptions"]) + "." if s.get("assumptions") else ""))
fx = []
for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
    if l.startswith("fixed:"):
        _, pr, c, t = l.strip().split(" ", 3)
        fx.append("* %s (%s): %s" % (pr.split("=")[1], c, t))
tab = ["| planted bug | caught by | needs |", "|---|---|---|"]
sd = os.path.join(V, "seeded")
EXTRA = json.load(open(os.path.join(V, "tools", "catches.json")))
for b in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, b, "meta.json")))
    tab.append("| %s | %s | %s |" % (b, EXTRA["seeded"].get(b, m["property"]), m["needs"].replace("|", "/")))
tab += ["", "| mutant | result |", "|---|---|"]
for k, v in EXTRA["mutants"]:
    tab.append("| %s | %s |" % (k, v))
TAIL = TAIL.replace("@FIXES@", "\n".join(fx)).replace("@TABLE@", "\n".join(tab))
out.append(TAIL.rstrip() + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))

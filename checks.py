"""Registry: which drivers decide which property, and within what bounds."""
SYMS = ["No", "Z2", "U1", "Fermi", "FermiZ2", "FermiU1"]
SCALARS = ["float", "double", "std::complex<float>", "std::complex<double>"]


def short(scalar):
    return {"double": "D", "float": "S", "std::complex<float>": "C", "std::complex<double>": "Z"}[scalar]


def per_symmetry(src, syms=SYMS, scalar="double", prefix="", weights={}, **extra):
    return [dict(name=f"{prefix or src.split('.')[0]}_{s}_{short(scalar)}", src=[src],
                 defs=[f"SYM={s}", f"SCALAR={scalar}"], weight=weights.get(s, 1), **extra) for s in syms]


def other_scalars(src, which=(("No", "float"), ("No", "std::complex<float>"), ("No", "std::complex<double>"), ("U1", "std::complex<double>")), prefix=""):
    return [u for s, scalar in which for u in per_symmetry(src, [s], scalar, prefix)]


MORE = (("No", "float"), ("No", "std::complex<float>"), ("No", "std::complex<double>"), ("U1", "std::complex<double>"), ("FermiU1", "std::complex<float>"))
FEW = (("No", "std::complex<float>"), ("U1", "std::complex<double>"))
CHECKS = {}


def check(id, title, units, quick, thorough, **extra):
    CHECKS[id] = dict(title=title, units=units, bounds=dict(quick=quick, thorough=thorough), **extra)


ALPHABET = "all six symmetries, further scalar types without symmetry and with U1; edges from an alphabet of 3 to 5 sector layouts (dimensions 1 to 3, several charges, both arrows)"
TILES = ["TAT_L1_CACHE=64", "TAT_L2_CACHE=256"]
check("T01", "Reordering edges", per_symmetry("transpose.cpp") + other_scalars("transpose.cpp", FEW) + [
          dict(name=f"transpose_tiled_{s}", src=["transpose.cpp"], defs=[f"SYM={s}", "SCALAR=double"] + TILES) for s in ("No", "U1", "Fermi")],
      ALPHABET + "; rank 0 to 4 (5 without symmetry) with all orders, rank 5 and 6 with richer edges and all orders, plus 15 block shapes at both sides of the large-block switch with all orders",
      "rank to 5 (6 without symmetry), five layouts, three sizes around the switch, all arrows")
check("T02", "Contraction", per_symmetry("contract.cpp") + other_scalars("contract.cpp", MORE),
      ALPHABET + "; ranks 0 to 3 each, every set of shared edges, every edge order, unequal sectors, same-named free edges, reused names; three shared edges; richer edges to rank 5",
      "first tensor to rank 4, all arrows")
check("T03", "Merging and splitting edges", per_symmetry("merge_split.cpp") + other_scalars("merge_split.cpp", FEW),
      ALPHABET + "; rank 0 to 4, every partition into at most two groups with every order, all sign options, then split back; richer edges; rank 5 with up to three groups",
      "rank 5 without fermions, larger alphabets")
check("T04", "Edge operator", per_symmetry("edge_operator.cpp") + other_scalars("edge_operator.cpp", FEW),
      ALPHABET + "; up to 3 elementary edges, of which any run is fused and may be split, one renamed edge, sector cuts, every reversal subset, "
      "every order, fusions of neighbours, all sign exceptions; five edges with two fused, renamed and split ones in every order, fused in every way", "4 elementary edges")
check("T05", "Trace", per_symmetry("trace.cpp") + other_scalars("trace.cpp"),
      ALPHABET + "; 0 to 2 pairs and 0 to 2 free edges (1 with two pairs), every edge order, both ways to write a pair, unequal sectors; three pairs; richer edges",
      "two free edges with two pairs, all arrows")
check("T06", "SVD", per_symmetry("svd.cpp") + other_scalars("svd.cpp"),
      ALPHABET + "; rank 0 to 3, every bipartition, generic, zero and rank-one contents, cut none, 1, 2, 1000; four richer edges and larger matrices with seven cuts", "rank 4")
check("T07", "QR", per_symmetry("qr.cpp") + other_scalars("qr.cpp"),
      ALPHABET + "; rank 0 to 3, every bipartition, both directions, generic, zero and rank-one contents; four richer edges, larger matrices", "rank 4, all four direction letters")
check("T08", "Exponential and identity", per_symmetry("exponential.cpp") + other_scalars("exponential.cpp", MORE),
      ALPHABET + "; 0 to 3 pairs, every edge order, both ways to write the pairs, scales of entries from 0 to 80", "all arrows")
check("T09", "Arithmetic", per_symmetry("arithmetic.cpp") + [
          dict(name=f"arithmetic_{s}_{n}", src=["arithmetic.cpp"], defs=[f"SYM={s}", f"SCALAR={r}", f"SCALAR1={a}", f"SCALAR2={b}"])
          for s, n, a, b, r in (("FermiU1", "DZ", "double", "std::complex<double>", "std::complex<double>"),
                                ("U1", "CS", "std::complex<float>", "float", "std::complex<float>"),
                                ("No", "DS", "double", "float", "double"))],
      ALPHABET + "; rank 0 to 3, operands with equal and permuted edge order, every operator, number on either side, in place, aliased",
      "rank 4")
check("T10", "Value semantics", per_symmetry("cow.cpp"),
      "all six symmetries; three tensors sharing storage in every way, all histories of 3 steps out of 13 ways to derive and 11 ways to write",
      "histories of 4 steps")
check("T11", "Structure and element access", per_symmetry("structure.cpp") + other_scalars("structure.cpp", FEW),
      ALPHABET + "; rank 0 to 4, every block, every element written and read through every accessor", "rank 5")
check("T12", "Binary and text form", per_symmetry("io.cpp") + per_symmetry("io.cpp", ["No", "FermiU1"], "std::complex<double>"),
      "all six symmetries; rank 0 to 3 with empty edges, names up to 1000 characters, numbers of every sign and scale, fresh, used and shared "
      "targets, objects following each other in one stream, singular values with 0 to 3 sectors, and every truncation of every dump of rank up to 2",
      "rank 4")
check("T13", "Shrink and expand", per_symmetry("shrink_expand.cpp") + other_scalars("shrink_expand.cpp", FEW),
      ALPHABET + "; shrink: rank 0 to 3, every position of every subset of edges, with and without the new edge; expand: rank 0 to 2, "
      "0 to 2 new edges of 3 charges and dimension up to 3 at every index, old edge at every place", "rank 4 and 3, 3 new edges")
check("T14", "Multiplication by singular values", per_symmetry("multiple.cpp") + per_symmetry("multiple.cpp", ["FermiU1"], "std::complex<float>"),
      ALPHABET + "; rank 1 to 3, every edge, all direction letters, both operations, trailing sizes 1 to 19", "rank 4")
check("T15", "Conjugation", per_symmetry("conjugate.cpp") + per_symmetry("conjugate.cpp", ["No", "Z2", "FermiU1"], "std::complex<double>"),
      ALPHABET + "; rank 0 to 4, all orders up to rank 3", "rank 5")
check("T16", "Norms, conversions and pointwise functions", per_symmetry("pointwise.cpp") + per_symmetry("pointwise.cpp", ["No", "FermiZ2"], "std::complex<float>"),
      ALPHABET + "; rank 0 to 3; generic, zero, single-element and fractional contents; p = -1 to 4; all four scalar types", "rank 4")
FAKE = ["-I{here}/harness/fakempi"]
check("T17", "MPI", per_symmetry("mpi.cpp", ["No", "U1", "FermiU1"], flags=FAKE),
      "symmetries No, U1, FermiU1; 1 to 5 ranks, every root, programs of 1 or 2 operations (1 above 3 ranks) out of 5, every interleaving of the ranks "
      "at communication calls, every message buffered or not; 6 to 17 ranks with three orderly schedules and (to 9 ranks) every single deviation; roots that are no rank", "7 ranks, programs of 3 operations",
      technique="stateless model checking of schedules: the ranks run as coroutines under a controlled scheduler that replaces MPI; every interleaving and send mode",
      note="MPI itself is replaced by a simulation of its point-to-point semantics (harness/fakempi, harness/mpi_sim.hpp).")
check("T18", "Lazy graphs", [dict(name="lazy", src=["lazy.cpp"])],
      "nine graph shapes of roots, nodes and paths, all histories of 5 operations", "histories of 6 operations",
      technique="bounded exhaustive exploration of operation histories of the real code against a model of every node's value and freshness")
check("T19", "Scratch memory", [dict(name="scratch", src=["scratch.cpp"], weight=4, shards=8)],
      "nested scopes with small buffers, all histories of requests, returns and scope ends, sizes and alignments around the end of the buffer", "longer histories",
      technique="bounded exhaustive exploration of operation histories of the real code with an instrumented upstream")
check("T20", "Names", [dict(name="names", src=["names.cpp"], weight=4, shards=8)],
      "all histories of 6 steps of naming (6 texts), saving, loading and restarting", "histories of 7 steps",
      technique="bounded exhaustive exploration of operation histories of the real code against a model of the table")
check("T21", "Refusals", per_symmetry("invalid.cpp"),
      ALPHABET + "; 16 kinds of inconsistent request at every edge, rank 0 to 3", "rank 4")
check("T22", "Charges and signs", per_symmetry("charge.cpp"),
      "all six symmetries; all triples of up to 11 charges (25 for two-component ones), all permutations, reversals and partitions of up to 4 indices",
      "more charges, 5 indices")


def lattice(src, scalars=("double",), **extra):
    return [dict(name=f"{src.split('.')[0]}_{short(s)}", src=[src], defs=[f"SCALAR={s}"] + extra.pop("defs", []), flags=FAKE, **extra) for s in scalars]


check("T23", "Square auxiliaries", lattice("auxiliaries.cpp", weight=4, shards=8),
      "lattices up to 3x3 (one change: to 4x4, 1x5, 5x1), three sets of bond dimensions, all histories of read, change (with or without unset), read; of two changes; of copying in six ways; "
      "of snapshots; every site, hole, replacement and hint", "lattices up to 4x4, all reads in every scenario")
check("T24", "Sampling", lattice("sampling.cpp", weight=8, shards=12) + [dict(name="sampling_Z", src=["sampling.cpp"], defs=["SCALAR=std::complex<double>", "COMPLEX_SCALAR"], flags=FAKE)],
      "lattices of up to 4 sites with 2 or 3 spins, every configuration, six kinds of symmetric one- and two-body operators; every sequence of random draws of a sweep "
      "(each draw takes every value that can matter), giving the exact transition matrix; histories of up to three observers", "lattices up to 6 sites, finer levels of the random draws, more weights",
      technique="bounded exhaustive exploration: every draw of the random engine is enumerated, so that the transition matrix of the real Markov chain is computed exactly and compared with the distribution",
      note="Complex Markov sampling does not compile in the module, so complex scalars are covered for ergodic sampling only.")
check("T25", "Simple update", lattice("simple_update.cpp", weight=4, shards=12),
      "lattices up to 2x2, 1x3 and 3x1, one- and two-body terms at every place and in both orders, steps; 1 to 4 ranks with every delay-bounded schedule of one deviation",
      "lattices up to 2x3, two deviations",
      technique="bounded exhaustive exploration of inputs, and stateless exploration of the schedules of the ranks (delay bound) on the real code",
      note="MPI is replaced by a simulation of its point-to-point semantics (harness/fakempi, harness/mpi_sim.hpp). Schedules are bounded by deviations from each of several base policies.")
check("T26", "Representations of a state", lattice("states.cpp") + [dict(name="states_Z", src=["states.cpp"], defs=["SCALAR=std::complex<double>", "COMPLEX_SCALAR"], flags=FAKE)],
      "lattices up to 3x3 and 1x5, every conversion between the three representations, every one- and two-body observer at every place in both orders, saving and loading", "the same")


def python(src, symmetries, scalars="", name=None, **extra):
    name = name or src.split(".")[0]
    return [dict(name=name, prepare=["bash {here}/harness/py/build.sh {repo} {work}/module_" + name + " " + symmetries + " " + scalars],
                 run=["env", "VERIF_SYM=" + symmetries, "PYTHONDONTWRITEBYTECODE=1", "PYTHONPYCACHEPREFIX={work}/cache", "PYTHONPATH={work}/module_" + name + ":{repo}:/opt/vp/py",
                      "/usr/bin/python3", "{here}/harness/py/" + src], **extra)]


check("T27", "Python module", sum([python("binding.py", s, name="binding_" + s, shards=8 if "Fermi" in s else 2) for s in SYMS], []),
      "six symmetries, four scalar types; 19 groups of functions, rank 0 to 3; every way of writing edges, charges, positions, blocks and arguments, every order of edges, shared storage or not",
      "more scalar types and combinations of options", technique="bounded exhaustive exploration of calls of the real Python module against a reference model in Python")
check("T28", "Python square auxiliaries", python("square_auxiliaries.py", "No", "D,Z", shards=8),
      "lattices up to 3x3 (one change: to 4x4, 1x5, 5x1); every history of read, change, read; of two changes; of copying; of combining two systems; every site, hole and replacement", "all reads in every scenario, lattices up to 4x3",
      technique="bounded exhaustive exploration of operation histories of the real Python code, against direct contraction of the lattice")
check("T29", "Python square lattices", python("square_lattices.py", "No", "D,Z", shards=8),
      "lattices of up to 4 sites; every operator kind at every place in both orders; every sequence of random draws of a sweep, giving the exact transition matrix; copies and changes in every order",
      "more lattices, operators and steps",
      technique="bounded exhaustive exploration of inputs, histories and random draws of the real Python code; the transition matrix of the chain is computed exactly and compared with the distribution")


def option(name, drivers, syms):
    return [dict(name=f"{name.split('=')[0]}_{d}_{s}", src=[d + ".cpp"], defs=[name, "SYM=" + s, "SCALAR=double"]) for d in drivers.split() for s in syms]


check("T30", "Build options",
      option("TAT_USE_SIMPLE_NOSYMMETRY", "arithmetic conjugate contract cow edge_operator exponential io merge_split multiple pointwise qr shrink_expand structure svd trace transpose invalid", ["No"])
      + option("TAT_USE_SIMPLE_NAME", "conjugate io exponential structure transpose multiple qr", ["Fermi"]) + option("TAT_USE_SIMPLE_NAME", "contract", ["U1"])
      + option("TAT_USE_SINGULAR_MATRIX", "svd multiple io", ["Z2", "Fermi"])
      + option("TAT_USE_VALID_DEFAULT_TENSOR", "cow structure io", ["U1"])
      + option("TAT_USE_TIMER", "exponential transpose", ["FermiZ2"]),
      "the bounds of the drivers of the other properties: all 17 drivers for tensors without symmetry, selected ones for the other options", "their thorough bounds")

"""The properties. gen.py writes properties.jsonl and MANIFEST.json from this file and checks.py."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))


I = "include/TAT/"
prop("T01", "Reordering the edges of a tensor permutes coordinates exactly",
     "Transposing a tensor gives, for every order of its edges, a tensor with exactly the same elements at the permuted coordinates; for "
     "fermionic symmetries each element is multiplied by -1 for every pair of odd indices that changed their relative order. The operand is "
     "unchanged, and transposing back gives the operand again, whatever the rank, the dimensions (including 1) and the size of the blocks.",
     ["inputs"], "every rank, shape, sector layout, edge order, block size and scalar type",
     "the tests transpose a handful of fixed tensors; the copy routine chooses among several strategies by stride, dimension and block size",
     [I + "transpose.hpp", I + "edge_operator.hpp"],
     [("do_transpose and its cache-tiled variants", I + "transpose.hpp"), ("block loop with parity", I + "edge_operator.hpp")],
     ["Tensor::transpose"])
prop("T02", "Contraction equals the defining sum over the paired edges",
     "Contracting two tensors over any set of paired edges gives exactly the sum over equal positions of opposite sectors, with the "
     "fermionic sign that follows from moving the paired edges next to each other; the free edges keep name, shape and arrow, and free edges "
     "that carry the same name in both tensors are paired elementwise (for tensors without symmetry). Sectors present on one side only "
     "contribute nothing, the order in which pairs are listed does not matter, and both operands are unchanged.",
     ["inputs"], "every pair of tensors, every set of pairs, every edge order, arrow and sector layout",
     "the tests contract about ten fixed pairs of tensors; several conjugated edges with many sectors, missing sectors and most orders never occur",
     [I + "contract.hpp", I + "edge_operator.hpp"],
     [("contract_with_fuse / contract_without_fuse", I + "contract.hpp"), ("edge merging in conjugated order", I + "edge_operator.hpp")],
     ["Tensor::contract"])
prop("T03", "Merging and splitting edges are inverse relabelings of coordinates",
     "Merging groups of edges and splitting an edge relabel coordinates one to one: no element is lost, duplicated or changed, apart from the "
     "documented fermionic sign of the fusion and of aligned arrows, which is applied or left out exactly as requested. Splitting a merged edge "
     "into the same parts gives back the original tensor.",
     ["inputs"], "every partition of the edges into groups, every order inside a group, every sector layout, arrow and sign option",
     "the tests merge and split a few fixed tensors with a fixed sign option",
     [I + "edge_operator.hpp", I + "tensor_miscellaneous.hpp", I + "edge.hpp"],
     [("merge_edge / split_edge", I + "edge_operator.hpp"), ("get_merged_edge", I + "edge.hpp")],
     ["Tensor::merge_edge", "Tensor::split_edge"])
prop("T04", "Combined edge operation equals its steps done one by one",
     "One call that renames, splits, cuts sectors, reverses, reorders and merges edges gives the same tensor as performing these steps "
     "separately in that order, with each fermionic sign applied or left out exactly as the options of that step ask; the operand is unchanged.",
     ["inputs"], "every combination of rename, split, cut, reverse, order, merge and sign exceptions on every small tensor",
     "the combined operation is exercised by tests only through a few fixed option combinations",
     [I + "edge_operator.hpp"], [("edge_operator_implement", I + "edge_operator.hpp")], ["Tensor::edge_operator", "Tensor::reverse_edge", "Tensor::edge_rename"])
prop("T05", "Trace equals the sum over the diagonal of each pair of edges",
     "Tracing any set of pairs of edges of one tensor gives exactly the sum over equal positions of opposite sectors, with the fermionic sign "
     "of bringing the two edges of a pair together, independent of how the pairs are written; the remaining edges keep name, shape and arrow "
     "and the operand is unchanged.",
     ["inputs"], "every tensor, pairing, edge order, arrow and sector layout, including sectors present on one side only",
     "the tests trace a few fixed tensors, with one pair or with pairs whose sectors are already in matching order",
     [I + "trace.hpp"], [("trace", I + "trace.hpp")], ["Tensor::trace"])
prop("T06", "SVD reproduces the tensor from isometric factors, and truncation keeps the largest",
     "For every choice of left edges, the two factors and the singular values of a singular value decomposition contract back to the tensor, "
     "the factors are isometric on the new edge, and the singular values are non-negative with the right norm. With a cut, exactly the requested "
     "number of largest non-zero singular values over all sectors is kept (all of them when fewer exist) and every kept value, vector and sector "
     "is consistent between the three results.",
     ["inputs"], "every tensor, bipartition of the edges, order, cut, sector layout and arrow",
     "the tests decompose a few fixed tensors with one or two cuts",
     [I + "svd.hpp", I + "tensor_miscellaneous.hpp"], [("svd, singular value selection", I + "svd.hpp")], ["Tensor::svd", "Tensor::multiple"])
prop("T07", "QR reproduces the tensor from an isometric and a triangular factor",
     "For every choice of edges given to either factor, the two factors of a QR decomposition contract back to the tensor, the Q factor is "
     "isometric on the new edge and the new edge is as small as the shape of each sector allows; the operand is unchanged.",
     ["inputs"], "every tensor, bipartition of the edges, direction (QR or LQ), order, sector layout and arrow",
     "the tests decompose a few fixed tensors", [I + "qr.hpp"], [("qr", I + "qr.hpp")], ["Tensor::qr"])
prop("T08", "Matrix exponential and identity over paired edges",
     "The exponential over a set of edge pairs equals the exponential of the matrix which the pairs define, with all edges, names and sectors of "
     "the operand, for every order of edges and pairs and for small and large entries; setting a tensor to the identity over pairs writes 1 at "
     "the diagonal coordinates and 0 everywhere else, and nothing outside the tensor.",
     ["inputs"], "every number of pairs, edge order, sector layout, scale of the entries and step count",
     "the tests use one or two fixed operators", [I + "exponential.hpp", I + "tensor_miscellaneous.hpp"],
     [("exponential", I + "exponential.hpp"), ("identity", I + "tensor_miscellaneous.hpp")], ["Tensor::exponential", "Tensor::identity"])
prop("T09", "Arithmetic between tensors and numbers acts elementwise at equal coordinates",
     "Adding, subtracting, multiplying and dividing tensors acts on the elements with equal named coordinates, also when the operands list their "
     "edges in different orders; a number combines with every element on the side where it is written; mixed scalar types give the common type. "
     "In-place forms give what the out-of-place forms give, also when both operands are the same object or the number is an element of the tensor, and other operands are unchanged.",
     ["inputs"], "every operator, operand order, edge order, symmetry and combination of scalar types",
     "the tests add two fixed tensors with a fixed edge order", [I + "scalar.hpp", I + "tensor_miscellaneous.hpp"],
     [("operator definitions", I + "scalar.hpp")], ["operator+", "operator-", "operator*", "operator/", "operator+= and the like"])
prop("T10", "Tensors are values: no write through one tensor is visible in another",
     "However tensors were derived from each other by assignment, copying, renaming, conversion, moving or operations that may share storage, "
     "changing one of them through any mutating operation changes no other tensor, and every derived tensor holds what it held when it was made.",
     ["histories"], "every sequence of deriving and writing operations on tensors that share storage",
     "copy-on-write bugs need a particular sequence of derive and write steps; tests check results, not bystanders",
     [I + "tensor.hpp", I + "core.hpp", I + "scalar.hpp", I + "edge_operator.hpp"],
     [("shared core and the copy before a write", I + "tensor.hpp"), ("fast paths which share the core", I + "edge_operator.hpp")],
     ["Tensor::transform", "Tensor::operator=", "Tensor::edge_rename", "Tensor::at", "Tensor::block"])
prop("T11", "A tensor holds exactly the charge-conserving elements, each addressed by its named coordinate",
     "A tensor made from names and edges has exactly the blocks whose charges add up to zero, with the right sizes; writing or reading an element "
     "through any accessor (coordinates by name, block by name, storage) addresses exactly the element with these coordinates whatever the order in "
     "which names are given, and names, edges and the edge lookup are consistent.",
     ["inputs"], "every rank, sector layout, arrow, order of names and element",
     "the tests read a few elements of fixed tensors", [I + "core.hpp", I + "tensor.hpp", I + "edge.hpp", I + "get_item.hpp"],
     [("block initialization", I + "core.hpp"), ("block and offset of a named position", I + "get_item.hpp")],
     ["Tensor::Tensor", "Tensor::at", "Tensor::const_at", "Tensor::block", "Tensor::edges"])
prop("T12", "What is written in binary or text form is read back unchanged",
     "Writing a tensor or singular values in binary form (dump or stream) or text form and reading it back, into any target, gives the same names, "
     "edges, arrows, blocks and numbers (in text: the printed digits); objects written one after another are read back one after another, and tensors "
     "sharing storage with the target keep their contents. A dump cut short anywhere is refused and never passes for a tensor.",
     ["inputs", "crash_points"], "every rank, sector layout, name, number, target and every truncation of a dump",
     "the tests read two fixed texts and a few dumps, never the library's own coloured text of a symmetric tensor or a truncated file",
     [I + "io.hpp"], [("stream operators", I + "io.hpp"), ("dump / load", I + "io.hpp")],
     ["Tensor::dump", "Tensor::load", "Singular::dump", "operator<< and operator>>", "operator< and operator>"])
prop("T13", "Shrink takes exactly the requested slice, expand puts a tensor exactly at the requested position",
     "Shrinking a tensor at positions of some of its edges gives the elements at these positions, with the charge of the slice carried by one new edge "
     "of dimension one (refused when the charge is not zero and no new edge is named). Expanding gives a tensor that holds the operand at the requested "
     "positions of the new edges and zero elsewhere, for new edges of any total charge that matches the edge they replace; other requests are refused.",
     ["inputs"], "every subset of edges, position, charge, arrow, rank and sector layout",
     "the tests shrink one or two fixed tensors; expand with charges is not tested", [I + "shrink_and_expand.hpp"],
     [("shrink", I + "shrink_and_expand.hpp"), ("expand", I + "shrink_and_expand.hpp")], ["Tensor::shrink", "Tensor::expand"])
prop("T14", "Multiplying by singular values scales exactly the named edge",
     "Multiplying a tensor by singular values along an edge multiplies every element by the value that belongs to its sector and position on that edge, "
     "seen from the U or from the V side as requested; division divides by it. Nothing else changes and the operand is unchanged. Norms of and arithmetic on the list of "
     "singular values itself see every value exactly once.",
     ["inputs"], "every edge, side, sector layout, trailing size and scalar type", "the kernel has 18 specializations by trailing size, of which tests reach a few",
     [I + "tensor_miscellaneous.hpp"], [("multiple, multiple_kernel", I + "tensor_miscellaneous.hpp")], ["Tensor::multiple"])
prop("T15", "Conjugation is an involution that turns charges and arrows and gives the norm",
     "The conjugate has opposite charges and arrows and conjugated numbers at the corresponding coordinates, with the fermionic sign of reversing the "
     "order of the indices; conjugating twice gives the tensor back, conjugation commutes with reordering edges, and contracting a tensor without fermions "
     "with its conjugate over all edges gives the sum of squared magnitudes.",
     ["inputs"], "every rank, sector layout, arrow, order and scalar type", "the tests conjugate a few fixed tensors",
     [I + "tensor_miscellaneous.hpp", I + "symmetry.hpp"], [("conjugate", I + "tensor_miscellaneous.hpp"), ("get_split_merge_parity", I + "symmetry.hpp")],
     ["Tensor::conjugate"])
prop("T16", "Norms, type conversions and pointwise functions see every element exactly once",
     "The p-norms equal their definition over all stored elements; conversion between scalar types keeps names, edges and every number (real part when "
     "going to real); map, transform, set, zero and test visit every element exactly once in storage order; only tensors with exactly one element turn "
     "into a number.",
     ["inputs"], "every rank, sector layout, contents and pair of scalar types", "the tests use two or three tensors",
     [I + "tensor.hpp"], [("norm, to, map, transform, set", I + "tensor.hpp")], ["Tensor::norm", "Tensor::to", "Tensor::map", "Tensor::transform"])
prop("T17", "Communication between ranks delivers every tensor once, to the right rank, without deadlock",
     "For every number of ranks and every root, broadcast gives each rank the root's tensor, reduce gives the root the combination in which every "
     "rank's contribution occurs exactly once, send and receive deliver messages unchanged in order, and barrier lets no rank leave before all have "
     "entered; a root that is no rank is refused; no program in which all ranks call the same operations deadlocks, whatever the schedule and whether "
     "or not sends are buffered.",
     ["schedules", "configurations"], "every number of ranks, root, program, interleaving of ranks and buffering of each message",
     "the tests run on one rank or one schedule of a few ranks", [I + "mpi.hpp"],
     [("tree-shaped broadcast and reduce", I + "mpi.hpp"), ("send, receive, send_receive, barrier", I + "mpi.hpp")],
     ["TAT::mpi_t::broadcast", "TAT::mpi_t::reduce", "TAT::mpi_t::send_receive", "TAT::mpi_t::barrier"])
prop("T18", "A lazy node always shows the function of the current values of its inputs",
     "After any sequence of creating, setting, reading, unsetting, dropping, saving and restoring, reading a node of a lazily evaluated graph gives "
     "exactly what its functions give for the current values of the roots it depends on; it is computed again only when something above it changed, "
     "and a restored snapshot brings back the values at the time it was taken without touching other nodes' correctness.",
     ["histories"], "every graph shape and every sequence of operations", "stale caches need a particular order of reads, writes and restores",
     ["include/lazy.hpp"], [("unset / downstream propagation", "include/lazy.hpp"), ("graph dump and load", "include/lazy.hpp")],
     ["lazy::root::set", "lazy::node::get", "lazy::path", "lazy::graph::dump", "lazy::graph::load"])
prop("T19", "Scratch memory blocks never overlap and scopes restore the previous resource",
     "Whatever blocks are requested from nested scratch scopes, with whatever sizes and alignments and in whatever order they are returned, live blocks "
     "are aligned, disjoint and inside owned memory, everything taken from upstream is given back exactly once, and leaving a scope makes the enclosing "
     "resource the default again.",
     ["histories"], "every sequence of requests, returns and nested scopes around the end of the buffer",
     "the tests never fill the buffer", [I + "pmr_resource.hpp"], [("monotonic_buffer_resource and scope guard", I + "pmr_resource.hpp")],
     ["TAT::scope_resource", "TAT::pmr::monotonic_buffer_resource"])
prop("T20", "A name stands for exactly its text through every history of saving and loading",
     "Equal texts give equal names and different texts different names, their order is a total order, and after any history of naming, saving and "
     "loading the table of names (also in a program started afresh) every name and every saved tensor shows the texts it was made with.",
     ["histories"], "every sequence of naming, saving, loading and restarting", "the tests use names within one run only",
     [I + "name.hpp", I + "io.hpp"], [("fast_name_dataset", I + "name.hpp"), ("dump and load of the table", I + "io.hpp")],
     ["TAT::FastName", "TAT::fast_name_dataset_t", "load_fast_name_dataset", "dump_fast_name_dataset"])
prop("T21", "Requests that cannot be carried out are refused and change nothing",
     "A request that is inconsistent (a wrong number of names, duplicated or missing names, edges of different dimension or equal arrow in a contraction, "
     "different shapes in arithmetic, a missing element, block or direction, a tensor of several elements as a number) ends in an exception; it reads "
     "nothing out of bounds, changes no operand, and later requests work as before.",
     ["inputs", "fault_sequences"], "every kind of inconsistency at every edge of every tensor", "the tests only make valid requests",
     [I + "edge_operator.hpp", I + "contract.hpp", I + "tensor.hpp", I + "scalar.hpp"],
     [("check_valid_name and is_same_vector", I + "edge_operator.hpp"), ("dimension checks", I + "contract.hpp"), ("get_item", I + "get_item.hpp")],
     ["Tensor::Tensor", "Tensor::transpose", "Tensor::merge_edge", "Tensor::contract", "Tensor::at", "Tensor::block"])
prop("T22", "Charges form an ordered abelian group and fermionic signs compose like permutations",
     "For every symmetry, adding and negating charges obeys the laws of an abelian group and agrees with adding the components (mod 2 for Z2), the order "
     "used for edges and blocks is a strict total order compatible with equality, parity is additive, and the signs of transposing, reversing and merging "
     "indices compose: reordering in two steps gives the product of the signs.",
     ["inputs"], "every combination of charges, permutations, reversals and groups", "the tests use charges 0 and 1 and a few permutations",
     [I + "symmetry.hpp"], [("operators of charges", I + "symmetry.hpp"), ("get_transpose_parity, get_reverse_parity, get_split_merge_parity", I + "symmetry.hpp")],
     ["TAT::Symmetry", "edge orders and signs in every operation"])
Q = "include/square/"
prop("T23", "Cached contractions of a square network equal the full contraction of the current tensors",
     "For a square network of tensors with a cut that keeps everything, the auxiliaries give, for every lattice size, the full contraction, the contraction "
     "with any one site left out, and the contraction with any site or any two neighbours replaced, equal to the sum over all bonds of the tensors that are set "
     "now: after any history of setting and unsetting sites and reading, in copies, assigned and moved systems (which do not influence each other), and after "
     "restoring a snapshot.",
     ["histories", "inputs"], "every lattice size, history, site, pair and hint", "stale or misplaced cached lines need a particular site to change after a particular read; no test runs the module",
     [Q + "auxiliaries_system.hpp", "include/lazy.hpp"],
     [("graph of line and three-leg auxiliaries", Q + "auxiliaries_system.hpp"), ("holes and replacements", Q + "auxiliaries_system.hpp")],
     ["square::SquareAuxiliariesSystem"])
prop("T24", "Sampling reproduces the probabilities and expectation values of the state",
     "Summing over all configurations gives exactly the expectation values of any observers; one sweep of the Markov chain leaves the distribution given by "
     "the squared amplitudes unchanged, proposes only configurations connected by the terms, and what it collects (observers, energy, gradient parts) is the sum of the "
     "local values at exactly the configurations visited; the working configuration never goes stale, and an operator's cached elements are never those of another operator.",
     ["inputs", "histories"], "every lattice, configuration, operator, and every sequence of random draws",
     "one run of a chain visits few configurations and cannot tell a biased chain from an unbiased one", [Q + "sampling_gradient_lattice.hpp"],
     [("hopping, markov_chain, ergodic", Q + "sampling_gradient_lattice.hpp"), ("find_element", Q + "sampling_gradient_lattice.hpp")],
     ["square::SamplingGradientLattice::markov", "square::SamplingGradientLattice::ergodic", "square::SpinConfiguration"])
prop("T25", "Simple update applies each term of the Hamiltonian to the sites it names, on any number of ranks",
     "As long as nothing is truncated, one step of simple update multiplies the state (up to a factor) by the exponentials of all terms, each acting on the sites it is "
     "given for in the order in which they are given, for every lattice, direction and dimension; every rank ends with the same tensors as a single rank, without deadlock, whatever the schedule.",
     ["inputs", "schedules", "configurations"], "every lattice, term, order of sites, number of ranks and schedule", "no test runs the module; a swapped or doubled term still lowers the energy",
     [Q + "simple_update_lattice.hpp", I + "mpi.hpp"],
     [("update and single term update", Q + "simple_update_lattice.hpp"), ("distribution of terms over ranks", Q + "simple_update_lattice.hpp")],
     ["square::SimpleUpdateLattice::update"])
prop("T26", "All representations of a lattice state agree",
     "Converting between the exact, simple-update and sampling representations keeps the state (up to normalization) and the Hamiltonian; the expectation value of every observer "
     "is the same number in every representation and equals its definition; the power method of the exact lattice multiplies by the shifted Hamiltonian; saving and loading gives the same lattice.",
     ["inputs", "histories"], "every lattice size, state, observer and place", "no test runs the module",
     [Q + "exact_lattice.hpp", Q + "simple_update_lattice.hpp", Q + "sampling_gradient_lattice.hpp", Q + "abstract_lattice.hpp", Q + "conversion.hpp"],
     [("conversions", Q + "conversion.hpp"), ("observe and update", Q + "exact_lattice.hpp"), ("observe with auxiliaries", Q + "simple_update_lattice.hpp")],
     ["square::ExactLattice", "square::SimpleUpdateLattice", "square::SamplingGradientLattice", "dump and load"])
prop("T27", "The Python module does with tensors what its functions say",
     "Through the Python module (all symmetries, all four scalar types), constructing, reading and assigning elements, blocks (as numpy arrays that are views of the tensor), arithmetic, renaming, transposing, "
     "merging, splitting, reversing, contraction, trace, exponential, decompositions, slicing, conversion, pickling, text and random filling give exactly the defined result for every way in which arguments "
     "can be written (numbers, tuples, objects; positional, keyword or default); operations in place return the same object, others leave their operands unchanged; tensors sharing storage are not affected, "
     "and objects obtained from a tensor (names, edges, blocks of a tensor that is gone) stay valid.",
     ["inputs", "histories"], "every function of the module, form of argument, symmetry, scalar type and shape",
     "tests print a few calls; an argument passed in the wrong place, a wrong default or a dangling view shows only for particular forms", ["PyTAT/PyTAT.cpp"],
     [("tensor bindings", "PyTAT/PyTAT.cpp"), ("edges, symmetries, names", "PyTAT/PyTAT.cpp"), ("blocks as numpy arrays", "PyTAT/PyTAT.cpp")],
     ["TAT.Tensor.*", "TAT.Name", "TAT.random", "TAT(...)"])
prop("T28", "Reading the auxiliaries of a Python square lattice never gives a stale or wrong number",
     "In the Python package's cached contraction of a square lattice, every value read (with no hole, with holes at sites, with replaced tensors) equals the contraction of the lattice "
     "as it is now, whatever was read, changed, copied or combined before; a copy and its original never influence each other; the sum of two systems has the tensors of both.",
     ["histories", "inputs"], "every lattice size, site, and history of reads, changes, copies and combinations", "tests read one fixed lattice after one construction",
     ["square/auxiliaries.py"],
     [("graph of line and three-leg auxiliaries", "square/auxiliaries.py")],
     ["square.auxiliaries.SquareAuxiliariesSystem"])
prop("T29", "The Python square lattices compute the state, expectation values, samples and gradients they define",
     "For the Python package: exact, simple-update and sampling lattices made from each other represent the same state; expectation values equal their definition; the power method multiplies by the "
     "shifted Hamiltonian; simple update applies each term to the sites it names in the order given; summing over all configurations is exact; a sweep of the Markov chain keeps the distribution of squared "
     "amplitudes and collects local values (observers, energy, gradients) at the configurations visited; copies are independent of their originals, and asking for a value changes nothing.",
     ["inputs", "histories"], "every lattice, configuration, operator, and every sequence of random draws",
     "no test runs these modules with enough variety to tell a biased chain or a swapped term from a right one",
     ["square/exact_lattice.py", "square/simple_update_lattice.py", "square/sampling_gradient_lattice.py", "square/abstract_lattice.py"],
     [("exact representation", "square/exact_lattice.py"), ("simple update", "square/simple_update_lattice.py"), ("sampling and gradients", "square/sampling_gradient_lattice.py")],
     ["square.ExactLattice", "square.SimpleUpdateLattice", "square.SamplingGradientLattice", "square.SpinConfiguration"])
prop("T30", "Build options change no result",
     "Built with the documented options (names as plain strings, the compact form of edges without symmetry, singular values as matrices, a valid default tensor, timers), every operation gives the same "
     "defined results as without them: structure, arithmetic, transposition, edge operations, contraction, trace, exponential, decompositions, slicing, saving and refusals.",
     ["configurations", "inputs"], "every option and every input of the operations", "the tests are built with one set of options",
     [I + "name.hpp", I + "edge.hpp", I + "core.hpp", I + "svd.hpp", I + "tensor_miscellaneous.hpp", I + "edge_operator.hpp"],
     [("fake_map and the compact core", I + "edge.hpp"), ("SingularType", I + "svd.hpp"), ("DefaultName", I + "name.hpp")],
     ["TAT_USE_SIMPLE_NAME", "TAT_USE_SIMPLE_NOSYMMETRY", "TAT_USE_SINGULAR_MATRIX", "TAT_USE_VALID_DEFAULT_TENSOR", "TAT_USE_TIMER"])
NOT_APPLICABLE = {}

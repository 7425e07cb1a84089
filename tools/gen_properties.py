#!/usr/bin/env python3
"""Writes properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

I = "include/TAT/"
p("C01", "Construction: blocks, edges and element access of a symmetric tensor",
  "A tensor built from names and edges has exactly one block for every combination of edge symmetries that sums to zero, each with the product of the segment dimensions many elements, and its edges list exactly the symmetries that occur in some block, in ascending order. Reading or writing an element, or a whole block, by edge names and (symmetry, position) addresses exactly one element in row-major order of the edges, whatever the order in which the names are given, and every filling operation writes the elements in that storage order. A tensor holding one number has exactly that element.",
  ["inputs", "configurations"], "every symmetry type, scalar type, rank (0 included), list of edges (unsorted or unmatched segments included), fill and access position",
  "the tests build a few dozen fixed shapes and look at the printed result; they never enumerate access positions or unmatched segments",
  [I + "core.hpp", I + "edge.hpp", I + "tensor.hpp", I + "get_item.hpp", I + "edge_miscellaneous.hpp"],
  [("initialize_block_symmetries_with_check", I + "edge.hpp"), ("Core constructor", I + "core.hpp"), ("get_block_for_get_item / get_block_and_offset_for_get_item", I + "get_item.hpp")])
p("C02", "Transpose, rename, reverse and cut of edges preserve the tensor",
  "Reordering the edges of a tensor by names yields the tensor whose every element is the element at the correspondingly permuted position, with the sign of the exchanged odd edges for fermionic symmetries. Renaming edges changes nothing but the names, reversing fermionic arrows changes nothing but the arrow and, where the caller asks for it, the sign of the odd part, and cutting edges keeps exactly the leading part of each kept segment. All of this holds for every rank, dimension, memory size and mixture of these in one operation.",
  ["inputs", "configurations"], "every symmetry, rank, permutation, segment dimensions (1, below and above the unrolled line sizes, tensors smaller and larger than the cache), renaming, set of reversed edges and sign options",
  "tests transpose small fixed tensors; the code chooses between several copy kernels and compile time line sizes by dimension and memory size, and signs depend on every pair of odd edges",
  [I + "edge_operator.hpp", I + "transpose.hpp", I + "tensor.hpp"],
  [("edge_operator_implement", I + "edge_operator.hpp"), ("do_transpose and its kernels", I + "transpose.hpp"), ("edge_rename, transpose, reverse_edge", I + "tensor.hpp")])
p("C03", "Merging and splitting edges is an invertible relabelling",
  "Merging edges puts every element at the position of its combined basis state: combined symmetries in ascending order and, inside one, the member edges' states in lexicographic order, with the fermionic reversal sign exactly when the caller asks for it and arrows unified first. Splitting an edge into segments is the exact inverse, so merging and splitting back (with the sign on one or both sides as asked) restores every element, and merging no edges adds a trivial edge, splitting into none removes one.",
  ["inputs", "configurations"], "every symmetry, rank, grouping of edges (empty groups and several groups included), arrow pattern and choice of parity exclusion",
  "tests merge and split a few fixed tensors; the block offsets depend on every combination of symmetries and the sign on the parity of every member",
  [I + "edge_operator.hpp", I + "edge_miscellaneous.hpp", I + "tensor.hpp"],
  [("get_merged_edge / get_reversed_... / edge_operator", I + "edge_operator.hpp"), ("merge_edge, split_edge", I + "tensor.hpp")])
p("C04", "Contraction sums over the paired edges",
  "Contracting two tensors over named pairs of edges yields the tensor over the remaining edges, those of the first tensor in order and then those of the second, whose every element is the sum over the paired positions of the products, with the fermionic exchange and arrow signs. It does so for every order of the edges and of the pairs, for edges whose symmetries only partly match (the unmatched part contributes nothing), for scalars and empty contractions, and without symmetry names shared and kept by both tensors become batch indices.",
  ["inputs", "configurations"], "every symmetry, pair of shapes, edge order, pair set, arrows and values",
  "tests contract fixed tensors and compare a few against a printed result; internally four operand layouts and a BLAS call with four transposition combinations are chosen by edge order",
  [I + "contract.hpp", I + "edge_operator.hpp"],
  [("contract", I + "contract.hpp"), ("contract_without_fuse / contract_with_fuse", I + "contract.hpp"), ("gemm dispatch", I + "contract.hpp")])
p("C05", "Trace sums over the paired edges of one tensor",
  "The trace over named pairs of edges of one tensor yields the tensor over the remaining edges in their original order whose every element is the sum over equal positions of each pair, restricted to opposite symmetries, with the fermionic exchange sign. It does not depend on the order of the pairs or on the order inside a pair, and equals zero where no matching block exists.",
  ["inputs", "configurations"], "every symmetry, shape, pair set, arrows and values, partly matching symmetries included",
  "tests trace a few fixed tensors with one or two pairs; the result mixes block alignment, signs and offsets",
  [I + "trace.hpp", I + "edge_operator.hpp"], [("trace", I + "trace.hpp")])
p("C06", "Conjugate tensor and norms",
  "The conjugate of a tensor has every symmetry negated, every arrow reversed and every element conjugated, with the fermionic sign that reverses the order of the odd edges, and conjugating twice restores the tensor. The maximum, 1-norm, 2-norm and element count are those of the list of all stored elements.",
  ["inputs", "configurations"], "every symmetry, scalar type, shape and values",
  "tests conjugate a few small tensors of selected symmetries",
  [I + "tensor_miscellaneous.hpp", I + "tensor.hpp"], [("conjugate", I + "tensor_miscellaneous.hpp"), ("norm", I + "tensor.hpp")])
p("C07", "Singular value decomposition",
  "The decomposition of a tensor over any set of its edges gives an isometry holding those edges, non-negative singular values sorted in descending order within each symmetry, and an isometry holding the others; multiplying them back restores the tensor exactly when nothing is cut. With a cut, exactly the largest singular values over all symmetries are kept, and the kept values and vectors are those of the uncut decomposition. Multiplying or dividing a tensor's edge by singular values scales exactly the matching segment positions.",
  ["inputs", "configurations"], "every symmetry, scalar type, shape, edge order, choice of edges (none and all included), cut and values (rank deficient included)",
  "tests decompose fixed tensors; operand order, transposition and cut selection are chosen at run time",
  [I + "svd.hpp", I + "tensor_miscellaneous.hpp"], [("svd", I + "svd.hpp"), ("multiple", I + "tensor_miscellaneous.hpp")])
p("C08", "QR and LQ decomposition",
  "The decomposition of a tensor over any set of its edges, from either side, gives a factor that is an isometry on the requested side and a second factor such that their contraction restores the tensor exactly. The shared edge has at most the smaller of the two matrix dimensions in each symmetry and the names and edges asked for.",
  ["inputs", "configurations"], "every symmetry, scalar type, shape, edge order, side, set of edges and values",
  "tests decompose a few fixed shapes; four combinations of side and storage order use different LAPACK routines and in-place buffers",
  [I + "qr.hpp"], [("qr", I + "qr.hpp")])
p("C09", "Identity and exponential of a tensor seen as a matrix",
  "Filling a tensor as identity over pairs of edges puts one where every pair has opposite symmetries and equal positions and zero elsewhere. The exponential of a tensor over pairs of edges is the matrix exponential under that pairing: zero gives the identity, a diagonal exponentiates elementwise, a nilpotent gives its finite series, and the result has the edges of the argument.",
  ["inputs", "configurations"], "every symmetry, number and order of pairs, dimension, values and step",
  "tests exponentiate a handful of matrices with one pair",
  [I + "exponential.hpp", I + "tensor_miscellaneous.hpp", I + "edge_operator.hpp"], [("exponential", I + "exponential.hpp"), ("identity", I + "tensor_miscellaneous.hpp")])
p("C10", "Shrink and expand address one basis state",
  "Shrinking fixes the named edges to one basis state each and returns the tensor of the elements there, over the remaining edges (and, if asked, one new one-dimensional edge carrying the removed symmetry). Expanding adds edges of given dimension in which only the given basis state is occupied, removing the named one-dimensional edge if there is one. Shrinking what was expanded restores the tensor.",
  ["inputs", "configurations"], "every symmetry, shape, set of edges, positions and arrow",
  "tests shrink and expand a few fixed tensors",
  [I + "shrink_and_expand.hpp"], [("shrink, expand", I + "shrink_and_expand.hpp")])
p("C11", "Arithmetic and scalar conversion are elementwise",
  "The sum, difference, product and quotient of two tensors with the same set of edge names combine the elements that have the same names, symmetries and positions, whatever the order of the edges of the operands, with missing blocks counted as zero; with a number, every element is combined with it. In-place forms, which need both operands to have the same edges, give the same values as the others, the result has the edge order of the left operand, and converting the scalar type converts every element and nothing else.",
  ["inputs", "configurations"], "every symmetry, scalar type pair, edge order, partly overlapping segments, values and in-place form",
  "tests add and scale a few tensors of equal shape",
  [I + "scalar.hpp", I + "tensor.hpp"], [("operator macros", I + "scalar.hpp"), ("to", I + "tensor.hpp")])
p("C12", "Tensors behave as values although they share storage",
  "Copying, assigning, renaming, converting or returning a tensor and then changing one of them, by any in-place operation or element write, never changes what can be read from any other tensor. Operations that are not in-place never change their operands, and an in-place operation or write through one tensor is fully visible through that same tensor.",
  ["histories"], "every history of copies, renames, moves, results of operations that may share storage, and in-place writes on any of them",
  "aliasing needs a particular history of sharing operations followed by a write; tests mostly use fresh tensors",
  [I + "tensor.hpp", I + "scalar.hpp", I + "get_item.hpp", I + "propagate_const.hpp", I + "edge_operator.hpp", I + "contract.hpp"],
  [("shared core with copy on write", I + "tensor.hpp")], state=[dict(name="core", meaning="shared storage of edges and blocks", where=I + "tensor.hpp")])
p("C13", "Binary serialisation round trip",
  "Writing a tensor, singular values, name or edge in binary form and reading it back restores names, edges, arrows, blocks and every value bit for bit, for any sequence of objects written to one stream in order. Reading consumes exactly what was written, so that what follows in the stream is intact, and reading into a tensor replaces whatever it held.",
  ["inputs", "histories"], "every symmetry, scalar type, shape (rank zero and empty edges included), values, names of any length and bytes, and sequence of objects in a stream",
  "tests dump and load single small tensors",
  [I + "io.hpp", I + "name.hpp"], [("operator< / operator> / dump / load", I + "io.hpp")])
p("C14", "Text serialisation round trip",
  "Printing a tensor as text and reading the text back restores names, edges, arrows and every value to printed precision, for every symmetry and scalar type, and reading stops right after the printed tensor. The printed values are the stored values in storage order.",
  ["inputs", "histories"], "every symmetry, scalar type, shape, values (negative, complex with each part zero or negative) and names, in streams holding several tensors",
  "tests read back a few printed tensors",
  [I + "io.hpp", I + "name.hpp"], [("operator<< / operator>> / show", I + "io.hpp")])
p("C15", "Interned edge names behave like the strings they stand for",
  "Two interned names are equal exactly when they were made from the same string, converting or printing a name gives back that string, and this holds for any number and order of names made, also while names are made by reading streams and after the table of names has been saved and loaded, in the same process or in a fresh one that then reads names saved with it. Ordering of names is a strict total order consistent with equality, stable for the life of the process.",
  ["histories", "inputs"], "every history of creating names from strings, identifiers and streams",
  "tests create a few names",
  [I + "name.hpp", I + "io.hpp"], [("FastName::dataset_t", I + "name.hpp")], state=[dict(name="names, map, count", meaning="interning table", where=I + "name.hpp")])
p("C16", "Lazy graph always returns the up to date value",
  "The value of a lazy node or path is always the value of its function on the current values of its arguments, after any history of setting and resetting root values, evaluating, saving and restoring snapshots of a graph, and destroying handles. The function of a node runs at most once between changes of what it depends on, setting or resetting a root forgets exactly the nodes depending on it, and restoring a snapshot gives every node that existed when it was taken the state it had then, whatever happened in between.",
  ["histories"], "every dependency graph and every history of set, get, reset, snapshot, restore and destruction",
  "the test walks one fixed graph once; staleness needs particular sequences over diamonds and snapshots",
  ["include/lazy.hpp"], [("lazy_base::unset, node::get, Graph::dump, Graph::load", "include/lazy.hpp")])
p("C17", "Collective operations over processes",
  "For any number of processes and any root, a broadcast value is identical on every process, and a reduction yields on the root the function applied over the values of all processes exactly once each, as a tree numbered from the root: every process combines its own value with the result of its left and then of its right subtree. Received values equal the sent ones and arrive in the order they were sent, for any sequence of operations with any roots and no barrier between them. No process leaves a barrier before all have reached it, an invalid root is refused, and every process terminates without waiting for a message that is never sent.",
  ["schedules", "configurations", "inputs"], "every process count, every root, every symmetry and tensor contents",
  "the test runs on the process counts of the test machine with one root",
  [I + "mpi.hpp"], [("mpi_t broadcast, reduce, send, receive", I + "mpi.hpp")])
p("C18", "Scratch memory scopes never hand out overlapping memory",
  "Inside nested scratch scopes every allocation, of any size and of any alignment up to the default one, is aligned and disjoint from every other allocation still live; allocations that do not fit fall back to the enclosing scope and finally to ordinary memory. Leaving a scope, also by an exception, makes the enclosing scope current again, and leaving the outermost one returns all the ordinary memory it took and nothing else. Library operations, also refused ones, leave the current scope as it was, and a tensor computed inside a scope and kept stays intact after the scope ends.",
  ["histories"], "every nesting, sequence of sizes and alignments, and interleaving of allocation and release",
  "no test looks at the allocator; overlaps depend on the sequence of sizes and alignments",
  [I + "pmr_resource.hpp"], [("scope_resource, monotonic_buffer_resource", I + "pmr_resource.hpp")])
p("C19", "Simple update on the square lattice keeps the state it represents",
  "In the C++ square lattice, one step of SimpleUpdateLattice::update applies the gate exp(-delta_t h) of every registered one-site or neighbouring two-site term to exactly its sites in the given site order: first the sites, then the horizontal bonds at even and at odd columns, then the vertical bonds at even and at odd rows, and then all of it back. As long as nothing is truncated the represented state (tensors and environments together) becomes that of the gates up to a factor, for every lattice size, term position and site order, and history of calls. No call makes a virtual edge longer than the given dimension, neighbours and environments always agree on the edge they share, and with any number of processes every process ends with the same lattice.",
  ["histories", "inputs", "configurations", "schedules"], "every lattice size, set of terms, orientation, state, number of processes and sequence of updates",
  "tests run a few updates of one model on one lattice",
  ["include/square/simple_update_lattice.hpp", "include/square/abstract_network_lattice.hpp"], [("SimpleUpdateLattice::update", "include/square/simple_update_lattice.hpp")])
p("C20", "Lattice amplitudes equal the exact contraction",
  "With no truncation the contraction of a square network equals the exact contraction of its tensors: as it is, with one site or two neighbouring sites replaced, or with one site left out (a hole, whose result is the contraction of all other tensors over that site's edges), for every lattice size and position, with every hint, and after any history of setting and clearing tensors or spins and of earlier queries. Changing a tensor or a spin is reflected by every later result, and asking never changes anything.",
  ["histories", "inputs", "configurations"], "every lattice size, replaced sites, hole and history of tensor changes and queries",
  "tests compare one lattice and one configuration; caches make results depend on history",
  ["include/square/auxiliaries_system.hpp", "include/square/sampling_gradient_lattice.hpp"], [("SquareAuxiliariesSystem", "include/square/auxiliaries_system.hpp"), ("SpinConfiguration", "include/square/sampling_gradient_lattice.hpp"), ("lazy graph", "include/lazy.hpp")])
p("C21", "Sampling visits configurations with the right weight",
  "In the C++ square lattice with real tensors, the exhaustive sampler (ergodic) returns for every observer and every term of the hamiltonian the exact expectation value in the represented state, whatever amplitudes or operator elements are zero. A step of the Markov sampler attempts for every term, once forwards and once backwards, a uniformly chosen move along a nonzero off-diagonal element and accepts it with the ratio of the squared amplitudes times the ratio of the numbers of possible moves, so the squared amplitudes are stationary, only reachable configurations of nonzero amplitude are visited, and observing does not change the walk. The means, variances, energies and gradient it returns are those of the configurations visited: the gradient is 2 <E O> - 2 <E> <O> with O the derivative of the logarithm of the amplitude. Afterwards the configuration and its amplitude agree.",
  ["inputs", "configurations", "histories"], "every lattice, hermitian model of one-site and neighbouring two-site terms, state, observer and random sequence",
  "tests run a short sampling of one model",
  ["include/square/sampling_gradient_lattice.hpp"], [("SamplingGradientLattice::ergodic / markov / equilibrate", "include/square/sampling_gradient_lattice.hpp")])
p("C22", "Saving, restoring, copying and converting lattices",
  "Writing any C++ square lattice (exact, simple update, sampling) together with the name table to a stream and reading it back, into a new or a used lattice, in the same or another process, before or after any history of updates, restores sizes, hamiltonian, tensors, environments, dimensions and spin configuration (spins that are not set included) exactly, so that every later operation gives what it would have given on the original; so do copies, moves and assignments. Converting between the kinds of lattice keeps the sizes, the hamiltonian and, up to a factor, the represented state.",
  ["histories", "inputs"], "every lattice kind, size and history",
  "no test restores a lattice with environments or a configuration",
  ["include/square/simple_update_lattice.hpp", "include/square/exact_lattice.hpp", "include/square/sampling_gradient_lattice.hpp", "include/square/abstract_lattice.hpp", "include/square/abstract_network_lattice.hpp", "include/square/conversion.hpp"], [("operator< / operator>", "include/square/*.hpp"), ("conversion", "include/square/conversion.hpp")])
p("C23", "Exact lattice applies the hamiltonian",
  "The exact lattice's update applies the sum of all registered terms, each on exactly the sites it was registered for and in the given site order, so that repeated update converges to the extreme eigenvector, and its energy and observables are the exact expectation values in the stored state. The ready-made spin operators are those of spin one half, with Sx Sy - Sy Sx = i Sz, and their pair products and sum.",
  ["inputs", "configurations"], "every lattice, term position, site order and state",
  "tests run one model on one lattice and look at the converged energy",
  ["include/square/exact_lattice.hpp"], [("ExactLattice::update / observe", "include/square/exact_lattice.hpp")])
p("C24", "Invalid requests are rejected and leave everything unchanged",
  "Requests that have no meaning (duplicate or miscounted names, reordering to a different set of names, contracting edges of different dimension or equal arrows, adding tensors of different names or dimensions, reading one number out of a tensor with several elements, shrinking to a nonzero symmetry without a place to put it) raise an error. The operands are unchanged afterwards and remain usable.",
  ["inputs", "histories"], "every operation and every way of making its request invalid",
  "tests only make valid requests",
  [I + "tensor.hpp", I + "edge_operator.hpp", I + "contract.hpp", I + "scalar.hpp", I + "shrink_and_expand.hpp", I + "name.hpp"], [("TAT_error", I + "basic_type.hpp"), ("check_valid_name", I + "name.hpp")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = None
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")

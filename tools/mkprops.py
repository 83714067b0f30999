"""writes properties.jsonl (kept as a script so that the text is easy to edit)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **kw)))


BT = "sources/btensor.cpp"
BH = "include/blockTensor/btensor.h"

p("C01", "Elementary conserved charges form an Abelian group in canonical form",
  "A cyclic charge of modulus N built from any signed integer stores the representative of that integer in [0,N), and an integer charge stores the integer itself. "
  "Combining charges adds the represented integers (modulo N for the cyclic group), stays canonical, is commutative and associative, has the default value as neutral element, and inversion returns the charge that combines with the original to the neutral element. "
  "Equality, inequality and ordering of charges are exactly those of the canonical values.",
  ["inputs"], "every 16 bit integer argument, every pair and triple of charges, every modulus N in the list of instantiated moduli (1..12, 97, 127, 128, 255, 1000, 32767, 32768, 32769, 40000, 65535)",
  "the tests evaluate about twenty hand written charges of C<5> and Z; the group law quantifies over all values and moduli, and the failures sit at multiples of the modulus and near the 16 bit boundary",
  ["include/Conserved/quantity.h"],
  [("cyclic group constructor, op, inverse_, comparisons", "include/Conserved/quantity.h:C"), ("integer group", "include/Conserved/quantity.h:Z")])

p("C02", "Composite and type-erased charges act component by component as values",
  "A composite charge combines, inverts and compares component by component with the group of each component, and two composite charges are equal exactly when all components are. "
  "A type-erased charge behaves as a value holding such a composite: copies and assignments are independent of their source, every operation gives the same result as on the composite it holds, and its neutral element and inverse are of the same composite type. "
  "Combining or comparing type-erased charges of different composite types never silently yields a charge: both raise an error.",
  ["inputs", "histories"], "every composite charge of the instantiated types (one to three components), every sequence of copies, assignments and combinations",
  "the tests use a handful of literal charges and never check independence of copies after mutation or all component positions",
  ["include/Conserved/Composite/quantity_impl.h", "include/Conserved/Composite/cquantity.h", "sources/any_quantity.cpp"],
  [("composite group operation", "include/Conserved/Composite/quantity_impl.h:quantity"), ("type erasure", "include/Conserved/Composite/cquantity.h:any_quantity")])

p("V01", "A list of charges is a faithful resizable list and permutes as requested",
  "A sequence of type-erased charges always holds exactly the charges a plain vector would after the same history of insertions, erasures, assignments, resizes, copies and swaps, and element access returns the charge at that position. "
  "Permuting a sequence divided in consecutive groups (of the given lengths) by a permutation of the groups gives the concatenation of the groups in the order the permutation designates, and leaves the source unchanged. "
  "Copies do not share storage with their source.",
  ["histories", "inputs"], "every history of container operations, every length and every permutation",
  "the tests run two short fixed histories; iterator arithmetic and permutation errors need particular lengths, positions and cycle structures",
  ["include/Conserved/Composite/quantity_vector.h", "include/Conserved/Composite/quantity_vector_impl.h"],
  [("typed storage of the sequence", "include/Conserved/Composite/quantity_vector_impl.h:quantity_vector"), ("erased interface", "include/Conserved/Composite/quantity_vector.h:any_quantity_vector")])

p("M01", "The block map is a sorted map with unique keys under every history",
  "After any history of insertions, emplacements, merges, assignments and erasures the map lists its keys in strictly increasing order and maps every key to the value an ordinary ordered map would hold after the same history. "
  "Lookup by key finds exactly the keys present, access by key creates a default value only when the key is absent, and checked access to an absent key raises an error. "
  "Insertion reports whether it inserted and returns the position of the key.",
  ["histories", "inputs"], "every sequence of operations on every content, including empty maps, duplicate keys in ranges, hints at any position, and absent keys",
  "the existing tests exercise four contents of at most five keys in a fixed order; the ordering invariant must survive every interleaving of hinted and unhinted operations",
  ["include/blockTensor/flat_map.h"],
  [("binary search plus shifted insertion over a sorted vector", "include/blockTensor/flat_map.h:flat_map")])

p("B01", "Block enumeration visits every block once and counts allowed blocks exactly",
  "Starting from the all zero block index, repeated incrementation of a block index runs through every block of the tensor's grid exactly once, first dimension fastest, and then returns to the all zero index; one increment changes no other state and never leaves the grid. "
  "The computed maximum number of blocks equals the number of blocks of the grid whose combined charges equal the selection rule, capped by the requested search length. "
  "A tensor of rank zero has exactly one block.",
  ["inputs"], "every rank, every number of sections per dimension, every charge assignment and selection rule",
  "tests look at a few fixed tensors of rank at most five; an odometer error shows for particular section counts (for instance a dimension with one section after one with several)",
  [BT], [("odometer with carry", BT + ":block_increment"), ("count of conserving blocks", BT + ":btensor_compute_max_size")])

p("B02", "Section and element queries partition every dimension consistently",
  "For every dimension the sections queried one by one, the sections queried as a range, and the total size of the dimension agree: the sizes of the sections add up to the size of the dimension and each section has the size and charge it was declared with. "
  "Decomposing an element index gives the unique block index and offset inside that block such that the sizes of the preceding sections plus the offset equal the element index, and the charge reported for an element is the charge of the section containing it. "
  "An element, section or dimension index beyond the end given to a query for the size or charge of a section or element is refused with an error.",
  ["inputs"], "every rank, section structure, dimension, section and element index",
  "tests query a few elements of one tensor; off by one errors appear only at section boundaries of particular structures",
  [BT, BH], [("prefix sum of section counts", BT + ":section_size"), ("element walk", BT + ":element_index_decompose")])

p("B03", "A block tensor only ever holds blocks its selection rule allows",
  "Every block tensor obtained from valid tensors through constructors, creation functions, element-wise operations, contraction, permutation, reshape, views, index assignment and charge shifts is valid: one size and charge per section, every stored block index inside the section grid, every stored block of exactly the shape its sections dictate, and the combined charge of its sections equal to the selection rule. "
  "Creating a block at a position the selection rule forbids, or of the wrong shape through checked construction, is refused with an error and leaves the tensor unchanged. "
  "The validity test accepts exactly the valid tensors.",
  ["histories", "inputs"], "every history of operations over every block structure, group and selection rule",
  "tests check validity after a dozen fixed operations; validity is an invariant over all structures and all histories",
  [BT, BH], [("validity test", BT + ":check_tensor"), ("conservation rule", BT + ":block_conservation_rule_test"), ("checked block creation", BT + ":block")])

p("B04", "Permutations of a block tensor permute its dense content and structure",
  "The permutation of a block tensor has, at position i, the sections, sizes and charges of the dimension the permutation designates for i, and its dense content is the permutation of the dense content of the original; the selection rule and the number of blocks are unchanged. "
  "In-place and out-of-place forms agree, the out-of-place form leaves its operand unchanged, and permuting by a permutation and then by its inverse gives the original tensor back. "
  "A transposition is the permutation exchanging two dimensions, and malformed permutations are refused.",
  ["inputs"], "every rank, permutation and block structure",
  "tests use one tensor and two permutations; a permutation and its inverse coincide for the transpositions tested",
  [BT], [("permutation of block indices and section lists", BT + ":permute"), ("transposition", BT + ":transpose")])

p("B05", "Reshaping a block tensor preserves content and charges and can be undone",
  "Grouping consecutive dimensions of a block tensor gives, for each group, one dimension whose sections are all combinations of the grouped sections in row major order with multiplied sizes and combined charges; each stored block is kept with its content in row major order and none is lost, merged or moved to another combination. "
  "Reshaping back onto the original structure restores the original tensor exactly, block for block. "
  "The operand is unchanged and inconsistent groupings or incompatible target structures are refused.",
  ["inputs"], "every rank, grouping and block structure",
  "tests reshape two tensors; block index arithmetic (mixed radix) can be wrong for structures with unequal section counts that tests do not use",
  [BT], [("section and block index arithmetic", BT + ":reshape_helpers"), ("reshape", BT + ":btensor::reshape")])

p("B06", "Contraction of block tensors equals dense contraction and conserves charge",
  "The contraction of two compatible block tensors over any list of dimension pairs has the sections of the uncontracted dimensions of the first then of the second operand, a selection rule equal to the combination of both selection rules, and a dense content equal to the contraction of the dense contents. "
  "Operands are unchanged, and the result is a valid tensor. "
  "Contracting dimensions whose charges are not inverse of each other, or lists of different length, is refused with an error rather than giving a wrong tensor.",
  ["inputs"], "every pair of compatible structures, ranks, contracted dimensions in any order, and stored block subsets",
  "tests contract a few fixed tensors; wrong pairing of blocks needs particular block patterns and dimension orders",
  [BT], [("result structure", BT + ":compute_tdot_shape"), ("block pairing", BT + ":tensordot"), ("compatibility", BT + ":check_product_compat")])

p("B07", "Element-wise block arithmetic equals dense arithmetic and spares operands",
  "Sum, difference, scaling, product, negation and absolute value of block tensors have as dense content the same operation on the dense contents, over any stored subsets of blocks, with operands broadcast along dimensions of size one where products allow it. "
  "Out-of-place forms leave every operand passed by reference unchanged and give what the in-place forms give. "
  "Adding tensors whose structure or selection rule differ is refused with an error.",
  ["inputs"], "every pair of structures, every combination of present and absent blocks, every scalar",
  "tests use a few tensors where both operands store the same blocks; mixing absent and present blocks or aliasing is not covered",
  [BT, BH], [("addition by merging block lists", BT + ":add"), ("broadcast product", BT + ":broadcast_operation"), ("compatibility", BT + ":add_tensor_check")])

p("B08", "Shape composition and views select exactly the requested sections",
  "Composing shapes gives a tensor whose dimensions are the concatenation of those of the parts with unchanged sections and charges and the combined selection rule; restricting a tensor's shape or viewing it at selected elements of some dimensions keeps, in order, exactly the dimensions not fixed (or all of them when the rank is preserved), exactly the blocks of the sections holding these elements, and of those blocks the slice at these elements. "
  "Assigning through a view stores the given blocks at exactly the designated positions and touches no other. "
  "The tensor from which a shape is taken is not modified.",
  ["inputs"], "every structure and every choice of fixed and free dimensions",
  "tests build a few shapes; the choice of fixed dimensions is combinatorial",
  [BT, BH], [("shape from selected dimensions", BT + ":shape_from"), ("view", BT + ":basic_create_view"), ("assignment", BT + ":impl_basic_index_put_"), ("product", BT + ":tensor_product_shape")])

p("B09", "Charge transformations change only charges and keep tensors valid",
  "Conjugation and inversion of the charges invert every section charge and the selection rule, shifting the charges of one dimension multiplies every section charge of that dimension and the selection rule by the shift, and taking the neutral shape of a tensor holding no block makes every charge and the selection rule neutral and is refused on a tensor holding blocks; in every case sections, sizes and the content of the blocks are unchanged (conjugated by the conjugation) and a valid tensor stays valid. "
  "Inverting twice, or shifting and shifting back, restores the original charges and selection rule. "
  "Changing the selection rule or the charges alone is refused on a tensor holding blocks, so that no illegal block can arise.",
  ["inputs"], "every structure, dimension, shift and group",
  "tests do each transformation once on one tensor; the invariant concerns every block and every dimension",
  [BT], [("inversion", BT + ":inverse_cvals_"), ("shift", BT + ":cval_shift_"), ("selection rule", BT + ":set_selection_rule_")])

p("B10", "Conversion between dense and block form is lossless on allowed elements",
  "Building a block tensor from a dense tensor over a block structure keeps exactly the elements at allowed positions: the dense form of the result equals the dense tensor with forbidden positions set to zero, and absent blocks are exactly those whose content is below the cut-off. "
  "Converting a block tensor to dense form places every block at the offset given by the sizes of the preceding sections and zeros elsewhere. "
  "The selection rule found for a dense operator is the one under which it converts without loss when such a rule exists.",
  ["inputs"], "every structure, every dense content",
  "tests convert a handful of tensors; offset errors depend on the structure",
  [BT], [("block to slice", BT + ":full_slice"), ("dense form", BT + ":to_dense"), ("block form", BT + ":from_basic_tensor_like")])

p("L01", "Truncation of a spectrum respects the size bounds and the error tolerance",
  "Truncating a decreasing spectrum keeps a prefix of it: never fewer than the requested minimum (or all of it when shorter), and among the allowed sizes the smallest for which either the discarded weight stays within the tolerance or the maximum size is reached. "
  "The factors are cut along their bond dimension to exactly the kept values, returned in the documented order, and their kept content is unchanged. "
  "For block tensors the bound counts all blocks together and the kept values are the largest ones over all blocks.",
  ["inputs"], "every spectrum, tolerance, exponent, minimum and maximum size",
  "tests truncate two matrices; the boundary cases (minimum zero, maximum smaller than minimum, discarded weight equal to the tolerance) are not sampled",
  ["sources/LinearAlgebra.cpp", "include/blockTensor/LinearAlgebra.h", "sources/btensor_linalg.cpp"],
  [("index of the last kept value", "sources/LinearAlgebra.cpp:compute_last_index"), ("block truncation", "include/blockTensor/LinearAlgebra.h:truncate_impl")])

p("L02", "Block decompositions have matching bond structure and rebuild the tensor",
  "The factors of a singular value or Hermitian eigenvalue decomposition of a block tensor are valid block tensors that share one bond dimension with identical sections, have the outer dimensions of the tensor they came from in the same order, and contract back to the original tensor. "
  "Every allowed sector of the matrix form contributes to exactly one bond section and no two sectors are mixed. "
  "The operand is not modified.",
  ["inputs"], "every block structure, split position and stored block subset",
  "tests decompose three tensors; sector bookkeeping depends on which rows and columns of blocks are present",
  ["include/blockTensor/LinearAlgebra.h", "sources/btensor_linalg.cpp"],
  [("reordering by charge", "sources/btensor_linalg.cpp:reorder_by_cvals"), ("compaction", "sources/btensor_linalg.cpp:compact_dense")])

p("T01", "Dimension helpers and the generalised contraction compute what they state",
  "Concatenating, multiplying, slicing and reversing lists of dimensions returns exactly the concatenation, product, sub-range and reversal of its arguments. "
  "The generalised contraction returns beta times the input tensor plus alpha times the contraction of the two operands over the listed dimensions, in the order uncontracted dimensions of the first then of the second operand, for every operand shape including broadcast dimensions of size one, and the in-place, out-of-place and output-argument forms agree. "
  "Inconsistent shapes are refused and operands are not modified.",
  ["inputs"], "every list of dimensions, every pair of tensors and list of contracted dimensions",
  "tests check six literal lists and one contraction; reversal is never tested and broadcasting is not covered",
  ["sources/dimension_manip.cpp", "sources/tensorgdot.cpp"],
  [("dimension lists", "sources/dimension_manip.cpp"), ("contraction shapes", "sources/tensorgdot.cpp:compute_shape")])

p("N01", "Moving the orthogonality centre keeps the state and stays in the chain",
  "Moving the orthogonality centre of a matrix product state to any site of the chain, from any site and for any length, ends with the centre on that site, keeps the bond dimensions of neighbouring tensors equal, keeps the represented state, and leaves every tensor left of the centre a left isometry and every tensor right of it a right isometry when they were so before. "
  "The centre reported is always a valid site, and a request outside the chain is refused with an error leaving the state unchanged. "
  "Tensors whose ranks do not fit the network are refused on construction.",
  ["histories", "inputs"], "every chain length, sequence of centre moves, and block or dense tensors",
  "tests move the centre of one random state a few times",
  ["include/MPT.h", "sources/MPT.cpp"],
  [("sweeping decomposition", "sources/MPT.cpp:move_oc"), ("bounds", "include/MPT.h:MPS")])

p("N02", "A ground state search keeps its centre inside the chain and restores it",
  "During a two site search the active pair of sites always lies inside the chain for every chain length, starting centre and number of iterations; each sweep visits every neighbouring pair and turns around at the ends. "
  "When the search returns, the orthogonality centre is where it was at the start, the number of iterations does not exceed the maximum, and the returned energy is the last one computed. "
  "The Hamiltonian passed in is left unchanged.",
  ["histories", "inputs"], "every chain length of at least two sites, starting centre, step direction and iteration limit",
  "tests run searches on two lengths from one starting centre; the turning points depend on parity of length and starting side",
  ["sources/dmrg.cpp", "include/dmrg.h"],
  [("sweep with direction reversal", "sources/dmrg.cpp:sweep"), ("two site update", "sources/dmrg.cpp:dmrg_2sites_update"), ("driver", "sources/dmrg.cpp:dmrg_impl")])

p("N03", "The ground state search converges to the ground state energy",
  "For a Hamiltonian with a gap the search returns an energy within the requested convergence criterion of the true ground state energy of the chain in the charge sector of the initial state. "
  "The returned energy is an upper bound of the ground state energy up to rounding.",
  ["inputs"], "every Hamiltonian, initial state and option set",
  "tests compare four energies with reference values",
  ["sources/dmrg.cpp"], [("local eigenvalue problem", "sources/dmrg.cpp:two_sites_update")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]), x["title"])
        f.write(json.dumps(x) + "\n")

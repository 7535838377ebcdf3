#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements are easy to edit).
import json, os
EX='include/libcommute/expression/'; LO='include/libcommute/loperator/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state,obs):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=obs,hook_needed=None)))

p("E01","Normal ordering never changes the operator a product denotes",
 "Multiplying polynomial expressions of fermionic, bosonic and spin-S generators, in any order, grouping and mixture of algebras, yields an expression that denotes exactly the product of the operators its factors denote. This covers all (anti)commutation, contraction and power-reduction rules, for every spin multiplicity and any number of generators.",
 ["inputs","programs"],"All finite products of polynomials with built-in generators, any indices, any spin, any degree.",
 "Unit tests compare a few dozen hand-written products (mostly pairs of generators) with expected strings; sign and contraction errors that need longer words, a particular permutation, repeated generators or a mixture of algebras are not reached.",
 [EX+'expression.hpp',EX+'generator_fermion.hpp',EX+'generator_boson.hpp',EX+'generator_spin.hpp',EX+'monomial.hpp'],
 [("normalize_and_store (bubble sort + swap_with + simplify_prod)",EX+'expression.hpp'),("reduce_powers_and_store / reduce_power",EX+'expression.hpp'),("swap_with/simplify_prod of the built-in generators",EX+'generator_{fermion,boson,spin}.hpp')],
 [("monomials","map monomial -> coefficient",EX+'expression.hpp')],["iteration over the monomials of a product expression"])
p("E02","Stored form is canonical: equality holds exactly when operators are equal",
 "Every expression obtained through the public arithmetic is stored as a sum of canonically ordered, fully simplified, pairwise distinct monomials with non-vanishing coefficients. Consequently, for fermions, bosons and spins 1/2 two expressions compare equal if and only if they denote the same operator, and an expression is empty if and only if its operator is zero, however it has been computed.",
 ["inputs","histories"],"All pairs of ways to compute an operator by sums, products, scalar multiplications, conversions and conjugations.",
 "Tests check expected monomials of particular results; equality of the same operator computed along different routes and absence of zero/duplicate/unsorted monomials in all results cannot be sampled by fixed cases.",
 [EX+'expression.hpp',EX+'monomial.hpp',EX+'generator_spin.hpp'],
 [("normalize_and_store, store_monomial, remove_vanishing_terms",EX+'expression.hpp'),("monomial comparison",EX+'monomial.hpp')],
 [("monomials","map monomial -> coefficient",EX+'expression.hpp')],["iteration over monomials, size(), operator=="])
p("E03","Expression arithmetic obeys value semantics and ring laws over any history",
 "In any sequence of copies, assignments, additions, subtractions, multiplications, negations, scalar operations and their compound forms over a set of expression variables, each statement changes only its target, and sets it to the sum, difference, product or multiple of the operands' values before the statement. This includes statements whose operands are the target itself or refer to coefficients stored in it.",
 ["histories","programs"],"All finite programs over a set of expression variables, including self-referencing statements.",
 "Tests apply each operator once to a few fixed operands; long histories, cancellation to zero and re-use, and aliasing (x -= x, x *= x, x += x*y) are not exercised.",
 [EX+'expression.hpp','include/libcommute/scalar_traits.hpp'],
 [("binary and compound operators, *_impl methods",EX+'expression.hpp'),("add_assign/sub_assign/mul_assign","include/libcommute/scalar_traits.hpp")],
 [("variables","contents of all expression variables",'the calling program')],["contents of every variable after every statement"])
p("E04","Hermitian conjugation is an antilinear involutive anti-automorphism",
 "The Hermitian conjugate of an expression denotes the adjoint of its operator: coefficients are complex-conjugated, products are reversed with every generator replaced by its adjoint, and conjugating twice gives the original operator. Adding or subtracting the 'plus Hermitian conjugate' placeholder to an expression is the same as adding or subtracting its conjugate.",
 ["inputs"],"All expressions of the built-in and user-defined generators with real, complex and integer coefficients.",
 "Tests conjugate a handful of single products; long products, mixtures of algebras and complex coefficients interplay are sampled once.",
 [EX+'expression.hpp',EX+'hc.hpp',EX+'generator_spin.hpp',EX+'generator_fermion.hpp',EX+'generator_boson.hpp'],
 [("conj()",EX+'expression.hpp'),("generator conj()",EX+'generator_*.hpp'),("hc placeholder operators",EX+'hc.hpp')],[],["contents of conj(e), e + hc, e - hc"])
p("E05","Arithmetic is exact for every scalar type and mixture of scalar types",
 "Expression arithmetic performed with integer, rational, arbitrary precision, floating point or complex coefficients, or with a mixture of those, gives coefficients that equal the exact mathematical result converted to the type the scalars themselves would promote to. An operation whose structure constants are not representable in an integral scalar type is refused with an error instead of giving a wrong result.",
 ["inputs","configurations"],"All supported scalar types, pairs of types, operators and operands.",
 "Tests check type-level results and a few values for a subset of pairs of types.",
 [EX+'expression.hpp','include/libcommute/scalar_traits.hpp','include/libcommute/scalars/boost_rational.hpp','include/libcommute/scalars/gmpxx.hpp'],
 [("scalar_traits, *_res_t","include/libcommute/scalar_traits.hpp"),("mixed-type *_impl overloads",EX+'expression.hpp')],[],["contents of results with each combination of scalar types"])
p("E06","Generators, monomials and elementary spaces are strictly totally ordered",
 "The comparison operators of generators, of index sequences, of monomials and of elementary spaces each define one strict total order: exactly one of less, greater, equal holds for any two objects, it is transitive, and it agrees with the documented order (algebra first; creation before annihilation with ascending/descending indices; shorter monomials first). The order does not depend on whether indices are typed statically or dynamically.",
 ["inputs"],"All pairs and triples of generators, index sequences, monomials and elementary spaces.",
 "Tests verify one sorted list per kind; transitivity/antisymmetry over mixed lengths, mixed index types and multiplicities is not covered.",
 [EX+'generator.hpp',EX+'generator_fermion.hpp',EX+'generator_boson.hpp',EX+'generator_spin.hpp',EX+'monomial.hpp',EX+'dyn_indices.hpp',LO+'elementary_space.hpp',LO+'elementary_space_spin.hpp'],
 [("less/greater/equal overrides",EX+'generator_*.hpp'),("monomial operator<",EX+'monomial.hpp'),("dyn_indices comparison",EX+'dyn_indices.hpp')],[],["results of ==, !=, <, > for all pairs"])
p("E07","User-defined algebras are normalised by exactly the rules they declare",
 "For any user-defined algebra whose generators declare consistent exchange, pair-simplification and power-reduction rules, products are brought to the canonical form those rules determine, independently of the order of multiplication, and generators of different algebras commute. Linear operators built from such an algebra act as the user-supplied action says.",
 ["programs","inputs"],"All consistent rule sets of the documented form g1*g2 = c*g2*g1 + f and all products of their generators.",
 "Tests implement two example algebras and multiply a few generators.",
 [EX+'generator.hpp',EX+'expression.hpp',EX+'monomial.hpp',LO+'es_constructor.hpp',LO+'monomial_action.hpp'],
 [("swap_with, simplify_prod, reduce_power virtual rules",EX+'generator.hpp'),("normalize_and_store",EX+'expression.hpp'),("monomial_action dispatch by algebra",LO+'monomial_action.hpp')],[],["contents of products, action of loperator with user algebra IDs"])
p("E08","Factory-made operators satisfy their defining algebraic relations",
 "The operators returned by the factory functions (creation, annihilation and number operators, spin ladder and Cartesian components of any spin, real-to-complex conversion) are the ones documented, satisfy the canonical (anti)commutation and spin relations, and are the same operators when made with statically and dynamically typed indices.",
 ["inputs","configurations"],"All factory functions, index values, spins, scalar types, static and dynamic indices.",
 "Tests print individual factory results and check commutators for few indices and spins up to 3/2 or 2.",
 [EX+'factories.hpp',EX+'factories_dyn.hpp',EX+'generator_spin.hpp'],
 [("factory functions",EX+'factories.hpp'),("factory functions for dyn_indices",EX+'factories_dyn.hpp')],[],["contents of factory results and their commutators"])
p("H01","A Hilbert space always describes exactly the elementary spaces put into it",
 "After any history of constructions, insertions (successful, duplicate or too big), copies, moves and assignments, a Hilbert space reports precisely the ordered product of the elementary spaces inserted: their number, positions, dimensions, adjacent non-overlapping bit ranges, per-algebra bit ranges and total dimension are mutually consistent. A refused insertion leaves it unchanged, copies are independent and equal, and two spaces are equal exactly when their structures are.",
 ["histories","fault_sequences"],"All histories of operations over several Hilbert space objects, including failing operations.",
 "Tests build a few spaces by constructor or add() and check sizes; copies are only compared for equality and failures are not followed by further use.",
 [LO+'hilbert_space.hpp',LO+'elementary_space.hpp',LO+'elementary_space_boson.hpp',LO+'elementary_space_spin.hpp',LO+'elementary_space_fermion.hpp'],
 [("add, copy/move operations, recompute_bit_ranges",LO+'hilbert_space.hpp')],
 [("elementary_spaces_","ordered map elementary space -> bit range",LO+'hilbert_space.hpp'),("algebra_bit_ranges_","bit range of every algebra",LO+'hilbert_space.hpp'),("dim_, bit_range_end_","cached totals",LO+'hilbert_space.hpp')],
 ["all accessors of hilbert_space after every operation"])
p("H02","Enumeration visits every physical basis state exactly once, in ascending order",
 "Iterating over a Hilbert space passes to the callback each index whose per-space occupation numbers are all below the respective dimensions exactly once, in ascending order, and no other index. This holds for every mixture of power-of-two and other dimensions, of any size, for copies of the space, and when iterations over the same space are nested or abandoned.",
 ["inputs","histories"],"All sequences of elementary dimensions, nested and aborted iterations, big spaces.",
 "Tests enumerate a few fixed sparse spaces once.",
 [LO+'hilbert_space.hpp',LO+'bit_ops.hpp'],[("sparse_foreach_basis_state, init_foreach_alg",LO+'hilbert_space.hpp')],
 [("foreach_alg_","merged sizes and jumps",LO+'hilbert_space.hpp')],["sequence of indices passed to the callback of foreach()"])
p("H03","A Hilbert space made from an expression has exactly the spaces its terms need",
 "Constructing a Hilbert space from an expression inserts one elementary space for every distinct degree of freedom occurring in it, with the dimension determined by the generator or the supplied construction rule, and nothing else. A rule that cannot handle a generator is reported as an error.",
 ["inputs","configurations"],"All expressions over mixed algebras and all provided elementary-space construction rules.",
 "Tests construct spaces from few expressions with one dimension rule.",
 [LO+'hilbert_space.hpp',LO+'es_constructor.hpp'],[("constructor from expression, make_hilbert_space",LO+'hilbert_space.hpp'),("default_es_constructor, boson_es_constructor, es_constructor",LO+'es_constructor.hpp')],[],["accessors of the resulting hilbert_space, thrown exceptions"])
p("L01","A linear operator acts on states exactly as its matrix elements say",
 "Acting on any state with a linear operator made from an expression and a Hilbert space returns the exact image under the matrix of the expression in the occupation number basis, with the fermionic signs, bosonic square-root factors cut off at the space's dimension and spin-S ladder factors of the documented representation, and overwrites the destination. This holds for every product of generators, position of the degrees of freedom in the space, and basis state.",
 ["inputs","programs"],"All expressions, all Hilbert spaces containing their degrees of freedom (with arbitrary further ones), all states.",
 "Tests apply single products to the basis states of small fixed spaces with one ordering of elementary spaces.",
 [LO+'loperator.hpp',LO+'monomial_action.hpp',LO+'monomial_action_fermion.hpp',LO+'monomial_action_boson.hpp',LO+'monomial_action_spin.hpp'],
 [("monomial_action<fermion>::act",LO+'monomial_action_fermion.hpp'),("monomial_action<boson>::act",LO+'monomial_action_boson.hpp'),("monomial_action<spin>::act",LO+'monomial_action_spin.hpp'),("loperator::act_impl",LO+'loperator.hpp')],[],["amplitudes of the result for basis states and superpositions"])
p("L02","A parametric operator equals the plain operator with its coefficients evaluated",
 "For any argument values, acting with a parameter-dependent operator, with or without caller-provided coefficient storage, or converting it to a plain operator at these arguments first and then acting, all give the same state as the plain operator whose coefficients are the coefficient functions evaluated at the arguments. Every coefficient function receives the same argument values, and repeated calls do not influence each other.",
 ["inputs","histories"],"All parametric expressions, argument values (lvalues, rvalues, moved-from-able) and sequences of calls.",
 "Tests evaluate two operators with scalar arguments.",
 [LO+'loperator.hpp'],[("parametric_loperator::operator(), act_and_store_coeffs, at",LO+'loperator.hpp')],[],["resulting state vectors and stored coefficients"])
p("L03","The action of an operator does not depend on how states are stored",
 "Whatever storage is used for source and destination (dense arrays, sparse vectors, segments, columns and maps of linear-algebra library vectors, views of all kinds, mixtures of these), an operator produces the same amplitudes. A sparse state always stores exactly the elements that are non-zero, over any history of updates.",
 ["configurations","histories"],"All provided state vector types, source/destination combinations and update histories.",
 "Tests exercise accessor functions of each type separately.",
 [LO+'state_vector.hpp',LO+'sparse_state_vector.hpp',LO+'state_vector_eigen3.hpp',LO+'compressed_state_view.hpp',LO+'mapped_basis_view.hpp',LO+'n_fermion_sector_view.hpp'],
 [("get_element/update_add_element/set_zeros/zeros_like/foreach overloads",LO+'state_vector*.hpp'),("sparse_state_vector",LO+'sparse_state_vector.hpp')],
 [("sparse map","index -> non-zero amplitude",LO+'sparse_state_vector.hpp')],["amplitudes read from destinations, n_nonzeros()"])
p("S01","Space partition is exactly the set of connected components of the operator",
 "Partitioning the basis of a Hilbert space by an operator yields the finest partition into subspaces such that no matrix element connects two of them: two basis states share a subspace if and only if they are linked by a chain of non-zero matrix elements. Subspace numbers are contiguous, bases list every physical state exactly once in agreement with the lookup, and the collected matrix elements and connections are exactly those of the operator.",
 ["inputs"],"All operators and Hilbert spaces, dense and sparse.",
 "Tests partition two model Hamiltonians.",
 [LO+'space_partition.hpp',LO+'disjoint_sets.hpp'],[("space_partition constructor, update_root_to_subspace",LO+'space_partition.hpp'),("union-find",LO+'disjoint_sets.hpp')],
 [("ds, root_to_subspace","partition and numbering",LO+'space_partition.hpp')],["operator[], subspace_basis, subspace_bases, find_connections, stored matrix elements"])
p("S02","Merging subspaces yields one-to-one connections and merges nothing else",
 "After merging with a pair of mutually conjugate operators, each of them maps every subspace into at most one subspace and no two subspaces into the same one. The result is the finest coarsening of the previous partition with this property, for any sequence of merges with different operators, and the returned matrix elements are exactly those of the two operators.",
 ["inputs","histories"],"All Hilbert spaces, initial operators, pairs of conjugate operators and sequences of merges.",
 "Tests merge with the ladder operators of one model.",
 [LO+'space_partition.hpp',LO+'disjoint_sets.hpp'],[("merge_subspaces",LO+'space_partition.hpp')],
 [("ds, root_to_subspace","partition and numbering",LO+'space_partition.hpp')],["operator[], find_connections, returned matrix element maps"])
p("S03","Union-find keeps exactly the equivalence generated by the unions",
 "Over any history of creating elements, joining, looking up, compressing and normalising, two elements have the same representative if and only if they have been joined directly or through others, the number of sets is exact, representatives are members of their sets, and after compression and normalisation each representative is the smallest member.",
 ["histories"],"All operation sequences on up to any number of elements.",
 "Tests run one fixed sequence.",
 [LO+'disjoint_sets.hpp'],[("find_root, set_union, compress_sets, normalize_sets",LO+'disjoint_sets.hpp')],
 [("parents_, ranks_, n_sets_","forest",LO+'disjoint_sets.hpp')],["find_root, in_same_set, n_sets, size after every operation"])
p("V01","N-fermion sector views number the sector's states bijectively and consistently",
 "For every dense Hilbert space and particle number, the sector's size, its list of basis states and the index translation of its view agree for every ranking algorithm: the list holds each state with exactly that many fermions (and any other degrees of freedom) once, and the translation maps the n-th listed state to n. Reading, updating and iterating through the view touch exactly the corresponding amplitudes, also for nested iterations and copied views, and impossible requests (sparse spaces, too many particles) are refused.",
 ["inputs","configurations","histories"],"All numbers of modes up to 63, particle numbers, ranking algorithms and chunk sizes, presence of other degrees of freedom.",
 "Tests check sectors of a few modes for one or two chunk sizes.",
 [LO+'n_fermion_sector_view.hpp',LO+'bit_ops.hpp'],[("combination_ranking, staggered_ranking, trie_ranking",LO+'n_fermion_sector_view.hpp'),("unranking_generator",LO+'n_fermion_sector_view.hpp'),("binomial",LO+'n_fermion_sector_view.hpp')],
 [("lookup tables","precomputed ranks",LO+'n_fermion_sector_view.hpp')],["n_fermion_sector_size, n_fermion_sector_basis_states, map_index, foreach, get_element, update_add_element"])
p("V02","N-fermion multisector views number the multisector's states bijectively",
 "For every dense Hilbert space and list of disjoint sectors, the multisector's size, list of basis states and index translation agree for every ranking algorithm: the list holds each basis state having the prescribed number of fermions in every sector (and anything elsewhere) once, and the n-th listed state is translated to n. This holds for modes at any bit position, for copied views and nested iterations, and invalid requests (overlapping, unknown or overfull sectors, sparse spaces) are refused.",
 ["inputs","configurations","histories"],"All Hilbert spaces, sector decompositions (interleaved modes, empty sectors), ranking algorithms.",
 "Tests use one 11-mode layout with few decompositions.",
 [LO+'n_fermion_sector_view.hpp',LO+'bit_ops.hpp'],[("multisector_unranking_generator",LO+'n_fermion_sector_view.hpp'),("n_fermion_multisector_view::map_index",LO+'n_fermion_sector_view.hpp'),("extract_bits, deposit_bits",LO+'bit_ops.hpp')],[],["n_fermion_multisector_size, n_fermion_multisector_basis_states, map_index, foreach, get_element, update_add_element"])
p("V03","Compressed views map physical states bijectively onto a contiguous range",
 "For every Hilbert space, sparse or dense, a compressed view translates the indices of its physical basis states one-to-one onto 0..dimension-1, and reading, updating and iterating through the view touch exactly the amplitude of the addressed state. Iteration reports each non-zero amplitude once together with the right basis state index.",
 ["inputs"],"All sequences of elementary dimensions.",
 "Tests check one sparse layout.",
 [LO+'compressed_state_view.hpp',LO+'bit_ops.hpp'],[("map_index masks and strides",LO+'compressed_state_view.hpp')],[],["map_index, foreach, get_element, update_add_element"])
p("V04","Mapped basis views address exactly the states of their mapping",
 "A basis mapper built from a list of states maps them to their positions; built from one operator, or from a list of operators and a total power, it contains exactly the basis states contributing to the documented states generated from the vacuum, numbered contiguously from zero. Views made from it read, update and iterate over exactly these amplitudes and refuse any other index, and its inverse map is the inverse.",
 ["inputs"],"All lists of states, operators, lists of (not necessarily commuting) operators and powers.",
 "Tests use commuting creation operators only.",
 [LO+'mapped_basis_view.hpp'],[("basis_mapper constructors",LO+'mapped_basis_view.hpp'),("mapped_basis_view accessors",LO+'mapped_basis_view.hpp')],[("map_","basis state index -> position",LO+'mapped_basis_view.hpp')],["map(), inverse_map(), size(), get_element, update_add_element, foreach"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))

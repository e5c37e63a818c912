"""Writes /verif/properties.jsonl (one JSON object per line). Run by hand when the property list changes."""
import json
import os

D = 'discretehelpers/'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []


def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    anchors = {
        'files': [D + f for f in files],
        'mechanism': [{'name': n, 'where': D + w} for n, w in mech],
        'observe_at': observe,
        'hook_needed': None,
    }
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': D + w} for n, m, w in state]
    rows.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why, 'anchors': anchors,
    })


I = '/__init__.py'

P('C01', 'Binary vectors: all constructions and readings of one vector agree',
  'A binary vector built from a list, tuple, numpy array, digit string (with or without spaces), another binary vector, an integer with a length, or a set of true positions with a length is the same object value in all cases. '
  'Its integer value is little-endian, and its length, weight, number of changes, set of true positions, plain and pretty strings, reverse, complement, split of positions into two blocks, indexing, slicing and concatenation all describe that same vector. '
  'Evaluating its printed form gives back an equal vector with an equal hash.',
  ['inputs'], 'all bit vectors of any length (including lengths of 53 and more bits) and all input encodings of them',
  'The unit tests use a few dozen literal vectors of at most 16 or so bits; agreement between encodings is quantified over all vectors and lengths, and float-based length computations only go wrong for long ones.',
  ['binv' + I, 'binv/a/binary_length' + I, 'binv/a/to_pretty_string' + I, 'binv/methods/str.py', 'binv/metributes/intval.py', 'binv/metributes/set_part.py'],
  [('constructor', 'binv' + I), ('length from integer', 'binv/a/binary_length' + I), ('lazy attributes', 'binv/metributes')],
  ['Binv(...) attributes, str(), hash(), ==, [], len(), +'])

P('C02', 'Binary vectors: bitwise operators and comparisons match integers',
  'For two vectors of equal length, and/or/xor/not give the vectors whose integer values are the results of the integer operations, they satisfy the Boolean algebra laws, and operands are left unchanged. '
  'The bitwise-smaller relation holds exactly when the true positions form a proper subset, and the ordering operators are the lexicographic total order of the digit sequences. '
  'Equality holds exactly for equal digit sequences, equal vectors hash equally, and flipping a bit gives a vector that differs in exactly that bit.',
  ['inputs'], 'all pairs and triples of equally long bit vectors and all positions',
  'Tests check single operations on fixed short literals; the laws are quantified over pairs and triples of vectors of every length.',
  ['binv' + I, 'binv/methods/bitwise.py', 'binv/methods/comparisons.py', 'binv/methods/str.py'],
  [('bitwise', 'binv/methods/bitwise.py'), ('comparisons', 'binv/methods/comparisons.py')],
  ['results of &, |, ^, ~, <, <=, ==, hash(), flip_bit'])

P('C03', 'Finite permutations form a group however they are written down',
  'A finite permutation built from its sequence, from its cycles or from a mapping dictionary of the same permutation is one equal, equally hashing value, trailing fixed points not mattering. '
  'Its product is composition with the right factor applied first; identity, inverses, integer powers, cycles, order and parity are those of the permutation group, and sequences, single images and slices agree with the map. '
  'Operations never change their operands, and evaluating the printed form of a permutation gives it back.',
  ['inputs'], 'all finite permutations (and pairs/triples), all their written forms, all integer exponents',
  'Tests cover a handful of fixed permutations of length up to about 8; group laws are quantified over pairs and triples, and the written forms interact with normalisation.',
  ['perm' + I, 'perm/metributes/cycles.py', 'perm/metributes/inverse.py', 'perm/metributes/order.py', 'perm/metributes/parity' + I],
  [('constructor normalisation', 'perm' + I), ('product and power', 'perm' + I)],
  ['Perm(...) equality/hash, [], sequence, *, **, inverse, cycles, order, parity'])

P('C04', 'Permutation ranks, inversion sets and inversion vectors are bijections',
  'The left rank is the position of the permutation in the list of all finite permutations in reverse colexicographic order, and building a permutation from that number gives it back; the right rank is the position among the permutations of its own length in lexicographic order. '
  'The left and right inversion counts, the inversion vector and the inversion set are the numbers of inversions counted from the definition, and each conversion back to a permutation inverts the corresponding conversion. '
  'The parity equals the parity of the number of inversions.',
  ['inputs'], 'all permutations of every length and all natural numbers as ranks',
  'Tests enumerate lengths up to 4 or a few literals; the ranks are unbounded integers and the definitions are quantified over all lengths.',
  ['perm/metributes/ranks/left_rank.py', 'perm/metributes/ranks/right_rank.py', 'perm/metributes/inversion_set' + I, 'perm/a/inversion_related_vectors' + I, 'a/int_to_perm' + I, 'a/int_to_factoradic' + I, 'a/rev_colex_perms' + I],
  [('ranks', 'perm/metributes/ranks'), ('inversion vectors', 'perm/a/inversion_related_vectors' + I)],
  ['left_rank, right_rank, inversion_set, parity, int_to_perm, rev_colex_perms, inversion helpers'])

P('C05', 'Periodic permutations equal iff they are the same map on all naturals',
  'A periodic permutation is the map on all natural numbers that repeats its pattern with its period; two of them are equal (and hash equally) exactly if these maps are equal, the reported period is the smallest possible one, and evaluating the printed form gives the permutation back. '
  'Products, powers and inverses of periodic permutations are the pointwise ones, also for different periods, and cycles and sequences within any multiple of the period agree with the map. '
  'Combining a moving finite with a moving periodic permutation, or asking for a length that does not fit the period, is rejected with the dedicated error.',
  ['inputs'], 'all patterns, all stated multiples of their minimal period, all pairs of periods',
  'Tests use two or three literal periods; reduction to the minimal period and mixing of periods are quantified over all divisors and pairs.',
  ['perm' + I, 'perm/a/reduce_period' + I, 'perm/a/broaden_moved' + I],
  [('period reduction', 'perm/a/reduce_period' + I), ('periodic product', 'perm' + I)],
  ['Perm(..., perilen) equality, perilen, [], sequence, *, inverse'])

P('C06', 'Permutations act on vectors and on binary digits as homomorphisms',
  'Applying a permutation to a vector moves the entry at each position to the image of that position, for every container length that fits. '
  'The Schoute permutation of a (signed) permutation is the map on naturals that permutes (and complements) the binary digits, repeated with period a power of two, and taking it turns products into products and inverses into inverses. '
  'A plain permutation can be recovered from its Schoute permutation, and the same holds for signed ones.',
  ['inputs'], 'all permutations and signed permutations, all vectors, all naturals',
  'Tests compare a few literal Schoute permutations; the homomorphism laws are quantified over pairs.',
  ['perm' + I, 'perm/metributes/schoute_perm' + I, 'sig_perm' + I, 'sig_perm/a/schoute_to_finite_inverse' + I],
  [('digit permutation', 'perm/metributes/schoute_perm' + I), ('apply on vector', 'perm' + I), ('recover from Schoute', 'sig_perm/a/schoute_to_finite_inverse' + I)],
  ['apply_on_vector, schoute_perm, SigPerm(schoute_perm=...)'])

P('C07', 'Signed permutations: every construction gives one canonical value',
  'A signed permutation given by its signed sequence, its signed matrix, its negated values or negated positions (as vector or as number) with its permutation (as object, sequence or rank), its index pair, or its Schoute permutation is the same equal, equally hashing value, whatever surplus fixed places or surplus unset digits the input carries. '
  'The sequence, matrix, sequence string, indices of negated values, negated positions and permutation, and the index pair all describe that value and lead back to it.',
  ['inputs'], 'all signed permutations and all ways to write them, with and without redundant trailing places',
  'Tests compare a small table of literal signed permutations of size up to 4; redundancy in the input multiplies the forms.',
  ['sig_perm' + I, 'sig_perm/a/matrix_to_sequence' + I, 'sig_perm/a/sequence_to_matrix' + I, 'sig_perm/metributes/_indices' + I, 'sig_perm/metributes/sequence_minimal.py'],
  [('constructor', 'sig_perm' + I), ('indices', 'sig_perm/metributes/_indices' + I)],
  ['SigPerm(...) equality/hash, sequence, matrix, pair, *_index, sequence_string'])

P('C08', 'Signed permutations: product, inverse and actions are consistent',
  'The product of signed permutations is the product of their signed permutation matrices (right factor acting first) and satisfies the group laws with the inverse as transposed matrix. '
  'Applying one to a vector moves entries like the matrix does, logically negating them where the sign is negative, and applying one to a natural number permutes and complements its binary digits; both are actions compatible with products.',
  ['inputs'], 'all signed permutations, pairs and triples of different sizes, all vectors and naturals',
  'Tests check single literal products; laws are quantified over triples of mixed sizes.',
  ['sig_perm' + I, 'sig_perm/metributes/inverse.py'],
  [('product', 'sig_perm' + I), ('inverse', 'sig_perm/metributes/inverse.py'), ('actions', 'sig_perm' + I)],
  ['*, inverse, apply_on_vector, apply_on_natural_number'])

P('C09', 'Walsh permutations are exactly the invertible binary matrices',
  'A Walsh permutation given by its column numbers, by its binary matrix or by the permutation it induces is one equal value, and its matrix, column numbers, row numbers, degree, permutation sequence and single images agree with matrix-vector multiplication modulo two, independent of surplus identity rows and columns in the input. '
  'Input that is a singular or non-square matrix, or a permutation not induced by any such matrix, is rejected with a dedicated error and never accepted. '
  'Requests for a bigger size are padded with the identity.',
  ['inputs'], 'all invertible and singular binary matrices of any degree, all linear and non-linear permutations',
  'Tests use a few literal degree 3 and 4 matrices; singularity must be detected for every matrix.',
  ['walsh_perm' + I, 'walsh_perm/a/vector_to_matrix' + I, 'walsh_perm/a/matrix_to_vector' + I, 'walsh_perm/a/perm_to_matrix' + I, 'walsh_perm/a/shrink_matrix' + I, 'walsh_perm/methods/matrix' + I, 'walsh_perm/methods/vector' + I],
  [('constructor and validation', 'walsh_perm' + I), ('shrinking', 'walsh_perm/a/shrink_matrix' + I)],
  ['WalshPerm(...) equality, matrix, vector, transpose_vector, sequence, [], raised errors'])

P('C10', 'Walsh permutations form the general linear group over GF(2)',
  'Products, powers, inverses and transposes of Walsh permutations are those of their binary matrices modulo two and agree with composing and inverting the permutations they induce. '
  'The determinant is that of the integer matrix, cycles and order are those of the induced permutation, and the complement pattern of a degree is the number that is mapped to the all-ones number of that degree. '
  'Mixing with ordinary permutations gives the composed ordinary permutation.',
  ['inputs'], 'all pairs of invertible binary matrices of equal or different degree',
  'Tests check literal products; the inverse goes through floating point, whose failures depend on the matrix.',
  ['walsh_perm' + I, 'walsh_perm/metributes/inverse' + I, 'walsh_perm/metributes/transpose' + I, 'walsh_perm/metributes/determinant' + I, 'walsh_perm/metributes/mapping' + I, 'walsh_perm/methods/complement_pattern' + I],
  [('inverse', 'walsh_perm/metributes/inverse' + I), ('product', 'walsh_perm' + I)],
  ['*, **, inverse, transpose, determinant, cycles, order, complement_pattern'])

P('C11', 'Set partitions: any history of merges and refinements keeps the right blocks',
  'After any sequence of merging pairs, merging many elements and refining blocks, a set partition over the naturals, the integers or a finite domain has exactly the blocks of the equivalence relation described by that history. '
  'Everything read from it at any moment (non-singleton blocks in sorted order, length, blocks including singletons, same-block tests, block of an element, set of pairs, number encoding the pairs, singletons, domain membership) describes the current blocks, also when the same thing was read before the last change. '
  'A refused change leaves the partition as it was.',
  ['histories', 'inputs'], 'all operation sequences interleaved with reads, on all three kinds of domain',
  'Tests perform one or two changes on fixed partitions and then read once; staleness and refused changes only show in longer histories.',
  ['set_part' + I, 'set_part/methods/merge_pair' + I, 'set_part/methods/merge_many' + I, 'set_part/methods/refine_block' + I, 'set_part/methods/blocks_with_singletons' + I, 'set_part/metributes/pairs' + I, 'set_part/metributes/intval' + I, 'set_part/metributes/singletons' + I],
  [('merge', 'set_part/methods/merge_pair' + I), ('refine', 'set_part/methods/refine_block' + I), ('cached readings', 'set_part/metributes')],
  ['SetPart attributes and methods after each step'],
  state=[('blocks', 'non-singleton blocks', 'set_part' + I), ('cached attributes', 'values derived from blocks', 'set_part/metributes')])

P('C12', 'Set partitions form a lattice: meet, join and refinement order agree',
  'On any common domain (naturals, integers or finite) the meet of two partitions consists of the non-empty intersections of blocks and the join of the connected unions of overlapping blocks, both on the same domain, and neither operand is changed. '
  'Meet and join are commutative, associative, idempotent and absorbing, and one partition is below another exactly if each of its blocks lies in a block of the other, equivalently if their meet is the first or their join the second. '
  'All provided implementations of join and meet give the same result, and comparing partitions of different domains is refused.',
  ['inputs', 'configurations'], 'all pairs and triples of partitions on all kinds of domains',
  'Tests use fixed examples on the naturals only.',
  ['set_part' + I, 'set_part/methods/meet_and_join/meet.py', 'set_part/methods/meet_and_join/join/_0_prototypes.py', 'set_part/methods/meet_and_join/join/_1_fast.py'],
  [('join', 'set_part/methods/meet_and_join/join/_1_fast.py'), ('meet', 'set_part/methods/meet_and_join/meet.py'), ('order', 'set_part' + I)],
  ['meet, join, <=, <, ==, domain of results'])

P('C13', 'Block labels stay attached to the right blocks through every change',
  'Labels given to blocks or elements are found again from the block, from each of its elements and from the label, giving the same label to elements merges their blocks, and a label contradiction is refused without changing anything. '
  'Merging keeps the label of the labelled block, refining assigns the given new labels to the new blocks, and unrelated blocks keep theirs, including singleton blocks. '
  'Building a labelled partition from a list or dictionary puts together exactly the places with equal values.',
  ['histories', 'inputs'], 'all sequences of labelling, merging and refining',
  'Tests label a few fixed blocks once.',
  ['set_part' + I, 'set_part/methods/block_labels' + I, 'set_part/methods/merge_pair' + I, 'set_part/methods/refine_block' + I, 'a/inventory_partition' + I],
  [('labels', 'set_part/methods/block_labels' + I)],
  ['get_label_from_block/element, get_block_from_label/element, block_labels, inventory_partition'],
  state=[('block_labels', 'map from block to label', 'set_part' + I)])

P('C14', 'Partitions with complements: equality and complement facts stay consistent',
  'After any sequence of equality and complement statements, a partition with complements knows two elements as equal or as complements exactly if this follows from the statements by the rules of set complement (a thing equals itself, the complement of a complement is the thing). '
  'A statement contradicting what follows is refused with the dedicated error and changes nothing. '
  'The representative, complement representative, list of all complementary pairs, comparison of two of them, test whether a number respects the facts, derived Boolean function and constructor from blocks and pairs agree with this.',
  ['histories', 'inputs'], 'all sequences of statements over elements including the universe',
  'Tests apply a few fixed statements; transitive consequences and contradictions need histories.',
  ['set_part_comp' + I, 'set_part_comp/helpers.py', 'set_part_comp/methods/set_equal' + I, 'set_part_comp/methods/set_comp' + I, 'set_part_comp/methods/all_complement_pairs' + I, 'set_part_comp/methods/int_matches' + I, 'set_part_comp/methods/boolf' + I],
  [('statements', 'set_part_comp/methods/set_equal' + I), ('complement statements', 'set_part_comp/methods/set_comp' + I)],
  ['are_equal, are_comp, get_comp, get_repr, all_complement_pairs, int_matches, boolf, =='],
  state=[('equal part and complement pairs', 'known facts', 'set_part_comp' + I)])

P('C15', 'Boolean functions have one canonical form whatever they are built from',
  'A Boolean function of named arguments built from its truth table (list, string, binary vector, integer with arity), with or without argument names in any order, from its true places, its Zhegalkin index, its Walsh spectrum, a single (negated) argument, or a multi-argument connective is one equal, equally hashing value. '
  'It lists exactly the arguments it depends on, in ascending order, with a truth table over just these, whatever irrelevant arguments the input had. '
  'Evaluating its printed form gives it back, and distinct functions print differently.',
  ['inputs'], 'all truth tables, argument name lists and encodings of the same function',
  'Tests build a catalogue of literal functions; removal of irrelevant arguments and reordering is quantified over all truth tables and orders.',
  ['boolf' + I, 'boolf/subinit_methods', 'boolf/a/deflate' + I, 'boolf/a/reorder_if_atomvals_not_asc' + I, 'boolf/methods/str' + I],
  [('deflation', 'boolf/a/deflate' + I), ('reordering', 'boolf/a/reorder_if_atomvals_not_asc' + I), ('constructors', 'boolf/subinit_methods')],
  ['Boolf(...) root, atomvals, valency, adicity, ==, hash, str'])

P('C16', 'Boolean functions form a Boolean algebra over any arguments',
  'And, or, xor and not of Boolean functions over different arguments are the pointwise operations, satisfy the laws of Boolean algebra, and depend only on arguments that still matter. '
  'The four bitwise comparisons are the pointwise implication order, strict ones being strict, and the ordering operators are a total order consistent with equality. '
  'The complement, reverse, root version and multi-argument connectives are the pointwise ones, and operands are unchanged.',
  ['inputs'], 'all pairs and triples of functions on overlapping, nested or disjoint arguments',
  'Tests check a few literals; laws are quantified over triples and argument overlap patterns.',
  ['boolf/methods/bitwise' + I, 'boolf/methods/str' + I, 'boolf/metributes/complement' + I, 'boolf/metributes/reverse' + I, 'boolf/subinit_methods/multi' + I],
  [('bitwise', 'boolf/methods/bitwise' + I), ('multi', 'boolf/subinit_methods/multi' + I)],
  ['&, |, ^, ~, bitwise_*, <, complement, reverse, multi_* constructors'])

P('C17', 'Evaluating a Boolean function gives the same truth value everywhere',
  'The truth value at a natural number (its binary digits being the arguments), the truth table for any arity or any superset of the arguments, the evaluation of truth values or of truth-value lists, the inflated true places, the true places with their arguments and weights, and the weight and value fractions all describe one and the same function. '
  'A requested arity or argument set that is too small is refused with the dedicated error.',
  ['inputs'], 'all functions, arities, argument supersets and argument values',
  'Tests read some tables of literals; spread arguments combined with supersets are quantified over all interleavings.',
  ['boolf' + I, 'boolf/methods/tt' + I, 'boolf/methods/vals_apply/val.py', 'boolf/methods/vals_apply/vals.py', 'boolf/methods/inflated_fullspots' + I, 'boolf/methods/value_fract' + I, 'boolf/metributes/_basics'],
  [('truth table extension', 'boolf/methods/tt' + I), ('indexing', 'boolf' + I), ('evaluation', 'boolf/methods/vals_apply/val.py')],
  ['tt(), [], val(), vals(), inflated_fullspots(), fullspot*, value_fract, weight_fract'])

P('C18', 'Applying functions to signed arguments is substitution and a group action',
  'Applying a Boolean function to a list of (possibly negated) argument names gives the function with the arguments replaced accordingly. '
  'Applying a signed permutation renames and negates the arguments by it, agrees with moving the true places of the truth table, is compatible with products and inverses of signed permutations, and commutes with the pointwise operations.',
  ['inputs'], 'all functions, all signed argument lists, all (pairs of) signed permutations',
  'Tests check literals of valency 3; the action law is quantified over pairs of signed permutations and spread functions.',
  ['boolf/methods/vals_apply/apply.py', 'boolf/methods/vals_apply/apply_sigperm.py', 'boolf/methods/vals_apply/vals.py', 'boolf/a/spread_sigperm_to_sigvar' + I],
  [('substitution', 'boolf/methods/vals_apply/apply.py'), ('signed permutation', 'boolf/methods/vals_apply/apply_sigperm.py')],
  ['apply(), apply_sigperm()'])

P('C19', 'Zhegalkin index, twin, prefect and consul are the algebraic transforms',
  'The Zhegalkin index encodes the algebraic normal form, building from it and reading it are inverse, and the exclusive or of functions is the exclusive or of their indices. '
  'The twin is the function whose truth table is the algebraic normal form, an involution for each arity; the prefect is the linear function given by the exclusive or of the exponents of the Zhegalkin index. '
  'The consul is the exclusive or of the true places (equal to the slow matrix computation), which is the Walsh index of the twin\'s prefect.',
  ['inputs'], 'all functions and arities',
  'Tests use 3-ary literals and some exhaustive small tables; bigger arities and spread functions are unreached.',
  ['boolf/metributes/zhe' + I, 'boolf/methods/twin' + I, 'boolf/metributes/_prefect' + I, 'boolf/methods/consul' + I, 'boolf/a/twin_misc' + I],
  [('transform', 'boolf/a/twin_misc' + I), ('prefect', 'boolf/metributes/_prefect' + I), ('consul', 'boolf/methods/consul' + I)],
  ['zhe, Boolf(zhe=), twin, prefect_*, consul*'])

P('C20', 'Noble functions and patrons: numbering and quadrant maps are bijections',
  'The numbers of noble functions (equal to their own twin) of an arity are in bijection with their indices, the maps both ways being mutually inverse and non-noble numbers being refused. '
  'The patron of a function (xor with its twin) is noble, its number, index, quadrant, royal and king agree with the numeric helpers, and the royal of each noble is the one of its quadrant coset that lies in quadrant zero. '
  'Praetor and symmetric-function numbers agree with their definitions on truth tables.',
  ['inputs'], 'all functions and noble numbers for arities up to what is computable',
  'Tests enumerate arity up to 3; larger arities unreached.',
  ['boolf/a/_noble', 'boolf/methods/_patron' + I, 'boolf/methods/is_noble' + I, 'boolf/methods/noble_quadrant' + I, 'boolf/a/praetor_int' + I, 'boolf/a/symmetric_to_index' + I],
  [('noble numbering', 'boolf/a/_noble'), ('patron', 'boolf/methods/_patron' + I)],
  ['index_to_noble, noble_to_*, patron_*, is_noble, noble_quadrant'])

P('C21', 'Walsh spectrum and Walsh distances match the definition and invert',
  'The Walsh spectrum of a function for any admissible arity or argument superset is the product of its truth table with the signed Walsh matrix, its absolute and layered versions are derived from it, and building a function from a spectrum inverts it, other vectors being refused. '
  'The Walsh distances are the Hamming distances to the rows of the binary Walsh matrix, and both determine each other.',
  ['inputs'], 'all functions, arities and supersets; all integer vectors as candidate spectra',
  'Tests use one literal.',
  ['boolf/methods/walsh_spectrum' + I, 'boolf/methods/walsh_distances' + I, 'boolf/subinit_methods/ws' + I, 'boolf/a/flat_to_layered' + I],
  [('spectrum', 'boolf/methods/walsh_spectrum' + I), ('distances', 'boolf/methods/walsh_distances' + I)],
  ['walsh_spectrum*(), walsh_distances(), Boolf(walsh_spectrum=)'])

P('C22', 'Families, factions and clans are the orbits under negation and permutation',
  'The family, faction and clan of a function are labelled partitions whose labels are exactly the functions reachable by negating, permuting, or negating and permuting its arguments (within the given arity), and whose blocks are exactly the transforms yielding each label. '
  'All blocks are cosets of equal size, members of one class have the same class, and the short form with argument selections describes the same set of functions as the long form. '
  'Too small arities are refused.',
  ['inputs', 'configurations'], 'all functions up to the feasible arity, both forms, arities above the number of arguments',
  'Tests list a few literal classes.',
  ['boolf/methods/_ec/ec_family' + I, 'boolf/methods/_ec/ec_faction' + I, 'boolf/methods/_ec/ec_clan' + I],
  [('family', 'boolf/methods/_ec/ec_family' + I), ('faction', 'boolf/methods/_ec/ec_faction' + I), ('clan', 'boolf/methods/_ec/ec_clan' + I)],
  ['ec_family(), ec_faction(), ec_clan() blocks and labels'])

P('C23', 'Class representatives are the minima and are invariant within the class',
  'The minimal representatives of family, faction and clan are the class members with the smallest Zhegalkin index, so two functions have the same representative exactly if they are in the same class. '
  'The male representative of a family with odd weight is its unique member whose true places have zero exclusive or, other functions being refused, and a family is reported self-complementary exactly if it contains the complement.',
  ['inputs'], 'all functions up to the feasible arity, and random transforms of them',
  'Tests compare a small table; the fast search prunes candidates in data dependent ways.',
  ['boolf/metributes/_ec_reps', 'boolf/metributes/family_is_self_complementary' + I],
  [('fast family search', 'boolf/metributes/_ec_reps'), ('self-complementary', 'boolf/metributes/family_is_self_complementary' + I)],
  ['family_minrep, faction_minrep, clan_minrep, family_malerep, family_is_self_complementary'])

P('C24', 'Redundant sets: bloat, blot and blight are found and removed losslessly',
  'A function seen as an arrangement of sets has bloat exactly where two sets are equal or complementary on all its true places and blot exactly where a set is empty or universal there; the reported facts, preferred sides and the corresponding functions express exactly these. '
  'The function is the conjunction of its bloat (blight) function with its bloatless (blightless) function, the latter has no bloat (blight) left, and both predicates hold exactly if nothing was to remove. '
  'Mapping a place to its bloatless or blightless place keeps exactly the remaining digits, carries true places to true places and refuses places contradicting the facts.',
  ['inputs'], 'all functions, particularly those constructed with equal, complementary, empty and universal sets',
  'Tests use a catalogue of about twenty literals.',
  ['boolf/metributes/_blight', 'boolf/metributes/_splits', 'boolf/metributes/onesided_atomkeys' + I, 'boolf/metributes/onesided_is_universe' + I, 'boolf/methods/bloatless_spotint' + I, 'boolf/methods/blightless_spotint' + I],
  [('splits', 'boolf/metributes/_splits'), ('bloat/blot/blight', 'boolf/metributes/_blight')],
  ['splits*, bloat*, blot*, blight*, *less_spotint()'])

P('C25', 'Filtrates are projections, and pairwise set relations agree with them',
  'The filtrate of a function to some of its arguments is true exactly where some completion by the other arguments is true, independent of the order the arguments are listed in, monotone, and composing like projections; other arguments are refused. '
  'The pairwise filtrates, in either order of the pair, and the relations subset, intersection, crossing and border-inside derived from them agree with the true places, and the pretty listings name the same pairs.',
  ['inputs'], 'all functions, argument subsets, orders and pairs',
  'Tests use a few literals without empty or universal sets.',
  ['boolf/methods/filtrated_boolf' + I, 'boolf/methods/filtrated_pair' + I, 'boolf/metributes/_basics/filtrated_pairs' + I, 'boolf/methods/atom_pair_subset' + I, 'boolf/methods/atom_border_in_atom_side' + I, 'boolf/metributes/atom_to_crossing_atoms' + I, 'boolf/methods/_pretty/filtrated_pairs_pretty' + I],
  [('projection', 'boolf/methods/filtrated_boolf' + I), ('pair', 'boolf/methods/filtrated_pair' + I)],
  ['filtrated_boolf(), filtrated_pair(), filtrated_pairs, atom_pair_*(), atom_to_crossing_atoms'])

P('C26', 'Bundles, grids and gapless functions follow from the pairwise overlaps',
  'For a function without redundant sets, the bundles are the connected components of the crossing relation between its sets, the overlap counts list the pairs inside each bundle by number of overlaps, and the grid partitions join the non-crossing pairs of each bundle. '
  'The gapless function is the conjunction of all pairwise constraints of non-crossing pairs, hence true at least wherever the function is, and gapless again. '
  'Functions with equal or complementary sets are refused, and for grids and the gapless function also those with empty or universal sets.',
  ['inputs'], 'all functions without redundant sets, and refused ones',
  'Tests use catalogue literals.',
  ['boolf/metributes/_bundle', 'boolf/metributes/gapless_boolf' + I, 'boolf/methods/_pretty/bundles_pretty' + I],
  [('bundles', 'boolf/metributes/_bundle'), ('gapless', 'boolf/metributes/gapless_boolf' + I)],
  ['bundles, bundle_overlap_counts, bundle_grid_partitions, gapless_boolf, is_bundle'])

P('C27', 'Hypersplits are exactly the fully crossing subsets of sets',
  'For a function without redundant sets, the hypersplits of each dimension are exactly the sets of that many arguments all of whose sign combinations occur among the true places, with the partition of the true places by these combinations. '
  'The detailed and pretty forms label the same blocks, combining any list of splits gives the partition of the true places by these arguments, and the potential cores list exactly the sign vectors of the other arguments compatible with their relations to the crossing ones.',
  ['inputs'], 'all functions without redundant sets and all argument subsets',
  'Tests use two or three literals.',
  ['boolf/metributes/hypersplits' + I, 'boolf/metributes/hypersplits_detailed' + I, 'boolf/metributes/hypersplits_potential_cores' + I, 'boolf/methods/splits_combined' + I, 'boolf/methods/_pretty/hypersplits_pretty' + I],
  [('hypersplits', 'boolf/metributes/hypersplits' + I), ('cores', 'boolf/metributes/hypersplits_potential_cores' + I)],
  ['hypersplits*, splits_combined()'])

P('C28', 'Fissions and hyperfissions cut the truth table and its spectrum consistently',
  'The fission in a dimension is the pair of truth tables obtained by fixing that argument to false and true, a hyperfission the same for several arguments in the given order, and zipping the pieces together restores the truth table. '
  'Weights, layered versions and Walsh spectra (plain, absolute, layered, zipped, labelled) of the pieces are those of the pieces. '
  'Sum and difference of a fission\'s spectra give the spectrum of the function.',
  ['inputs'], 'all functions, all lists of distinct dimensions in any order',
  'Tests use four literals.',
  ['boolf/metributes/_fissions', 'boolf/methods/_hyperfission', 'a/vector_zip_apart' + I, 'a/vector_zip_together' + I, 'boolf/a/atom_indices_to_sequence' + I],
  [('fissions', 'boolf/metributes/_fissions'), ('hyperfission', 'boolf/methods/_hyperfission')],
  ['fissions*, fission_walsh_spectra*, hyperfission*'])

P('C29', 'Foibles, quadrants, layers and leaders obey their defining relations',
  'Oddness, odiousness, ugliness, maleness, sharpness, acuteness, rudeness and roughness of a function are the stated parities of its truth table for the arity, and are related under twin, complement and reverse as documented. '
  'Quadrant, weight quadrant, acute quadrant and octant combine them as documented; the leader is the member of the quadrant coset that lies in quadrant zero and is the same for all four of its cosets. '
  'Layered truth tables, true places and weights group the places by digit sum, and a function is symmetric exactly if each layer is constant.',
  ['inputs'], 'all functions and admissible arities',
  'Tests check exhaustive arity at most 3 for some of the relations.',
  ['boolf/metributes/_foibles' + I, 'boolf/methods/_foibles' + I, 'boolf/methods/_quadrant_extensions' + I, 'boolf/metributes/quadrant' + I, 'boolf/methods/leader' + I, 'boolf/metributes/_layered', 'boolf/metributes/is_symmetric' + I, 'boolf/methods/hasse_matrix_coordinates' + I],
  [('foibles', 'boolf/methods/_foibles' + I), ('leader', 'boolf/methods/leader' + I), ('layers', 'boolf/metributes/_layered')],
  ['is_odd ... is_rough(), quadrant, *_quadrant(), octant(), leader(), layered_*, is_symmetric'])

P('C30', 'Segments of a diagram are the geometric closure of its true places',
  'The segments found for a function are the smallest collection of ternary vectors that contains its true places, contains both sides of each member\'s free places, and contains the common wall of any two members differing only by sign in one place. '
  'The derived cells, links and neighbouring links are read off that collection, its counts by dimension match it, and connectedness is reported exactly if the cells and the walls of each border are connected.',
  ['inputs'], 'all functions of moderate valency',
  'Tests check a few literals; closure is a fixed-point property over all functions.',
  ['boolf/methods/find_segments' + I, 'boolf/methods/find_segments/a', 'boolf/a/segment_to_adjacent_spots' + I],
  [('closure', 'boolf/methods/find_segments/a/classes'), ('connectivity', 'boolf/methods/find_segments/a/functions')],
  ['find_segments() result'])

P('C31', 'A clan splits into factions, families and splinters without remainder',
  'The clan table of a function lists the Zhegalkin indices of all its members, split into its factions and its families with the smallest member as name, and each splinter is exactly the intersection of one faction and one family. '
  'Every faction meets every family in equally many functions, and the transform data given for each member (negated positions, permutation, negated values) indeed yield that member from the function. '
  'The splitting of a family into splinters and of a clan into factions for a given arity agree with this.',
  ['inputs'], 'all functions of feasible arity, also with gaps between argument names',
  'Tests list four literal tables.',
  ['boolf/methods/_ec/ec_clan_partitioned' + I, 'boolf/methods/_ec/ec_clan_matrix' + I, 'boolf/methods/_ec/ec_family_splinters' + I, 'boolf/methods/_ec/ec_clan_factions' + I, 'boolf/methods/_ec/ec_clan_matrix_wiki' + I],
  [('partition', 'boolf/methods/_ec/ec_clan_partitioned' + I), ('matrix', 'boolf/methods/_ec/ec_clan_matrix' + I)],
  ['ec_clan_partitioned(), ec_clan_matrix(), ec_family_splinters(), ec_clan_factions()'])

P('C32', 'Integer helpers are exact for arbitrarily large numbers',
  'Binary logarithm (floor, ceiling, exact), power-of-two test, decimal length, binary length, binary exponents, weight, factorial digits, evil and odious numbering, binomials, least common multiples, prime factors and determinants give the exact mathematical result for integers of any size, and inverse pairs invert each other. '
  'Arguments outside the domain of the logarithms, lengths, numberings and determinants are refused with an error.',
  ['inputs'], 'all integers, particularly next to powers of two and ten and far beyond 2**53',
  'Tests use small numbers; floating point goes wrong only for specific large ones.',
  ['a/_log', 'a/is_power_of_two' + I, 'a/decimal_length' + I, 'a/_binary' + I, 'a/int_to_factoradic' + I, 'a/evil_odious' + I, 'a/binom' + I, 'a/multi_lcm' + I, 'a/prime_factors' + I, 'a/integer_determinant' + I, 'binv/a/binary_length' + I],
  [('logarithms', 'a/_log'), ('determinant', 'a/integer_determinant' + I)],
  ['return values and errors of the helper functions'])

P('C33', 'Combinatorial and container helpers match their definitions',
  'Integer partitions, hypercube edges, power sets, colexicographic sorting and enumeration, Sierpinski rows and triangles, Hasse matrices, multiset tests, inventories, inverse Cartesian products, index paths of nested containers, flattening, zipping apart and together, sorting of rows and columns together, row swaps, transpositions, cosets of permutations and bitwise reductions of at least two numbers return exactly what their definition says for every input. '
  'Inputs are never modified, and inverse pairs invert each other.',
  ['inputs'], 'all inputs of the helper functions up to moderate size',
  'Tests give one to five literals per helper.',
  ['a/find_integer_partitions' + I, 'a/hypercube_edges' + I, 'a/create_hasse_matrix' + I, 'a/sort_together' + I, 'a/sort_cols_together' + I, 'a/sorted_colex' + I, 'a/key_tuples' + I, 'a/flatten' + I, 'a/vector_zip_apart' + I, 'a/vector_zip_together' + I, 'a/int_to_sierpinski_row' + I, 'a/sierpinski' + I, 'a/schoute_coset_gen' + I, 'a/inverse_cartesian_product' + I, 'a/is_multisubset' + I, 'a/inventory_dict' + I, 'a/multigrade_bitwise' + I, 'a/subdict' + I],
  [('helpers', 'a' + I)],
  ['return values of the helper functions'])

P('C34', 'Linear functions, Walsh matrices and argument patterns fit together',
  'The linear function with given Walsh index and parity, or with given leader index and quadrant, is the parity of the selected binary digits, and reading index pairs from a linear vector inverts building it; everything that is not linear is refused and reported as not linear. '
  'The Walsh matrices consist of these rows, the argument patterns are the rows for single digits, and the ternary Walsh matrix is the product table of balanced ternary vectors modulo three. '
  'Trusted and checked conversions agree.',
  ['inputs'], 'all indices, parities, quadrants, arities, and all non-linear vectors as refused input',
  'Tests enumerate small arities for part of the functions.',
  ['a/make_linear_binv' + I, 'a/make_linear_boolf' + I, 'a/_linear_to_index_pair' + I, 'a/walsh_function_to_index' + I, 'a/arity_to_walsh_matrix' + I, 'a/_atompatterns' + I, 'a/balanced_ternary_walsh_matrix' + I, 'boolf/metributes/is_linear' + I],
  [('building', 'a/make_linear_binv' + I), ('reading', 'a/walsh_function_to_index' + I)],
  ['make_linear_*, linear_to_*, walsh_function_to_index, arity_to_walsh_matrix, is_linear'])

P('C35', 'The SVG path of a binary matrix fills exactly its ones',
  'For every binary matrix, filling the SVG path computed for it colours exactly the unit squares where the matrix has a one, all outlines being closed axis-parallel polygons running along the border between ones and zeros. '
  'No outline piece is drawn twice, and the input matrix is unchanged.',
  ['inputs'], 'all binary matrices, including ones with holes and squares touching at corners',
  'Tests compare one or two literal path strings.',
  ['a/bin2svg' + I],
  [('outline tracing', 'a/bin2svg' + I)],
  ['returned path string'])

P('C36', 'Invalid input is refused promptly and never silently accepted',
  'Constructors given contradictory, missing or malformed arguments (wrong combination, duplicate or negative argument names, wrong lengths, non-bijective sequences or cycles, overlapping blocks, elements outside the domain, non-binary digits, unsuitable types) raise an exception and return in bounded time. '
  'They never hang, never return an object for input that describes none, and leave their arguments unchanged.',
  ['inputs', 'configurations'], 'all combinations of constructor arguments and mutations of valid inputs into invalid ones',
  'Tests try a few fixed bad calls.',
  ['boolf' + I, 'a/subinit_bouncer' + I, 'binv' + I, 'perm' + I, 'sig_perm' + I, 'walsh_perm' + I, 'set_part' + I, 'set_part_comp' + I],
  [('argument dispatch', 'boolf' + I), ('validation', 'perm' + I)],
  ['raised exceptions of constructors'])

P('C37', 'Reading attributes in any order never changes what is read',
  'For every object of the library, the value of each attribute and parameterless query depends only on the object\'s value: reading others before, reading repeatedly, or reading from an equal object built differently gives equal results, and no query changes the object\'s equality, hash or printed form. '
  'Objects handed to a constructor or query as arguments are not modified and not entangled with the result.',
  ['histories'], 'all orders and repetitions of attribute reads on generated objects',
  'Tests read attributes once in one order on fixed objects; cached values interact across reads.',
  ['boolf' + I, 'boolf/metributes' + I, 'binv' + I, 'perm' + I, 'sig_perm' + I, 'walsh_perm' + I, 'set_part' + I],
  [('cached attributes', 'boolf/metributes' + I)],
  ['attribute values in different read orders'],
  state=[('cached attributes', 'values stored on first read', 'boolf' + I)])

P('C38', 'Truth-table helper functions agree with the function objects',
  'The stand-alone helpers on truth tables and numbers (multi-argument and/or/xor/exclusive-and/equality generators, permuting or negating a truth table, moving coloured places, twin of numbers, vectors and exponent sets, Sierpinski partition and twin, coordinates in the function matrix, ring counts of numbers, layering and layer sorting, entry counts, split regions) give the same results as the corresponding definitions and object methods. '
  'Generators yield exactly one value per place, and inverse pairs invert each other.',
  ['inputs'], 'all inputs of the helpers up to moderate arity',
  'Tests give a few literals per helper.',
  ['boolf/a/simple_gens' + I, 'boolf/a/_mod_tt' + I, 'boolf/a/twin_misc' + I, 'boolf/a/sierpinski_partition' + I, 'boolf/a/sierpinski_twin' + I, 'boolf/a/hasse_matrix_coordinates_to_tt' + I, 'boolf/a/int_to_rcv' + I, 'boolf/a/flat_to_layered' + I, 'boolf/a/sort_each_layer' + I, 'boolf/a/layered_is_greater' + I],
  [('helpers', 'boolf/a' + I)],
  ['return values of the helper functions'])

P('C39', 'Symmetry partitions group exactly the places the symmetries exchange',
  'The symmetric places of a function are the orbits of its true places under the signed permutations of its arguments that leave it unchanged, and its permutation symmetry partition consists of the orbits of all places under the plain permutations that leave it unchanged. '
  'Both are transformed accordingly when the function is transformed. '
  'The diagonal adjacency matrix has the stated sign for each pair of true places by their distance.',
  ['inputs'], 'all functions of feasible arity, particularly symmetric ones',
  'Tests use three literals.',
  ['boolf/metributes/symmetric_spots' + I, 'boolf/metributes/perm_symmetry_partition' + I, 'boolf/methods/diagonal_adjacency_matrix' + I],
  [('orbits', 'boolf/metributes/symmetric_spots' + I)],
  ['symmetric_spots, perm_symmetry_partition, diagonal_adjacency_matrix()'])

P('C40', 'Signed-index helpers negate, take absolute values and print consistently',
  'Logical negation, absolute value, increase of the absolute value and printing of signed indices (where a negative number stands for a negated index) work elementwise on vectors as on single numbers, negation twice is the identity, and the printed form shows the index with its negation sign. '
  'Selections by place and by value negate exactly the selected entries, and unfit arguments are refused.',
  ['inputs'], 'all integers, vectors and selections',
  'Tests give a few literals.',
  ['a/logic_negate' + I, 'a/logic_abs' + I, 'a/logic_abs_increase' + I, 'a/logic_str' + I],
  [('negation', 'a/logic_negate' + I)],
  ['return values of the helper functions'])

P('C41', 'Renaming arguments monotonically changes only the argument names',
  'Replacing the argument names of a function by other names in the same order leaves its root truth table and everything expressed by argument positions or places unchanged (true places, splits, overlaps, redundancies, bundles, hypersplits, pairwise relations, segments, family blocks), and changes results that are functions only by the same renaming. '
  'The spread vector and argument number describe the names.',
  ['inputs'], 'all functions and all monotone renamings',
  'Tests use mostly functions on consecutive arguments; the equivariance is quantified over renamings.',
  ['boolf' + I, 'boolf/metributes' + I, 'boolf/metributes/root_boolf' + I, 'boolf/metributes/spread_vector' + I],
  [('root and names', 'boolf' + I)],
  ['attributes of a function and of its renamed version'])

P('C42', 'Printed tables and markup show the data of the function they describe',
  'The markup row of a function shows its Zhegalkin index, its value and weight as fractions and decimal numbers with the right classes, and its numbers of arguments and bundles; functions with redundant sets or with gaps between the argument names are refused. '
  'The markup table of its clan has one row per faction and one column group per family, and shows for each member its Zhegalkin index, truth table and exactly the signed permutations that yield it from the function. '
  'Printed listings show the same entries that are returned otherwise, and numbers printed with aligned signs are the same numbers.',
  ['inputs'], 'all functions of feasible arity, all nested lists of numbers',
  'The printed markup is not tested at all; correctness of each cell is quantified over functions and clan members.',
  ['boolf/methods/wiki_table_row' + I, 'boolf/methods/_ec/ec_clan_matrix_wiki' + I, 'boolf/methods/_pretty/hypersplits_pretty' + I, 'a/pretty_signs' + I, 'boolf/a/boolfs_to_swan' + I],
  [('clan table', 'boolf/methods/_ec/ec_clan_matrix_wiki' + I)],
  ['returned and printed text'])

P('C43', 'Functions kept with irrelevant arguments keep and describe their truth table',
  'When the removal of irrelevant arguments is switched off, a function given by a truth table or by its true places keeps all given arguments in ascending order and the whole table, constants included, and says whether some argument is irrelevant. '
  'Values, truth tables, true places, weight, pairwise relations and segments, and for non-constant functions also splits, redundant sets and hypersplits, then refer to all kept arguments. '
  'Building the function again in the ordinary way drops exactly the irrelevant arguments; repeated or negative arguments, arguments that do not fit the table, a switch that is no Boolean and a bare constant with the switch are refused.',
  ['inputs'], 'all truth tables with irrelevant arguments, all names and orders of arguments, all encodings',
  'Four literal examples are tested; that nothing is lost or reordered is quantified over tables, names and their order.',
  ['boolf/subinit_methods/tt' + I, 'boolf/subinit_methods/fs' + I, 'boolf/a/reorder_if_atomvals_not_asc' + I],
  [('constructor from truth table', 'boolf/subinit_methods/tt' + I), ('constructor from true places', 'boolf/subinit_methods/fs' + I)],
  ['attributes of the function'])

for r in rows:
    assert len(r['title']) <= 80, (r['id'], len(r['title']))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for r in rows:
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
print(len(rows))
for r in rows:
    for fn in r['anchors']['files'] + [m['where'] for m in r['anchors']['mechanism']]:
        if not os.path.exists('/repo/' + fn):
            print('missing', r['id'], fn)

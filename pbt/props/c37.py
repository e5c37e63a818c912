"""Reading attributes in any order never changes what is read.

An object is read in a generated order, with repetitions. Every result is compared with the first reading of an equal object made in another way.
"""
from copy import deepcopy
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import expect, random_case, same
from pbt.lib import build, make


def frozen(x):
    """Value that can be compared after the object has changed."""
    import numpy as np
    if x is None or isinstance(x, (bool, int, float, str, Fraction)):
        return x
    name = type(x).__name__
    if isinstance(x, np.ndarray):
        return name, x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if name == 'Boolf':
        return name, list(x.atomvals), [int(d) for d in x.root], bool(x.is_constant), bool(x.is_inflated)
    if name == 'Binv':
        return name, [int(d) for d in x]
    if name in ('Perm', 'SigPerm', 'WalshPerm', 'SetPartComp'):
        return name, str(x)
    if name == 'SetPart':
        return name, deepcopy(x.blocks), frozen(x.domain), frozen(dict(x.block_labels))
    if isinstance(x, (set, frozenset)):
        return 'set', sorted((frozen(y) for y in x), key=repr)
    if isinstance(x, dict) or name == 'bidict':
        return 'dict', sorted(((frozen(k), frozen(v)) for k, v in x.items()), key=repr)
    if isinstance(x, (list, tuple)):
        return name, [frozen(y) for y in x]
    if hasattr(x, '__next__'):
        return 'iterator', [frozen(y) for y in x]
    text = str(x)
    return (name, text) if ' object at 0x' not in text else name


def answer(obj, query):
    """Frozen result of an attribute (str), or of a call with arguments (list of name and arguments)."""
    try:
        if isinstance(query, str):
            x = getattr(obj, query)
            if callable(x) and type(x).__name__ == 'method':
                x = x()
        else:
            x = getattr(obj, query[0])(*deepcopy(query[1:]))
        return frozen(x)
    except Exception as e:  # a refusal should not depend on the order either
        return 'exception', type(e).__name__


def identity(obj):
    try:
        number = hash(obj)
    except TypeError:
        number = None
    return str(obj), repr(obj), number


def check_history(make_one, make_other, queries, history, stranger=None):
    """Read in the order of `history`. A stranger (other object of the same class) answers the same queries in between."""
    a = make_one()
    stranger = stranger() if stranger else None
    first = identity(make_one())
    known = {}
    for k in history:
        query = queries[k % len(queries)]
        key = repr(query)
        if key not in known:
            known[key] = answer(make_other(), query)
        if stranger is not None:
            answer(stranger, query)
        result = answer(a, query)
        same(result, known[key], 'result of %s after other queries' % (query,))
        same(identity(a), first, 'printed form and hash after %s' % (query,))
        same(a == make_other(), True, 'equality after %s' % (query,))
    b = make_other()
    same(identity(b), first, 'printed form and hash of equal object')
    # all results again from the used object
    for k in history[::-1]:
        query = queries[k % len(queries)]
        same(answer(a, query), known[repr(query)], 'repeated result of %s' % (query,))
    return len(known)


def histories():
    return st.lists(st.integers(0, 999), min_size=4, max_size=16)


########################################################################################################################
# functions

PLAIN = '''
adicity valency atomvals atomvals_integer atomvals_sierpinski root root_boolf complement reverse weight_fract value_fract spread_vector tt zhe
is_constant is_inflated is_root is_linear is_male is_noble is_odd is_odious is_ugly is_symmetric is_bundle is_blightless is_bloatless is_blotless
blight blight_boolf blightless_atomkeys blightless_boolf bloat bloat_boolf bloatless_atomkeys_deflated bloatless_atomkeys_undeflated bloatless_boolf blot blot_boolf
bundles bundle_grid_partitions bundle_overlap_counts bundles_pretty gapless_boolf atom_to_crossing_atoms
filtrated_pairs filtrated_pairs_pretty find_segments
fullspots fullspot_atoms fullspot_atoms_pretty fullspot_weights fullspotlinks_by_weight fullspots_by_weight number_of_fullspotlinks layered_fullspots
hypersplits hypersplits_detailed hypersplits_potential_cores hypersplits_potential_cores_pretty hypersplits_pretty
layered_tt layered_weight number_of_distinct_splits onesided_atomkeys onesided_is_universe
splits splits_equal splits_equality_blocks splits_onesided splits_overlap_counts splits_preferred_side split_pairs_with_3_overlaps
walsh_distances walsh_spectrum walsh_spectrum_abs walsh_spectrum_abs_layered walsh_spectrum_layered
quadrant acute_quadrant weight_quadrant noble_quadrant consul leader twin hasse_matrix_coordinates
prefect_boolf prefect_leader_and_quadrant prefect_tt prefect_walsh_and_oddness
family_is_self_complementary family_malerep family_minrep faction_minrep ec_family
'''.split()

FISSIONS = '''
fissions fissions_layered fissions_weight fissions_weight_layered
fission_walsh_spectra fission_walsh_spectra_abs fission_walsh_spectra_abs_zipped fission_walsh_spectra_layered fission_walsh_spectra_layered_abs fission_walsh_spectra_zipped
'''.split()

CLASSES = 'clan_minrep faction_minrep family_minrep ec_family ec_faction ec_clan ec_clan_partitioned ec_clan_matrix ec_family_splinters perm_symmetry_partition symmetric_spots'.split()


def ways(desc):
    """Different makings of one function."""
    from discretehelpers.boolf import Boolf
    f = ref.fn(desc)
    atoms = list(f[0])
    n = len(atoms)
    digits = ref.digits(f[1], 1 << n)
    result = [
        lambda: build(desc),
        lambda: make(f),
        lambda: Boolf(''.join(map(str, digits)), tuple(atoms)),
        lambda: ~~make(f),
        lambda: make(f) & make(f),
        lambda: make(ref.f_not(f)).complement,
        lambda: Boolf(f[1], atoms, arity=n),
        lambda: Boolf(fullspots=ref.exps(f[1]), atomvals=atoms),
        lambda: make(f).root_boolf.apply(*atoms) if hasattr(Boolf, 'apply') and atoms else make(f),
    ]
    if ref.adicity(f) <= 5:
        zhe = ref.zhe(f)
        result.append(lambda: Boolf(zhe=zhe))
        spectrum = ref.walsh(ref.table_arity(f, ref.adicity(f)), ref.adicity(f))
        result.append(lambda: Boolf(walsh_spectrum=list(spectrum)))
    return result


@st.composite
def function_histories(draw, max_n=4, max_adicity=5):
    return {'f': draw(gen.small_spread_fns(max_n, max_adicity)), 'ways': [draw(st.integers(0, 99)), draw(st.integers(0, 99))], 'history': draw(histories())}


def with_arguments(f):
    """Queries with arguments."""
    n, arity = len(f[0]), ref.adicity(f)
    result = [['bloatless_spotint', 1], ['blightless_spotint', 1], ['inflated_fullspots', list(range(arity + 1))], ['inflated_fullspots', list(range(arity + 2))],
              ['diagonal_adjacency_matrix', [0, 1, 0, 1, 0, 1]], ['diagonal_adjacency_matrix', [1, 0, 0, 1, 1, 0]],
              ['filtrated_boolf', list(f[0])[::2]], ['filtrated_boolf', list(f[0])[1:]], ['vals', list(f[0])], ['val', *[k % 2 for k in range(n)]], ['val', *[1 - k % 2 for k in range(n)]],
              ['apply', *[k + 1 for k in range(n)]], ['apply', *[~k for k in range(n)]]]
    for name in ('tt walsh_spectrum walsh_spectrum_abs walsh_spectrum_layered walsh_distances consul consul_weight octant is_sharp is_acute is_rude is_rough is_solid is_noble '
                 'patron_int patron_index patron_boolf patron_quadrant patron_royal patron_king_index_and_quadrant '
                 'twin leader acute_quadrant weight_quadrant noble_quadrant hasse_matrix_coordinates').split():
        result += [[name, arity], [name, arity + 1]]
    if n > 1:
        result += [['filtrated_pair', 0, n - 1], ['filtrated_pair', n - 1, 0], ['atom_pair_subset', 0, 1], ['atom_pair_intersect', 0, 1], ['atom_pair_crossing', n - 1, 0],
                   ['atom_border_in_atom_side', 0, n - 1], ['splits_combined', [0, n - 1]]]
    return result


def check_functions(value, queries):
    f = ref.fn(value['f'])
    makers = ways(value['f'])
    one, other = [makers[k % len(makers)] for k in value['ways']]
    strangers = [
        lambda: make(ref.f_not(f)),
        lambda: make((tuple(x + 1 for x in f[0]), f[1])),
        lambda: make((f[0], ref.full(len(f[0])) ^ f[1])),
        lambda: make(ref.canon(f[0], f[1] ^ 1)),
    ]
    number = check_history(one, other, queries(f), value['history'], strangers[sum(value['ways']) % 4])
    return len(f[0]) if number > 2 and len(f[0]) > 1 else None


@random_case('C37', function_histories, quick=1200, rule='at least two arguments and three different queries')
def functions(value):
    return check_functions(value, lambda f: PLAIN + with_arguments(f))


@random_case('C37', lambda: function_histories(5, 7), quick=200, rule='at least two arguments and three different queries')
def larger_functions(value):
    return check_functions(value, lambda f: [q for q in PLAIN if q not in CLASSES])


@random_case('C37', lambda: function_histories(3, 4), quick=150, rule='at least two arguments and three different queries')
def fissions(value):
    return check_functions(value, lambda f: FISSIONS + ['layered_tt', 'walsh_spectrum', 'tt'])


@random_case('C37', lambda: function_histories(3, 3), quick=120, rule='at least two arguments and three different queries')
def classes(value):
    return check_functions(value, lambda f: CLASSES + ['complement', 'family_malerep', 'tt'])


@random_case('C37', lambda: function_histories(4, 5), quick=30, thorough=100, rule='all queries in order and backwards; at least two arguments')
def all_attributes(value):
    f = ref.fn(value['f'])
    makers = ways(value['f'])
    one, other = [makers[k % len(makers)] for k in value['ways']]
    queries = PLAIN + with_arguments(f)
    shift = value['history'][0] % len(queries)
    a, b = one(), other()
    forth = {repr(q): answer(a, q) for q in queries[shift:] + queries[:shift]}
    back = {repr(q): answer(b, q) for q in queries[::-1]}
    for q in queries:
        same(forth[repr(q)], back[repr(q)], 'result of %s in opposite orders' % (q,))
        same(answer(a, q), forth[repr(q)], 'repeated result of %s' % (q,))
    same(identity(a), identity(b), 'printed form and hash')
    same(a == b, True, 'equality')
    return len(f[0]) if len(f[0]) > 1 else None


########################################################################################################################
# permutations, vectors, partitions

PERM = 'cycle_partition cycles cycles_dynamic inverse inversion_set left_rank right_rank length mapping moved neutral order parity perilen schoute_perm sequence'.split()
SIG = 'binv inverse inversion_set keyneg_index length matrix neutral pair parity perm perm_index schoute_perm sequence sequence_minimal sequence_string unmoved unsigned valneg_index'.split()
WALSH = 'complement_distance cycle_partition cycles cycles_dynamic degree determinant inverse inversion_set length mapping matrix matrix_minimal moved neutral order parity perilen sequence transpose transpose_vector vector'.split()
BINV = 'changes complement exposet intval length pretty required_length reverse string vector weight set_part'.split()
PART = 'block_labels blocks blocks_with_singletons canonical_blocks_with_singletons domain intval length non_singletons pairs singletons trivial'.split()
COMP = 'affected_elements all_complement_pairs boolf comp_pairs equal_part length number_of_affected_elements number_of_related_blocks related_part'.split()


@random_case('C37', lambda: st.tuples(gen.perms(0, 6), st.booleans(), st.integers(0, 9), st.integers(0, 9), histories()), quick=500, rule='at least three places and different queries')
def permutations(value):
    from discretehelpers.perm import Perm
    p, periodic, i, j, history = value
    n = len(p)
    cycles = [list(c) for c in ref.cycles_of(p)]
    period = n if periodic and list(p) != sorted(p) else None
    makers = [lambda: Perm(list(p), period), lambda: Perm(deepcopy(cycles), period), lambda: Perm(dict(enumerate(p)), period), lambda: Perm(tuple(p), period),
              lambda: Perm(list(ref.invert(p)), period).inverse, lambda: Perm(list(p), period) ** 1, lambda: Perm(list(p), period) * Perm(),
              lambda: Perm(list(p), period).inverse ** -1]
    queries = PERM + [['sequence', 2 * n if periodic else n + 2], ['sequence', 3 * n if periodic else n + 1], ['cycles_dynamic', 2 * n], ['__getitem__', n + 1], ['apply_on_vector', list(range(10, 10 + n))], ['__getitem__', 3], ['__pow__', 2], ['__pow__', -3]]
    number = check_history(makers[i % len(makers)], makers[j % len(makers)], queries, history)
    return number if n > 2 and number > 2 else None


@random_case('C37', lambda: st.tuples(gen.sig_perms(0, 4), st.integers(0, 9), st.integers(0, 9), histories()), quick=400, rule='at least two places and three different queries')
def signed_permutations(value):
    from discretehelpers.sig_perm import SigPerm
    s, i, j, history = value
    s = list(s)
    n = len(s)
    p = [x if x >= 0 else ~x for x in s]
    valneg = [int(~x in s) for x in range(n)]
    keyneg = [int(x < 0) for x in s]
    makers = [lambda: SigPerm(sequence=list(s)), lambda: SigPerm(valneg=list(valneg), perm=list(p)), lambda: SigPerm(keyneg=tuple(keyneg), perm=list(p)),
              lambda: SigPerm(pair=(sum(d << k for k, d in enumerate(valneg)), ref.left_rank(p))), lambda: SigPerm(sequence=list(s)).inverse.inverse,
              lambda: SigPerm(matrix=SigPerm(sequence=list(s)).matrix())]
    queries = SIG + [['sequence', n + 1], ['sequence', n + 2], ['matrix', n + 1], ['matrix', n + 2], ['sequence_string', n + 1], ['apply_on_vector', list(range(10, 10 + n))], ['apply_on_natural_number', 1]]
    number = check_history(makers[i % len(makers)], makers[j % len(makers)], queries, history)
    return number if n > 1 and number > 2 else None


@random_case('C37', lambda: st.tuples(gen.gl(1, 4), st.integers(0, 9), st.integers(0, 9), histories()), quick=400, rule='at least two digits and three different queries')
def walsh_permutations(value):
    from discretehelpers.walsh_perm import WalshPerm
    m, i, j, history = value
    m = list(m)
    n = len(m)
    matrix = [[(m[c] >> r) & 1 for c in range(n)] for r in range(n)]
    makers = [lambda: WalshPerm(list(m)), lambda: WalshPerm(matrix=deepcopy(matrix)), lambda: WalshPerm(perm=[ref.m_apply(m, k) for k in range(1 << n)]),
              lambda: WalshPerm(list(m), trust=True), lambda: WalshPerm(list(m)).inverse.inverse, lambda: WalshPerm(list(m)).transpose.transpose, lambda: WalshPerm(list(m)) * WalshPerm()]
    queries = WALSH + [['matrix', n + 1], ['matrix', n + 2], ['vector', n + 1], ['vector', n + 2], ['transpose_vector', n + 1], ['sequence', 2 << n], ['complement_pattern', n], ['complement_pattern', n + 1], ['__pow__', 2]]
    number = check_history(makers[i % len(makers)], makers[j % len(makers)], queries, history)
    return number if n > 1 and number > 2 else None


@random_case('C37', lambda: gen.sizes(0, 16).flatmap(lambda n: st.tuples(st.just(n), gen.words(n), st.integers(0, 9), st.integers(0, 9), histories())), quick=400, rule='at least three digits and different queries')
def vectors(value):
    from discretehelpers.binv import Binv
    n, w, i, j, history = value
    digits = ref.digits(w, n)
    makers = [lambda: Binv(list(digits)), lambda: Binv(''.join(map(str, digits))), lambda: Binv(intval=w, length=n), lambda: Binv(exposet=set(ref.exps(w)), length=n),
              lambda: ~~Binv(list(digits)), lambda: Binv(Binv(list(digits))), lambda: Binv(list(digits)).reverse.reverse, lambda: Binv(list(digits)).complement.complement]
    queries = BINV + [['has_index', 2], ['flip_bit', 0], ['__getitem__', 0]]
    number = check_history(makers[i % len(makers)], makers[j % len(makers)], queries, history)
    return number if n > 2 and number > 2 else None


@st.composite
def partition_histories(draw):
    size = draw(gen.sizes(0, 8))
    return {'size': size, 'blocks': draw(gen.block_lists(range(size))), 'domain': draw(st.sampled_from(['N', 'Z', 'set'])),
            'pairs': draw(st.lists(st.tuples(st.integers(0, size), st.integers(0, size)), max_size=2)),
            'ways': [draw(st.integers(0, 9)), draw(st.integers(0, 9))], 'history': draw(histories())}


@random_case('C37', partition_histories, quick=500, rule='some block with several elements and at least three different queries')
def partitions(value):
    from discretehelpers.set_part import SetPart
    blocks, size = value['blocks'], value['size']
    domain = set(range(size)) if value['domain'] == 'set' else value['domain']

    def merged():
        s = SetPart(None, domain)
        for b in blocks:
            for e in b[1:]:
                s.merge_pair(e, b[0])
        return s

    def at_once():
        s = SetPart([], domain)
        for b in blocks[::-1]:
            s.merge_many(b[::-1])
        return s

    makers = [lambda: SetPart(deepcopy(blocks), domain), lambda: SetPart([b[::-1] for b in blocks[::-1]], domain), merged, at_once,
              lambda: SetPart(deepcopy(blocks), domain).join(SetPart([], domain)), lambda: SetPart([tuple(b) for b in blocks], sorted(domain) if isinstance(domain, set) else domain)]
    one, other = [makers[k % len(makers)] for k in value['ways']]
    queries = PART + [['element_to_block', 0], ['pair_in_same_block', 0, 1], ['element_in_domain', -1], ['blocks_with_singletons', size]]
    number = check_history(one, other, queries, value['history'])
    return number if number > 2 and any(len(b) > 1 for b in blocks) else None


@random_case('C37', partition_histories, quick=400, rule='some complements and at least three different queries')
def complements(value):
    from discretehelpers.set_part_comp import SetPartComp
    blocks = value['blocks']
    pairs = [tuple(p) for p in value['pairs']]
    classes = ref.Classes()
    for b in blocks:
        for e in b:
            for side in (0, 1):
                classes.merge((b[0], side), (e, side))
    for a, b in pairs:
        for side in (0, 1):
            classes.merge((a, side), (b, 1 - side))
    if any(classes.same((e, 0), (e, 1)) for e in range(value['size'] + 1)):
        return None

    def stepwise():
        s = SetPartComp()
        for a, b in pairs[::-1]:
            s.set_comp(b, a)
        for b in blocks:
            for e in b[1:]:
                s.set_equal(e, b[0])
        return s

    makers = [lambda: SetPartComp(deepcopy(blocks), list(pairs)), lambda: SetPartComp([b[::-1] for b in blocks[::-1]], pairs[::-1]), stepwise]
    one, other = [makers[k % len(makers)] for k in value['ways']]
    queries = COMP + [['are_comp', 0, 1], ['are_equal', 0, 1], ['get_comp', 0], ['get_block', 1], ['get_repr', 2], ['int_matches', 5]]
    number = check_history(one, other, queries, value['history'])
    return number if number > 2 and pairs else None


########################################################################################################################
# arguments


@st.composite
def argument_cases(draw):
    f = draw(gen.fns(1, 4, spread=True))
    n = len(f['v'])
    return {'f': f, 'order': draw(gen.shuffled(range(n))), 'other': draw(gen.fns(0, 3, spread=True)), 'word': draw(gen.words(8)),
            'perm': list(draw(gen.perms(2, 6))), 'sig': list(draw(gen.sig_perms(1, 4))), 'blocks': draw(gen.block_lists(range(7)))}


def untouched(call, args, message):
    """The arguments are unchanged by the call, and changing them later does not change the result. Returns the result."""
    before = deepcopy(args)
    result = call(*args)
    same(frozen(list(args)), frozen(list(before)), message + ': arguments after use')
    value = frozen(result)
    for x in args:
        spoil(x)
    same(frozen(result), value, message + ': result after change of arguments')
    return result


def spoil(x):
    import numpy as np
    if isinstance(x, list):
        for y in x:
            spoil(y)
        x.reverse()
        x.append(77)
    elif isinstance(x, set):
        x.clear()
        x.add(77)
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, np.ndarray):
        x[...] = 7
    elif type(x).__name__ == 'Binv':
        x.vector.reverse()
        x.vector.append(True)
    elif type(x).__name__ == 'SetPart':
        x.merge_pair(0, 6)
        x.merge_pair(1, 6)


@random_case('C37', argument_cases, quick=400, rule='at least two arguments')
def arguments(value):
    import numpy as np
    from discretehelpers.binv import Binv
    from discretehelpers.boolf import Boolf
    from discretehelpers.perm import Perm
    from discretehelpers.set_part import SetPart
    from discretehelpers.set_part_comp import SetPartComp
    from discretehelpers.sig_perm import SigPerm
    from discretehelpers.walsh_perm import WalshPerm
    desc = value['f']
    n = len(desc['v'])
    digits = ref.digits(desc['t'], 1 << n)
    names = [desc['v'][k] for k in value['order']]
    spots = ref.exps(desc['t'])

    untouched(Boolf, [list(digits), list(names)], 'truth table')
    untouched(lambda x, y: Boolf(x, y, skip_deflation=True), [list(digits), sorted(names)], 'truth table kept as it is')
    untouched(Boolf, [Binv(list(digits)), list(names)], 'binary vector')
    untouched(Boolf, [Binv(list(digits))], 'binary vector')
    untouched(lambda x, y: Boolf(fullspots=x, atomvals=y), [list(spots), list(names)], 'places')
    untouched(lambda x, y: Boolf(fullspots=x, atomvals=y), [set(spots), list(names)], 'set of places')
    for key in ('multi_and', 'multi_or', 'multi_xor', 'multi_xand'):
        untouched(lambda x: Boolf(**{key: x}), [list(names)], key)
        untouched(lambda x: Boolf(**{key: x}), [set(names)], key)
    untouched(lambda x: Boolf(walsh_spectrum=x), [list(ref.walsh(desc['t'], n))], 'Walsh spectrum')

    untouched(Binv, [list(digits)], 'digits')
    untouched(Binv, [np.array(digits)], 'array')
    untouched(Binv, [Binv(list(digits))], 'binary vector')
    untouched(lambda x: Binv(exposet=x), [set(spots)], 'exponents')
    p, s = value['perm'], value['sig']
    untouched(Perm, [list(p)], 'sequence')
    untouched(Perm, [[list(c) for c in ref.cycles_of(p)]], 'cycles')
    untouched(Perm, [dict(enumerate(p))], 'dictionary')
    untouched(lambda x: SigPerm(sequence=x), [list(s)], 'signed sequence')
    untouched(lambda x: SigPerm(matrix=x), [SigPerm(sequence=list(s)).matrix()], 'signed matrix')
    untouched(lambda x, y: SigPerm(valneg=x, perm=y), [[int(~k in s) for k in range(len(s))], [k if k >= 0 else ~k for k in s]], 'negation and permutation')
    untouched(lambda x, y: SigPerm(valneg=x, perm=y), [Binv([int(~k in s) for k in range(len(s))]), [k if k >= 0 else ~k for k in s]], 'binary vector and permutation')
    untouched(lambda x, y: SigPerm(keyneg=x, perm=y), [{k for k in range(len(s)) if s[k] < 0}, [k if k >= 0 else ~k for k in s]], 'set and permutation')
    untouched(WalshPerm, [[1 << (n - 1 - k) for k in range(n)]], 'vector')
    untouched(lambda x: WalshPerm(matrix=x), [np.eye(n, dtype=int)[::-1].copy()], 'matrix')
    untouched(lambda x: WalshPerm(matrix=x), [np.eye(n, dtype=int)[::-1].tolist()], 'matrix')
    blocks = value['blocks']
    untouched(SetPart, [deepcopy(blocks)], 'blocks')
    untouched(SetPart, [deepcopy(blocks), set(range(7))], 'blocks and domain')
    untouched(lambda x, y: SetPart(x, 'N', y), [deepcopy(blocks), {tuple(sorted(b)): str(k) for k, b in enumerate(blocks)}], 'blocks and labels')
    untouched(SetPartComp, [deepcopy(blocks), [(20, 21)]], 'blocks and complements')
    untouched(SetPartComp, [deepcopy(blocks), {(20, 21)}], 'blocks and set of complements')
    untouched(SetPartComp, [SetPart(deepcopy(blocks))], 'partition')

    # queries
    f = ref.fn(desc)
    m = len(f[0])
    b = make(f)
    place = {x: (value['word'] >> k) & 1 for k, x in enumerate(f[0])}
    start = identity(b)
    other = make(ref.fn(value['other']))
    theirs = identity(other)
    for message, call in (('and', lambda: b & other), ('or', lambda: b | other), ('xor', lambda: b ^ other), ('negation', lambda: ~b), ('order', lambda: b < other), ('equality', lambda: b == other),
                          ('implication', lambda: b.bitwise_le(other))):
        first, again = frozen(call()), frozen(call())
        same(again, first, message + ' again')
        same((identity(b), identity(other)), (start, theirs), 'operands after ' + message)
    if m:
        untouched(lambda x: b.filtrated_boolf(x), [list(f[0])[:2]], 'filtrate')
        untouched(lambda x: b.inflated_fullspots(x), [list(f[0]) + [max(f[0]) + 1]], 'inflation')
        untouched(lambda x: b.splits_combined(x), [[0]], 'combined sets')
        untouched(lambda x: b.diagonal_adjacency_matrix(x), [[0, 1, 0, 1, 1, 0]], 'adjacency matrix')
        if max(f[0]) < 6:
            full = SigPerm(sequence=list(s))
            kept = identity(full)
            b.apply_sigperm(full)
            same(identity(full), kept, 'signed permutation after use')
    untouched(lambda x: Perm(list(p)).apply_on_vector(x), [list(range(20, 20 + len(p)))], 'vector')
    same(identity(b), start, 'function after queries')
    return m if m > 1 else None

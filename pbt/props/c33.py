"""Combinatorial and container helpers match their definitions."""
from collections import Counter, defaultdict
from copy import deepcopy
from itertools import combinations, permutations, product

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same

########################################################################################################################
# enumerations


def ref_partitions(n, largest=None):
    largest = n if largest is None else largest
    if n == 0:
        yield ()
    for k in range(min(n, largest), 0, -1):
        for rest in ref_partitions(n - k, k):
            yield rest + (k,)


def is_colex(a, b):
    """a before b, compared from the end"""
    return tuple(a)[::-1] < tuple(b)[::-1]


def enumerations_of(tier):
    deep = tier == 'thorough'
    for n in range(1, 14 if deep else 11):
        yield ['partitions', n]
    for n in range(0, 8 if deep else 7):
        yield ['edges', n]
    for n in range(0, 8 if deep else 7):
        yield ['colex', n]
    for n in range(1, 8 if deep else 7):
        yield ['sierpinski', n]
    for n in (-1, -2):
        yield ['refused', n]


@enum_case('C33', enumerations_of, rule='size at least three')
def enumerations(value):
    import numpy as np
    from discretehelpers import a
    kind, n = value
    if kind == 'partitions':
        result = a.find_integer_partitions(n)
        expected = list(ref_partitions(n))
        same(len(expected), len(set(expected)), 'reference')
        same(set(result), set(expected), 'integer partitions')
        same(len(result), len(expected), 'number of integer partitions')
    elif kind == 'edges':
        result = a.hypercube_edges(n)
        same([tuple(e) for e in result], sorted((i, i | 1 << k) for i in range(1 << n) for k in range(n) if not (i >> k) & 1), 'hypercube edges')
    elif kind == 'colex':
        result = a.rev_colex_perms(n)
        same(len(result), len(set(map(tuple, result))), 'different permutations')
        same(set(map(tuple, result)), set(permutations(range(n))), 'set of permutations')
        for p, q in zip(result, result[1:]):
            expect(is_colex(q, p), 'not in reverse colexicographic order', p, q)
    elif kind == 'sierpinski':
        size = 1 << n
        base = [[int(i & j == i) for j in range(size)] for i in range(size)]
        mirrored = [row[::-1] for row in base]
        for orientation, expected in (('tr', base), ('tl', mirrored), ('br', base[::-1]), ('bl', mirrored[::-1])):
            same(a.sierpinski(orientation, n).tolist(), expected, 'Sierpinski triangle ' + orientation)
            same(a.sierpinski(orientation, degree=n).tolist(), expected, 'Sierpinski triangle by degree ' + orientation)
            same(a.sierpinski(orientation, size=size).tolist(), expected, 'Sierpinski triangle by size ' + orientation)
        refuses(lambda: a.sierpinski('tt', n), 'orientation', Dedicated)
        refuses(lambda: a.sierpinski('tr', n, size), 'degree and size', Dedicated)
        refuses(lambda: a.sierpinski('tr'), 'neither degree nor size', Dedicated)
        refuses(lambda: a.sierpinski('tr', size=size + 1 if n > 1 else 1), 'wrong size', Dedicated)
        refuses(lambda: a.sierpinski('tr', degree=0), 'degree 0', Dedicated)
    else:
        refuses(lambda: a.hypercube_edges(n), 'negative dimension', Dedicated)
        refuses(lambda: a.sierpinski('tr', degree=n), 'negative degree', Dedicated)
        return None
    return kind if n > 2 else None


@random_case('C33', lambda: st.lists(st.integers(0, 20), max_size=8), quick=300, rule='at least three elements')
def power_sets(value):
    from discretehelpers.a import powerset
    given = list(value)
    same([tuple(x) for x in powerset(given)], [tuple(value[i] for i in c) for r in range(len(value) + 1) for c in combinations(range(len(value)), r)], 'power set')
    same(given, value, 'list after use')
    same(len(list(powerset(x for x in value))), 1 << len(value), 'number of subsets')
    return len(value) if len(value) > 2 else None


@random_case('C33', lambda: st.one_of(st.integers(0, 511), st.lists(st.integers(0, 90), max_size=8).map(lambda x: sum(1 << i for i in set(x)))), quick=400, rule='at least three binary ones')
def sierpinski_rows(n):
    from discretehelpers.a import int_to_sierpinski_row
    exps = ref.exps(n)
    expected = [sum(1 << exps[k] for k in ref.exps(i)) for i in range(1 << len(exps))]
    same(list(int_to_sierpinski_row(n)), expected, 'Sierpinski row of number')
    same(list(int_to_sierpinski_row(intval=n)), expected, 'Sierpinski row of number')
    given = set(exps)
    same(list(int_to_sierpinski_row(exposet=given)), expected, 'Sierpinski row of set of exponents')
    same(given, set(exps), 'exponents after use')
    refuses(lambda: int_to_sierpinski_row(), 'no argument', Dedicated)
    refuses(lambda: int_to_sierpinski_row(n, exps), 'number and exponents', Dedicated)
    refuses(lambda: int_to_sierpinski_row(-n - 1), 'negative number', Exception)
    return len(exps) if len(exps) > 2 else None


########################################################################################################################
# orders


@st.composite
def set_families(draw):
    n = draw(gen.sizes(1, 9))
    masks = draw(st.lists(st.integers(0, 63), min_size=n, max_size=n, unique=True))
    return {'masks': masks, 'kind': draw(st.sampled_from(['subset', 'subset', 'divides']))}


@random_case('C33', set_families, quick=300, rule='some indirect connection')
def hasse(value):
    from discretehelpers.a import create_hasse_matrix
    nodes = list(value['masks'])
    if value['kind'] == 'subset':
        below = lambda x, y: x & y == x
    else:
        nodes = [x + 1 for x in nodes]
        below = lambda x, y: y % x == 0
    given = list(nodes)
    direct = create_hasse_matrix(given, below)
    full = create_hasse_matrix(given, below, with_indirect_edges=True)
    same(given, nodes, 'nodes after use')
    expected = []
    for x in nodes:
        row = []
        for y in nodes:
            if x == y or not below(x, y):
                row.append(0)
            else:
                row.append(2 if any(z != x and z != y and below(x, z) and below(z, y) for z in nodes) else 1)
        expected.append(row)
    same(full.tolist(), expected, 'Hasse matrix with indirect edges')
    same(direct.tolist(), [[x % 2 for x in row] for row in expected], 'Hasse matrix')
    return value['kind'] if any(2 in row for row in expected) else None


@st.composite
def sort_cases(draw):
    n = draw(gen.sizes(0, 7))
    k = draw(st.integers(1, 4))
    return [[draw(st.integers(0, 3)) for _ in range(n)] for _ in range(k)]


@random_case('C33', sort_cases, quick=400, rule='at least two lists with equal first entries')
def sorting_lists(value):
    from discretehelpers.a import sort_together
    given = deepcopy(value)
    result = sort_together(*given)
    same(given, value, 'lists after use')
    order = sorted(range(len(value[0])), key=lambda i: [x[i] for x in value])
    same([list(x) for x in result], [[x[i] for i in order] for x in value], 'lists sorted together')
    if len(value) > 1:
        refuses(lambda: sort_together(*(given[:-1] + [given[-1] + [0]])), 'lists of different length', Dedicated)
    return len(value) if len(value) > 1 and len(set(value[0])) < len(value[0]) else None


@st.composite
def array_cases(draw):
    small = st.one_of(st.integers(0, 2), st.just(0), st.integers(-3, 12))
    n = draw(gen.sizes(1, 12))
    arrays = []
    for _ in range(draw(st.integers(1, 3))):
        width = draw(st.one_of(st.integers(1, 4), st.integers(5, 10)))
        arrays.append([[draw(small) for _ in range(width)] for _ in range(n)])
    return arrays


@random_case('C33', array_cases, quick=400, rule='at least two arrays with at least three rows or columns')
def sorting_arrays(value):
    import numpy as np
    from discretehelpers.a import sort_cols_together, sort_rows_together, swap_matrix_rows
    n = len(value[0])
    rows = [np.array(x) for x in value]
    order = sorted(range(n), key=lambda i: [x[i] for x in value])
    result = sort_rows_together(*rows)
    same([x.tolist() for x in result], [[x[i] for i in order] for x in value], 'rows sorted together')
    same([x.tolist() for x in rows], value, 'arrays after use')
    cols = [x.T.copy() for x in rows]
    result = sort_cols_together(*cols)
    same([x.T.tolist() for x in result], [[x[i] for i in order] for x in value], 'columns sorted together')
    flipped = sorted(range(n), key=lambda i: [x[i][::-1] for x in value])
    result = sort_cols_together(*cols, small_on_top=True)
    same([x.T.tolist() for x in result], [[x[i] for i in flipped] for x in value], 'columns sorted together, small on top')
    same([x.T.tolist() for x in cols], value, 'arrays after use')
    for wrong in (np.zeros((n + 1, 2), dtype=int),):
        refuses(lambda: sort_rows_together(*rows, wrong), 'different height', Dedicated)
        refuses(lambda: sort_cols_together(*cols, wrong.T), 'different width', Dedicated)
    for i in range(n):
        j = (i * 2 + 1) % n
        expected = list(value[0])
        expected[i], expected[j] = expected[j], expected[i]
        same(swap_matrix_rows(rows[0], i, j).tolist(), expected, 'swapped rows %d and %d' % (i, j))
        refuses(lambda: swap_matrix_rows(rows[0], i, n), 'swap with missing row', Dedicated)
        refuses(lambda: swap_matrix_rows(rows[0], n + 1, i), 'swap with missing row', Dedicated)
        for k in (i, j):
            swapped = swap_matrix_rows(rows[0], i, k)
            swapped[:, :] = 7
            same(rows[0].tolist(), value[0], 'matrix after writing to the one with swapped rows %d and %d' % (i, k))
    same([x.tolist() for x in rows], value, 'arrays after use')
    return len(value) if len(value) > 1 and n > 2 else None


@random_case('C33', lambda: st.one_of(st.lists(st.lists(st.integers(0, 3), max_size=5), max_size=9), st.lists(st.lists(st.integers(0, 1), max_size=8), max_size=12)), quick=500, rule='at least three words of different length')
def colexicographic(value):
    from discretehelpers.a import sorted_colex
    expected = sorted(value, key=lambda x: x[::-1])
    given = deepcopy(value)
    same([list(x) for x in sorted_colex(given)], expected, 'lists in colexicographic order')
    same(given, value, 'lists after use')
    same(list(sorted_colex(tuple(x) for x in value)), [tuple(x) for x in expected], 'tuples in colexicographic order')
    same(list(sorted_colex([''.join(map(str, x)) for x in value])), [''.join(map(str, x)) for x in expected], 'strings in colexicographic order')
    return len(value) if len(value) > 2 and len({len(x) for x in value}) > 1 else None


########################################################################################################################
# multisets and inventories


def counts():
    return st.lists(st.tuples(st.one_of(st.integers(0, 6), st.integers(0, 24)), st.integers(0, 3)), max_size=20, unique_by=lambda x: x[0])


@random_case('C33', lambda: st.tuples(counts(), counts(), st.integers(0, 3)), quick=500, rule='first multiset is not empty; labelled by result')
def multisets(value):
    from discretehelpers.a import is_multisubset, multiset_to_distri
    a, b = dict(map(tuple, value[0])), dict(map(tuple, value[1]))
    if value[2] == 0:
        # make it a subset
        b = {**b, **{k: b.get(k, 0) + v for k, v in a.items()}}
    elif value[2] == 1 and a:
        b = {k: a[k] for k in a}
        k = sorted(b)[len(b) // 2]
        b[k] -= 1
    x, y = dict(a), dict(b)
    expected = all(b.get(k, 0) >= v for k, v in a.items() if v > 0)
    same(bool(is_multisubset(x, y)), expected, 'submultiset')
    same((x, y), (a, b), 'multisets after use')
    for values in (list(range(26)), list(range(25, -1, -1)), tuple(sorted(a))):
        same(list(multiset_to_distri(x, values)), [a.get(v, 0) for v in values], 'distribution')
    if a:
        refuses(lambda: multiset_to_distri(x, sorted(a)[1:]), 'multiset with unlisted element', Exception)
    return str(expected) if any(v > 0 for v in a.values()) else None


@random_case('C33', lambda: st.lists(st.integers(-3, 5), max_size=12), quick=400, rule='some entry occurs repeatedly')
def inventories(value):
    from discretehelpers.a import inventory_dict, inventory_partition
    from discretehelpers.boolf.a import sequence_to_entry_counts
    given = list(value)
    expected = dict(Counter(value))
    result = inventory_dict(given)
    same(result, expected, 'inventory of list')
    same(list(result), sorted(expected), 'order of inventory')
    mapping = {'k%d' % (i * 7 % 101): v for i, v in enumerate(value)}
    copy = dict(mapping)
    same(inventory_dict(copy), expected, 'inventory of dictionary')
    same(list(inventory_dict(copy)), sorted(expected), 'order of inventory of dictionary')
    default = defaultdict(int, mapping)
    same(inventory_dict(default), expected, 'inventory of default dictionary')
    same((copy, dict(default)), (mapping, mapping), 'dictionaries after use')
    blocks = {}
    for i, v in enumerate(value):
        blocks.setdefault(v, []).append(i)
    for arg in (given, tuple(given)):
        part = inventory_partition(arg)
        same({tuple(k): v for k, v in part.block_labels.items()}, {tuple(b): v for v, b in blocks.items()}, 'labelled blocks of list')
        same(sorted(map(sorted, part.blocks)), sorted(b for b in blocks.values() if len(b) > 1), 'blocks of list')
        same(set(part.domain), set(range(len(value))), 'domain of partition')
    named = {}
    for k, v in mapping.items():
        named.setdefault(v, []).append(k)
    for arg in (copy, default):
        part = inventory_partition(arg)
        same({tuple(sorted(k)): v for k, v in part.block_labels.items()}, {tuple(sorted(b)): v for v, b in named.items()}, 'labelled blocks of dictionary')
        same(set(part.domain), set(mapping), 'domain of partition')
    same(given, value, 'list after use')
    same(list(sequence_to_entry_counts(given)), [value[:i].count(v) for i, v in enumerate(value)], 'entry counts')
    for wrong in ('abc', 5, None, {1, 2}):
        refuses(lambda: inventory_dict(wrong), 'inventory of %r' % (wrong,), Dedicated)
        refuses(lambda: inventory_partition(wrong), 'partition of %r' % (wrong,), Dedicated)
    return len(expected) if max(expected.values(), default=0) > 1 else None


@random_case('C33', lambda: st.tuples(st.lists(st.integers(0, 9), max_size=5, unique=True), st.lists(st.integers(0, 9), max_size=5, unique=True), st.integers(0, 99), st.integers(0, 99)), quick=400, rule='both factors have at least two elements')
def cartesian(value):
    from discretehelpers.a import inverse_cartesian_product
    left, right, i, j = value
    pairs = [(x, y) for x in left for y in right]
    if not pairs:
        left, right = [], []
    # any order
    pairs = pairs[i % (len(pairs) or 1):] + pairs[:i % (len(pairs) or 1)]
    given = list(pairs)
    same(inverse_cartesian_product(given), (tuple(sorted(left)), tuple(sorted(right))), 'factors')
    same(given, pairs, 'pairs after use')
    same(inverse_cartesian_product(tuple(given)), (tuple(sorted(left)), tuple(sorted(right))), 'factors of tuple of pairs')
    if len(left) > 1 and len(right) > 1:
        k = j % len(pairs)
        refuses(lambda: inverse_cartesian_product(pairs[:k] + pairs[k + 1:]), 'missing pair', Exception)
        refuses(lambda: inverse_cartesian_product(pairs + [(10, right[0])]), 'additional pair', Exception)
        return len(pairs)
    return None


########################################################################################################################
# containers


def nested():
    leaf = st.one_of(st.integers(0, 9), st.sampled_from(['a', '']))
    x = st.recursive(leaf, lambda inner: st.one_of(st.lists(inner, max_size=4), st.dictionaries(st.sampled_from('abcd'), inner, max_size=3)), max_leaves=12)
    return st.one_of(x, x, st.builds(wrapped, x, st.lists(st.integers(0, 3), min_size=1, max_size=8)))


def wrapped(x, levels):
    for k in levels:
        x = {'abcd'[k]: x} if k % 2 else [7] * (k // 2) + [x]
    return x


def paths(x):
    """Index tuples of the leaves (empty inner containers are leaves)."""
    items = list(enumerate(x)) if isinstance(x, list) else list(x.items())
    result = []
    for k, v in items:
        if isinstance(v, (list, dict)) and v:
            result += [(k,) + p for p in paths(v)]
        else:
            result.append((k,))
    return result


@random_case('C33', nested, quick=500, rule='nested at least two levels deep')
def index_paths(value):
    from discretehelpers.a import key_tuples
    given = deepcopy(value)
    if not isinstance(value, (list, dict)):
        refuses(lambda: key_tuples(given), 'not a container', Dedicated)
        return None
    expected = paths(value)
    same([tuple(p) for p in key_tuples(given)], expected, 'index paths')
    same(given, value, 'container after use')
    for p in expected:
        x = value
        for k in p:
            x = x[k]
    depth = max(map(len, expected), default=0)

    # everything that is neither list nor dictionary is a leaf
    leaf = [(1, 2), (), 'ab', {3, 4}, None][len(expected) % 5]

    def put(x):
        if isinstance(x, list):
            return [put(y) for y in x] if x else leaf
        return {k: put(y) for k, y in x.items()} if isinstance(x, dict) and x else leaf

    if value:
        same([tuple(p) for p in key_tuples(put(value))], expected, 'index paths with other leaves')
    refuses(lambda: key_tuples(leaf), 'not a container', Dedicated)
    return depth if depth > 1 else None


def trees():
    x = st.recursive(st.one_of(st.integers(0, 9), st.none(), st.just('ab')), lambda inner: st.lists(inner, max_size=4), max_leaves=12).filter(lambda x: isinstance(x, list))
    return st.one_of(x, x, st.builds(wrapped, x, st.lists(st.sampled_from([0, 2]), min_size=1, max_size=8)))


def tupled(x, depth=0):
    """Every other level as tuple."""
    if isinstance(x, list):
        inner = [tupled(y, depth + 1) for y in x]
        return tuple(inner) if depth % 2 else inner
    return x


def leaves(x):
    return [z for y in x for z in (leaves(y) if isinstance(y, (list, tuple)) else [y])]


@random_case('C33', trees, quick=400, rule='some nested list')
def flattening(value):
    from discretehelpers.a import flatten
    expected = tuple(leaves(value))
    given = deepcopy(value)
    same(flatten(given), expected, 'flattened lists')
    same(given, value, 'list after use')
    same(flatten(tupled(value)), expected, 'flattened lists and tuples')
    same(flatten(tuple(value)), expected, 'flattened tuple')
    return len(expected) if any(isinstance(x, list) for x in value) else None


@st.composite
def zip_cases(draw):
    k = draw(st.integers(1, 5))
    pattern = draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=16))
    return {'pattern': pattern, 'vector': [draw(st.integers(-9, 9)) for _ in pattern]}


@random_case('C33', zip_cases, quick=500, rule='at least three pieces')
def zipping(value):
    from discretehelpers.a import repeat_sequence, vector_zip_apart, vector_zip_together
    from discretehelpers.binv import Binv
    pattern, vector = value['pattern'], value['vector']
    given, template = list(vector), list(pattern)
    expected = [[v for v, p in zip(vector, pattern) if p == k] for k in range(max(pattern) + 1)]
    for x in (given, tuple(given)):
        for y in (template, tuple(template)):
            pieces = vector_zip_apart(x, y)
            same([list(p) for p in pieces], expected, 'zipped apart')
            whole = vector_zip_together(pieces, y)
            same(whole, vector if type(pieces[0]) is list else tuple(vector), 'zipped together')
            whole = vector_zip_together(tuple(tuple(p) for p in pieces), y)
            same(whole, tuple(vector), 'tuples zipped together')
            same([list(p) for p in pieces], expected, 'pieces after use')
    digits = [v & 1 for v in vector]
    parts = vector_zip_apart(Binv(digits), template)
    same([[int(d) for d in p] for p in parts], [[d for d, p in zip(digits, pattern) if p == k] for k in range(max(pattern) + 1)], 'binary vector zipped apart')
    same((given, template), (vector, pattern), 'vectors after use')
    refuses(lambda: vector_zip_apart(given, template + [0]), 'different lengths', Dedicated)
    refuses(lambda: vector_zip_apart(given, [-1] + template[1:]), 'negative pattern', Exception)
    refuses(lambda: vector_zip_apart(set(given), template), 'set', Exception)
    refuses(lambda: vector_zip_together(expected, template + [0]), 'too long pattern', Exception)
    n = 1 + vector[0] % 4
    same(repeat_sequence(given, n * len(given)), vector * n, 'repeated list')
    same(repeat_sequence(tuple(given), n * len(given)), tuple(vector) * n, 'repeated tuple')
    if len(given) > 1:
        refuses(lambda: repeat_sequence(given, n * len(given) + 1), 'repetition to unfit length', Exception)
    return len(expected) if len(expected) > 2 else None


@random_case('C33', lambda: st.tuples(st.dictionaries(st.sampled_from('abcdef'), st.integers(0, 9)), st.lists(st.sampled_from('abcdefg'), max_size=4), st.dictionaries(st.sampled_from('abcdefgh'), st.integers(10, 19), max_size=4)), quick=400, rule='some entries dropped, kept and new')
def subdicts(value):
    from discretehelpers.a import subdict
    original, drop, fresh = value
    for with_drop, with_fresh in product((True, False), repeat=2):
        args = deepcopy(value)
        kwargs = {}
        if with_drop:
            kwargs['drop'] = args[1]
        if with_fresh:
            kwargs['fresh'] = args[2]
        expected = {k: v for k, v in original.items() if not with_drop or k not in drop}
        if with_fresh:
            expected.update(fresh)
        result = subdict(args[0], **kwargs)
        same(result, expected, 'partial dictionary')
        same(list(args), list(value), 'arguments after use')
        result['new'] = 1
        same(list(args), list(value), 'arguments after change of result')
    return len(original) if set(drop) & set(original) and set(original) - set(drop) and fresh else None


########################################################################################################################
# permutations and numbers


@st.composite
def transposition_cases(draw):
    n = draw(st.integers(2, 12))
    a = draw(st.integers(0, n - 1))
    b = draw(st.integers(0, n - 1).filter(lambda x: x != a))
    return [a, b, n]


@random_case('C33', transposition_cases, quick=200, rule='not neighbouring')
def transpositions(value):
    from discretehelpers.a import make_transposition, other_entry_in_pair
    a, b, n = value
    p = make_transposition(a, b, n)
    same(list(p), [b if i == a else a if i == b else i for i in range(n)], 'transposition')
    refuses(lambda: make_transposition(a, a, n), 'transposition of one place', Dedicated)
    refuses(lambda: make_transposition(a, n, n), 'transposition outside', Dedicated)
    refuses(lambda: make_transposition(n + 1, b, n), 'transposition outside', Dedicated)
    for pair in ([a, b], (b, a), {a, b}):
        same(other_entry_in_pair(pair, a), b, 'other entry')
        same(other_entry_in_pair(pair, b), a, 'other entry')
        same(len(pair), 2, 'pair after use')
    refuses(lambda: other_entry_in_pair([a, b, n], a), 'three entries', Exception)
    refuses(lambda: other_entry_in_pair('ab', 'a'), 'string', Exception)
    return n if abs(a - b) > 1 else None


@st.composite
def coset_cases(draw):
    n = draw(gen.sizes(0, 6))
    keys = draw(gen.words(n))
    order = draw(gen.shuffled(range(n)))
    return [keys, sum(1 << order[k] for k in ref.exps(keys)), n]


@random_case('C33', coset_cases, quick=200, rule='at least three places, mixed sets')
def cosets(value):
    from discretehelpers.a import schoute_coset_gen
    keys, vals, n = value
    found = list(schoute_coset_gen(keys, vals, n))
    expected = [ref.left_rank(p) for p in permutations(range(n)) if {p[k] for k in ref.exps(keys)} == set(ref.exps(vals))]
    same(len(found), len(set(found)), 'different permutations')
    same(sorted(found), sorted(expected), 'ranks of the permutations carrying one set to the other')
    refuses(lambda: list(schoute_coset_gen(keys + (1 << n), vals, n)), 'too big set', Exception)
    return n if n > 2 and 0 < keys < (1 << n) - 1 else None


@random_case('C33', lambda: st.lists(gen.naturals(70), min_size=2, max_size=6), quick=300, rule='at least three numbers')
def reductions(value):
    from discretehelpers.a import multigrade_bitwise
    expected = {'and': value[0], 'or': 0, 'xor': 0}
    for x in value:
        expected['and'] &= x
        expected['or'] |= x
        expected['xor'] ^= x
    given = list(value)
    for name, result in expected.items():
        same(multigrade_bitwise(given, name), result, 'reduction by ' + name)
        same(multigrade_bitwise(tuple(given[::-1]), name), result, 'reduction in other order by ' + name)
        same(multigrade_bitwise((x for x in given), name), result, 'reduction of generator by ' + name)
    same(given, value, 'list after use')
    refuses(lambda: multigrade_bitwise(given, 'nand'), 'unknown operator', Dedicated)
    return len(value) if len(value) > 2 else None

"""Filtrates are projections, and pairwise set relations agree with them."""
from itertools import combinations, permutations

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make

########################################################################################################################
# reference


def projection(f, names):
    """Function of the named arguments, true where some completion is true."""
    names = sorted(names)
    table = 0
    for s in ref.exps(f[1]):
        table |= 1 << ref.undigits([(s >> f[0].index(v)) & 1 for v in names])
    return ref.canon(tuple(names), table)


def pair_string(f, a, b):
    found = {((s >> a) & 1) + 2 * ((s >> b) & 1) for s in ref.exps(f[1])}
    return ''.join('1' if i in found else '0' for i in range(4))


WORDS = {'1111': 'crossing', '1110': 'disjoint', '0111': 'universal', '0110': 'complementary', '1001': 'equal'}


def letters(f):
    return [chr(65 + v) for v in f[0]] if not f[0] or max(f[0]) < 26 else list(f[0])


########################################################################################################################
# filtrates


@st.composite
def filtrates(draw):
    f = ref.fn(draw(gen.fns(0, 7)))
    big = draw(gen.shuffled(f[0]))
    k = draw(st.integers(0, len(big)))
    j = draw(st.integers(0, k))
    foreign = draw(st.integers(0, 12).filter(lambda v: v not in f[0]))
    where = draw(st.integers(0, k))
    return {'t': f[1], 'v': list(f[0]), 'big': big[:k], 'small': draw(gen.shuffled(big[:k]))[:j], 'foreign': foreign,
            'where': where, 'other': draw(gen.words(1 << len(f[0])))}


@random_case('C25', filtrates, quick=1200, rule='at least two arguments removed and kept, kept ones not in ascending order')
def filtrate(value):
    f = (tuple(value['v']), value['t'])
    b = make(f)
    big, small = list(value['big']), list(value['small'])
    expected = projection(f, big)
    r = b.filtrated_boolf(big)
    is_fn(r, expected, 'filtrate to %s' % big)
    same(big, value['big'], 'list of arguments after use')
    is_fn(b.filtrated_boolf(tuple(sorted(big))), expected, 'filtrate to sorted tuple')
    is_fn(b.filtrated_boolf(big[::-1]), expected, 'filtrate to reversed list')
    # true at least where the function is
    expect(ref.implies(f, expected), 'projection not implied (reference)')
    expect(bool(b.bitwise_le(r)), 'function does not imply its filtrate')
    # projections compose
    is_fn(b.filtrated_boolf(small), projection(f, small), 'filtrate to %s' % small)
    if set(small) <= set(expected[0]):
        is_fn(r.filtrated_boolf(small), projection(f, small), 'filtrate of filtrate')
    # monotone, and distributes over disjunction
    g = ref.canon(f[0], value['other'])
    h = ref.f_or(f, g)
    if set(big) <= set(h[0]):
        is_fn(make(h).filtrated_boolf(big), ref.f_or(projection(f, big), projection(project_wide(g, f), big)), 'filtrate of disjunction')
    # all and no arguments
    is_fn(b.filtrated_boolf(list(f[0])), f, 'filtrate to all arguments')
    is_fn(b.filtrated_boolf([]), ref.constant(int(f[1] != 0)), 'filtrate to no arguments')
    refuses(lambda: b.filtrated_boolf(big[:value['where']] + [value['foreign']] + big[value['where']:]), 'foreign argument', 'AtomvalsMismatchError')
    is_fn(b, f, 'after use')
    if 2 <= len(big) <= len(f[0]) - 2 and big != sorted(big):
        return len(big)


def project_wide(g, f):
    """The same function over the arguments of f (not reduced)."""
    return f[0], ref.undigits([int(ref.value(g, {v: (s >> k) & 1 for k, v in enumerate(f[0])})) for s in range(1 << len(f[0]))])


def all_orders(tier):
    for t in range(0, 256, 1 if tier == 'thorough' else 3):
        yield {'t': t, 'v': [0, 1, 2]}
    for t in range(7, 65536, 97 if tier == 'thorough' else 1009):
        yield {'t': t, 'v': [0, 2, 3, 5]}


@enum_case('C25', all_orders, rule='function depends on at least three arguments')
def every_order(value):
    f = ref.fn(value)
    b = make(f)
    for k in range(len(f[0]) + 1):
        for names in permutations(f[0], k):
            is_fn(b.filtrated_boolf(list(names)), projection(f, names), 'filtrate to %s' % (names,))
    return len(f[0]) if len(f[0]) > 2 else None


########################################################################################################################
# pairs


def check_pairs(f, b=None):
    b = make(f) if b is None else b
    n = len(f[0])
    expected = {(i, j): pair_string(f, i, j) for i, j in combinations(range(n), 2)}
    same(dict(b.filtrated_pairs), expected, 'pairwise filtrates')
    seen = set()
    for i, j in permutations(range(n), 2):
        s = pair_string(f, i, j)
        seen.add(s)
        same(b.filtrated_pair(i, j), s, 'filtrate of pair %d, %d' % (i, j))
        same(bool(b.atom_pair_subset(i, j)), s == '1011', 'subset %d, %d' % (i, j))
        same(bool(b.atom_pair_intersect(i, j)), s == '0111', 'intersect %d, %d' % (i, j))
        same(bool(b.atom_pair_crossing(i, j)), s == '1111', 'crossing %d, %d' % (i, j))
        if s == '1111':
            refuses(lambda: b.atom_border_in_atom_side(i, j), 'border side of crossing pair', 'BordersCrossingError')
        else:
            same(bool(b.atom_border_in_atom_side(i, j)), s in ('1011', '0111'), 'border of %d inside %d' % (i, j))
    same({k: list(v) for k, v in b.atom_to_crossing_atoms.items()},
         {i: [j for j in range(n) if j != i and pair_string(f, i, j) == '1111'] for i in range(n)}, 'crossing arguments')
    for i in range(n):
        for pair in ((i, i), (i, n), (n, i), (i, n + 3), (n + 2, i)):
            for query in (b.atom_pair_subset, b.atom_pair_intersect, b.atom_pair_crossing, b.atom_border_in_atom_side):
                refuses(lambda: query(*pair), 'not a pair of arguments %s' % (pair,), 'NotPairOfAtomKeysError')
    for names in (None, ['n%d' % ((k * 5 + 3) % 7) + 'abcdefghij'[k] for k in range(n)]):
        check_pretty(b, f, names)
    is_fn(b, f, 'after use')
    return seen


def check_pretty(b, f, names):
    n = len(f[0])
    pretty = b.filtrated_pairs_pretty(names) if names else b.filtrated_pairs_pretty()
    atoms = b.fullspot_atoms_pretty(names) if names else b.fullspot_atoms_pretty()
    names = names or letters(f)
    expected = {}
    for i, j in combinations(range(n), 2):
        s = pair_string(f, i, j)
        if s in ('1011', '1101'):
            pair = (names[i], names[j]) if s == '1011' else (names[j], names[i])
            expected.setdefault('subset', []).append(pair)
        else:
            expected.setdefault(WORDS.get(s, s), []).append((names[i], names[j]))
    if 'subset' in expected:
        expected['subset'].sort()
    same({k: [tuple(p) for p in v] for k, v in pretty.items()}, expected, 'pretty pairs')
    order = ['crossing', 'disjoint', 'universal', 'subset', 'equal', 'complementary']
    same([k for k in pretty if k in order], [k for k in order if k in expected], 'order of pretty keys')
    same({k: list(v) for k, v in atoms.items()}, {s: [names[k] for k in range(n) if (s >> k) & 1] for s in ref.exps(f[1])}, 'pretty true places')
    for wrong in ([*names, 'zz'], names[:-1] if n else ['x'], names[:1] * n if n > 1 else ['x', 'y', 'z']):
        refuses(lambda: b.filtrated_pairs_pretty(wrong), 'wrong number of names', Dedicated)
        refuses(lambda: b.fullspot_atoms_pretty(wrong), 'wrong number of names', Dedicated)


def pair_functions(tier):
    for t in range(0, 256):
        yield {'t': t, 'v': [0, 1, 2]}
    for t in range(16):
        yield {'t': t, 'v': [1, 25]}
        yield {'t': t, 'v': [1, 26]}
        yield {'t': t, 'v': [4, 300]}
    for t in range(5, 65536, 13 if tier == 'thorough' else 211):
        yield {'t': t, 'v': [0, 1, 2, 3]}


@enum_case('C25', pair_functions, rule='some pair of sets that does not cross')
def small_pairs(value):
    seen = check_pairs(ref.fn(value))
    return ' '.join(sorted(seen)) if seen - {'1111'} else None


@st.composite
def sparse_fns(draw):
    """Few true places, so that many relations occur."""
    n = draw(gen.sizes(2, 7))
    t = 0
    for s in draw(st.lists(gen.words(n), min_size=1, max_size=8)):
        t |= 1 << s
    return {'t': t, 'v': draw(gen.names(n))}


@random_case('C25', lambda: st.one_of(sparse_fns(), gen.fns(2, 6)), quick=400, rule='at least three different relations')
def pairs(value):
    f = ref.fn(value)
    seen = check_pairs(f)
    return len(seen) if len(seen) > 2 else None


@st.composite
def dense_fns(draw):
    """Many true places, so that sets cross many others."""
    n = draw(st.sampled_from([7, 7, 8, 8, 9]))
    t = ref.full(n) & ~(1 << draw(gen.words(n)))
    for _ in range(draw(st.integers(0, 3))):  # some relations between two sets
        a, b = draw(gen.shuffled(range(n)))[:2]
        combination = draw(st.integers(0, 3))
        for s in range(1 << n):
            if ((s >> a) & 1) + 2 * ((s >> b) & 1) == combination:
                t &= ~(1 << s)
    for s in draw(st.lists(gen.words(n), max_size=20)):
        t &= ~(1 << s)
    return {'t': t, 'v': draw(gen.names(n))}


@random_case('C25', dense_fns, quick=50, rule='a set that crosses at least five others')
def larger_pairs(value):
    f = ref.fn(value)
    check_pairs(f)
    most = max([sum(pair_string(f, i, j) == '1111' for j in range(len(f[0])) if j != i) for i in range(len(f[0]))], default=0)
    return most if most > 4 else None

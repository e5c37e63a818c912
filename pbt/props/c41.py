"""Renaming arguments monotonically changes only the argument names.

The same truth table is read with three lists of ascending names (the positions themselves, and two generated ones). Functions in the results are compared after their names have been replaced by positions.
"""
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make
from pbt.props.c37 import frozen

# expressed by positions and places, or as functions of the same arguments
POSITIONS = '''
valency root complement reverse weight_fract is_constant is_linear is_male is_odd is_odious is_ugly is_symmetric is_bundle is_blightless is_bloatless is_blotless
blight blight_boolf blightless_atomkeys blightless_boolf bloat bloat_boolf bloatless_atomkeys_deflated bloatless_atomkeys_undeflated bloatless_boolf blot blot_boolf
bundles bundle_grid_partitions bundle_overlap_counts gapless_boolf atom_to_crossing_atoms filtrated_pairs
fullspots fullspot_atoms fullspot_weights fullspotlinks_by_weight fullspots_by_weight number_of_fullspotlinks layered_fullspots
hypersplits hypersplits_detailed hypersplits_potential_cores
layered_tt layered_weight number_of_distinct_splits onesided_atomkeys onesided_is_universe
splits splits_equal splits_equality_blocks splits_onesided splits_overlap_counts splits_preferred_side split_pairs_with_3_overlaps
quadrant
'''.split()

LARGE = 'family_is_self_complementary family_malerep family_minrep ec_family symmetric_spots perm_symmetry_partition'.split()


def positional(x, names):
    """Comparable value, in which the names of arguments are replaced by their positions."""
    name = type(x).__name__
    if name == 'Boolf':
        return name, [names.index(a) if a in names else 'foreign %d' % a for a in x.atomvals], [int(d) for d in x.root], bool(x.is_constant)
    if name == 'SetPart':
        return name, frozen(x.blocks), frozen(x.domain), positional(dict(x.block_labels), names)
    if name == 'bidict' or isinstance(x, dict):
        return 'dict', sorted(((positional(k, names), positional(v, names)) for k, v in x.items()), key=repr)
    if isinstance(x, (set, frozenset)):
        return 'set', sorted((positional(y, names) for y in x), key=repr)
    if isinstance(x, (list, tuple)):
        return name, [positional(y, names) for y in x]
    return frozen(x)


def read(b, query, names):
    try:
        if isinstance(query, str):
            x = getattr(b, query)
            if callable(x) and type(x).__name__ == 'method':
                x = x()
        else:
            x = getattr(b, query[0])(*query[1:])
        return positional(x, names)
    except Exception as e:
        return 'refused', type(e).__name__


@st.composite
def renamings(draw, min_n, max_n, max_gap=3, blights=False):
    if blights:
        desc = draw(gen.blighted(min_n, max_n, spread=False))
    else:
        desc = draw(gen.fns(min_n, max_n, spread=False))
    n = len(desc['v'])
    return {'t': desc['t'], 'v': desc['v'], 'names': [sorted(draw(gen.names(n, max_gap))) for _ in range(2)]}


def versions(value):
    f = ref.fn(value)
    n = len(f[0])
    lists = [list(range(n))] + [names[:n] for names in value['names']]
    return f, [(names, make((tuple(names), f[1]))) for names in lists]


def compare(objects, queries):
    names, b = objects[0]
    for query in queries:
        expected = read(b, query, names)
        for other, c in objects[1:]:
            same(read(c, query, other), expected, '%s with names %s' % (query, other))


def spread(names):
    return names != list(range(len(names)))


def pairs(n):
    for a in range(n):
        for b in range(n):
            if a != b:
                for method in ('filtrated_pair', 'atom_pair_subset', 'atom_pair_intersect', 'atom_pair_crossing', 'splits_combined'):
                    yield (method, a, b) if method != 'splits_combined' else (method, [a, b])


@random_case('C41', lambda: renamings(1, 5), quick=400, thorough=3000, rule='at least two arguments, some names that are not the positions')
def plain(value):
    f, objects = versions(value)
    compare(objects, POSITIONS)
    compare([(names, b) for names, b in objects if b.adicity <= 10], ['ec_family'])
    compare(objects, list(pairs(len(f[0]))))
    n = len(f[0])
    return n if n > 1 and any(spread(names) for names, b in objects) else None


@random_case('C41', lambda: renamings(2, 5, blights=True), quick=400, thorough=3000, rule='blighted function, some names that are not the positions')
def redundant(value):
    f, objects = versions(value)
    compare(objects, POSITIONS)
    compare(objects, list(pairs(len(f[0]))))
    n = len(f[0])
    return n if n > 1 and not objects[0][1].is_blightless and any(spread(names) for names, b in objects) else None


@random_case('C41', lambda: renamings(0, 4, 1), quick=200, thorough=1200, rule='at least two arguments, some names that are not the positions')
def symmetric(value):
    f, objects = versions(value)
    n = len(f[0])
    compare(objects, [query for query in LARGE if n < 4 or 'symm' not in query])
    return n if n > 1 and any(spread(names) for names, b in objects) else None


def segments(b):
    connected, collection = b.find_segments()
    return bool(connected), sorted((d, sorted((tuple(v), frozen(members[v])) for v in members)) for d, members in collection.segments.items()), list(collection.number_by_dimension)


@random_case('C41', lambda: renamings(2, 4), quick=200, thorough=1200, rule='at least two arguments, some names that are not the positions')
def segmented(value):
    f, objects = versions(value)
    if not f[0]:
        return None
    expected = segments(objects[0][1])
    for names, b in objects[1:]:
        same(segments(b), expected, 'segments with names %s' % (names,))
    n = len(f[0])
    return n if n > 1 and any(spread(names) for names, b in objects) else None


@random_case('C41', lambda: st.tuples(renamings(0, 4), gen.tables(4), gen.sig_perms(1, 4)), quick=400, thorough=3000, rule='at least two arguments, some names that are not the positions')
def operations(value):
    """Combinations and substitutions commute with renaming."""
    f, objects = versions(value[0])
    n = len(f[0])
    if not n:
        return None
    other = value[1] & ref.full(n)
    s = list(ref.extend(list(value[2]), n))
    results = []
    for names, b in objects:
        c = make(ref.canon(names, other))
        result = [b & c, b | c, b ^ c, ~b, b.complement, b.reverse]
        if len(s) == n:
            result.append(b.apply(*[names[x] if x >= 0 else ~names[~x] for x in s]))
        result.append(b.vals(*range(n)))
        result.append([int(b.val(*ref.digits(i, n))) for i in range(1 << n)])
        result.append([bool(b.bitwise_le(c)), bool(b.bitwise_ge(c)), bool(b.bitwise_lt(c)), bool(b.bitwise_gt(c)), b == c])
        results.append(positional(result, names))
        same(b.spread_vector, [a - k for k, a in enumerate(names)], 'spread vector')
        same(b.atomvals_integer, sum(1 << a for a in names), 'argument number')
        same(list(b.atomvals_sierpinski), [sum(1 << names[k] for k in ref.exps(i)) for i in range(1 << n)], 'places of the root in the long truth table')
        same(list(b.atomvals), names, 'names')
        same(b.adicity, names[-1] + 1, 'adicity')
        same(bool(b.is_root), names == list(range(n)), 'root')
        is_fn(b.root_boolf, (tuple(range(n)), f[1]), 'root function')
        same([int(x) for x in b.tt(names)], ref.digits(f[1], 1 << n), 'truth table by names')
    for result in results[1:]:
        same(result, results[0], 'operations with names')
    return n if n > 1 and any(spread(names) for names, b in objects) else None


@random_case('C41', lambda: renamings(6, 7, 1), quick=16, thorough=120, rule='at least six arguments, some names that are not the positions')
def larger_functions(value):
    f, objects = versions(value)
    compare(objects, POSITIONS)
    compare(objects, list(pairs(len(f[0]))))
    return len(f[0]) if len(f[0]) > 5 and any(spread(names) for names, b in objects) else None

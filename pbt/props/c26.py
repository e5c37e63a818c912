"""Bundles, grids and gapless functions follow from the pairwise overlaps."""
from itertools import combinations

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make
from pbt.props.c24 import are_comp, are_equal, empty, overlaps, universal
from pbt.props.c25 import letters, pair_string


def components(keys, pairs):
    """Connected components, as sorted list of sorted lists."""
    blocks = [{k} for k in keys]
    for a, b in pairs:
        left = next(x for x in blocks if a in x)
        right = next(x for x in blocks if b in x)
        if left is not right:
            left |= right
            blocks.remove(right)
    return sorted(sorted(x) for x in blocks)


def ref_gapless(f):
    n = len(f[0])
    table = 0
    strings = [(a, b, pair_string(f, a, b)) for a, b in combinations(range(n), 2)]
    for s in range(1 << n):
        if all(string[((s >> a) & 1) + 2 * ((s >> b) & 1)] == '1' for a, b, string in strings):
            table |= 1 << s
    return ref.canon(f[0], table)


def kind(f):
    """Which redundant sets the function has."""
    if any(are_equal(f, a, b) or are_comp(f, a, b) for a, b in combinations(range(len(f[0])), 2)):
        return 'bloat'
    return 'blot' if universal(f) or empty(f) else 'free'


def check(f):
    b = make(f)
    n = len(f[0])
    k = kind(f)
    pairs = list(combinations(range(n), 2))
    if k == 'bloat':
        for query in ('bundles', 'bundle_overlap_counts', 'is_bundle'):
            refuses(lambda: getattr(b, query), query + ' with bloat', Dedicated)
        refuses(b.bundles_pretty, 'bundles_pretty with bloat', Dedicated)
    else:
        expected = components(range(n), [p for p in pairs if overlaps(f, *p) == 4])
        same([list(x) for x in b.bundles], expected, 'bundles')
        same(bool(b.is_bundle), len(expected) == 1, 'is bundle')
        counts = b.bundle_overlap_counts
        same({tuple(bundle): {c: sorted(map(tuple, ps)) for c, ps in found.items()} for bundle, found in counts.items()},
             {tuple(x): {c: [p for p in pairs if set(p) <= set(x) and overlaps(f, *p) == c] for c in (3, 4)} for x in expected},
             'pairs in bundles by number of overlaps')
        names = letters(f)
        same([list(x) for x in b.bundles_pretty()], [[names[i] for i in x] for x in expected], 'pretty bundles')
        own = ['%s%d' % ('zyxwvutsr'[i], i) for i in range(n)]
        same([list(x) for x in b.bundles_pretty(own)], [[own[i] for i in x] for x in expected], 'pretty bundles with given names')
        refuses(lambda: b.bundles_pretty(own + ['q']), 'wrong number of names', Dedicated)
        if n > 1:
            refuses(lambda: b.bundles_pretty(own[1:2] + own[1:]), 'repeated names', Dedicated)
    if k == 'free':
        grids = b.bundle_grid_partitions
        same(sorted(grids), sorted(tuple(x) for x in expected), 'bundles of grid partitions')
        for x in expected:
            joined = components(x, [p for p in pairs if set(p) <= set(x) and overlaps(f, *p) == 3])
            grid = grids[tuple(x)]
            same(sorted(sorted(y) for y in grid.blocks), [y for y in joined if len(y) > 1], 'grid partition of bundle %s' % x)
        gapless = ref_gapless(f)
        r = b.gapless_boolf
        is_fn(r, gapless, 'gapless function')
        expect(ref.implies(f, gapless), 'gapless function not implied (reference)')
        expect(bool(r.bitwise_ge(b)), 'gapless function not implied')
        is_fn(r.gapless_boolf, gapless, 'gapless function of gapless function')
        is_fn(make(gapless).gapless_boolf, gapless, 'gapless function of new gapless function')
    else:
        refuses(lambda: b.bundle_grid_partitions, 'grid partitions with %s' % k, Dedicated)
        refuses(lambda: b.gapless_boolf, 'gapless function with %s' % k, Dedicated)
    is_fn(b, f, 'after use')
    if k != 'free':
        return k
    if len(expected) == n and n > 1:
        return 'no crossings'
    if len(expected) == 1:
        return None if gapless == ref.constant(1) else 'one bundle'
    return 'several bundles'


def small(tier):
    for n in range(4):
        for t in range(1 << (1 << n)):
            yield {'t': t, 'v': list(range(n))}
    for t in range(3, 65536, 17 if tier == 'thorough' else 167):
        yield {'t': t, 'v': [0, 2, 3, 4]}


@enum_case('C26', small, rule='redundant sets, or some pair that does not cross; labelled by kind')
def small_functions(value):
    return check(ref.fn(value))


@st.composite
def diagrams(draw, low=2, high=7):
    """Sets in random binary relations, sometimes with gaps."""
    n = draw(gen.sizes(low, high))
    masks = gen.spot_masks(n)
    t = top = ref.full(n)
    for _ in range(draw(st.integers(0, high - 2))):
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if a != b:
            left = masks[a] ^ (top if draw(st.booleans()) else 0)
            right = masks[b] ^ (top if draw(st.booleans()) else 0)
            t &= left | right
    for _ in range(draw(st.integers(0, 4))):
        t &= ~(1 << draw(gen.words(n)))
    return {'t': t, 'v': draw(gen.names(n))}


@random_case('C26', diagrams, quick=800, rule='redundant sets, or some pair that does not cross; labelled by kind')
def related_sets(value):
    return check(ref.fn(value))


@st.composite
def few_places(draw):
    n = draw(gen.sizes(3, 6))
    t = 0
    for s in draw(st.lists(gen.words(n), min_size=n, max_size=3 * n)):
        t |= 1 << s
    return {'t': t, 'v': draw(gen.names(n))}


@random_case('C26', lambda: st.one_of(few_places(), gen.fns(2, 6)), quick=700, rule='redundant sets, or some pair that does not cross; labelled by kind')
def functions(value):
    return check(ref.fn(value))


@random_case('C26', lambda: diagrams(8, 9), quick=40, rule='redundant sets, or some pair that does not cross; labelled by kind')
def many_sets(value):
    return check(ref.fn(value))

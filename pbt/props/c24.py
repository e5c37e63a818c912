"""Redundant sets: bloat, blot and blight are found and removed losslessly."""
from itertools import combinations

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make

########################################################################################################################
# reference: set number k contains the true places whose binary digit k is set


def inside(f, k):
    return {s for s in ref.exps(f[1]) if (s >> k) & 1}


def outside(f, k):
    return {s for s in ref.exps(f[1]) if not (s >> k) & 1}


def are_equal(f, a, b):
    return inside(f, a) == inside(f, b)


def are_comp(f, a, b):
    return inside(f, a) == outside(f, b)


def overlaps(f, a, b):
    return len({((s >> a) & 1, (s >> b) & 1) for s in ref.exps(f[1])})


def universal(f):
    return [k for k in range(len(f[0])) if not outside(f, k)]


def empty(f):
    return [k for k in range(len(f[0])) if not inside(f, k)]


def blocks(f):
    """Lists of connected sets, with the preferred one (None without complements), ordered by representative."""
    n = len(f[0])
    left = list(range(n))
    result = []
    while left:
        block = [k for k in left if are_equal(f, left[0], k) or are_comp(f, left[0], k)]
        left = [k for k in left if k not in block]
        if any(are_comp(f, block[0], k) for k in block):
            if block[0] in universal(f) + empty(f):
                preferred = min(k for k in block if k in universal(f))
            else:
                first = min(ref.exps(f[1]))
                preferred = min(k for k in block if (first >> k) & 1)
        else:
            preferred = None
        result.append((block[0] if preferred is None else preferred, block, preferred))
    return sorted(result)


def all_true(f, condition):
    """Function of the same arguments, true at the places with the condition."""
    return ref.canon(f[0], ref.undigits([int(bool(condition(s))) for s in range(1 << len(f[0]))]))


def fits_bloat(f, s):
    for a, b in combinations(range(len(f[0])), 2):
        same_digit = (s >> a) & 1 == (s >> b) & 1
        if are_equal(f, a, b) and not same_digit or are_comp(f, a, b) and same_digit:
            return False
    return True


def fits_blot(f, s):
    return all((s >> k) & 1 for k in universal(f)) and not any((s >> k) & 1 for k in empty(f))


def selected(s, keys):
    return ref.undigits([(s >> k) & 1 for k in keys])


def is_free(f):
    """No redundant sets."""
    pairs = combinations(range(len(f[0])), 2)
    return not universal(f) and not empty(f) and not any(are_equal(f, a, b) or are_comp(f, a, b) for a, b in pairs)


########################################################################################################################


def check_splits(f, b):
    n = len(f[0])
    pairs = list(combinations(range(n), 2))
    same([(set(x), set(y)) for x, y in b.splits], [(inside(f, k), outside(f, k)) for k in range(n)], 'splits')
    same(dict(b.splits_overlap_counts), {(x, y): overlaps(f, x, y) for x, y in pairs}, 'numbers of overlaps')
    same({p: bool(v) for p, v in b.splits_equal.items()}, {(x, y): are_equal(f, x, y) or are_comp(f, x, y) for x, y in pairs}, 'equal splits')
    onesided = sorted(universal(f) + empty(f))
    same([bool(v) for v in b.splits_onesided], [k in onesided for k in range(n)], 'onesided splits')
    same(list(b.onesided_atomkeys), onesided, 'keys of onesided splits')
    same({k: bool(v) for k, v in b.onesided_is_universe.items()}, {k: k in universal(f) for k in onesided}, 'onesided splits that are the universe')
    same(sorted(b.split_pairs_with_3_overlaps), [p for p in pairs if overlaps(f, *p) == 3], 'pairs with three overlaps')
    expected = blocks(f)
    same([list(x) for x in b.splits_equality_blocks], [x[1] for x in expected], 'blocks of equal splits')
    same(list(b.splits_preferred_side), [x[2] for x in expected], 'preferred sides')
    same(b.number_of_distinct_splits, len(expected), 'number of distinct splits')
    return [x[0] for x in expected]


def check_facts(f, b):
    n = len(f[0])
    for x, y in combinations(range(n), 2):
        for fact in (b.bloat, b.blight):
            for u, v in ((x, y), (y, x)):
                same(bool(fact.are_equal(u, v)), are_equal(f, x, y), 'equal sets %d and %d' % (x, y))
                same(bool(fact.are_comp(u, v)), are_comp(f, x, y), 'complementary sets %d and %d' % (x, y))
    for k in range(n):
        for fact in (b.blot, b.blight):
            same(bool(fact.are_equal(k, -1)), k in universal(f), 'universal set %d' % k)
            same(bool(fact.are_comp(k, -1)), k in empty(f), 'empty set %d' % k)
        expect(not b.bloat.are_equal(k, -1) and not b.bloat.are_comp(k, -1), 'bloat about a single set', k)
    fitting = [(b.bloat_boolf, fits_bloat, 'bloat'), (b.blot_boolf, fits_blot, 'blot'), (b.blight_boolf, lambda g, s: fits_bloat(g, s) and fits_blot(g, s), 'blight')]
    for function, fits, name in fitting:
        is_fn(function, all_true(f, lambda s: fits(f, s)), 'function of ' + name)


def check_removal(f, b, representatives):
    n = len(f[0])
    onesided = universal(f) + empty(f)
    has_bloat = any(are_equal(f, x, y) or are_comp(f, x, y) for x, y in combinations(range(n), 2))
    same(bool(b.is_bloatless), not has_bloat, 'is bloatless')
    same(bool(b.is_blotless), not onesided, 'is blotless')
    same(bool(b.is_blightless), not has_bloat and not onesided, 'is blightless')
    kept = representatives
    without_bloat = ref.canon([f[0][k] for k in kept], ref.project(f, kept)) if f[0] else f
    is_fn(b.bloatless_boolf, without_bloat, 'bloatless function')
    same(list(b.bloatless_atomkeys_undeflated), kept, 'keys of bloatless function before deflation')
    deflated = [k for k in range(n) if f[0][k] in without_bloat[0]]
    same(list(b.bloatless_atomkeys_deflated), deflated, 'keys of bloatless function')
    kept_blightless = [k for k in deflated if k not in onesided]
    same(list(b.blightless_atomkeys), kept_blightless, 'keys of blightless function')
    without_blight = ref.canon([f[0][k] for k in kept_blightless], ref.project(f, kept_blightless)) if f[0] else f
    is_fn(b.blightless_boolf, without_blight, 'blightless function')
    expect(b.bloat_boolf & b.bloatless_boolf == b, 'bloat and bloatless function')
    expect(b.blight_boolf & b.blightless_boolf == b, 'blight and blightless function')
    expect(b.bloatless_boolf.is_bloatless, 'bloatless function has bloat')
    expect(b.blightless_boolf.is_blightless, 'blightless function has blight')
    same(b.bloatless_boolf == b, not has_bloat, 'function is its bloatless function')
    same(b.blightless_boolf == b, not has_bloat and not onesided, 'function is its blightless function')
    table, table_blightless = ref.project(f, kept), ref.project(f, kept_blightless)
    for s in range(1 << n):
        true = (f[1] >> s) & 1
        if fits_bloat(f, s):
            place = b.bloatless_spotint(s)
            same(place, selected(s, kept), 'bloatless place of %d' % s)
            same((table >> place) & 1, true, 'value at bloatless place of %d' % s)
            if fits_blot(f, s):
                place = b.blightless_spotint(s)
                same(place, selected(s, kept_blightless), 'blightless place of %d' % s)
                same((table_blightless >> place) & 1, true, 'value at blightless place of %d' % s)
                same(int(b.blightless_boolf.root[place]), true, 'value of blightless function for %d' % s)
            else:
                refuses(lambda: b.blightless_spotint(s), 'place contradicting blot', 'BlightMismatchError')
        else:
            expect(not true, 'true place does not fit')
            refuses(lambda: b.bloatless_spotint(s), 'place contradicting bloat', 'BloatMismatchError')
            refuses(lambda: b.blightless_spotint(s), 'place contradicting bloat', 'BloatMismatchError')
    for s in (1 << n, (1 << n) + 1, 1 << (n + 2)):
        refuses(lambda: b.bloatless_spotint(s), 'too big place', 'TooBigError')
        refuses(lambda: b.blightless_spotint(s), 'too big place', 'TooBigError')


def check(f, b=None):
    b = make(f) if b is None else b
    representatives = check_splits(f, b)
    check_facts(f, b)
    check_removal(f, b, representatives)
    is_fn(b, f, 'after use')
    kinds = [name for name, present in (('equal', any(are_equal(f, *p) for p in combinations(range(len(f[0])), 2))),
                                        ('complementary', any(are_comp(f, *p) for p in combinations(range(len(f[0])), 2))),
                                        ('empty', empty(f)), ('universal', universal(f))) if present]
    return ', '.join(kinds) or None


def small(tier):
    for n in range(4):
        for t in range(1 << (1 << n)):
            yield {'t': t, 'v': list(range(n))}


@enum_case('C24', small, rule='some redundant set; labelled by kinds of redundancy')
def small_functions(value):
    return check(ref.fn(value))


@random_case('C24', lambda: gen.fns(3, 5), quick=350, rule='some redundant set; labelled by kinds of redundancy')
def functions(value):
    return check(ref.fn(value))


@random_case('C24', lambda: st.one_of(gen.fns(6, 7, max_gap=1), gen.blighted(6, 7)), quick=40, rule='some redundant set; labelled by kinds of redundancy')
def big_functions(value):
    return check(ref.fn(value))


@random_case('C24', lambda: gen.blighted(2, 6), quick=300, rule='some redundant set; labelled by kinds of redundancy')
def redundant_functions(value):
    return check(ref.fn(value))

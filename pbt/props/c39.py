"""Symmetry partitions group exactly the places the symmetries exchange."""
from itertools import permutations, product

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import make


def symmetric_table(n, group, chosen):
    """Truth table that is true in some of the orbits."""
    blocks = ref.orbits(range(1 << n), [lambda i, s=s: ref.s_number(s, i) for s in group])
    return sum(1 << i for k, block in enumerate(blocks) if (chosen >> k) & 1 for i in block)


@st.composite
def symmetric_fns(draw, max_n):
    n = draw(st.sampled_from([max_n, max_n, max_n, max_n, max_n, max_n - 1, 2, 1, 0]))
    if n and draw(st.integers(0, 4)):
        group = draw(st.lists(gen.sig_perms(n, n), min_size=1, max_size=2))
        group = [list(ref.extend(list(s), n)) for s in group]
        chosen = draw(gen.words(1 << n))
        t = symmetric_table(n, group, chosen)
    else:
        t = draw(gen.tables(n))
    return {'t': t, 'v': draw(gen.names(n, 3))}


def as_blocks(part):
    return sorted(sorted(b) for b in part.blocks)


def big(blocks):
    return sorted(sorted(b) for b in blocks if len(b) > 1)


def signed_perms(n):
    for p in permutations(range(n)):
        for signs in product((False, True), repeat=n):
            yield [~x if s else x for x, s in zip(p, signs)]


def keeps(table, n, s):
    return all((table >> ref.s_number(s, i)) & 1 for i in ref.exps(table))


def ref_spots(table, n):
    moves = [lambda i, s=s: ref.s_number(s, i) for s in signed_perms(n) if keeps(table, n, s)]
    return ref.orbits(ref.exps(table), moves)


def ref_places(table, n):
    moves = [lambda i, s=s: ref.s_number(s, i) for s in map(list, permutations(range(n))) if keeps(table, n, s)]
    return ref.orbits(range(1 << n), moves)


def check(f, b):
    n, table = len(f[0]), f[1]
    spots, places = ref_spots(table, n), ref_places(table, n)
    same(as_blocks(b.symmetric_spots), big(spots), 'symmetric places')
    same(sorted(b.symmetric_spots.domain), ref.exps(table), 'domain of symmetric places')
    same(sorted(map(sorted, b.symmetric_spots.blocks_with_singletons())), sorted(map(sorted, spots)), 'all blocks of symmetric places')
    same(as_blocks(b.perm_symmetry_partition), big(places), 'permutation symmetry')
    same(sorted(b.perm_symmetry_partition.domain), list(range(1 << n)), 'domain of permutation symmetry')
    return spots, places


@random_case('C39', lambda: st.tuples(symmetric_fns(3), gen.sig_perms(1, 3)), quick=500, thorough=4000, rule='function with symmetric places')
def small(value):
    f = ref.fn(value[0])
    b = make(f)
    spots, places = check(f, b)
    n = len(f[0])
    if n:
        # transformed function
        s = list(ref.extend(list(value[1]), n))
        if len(s) == n:
            g = ref.substitute(f, [f[0][x] if x >= 0 else ~f[0][~x] for x in s])
            c = make(g)
            same(as_blocks(c.symmetric_spots), big([[ref.s_number(s, i) for i in block] for block in spots]), 'symmetric places of transformed function')
            p = [ref.s_abs(x) for x in s]
            h = ref.substitute(f, [f[0][x] for x in p])
            same(as_blocks(make(h).perm_symmetry_partition), big([[ref.s_number(p, i) for i in block] for block in places]), 'permutation symmetry of permuted function')
    return '%d blocks' % len(big(spots)) if big(spots) else None


@random_case('C39', lambda: symmetric_fns(4), quick=100, thorough=900, rule='function with symmetric places')
def four(value):
    f = ref.fn(value)
    spots, places = check(f, make(f))
    return '%d blocks' % len(big(spots)) if big(spots) else None


@random_case('C39', lambda: symmetric_fns(5), quick=60, thorough=500, rule='function of five arguments with a permutation symmetry')
def five(value):
    f = ref.fn(value)
    n, table = len(f[0]), f[1]
    b, places = make(f), ref_places(table, n)
    same(as_blocks(b.perm_symmetry_partition), big(places), 'permutation symmetry')
    same(sorted(b.perm_symmetry_partition.domain), list(range(1 << n)), 'domain of permutation symmetry')
    return '%d blocks' % len(big(places)) if n == 5 and big(places) else None


def tables(tier):
    for n in range(4):
        for t in range(1 << (1 << n)):
            yield n, t


@enum_case('C39', tables, rule='function of all the arguments')
def all_small(value):
    n, t = value
    f = ref.canon(range(n), t)
    check(f, make(f))
    return str(n) if len(f[0]) == n else None


@st.composite
def few_places(draw):
    n = draw(st.integers(6, 8))
    return {'t': sum({1 << x for x in draw(st.lists(gen.words(n), min_size=2, max_size=12))}), 'v': list(range(n))}


@random_case('C39', lambda: st.tuples(st.one_of(gen.fns(0, 5, spread=True), few_places()), gen.words(8)), quick=250, rule='at least two true places of all kinds of distances')
def matrices(value):
    from discretehelpers.binv import Binv
    f = ref.fn(value[0])
    b = make(f)
    n, spots = len(f[0]), ref.exps(f[1])
    signs = ref.digits(value[1], 8)[:n]
    expected = [[0 if x == y else -1 if signs[ref.popcount(x ^ y) - 1] else 1 for y in spots] for x in spots]
    for arg in (list(signs), tuple(signs), Binv(list(signs)) if signs else []):
        same([[int(x) for x in row] for row in b.diagonal_adjacency_matrix(arg)], expected, 'diagonal adjacency matrix')
    return len(spots) if len(spots) > 2 and 0 < sum(signs) < n else None

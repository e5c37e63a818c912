"""Permutation ranks, inversion sets and inversion vectors are bijections."""
from functools import lru_cache
from itertools import permutations
from math import factorial

from hypothesis import strategies as st

from discretehelpers.a import int_to_factoradic, int_to_perm, rev_colex_perms
from discretehelpers.perm import Perm
from discretehelpers.perm.a import (
    inversion_set_to_count, inversion_set_to_permutation, inversion_vector, left_inversion_count,
    left_inversion_count_to_permutation, right_inversion_count, right_inversion_count_to_permutation,
)
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, same


def check_inversions(p):
    """p: list, possibly with trailing fixed points"""
    n = len(p)
    left = [sum(1 for k in range(i) if p[k] > p[i]) for i in range(n)]
    right = [sum(1 for k in range(i + 1, n) if p[k] < p[i]) for i in range(n)]
    by_value = [left[p.index(v)] for v in range(n)]
    for kind in (list, tuple):
        q = kind(p)
        same(list(left_inversion_count(q)), left, 'left inversion count')
        same(list(right_inversion_count(q)), right, 'right inversion count')
        same(list(inversion_vector(q)), by_value, 'inversion vector')
        same(q, kind(p), 'argument changed')
    same(list(left_inversion_count_to_permutation(left)), p, 'permutation from left inversion count')
    same(list(right_inversion_count_to_permutation(right)), p, 'permutation from right inversion count')
    same(left, [sum(1 for k in range(i) if p[k] > p[i]) for i in range(n)], 'left inversion count changed')
    pairs = set(ref.inversions(p))
    t = list(ref.trim(p))
    x = Perm(p)
    same({(int(a), int(b)) for a, b in x.inversion_set}, pairs, 'inversion set')
    same(list(inversion_set_to_permutation(pairs)), t, 'permutation from inversion set')
    same(list(inversion_set_to_permutation(sorted(pairs, key=lambda ab: (ab[1], -ab[0])))), t, 'permutation from inversion list')
    same(list(inversion_set_to_count(pairs)), left[:len(t)], 'left count from inversion set')
    same(list(inversion_set_to_count(pairs, variant_left=False)), right[:len(t)], 'right count from inversion set')
    same(int(x.parity), len(pairs) % 2, 'parity')
    return t, x


def check_ranks(p):
    t, x = check_inversions(p)
    r = ref.left_rank(t)
    same(int(x.left_rank), r, 'left rank')
    back = int_to_perm(r)
    expect(back == x, 'permutation from its left rank', r, back, x)
    same(list(ref.perm_of_left_rank(r)), t, 'reference')
    same(int(x.right_rank), ref.lex_rank(t), 'right rank')
    return t, x, r


def long_or_short():
    return st.one_of(gen.perms(0, 9), gen.perms(0, 9), gen.perms(10, 24), gen.sparse_perms(40))


@random_case('C04', long_or_short, quick=4000, rule='at least two inversions')
def from_permutations(value):
    t, x, r = check_ranks(value)
    n = len(ref.inversions(t))
    return '%s inversions%s' % ('2-9' if n < 10 else '10 or more', ', trailing fixed points' if len(t) < len(value) else '') if n > 1 else None


def ranks():
    return st.one_of(
        st.integers(0, 5040), gen.naturals(80),
        st.builds(lambda n, d: max(0, factorial(n) + d), st.integers(0, 22), st.integers(-3, 3)),
    )


@random_case('C04', ranks, quick=3000, rule='number greater than 1')
def from_ranks(value):
    t = ref.perm_of_left_rank(value)
    x = int_to_perm(value)
    same([int(v) for v in x.sequence()], list(t), 'permutation of left rank')
    same(int(x.left_rank), value, 'left rank of permutation of left rank')
    d = list(int_to_factoradic(value))
    same(sum(factorial(i) * v for i, v in enumerate(d)), value, 'factorial digits')
    expect(all(0 <= v <= i for i, v in enumerate(d)), 'factorial digit too big', d)
    y = int_to_perm(value + 1)
    same(int(y.left_rank), value + 1, 'left rank of next')
    expect(not (x == y), 'different ranks, same permutation', value)
    return ('big' if value > 10 ** 6 else 'small') if value > 1 else None


@lru_cache(None)
def in_order(n):
    return sorted(permutations(range(n)), key=lambda p: p[::-1], reverse=True), sorted(permutations(range(n)))


def small(tier):
    for n in range(7 if tier == 'quick' else 8):
        for i in range(factorial(n)):
            yield [n, i]


@enum_case('C04', small, rule='at least two inversions')
def all_small_permutations(value):
    n, i = value
    colex, lex = in_order(n)
    p = list(colex[i])
    x = Perm(p)
    same(int(x.left_rank), i, 'left rank is the position in reverse colexicographic order')
    same(int(int_to_perm(i).left_rank), i, 'left rank of permutation of left rank')
    expect(int_to_perm(i) == x, 'permutation from its left rank', i)
    q = list(lex[i])
    t = ref.trim(q)
    if len(t) == n:
        same(int(Perm(q).right_rank), i, 'right rank is the position in lexicographic order')
    check_ranks(p)
    if i == 0:
        same([tuple(v) for v in rev_colex_perms(n)], colex, 'list of permutations in reverse colexicographic order')
    return n if len(ref.inversions(p)) > 1 else None

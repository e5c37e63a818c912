"""Walsh permutations are exactly the invertible binary matrices."""
from itertools import product

import numpy as np
from hypothesis import strategies as st

from discretehelpers.perm import Perm
from discretehelpers.walsh_perm import WalshPerm
from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same


def rows(cols, n=None):
    """Nested list of the matrix with the given columns."""
    n = len(cols) if n is None else n
    return [[(c >> r) & 1 for c in cols] for r in range(n)]


def is_walsh(x, cols, message):
    """The object x describes the invertible matrix with these columns."""
    m = ref.m_trim(cols)
    d = len(m)
    expect(isinstance(x, WalshPerm), message + ' is no Walsh permutation', x)
    same(int(x.degree), d, message + ' degree')
    same(bool(x.neutral), d == 0, message + ' neutral')
    same(np.array(x.matrix()).tolist(), rows(m), message + ' matrix')
    same(tuple(int(v) for v in x.vector()), tuple(m), message + ' columns')
    same(tuple(int(v) for v in x.transpose_vector()), tuple(ref.m_transpose(m)), message + ' rows')
    for e in (d, d + 1, d + 2):
        big = ref.m_extend(m, e)
        same(np.array(x.matrix(e)).tolist(), rows(big), message + ' bigger matrix')
        same(tuple(int(v) for v in x.vector(e)), tuple(big), message + ' more columns')
        same(tuple(int(v) for v in x.transpose_vector(e)), tuple(ref.m_transpose(big)), message + ' more rows')
        numbers = [ref.m_apply(big, i) for i in range(1 << e)]
        same([int(v) for v in x.sequence(degree=e)], numbers, message + ' sequence of degree')
        same([int(v) for v in x.sequence(1 << e)], numbers, message + ' sequence of length')
    if d:
        same([int(v) for v in x.sequence()], [ref.m_apply(m, i) for i in range(1 << d)], message + ' sequence')
        same(int(x.perilen), 1 << d, message + ' period')
        for e in range(d):
            refuses(lambda: x.matrix(e), message + ' too small matrix', 'RequestedDegreeSmallerActualDegreeError')
            refuses(lambda: x.vector(e), message + ' too few columns', 'RequestedDegreeSmallerActualDegreeError')
            refuses(lambda: x.transpose_vector(e), message + ' too few rows', 'RequestedDegreeSmallerActualDegreeError')
            refuses(lambda: x.sequence(degree=e), message + ' too short', 'RequestedDegreeSmallerActualDegreeError')
            refuses(lambda: x.sequence(1 << e), message + ' too short', 'RequestedDegreeSmallerActualDegreeError')
        refuses(lambda: x.sequence(3 << d), message + ' length', 'NotPowerOfTwoError')
        refuses(lambda: x.sequence(2 << d, d + 1), message + ' both', 'RedundantParametersError')
    big = ref.m_extend(m, 40)
    for i in list(range(1 << min(d, 4))) + [(1 << d) - 1, 1 << d, (5 << d) + 1, 10 ** 9 + 7]:
        same(int(x[i]), ref.m_apply(big, i), message + ' image of %d' % i)
    same({int(k): int(v) for k, v in x.mapping.items()}, {i: ref.m_apply(m, i) for i in range(1 << d) if ref.m_apply(m, i) != i}, message + ' mapping')


def forms(cols, surplus):
    m = ref.m_trim(cols)
    d = len(m)
    result = {}
    for e in (d, d + surplus):
        big = ref.m_extend(m, e)
        numbers = [ref.m_apply(big, i) for i in range(1 << e)]
        tag = ' degree %d' % e
        for trust in (False, True):
            tag2 = tag + (' trusted' if trust else '')
            result['columns' + tag2] = WalshPerm(list(big), trust=trust)
            if e:
                result['matrix' + tag2] = WalshPerm(matrix=np.array(rows(big)), trust=trust)
                result['perm list' + tag2] = WalshPerm(perm=list(numbers), trust=trust)
                result['perm' + tag2] = WalshPerm(perm=Perm(list(numbers), perilen=len(numbers)), trust=trust)
        result['columns tuple' + tag] = WalshPerm(tuple(big))
        if e:
            result['matrix list' + tag] = WalshPerm(matrix=rows(big))
            result['perm tuple' + tag] = WalshPerm(perm=tuple(numbers))
            result['bool matrix' + tag] = WalshPerm(matrix=np.array(rows(big), dtype=bool))
    return result


def check(cols, surplus):
    m = ref.m_trim(cols)
    base = WalshPerm(list(m))
    for name, x in forms(cols, surplus).items():
        is_walsh(x, m, name)
        expect(x == base and base == x, 'not equal when built from ' + name, x, base)
        expect(not (x != base), 'unequal when built from ' + name)
        same(str(x), str(base), 'printed when built from ' + name)
    d = len(m)
    if d:
        y = Perm([ref.m_apply(m, i) for i in range(1 << d)], perilen=1 << d)
        expect(base == y and y == base, 'not equal to the plain permutation', base, y)
    expect(eval(str(base), {'WalshPerm': WalshPerm}) == base, 'printed form evaluates to something else', base)
    return d


@st.composite
def valid(draw):
    cols = draw(gen.gl(0, 6))
    return {'cols': cols, 'surplus': draw(st.integers(0, min(5, 8 - len(cols))))}


@random_case('C09', valid, quick=600, rule='not the identity')
def invertible(value):
    return check(value['cols'], value['surplus']) or None


@st.composite
def two(draw):
    a = draw(gen.gl(0, 4))
    b = draw(gen.gl(0, 4)) if draw(st.booleans()) else ref.m_extend(a, len(a) + draw(st.integers(0, 6)))
    return [a, b]


@random_case('C09', two, quick=1500, rule='different matrices')
def equality(value):
    a, b = value
    x, y = WalshPerm(list(a)), WalshPerm(list(b))
    equal = ref.m_trim(a) == ref.m_trim(b)
    same(bool(x == y), equal, 'equality')
    same(bool(x != y), not equal, 'inequality')
    return None if equal else 'different'


@st.composite
def singular(draw):
    """Square binary matrices of deficient rank: the last column in some order depends on the others. Surplus identity allowed."""
    n = draw(st.integers(1, 6))
    cols = [draw(gen.words(n)) for _ in range(n)]
    order = draw(gen.shuffled(range(n)))
    combination = draw(gen.words(n))
    k = order[0]
    cols[k] = 0
    for j in order[1:]:
        if (combination >> j) & 1:
            cols[k] ^= cols[j]
    return {'cols': cols, 'surplus': draw(st.integers(0, 5))}


@random_case('C09', singular, quick=2000, rule='every input (all are singular matrices), labelled by size')
def singular_refused(value):
    cols = value['cols']
    if ref.m_rank(cols) == len(cols):
        return None
    big = ref.m_extend(cols, len(cols) + value['surplus'])
    refuses(lambda: WalshPerm(list(big)), 'singular columns', Dedicated)
    refuses(lambda: WalshPerm(matrix=np.array(rows(big))), 'singular matrix', Dedicated)
    return len(big)


def all_matrices(tier):
    for n in range(1, 4):
        for cols in product(range(1 << n), repeat=n):
            yield list(cols)
    if tier == 'thorough':
        for cols in product(range(16), repeat=4):
            yield list(cols)


@enum_case('C09', all_matrices, rule='every square binary matrix, labelled by size and rank')
def accepted_exactly_if_invertible(value):
    n = len(value)
    rank = ref.m_rank(value)
    if rank == n:
        is_walsh(WalshPerm(list(value)), value, 'columns')
        is_walsh(WalshPerm(matrix=np.array(rows(value))), value, 'matrix')
    else:
        refuses(lambda: WalshPerm(list(value)), 'singular columns', Dedicated)
        refuses(lambda: WalshPerm(matrix=np.array(rows(value))), 'singular matrix', Dedicated)
    return '%d, rank %d' % (n, rank)


@st.composite
def malformed(draw):
    kind = draw(st.sampled_from(['rectangle', 'too big', 'rectangle', 'length', 'not a permutation']))
    if kind == 'rectangle':
        h, w = draw(st.integers(1, 4)), draw(st.integers(1, 4))
        if h == w:
            w += 1
        return {'kind': kind, 'matrix': [[draw(st.integers(0, 1)) for _ in range(w)] for _ in range(h)]}
    if kind == 'too big':
        cols = draw(gen.gl(1, 4))
        k = draw(st.integers(0, len(cols) - 1))
        cols[k] += (1 + draw(st.integers(0, 3))) << len(cols)
        return {'kind': kind, 'cols': cols}
    if kind == 'length':
        n = draw(st.sampled_from([3, 5, 6, 7, 9, 10, 12, 15, 17, 24, 33, 48, 63, 65, 96]))
        return {'kind': kind, 'perm': draw(gen.shuffled(range(n)))}
    n = draw(st.sampled_from([2, 4, 8]))
    p = [draw(st.integers(0, n - 1)) for _ in range(n)]
    p[0] = p[-1]
    return {'kind': kind, 'perm': p}


@random_case('C09', malformed, quick=1500, rule='every input, labelled by kind of defect')
def malformed_refused(value):
    kind = value['kind']
    if kind == 'rectangle':
        refuses(lambda: WalshPerm(matrix=np.array(value['matrix'])), 'matrix that is not square', Dedicated)
    elif kind == 'too big':
        refuses(lambda: WalshPerm(list(value['cols'])), 'column number too big', Dedicated)
    else:
        refuses(lambda: WalshPerm(perm=list(value['perm'])), 'permutation that is ' + kind, Dedicated)
    return kind


@st.composite
def permutations_near_linear(draw):
    kind = draw(st.sampled_from(['any', 'linear', 'swapped', 'affine']))
    if kind == 'any':
        d = draw(st.integers(1, 4))
        p = draw(gen.shuffled(range(1 << d)))
    else:
        cols = draw(gen.gl(1, 5))
        d = len(cols)
        p = [ref.m_apply(cols, i) for i in range(1 << d)]
        if kind == 'swapped':
            i, j = draw(st.integers(0, (1 << d) - 1)), draw(st.integers(0, (1 << d) - 1))
            p[i], p[j] = p[j], p[i]
        elif kind == 'affine':
            c = draw(gen.words(d))
            p = [v ^ c for v in p]
    return p


@st.composite
def larger_permutations(draw):
    """Linear up to a few exchanges. The images of the powers of two are often left alone, so they do not give it away."""
    cols = draw(gen.gl(6, 7))
    n = 1 << len(cols)
    p = [ref.m_apply(cols, i) for i in range(n)]
    for _ in range(draw(st.integers(0, 3))):
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        p[i], p[j] = p[j], p[i]
    return p


@random_case('C09', larger_permutations, quick=30, thorough=200, rule='every permutation, labelled by being linear')
def larger_accepted_exactly_if_linear(value):
    return linear_or_refused(value)


@random_case('C09', permutations_near_linear, quick=2000, rule='every permutation of length at least 4, labelled by being linear')
def accepted_exactly_if_linear(value):
    return linear_or_refused(value)


def linear_or_refused(value):
    n = len(value)
    d = n.bit_length() - 1
    cols = [value[1 << k] for k in range(d)]
    linear = all(value[i] == ref.m_apply(cols, i) for i in range(n))
    for name, make in {
        'list': lambda: WalshPerm(perm=list(value)), 'tuple': lambda: WalshPerm(perm=tuple(value)),
        'perm': lambda: WalshPerm(perm=Perm(list(value), perilen=n)),
    }.items():
        if linear:
            is_walsh(make(), cols, name)
        else:
            refuses(make, 'permutation that is not linear as ' + name, Dedicated)
    return ('linear' if linear else 'fixes zero, not linear' if value[0] == 0 else 'moves zero') if n >= 4 else None

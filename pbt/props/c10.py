"""Walsh permutations form the general linear group over GF(2)."""
from math import lcm

import numpy as np
from hypothesis import strategies as st

from discretehelpers.perm import Perm
from discretehelpers.walsh_perm import WalshPerm
from pbt import gen, ref
from pbt.core import expect, random_case, refuses, same
from pbt.props.c03 import norm_cycles
from pbt.props.c05 import is_map, minimal
from pbt.props.c09 import is_walsh, rows


def numbers(cols):
    return [ref.m_apply(cols, i) for i in range(1 << len(cols))]


def m_power(cols, e):
    if e < 0:
        cols, e = ref.m_inverse(cols), -e
    result = [1 << k for k in range(len(cols))]
    for _ in range(e):
        result = ref.m_mul(cols, result)
    return result


def build(cols, form):
    if form == 'columns' or not cols:
        return WalshPerm(list(cols))
    if form == 'matrix':
        return WalshPerm(matrix=np.array(rows(cols)))
    return WalshPerm(perm=numbers(cols))


FORMS = ['columns', 'matrix', 'perm']


@st.composite
def large(draw):
    return {'cols': draw(gen.gl(7, 9)), 'e': draw(st.integers(-6, 6)), 'form': draw(st.sampled_from(FORMS[:2])), 'more': 0}


@st.composite
def one(draw):
    return {'cols': draw(gen.gl(0, 6)), 'e': draw(st.one_of(st.integers(-9, 9), st.integers(-70, 70), st.sampled_from([15, 16, 31, 32, 63, 64]))), 'form': draw(st.sampled_from(FORMS)), 'more': draw(st.integers(0, 2))}


@random_case('C10', one, quick=1200, rule='not the identity, labelled by degree')
def single(value):
    cols = ref.m_trim(value['cols'])
    d = len(cols)
    x = build(value['cols'], value['form'])
    inverse = ref.m_inverse(cols)
    is_walsh(x.inverse, inverse, 'inverse')
    is_walsh(x.inverse.inverse, cols, 'inverse of inverse')
    is_walsh(x * x.inverse, [], 'product with inverse')
    is_walsh(x.transpose, ref.m_transpose(cols), 'transpose')
    is_walsh(x.transpose.transpose, cols, 'transpose of transpose')
    expect(x.transpose.inverse == x.inverse.transpose, 'inverse and transpose do not commute', cols)
    is_walsh(x ** value['e'], m_power(cols, value['e']), 'power')
    same(int(x.determinant), ref.int_det(rows(cols)), 'determinant')
    cycles = ref.cycles_of(numbers(cols))
    same(norm_cycles(x.cycles), norm_cycles(cycles), 'cycles')
    order = lcm(*[len(c) for c in cycles]) if cycles else 1
    same(int(x.order), order, 'order')
    is_walsh(WalshPerm(list(m_power(cols, order))), [], 'power by order')
    for k in range(d, d + 3):
        big = ref.m_extend(cols, k)
        ones = (1 << k) - 1
        same(int(x.complement_pattern(k)), next(i for i in range(1 << k) if ref.m_apply(big, i) == ones), 'complement pattern')
        same(ref.m_apply(big, int(x.complement_pattern(k))), ones, 'image of complement pattern')
        same(int(x.complement_pattern(k)) + int(x.complement_distance), ones, 'complement distance')
    if d:
        refuses(lambda: x.complement_pattern(d - 1), 'complement pattern of too small degree', 'RequestedDegreeSmallerActualDegreeError')
    k = d + value['more']
    expected = norm_cycles(ref.cycles_of(numbers(ref.m_extend(cols, k))))
    same(norm_cycles(x.cycles_dynamic(degree=k)), expected, 'cycles of degree')
    same(norm_cycles(x.cycles_dynamic(1 << k)), expected, 'cycles of length')
    refuses(lambda: x.cycles_dynamic(1 << k, k), 'length and degree', 'RedundantParametersError')
    refuses(lambda: x.cycles_dynamic(3 << k), 'length is no power of two', 'NotPowerOfTwoError')
    if d:
        refuses(lambda: x.cycles_dynamic(1 << d - 1), 'too small length', 'RequestedDegreeSmallerActualDegreeError')
        refuses(lambda: x.cycles_dynamic(degree=d - 1), 'too small degree', 'RequestedDegreeSmallerActualDegreeError')
    if d:
        same([int(v) for v in x[:]], numbers(cols), 'slice')
        same([int(v) for v in x[1:1 << k:2]], numbers(ref.m_extend(cols, k))[1::2], 'slice')
        same(int(x.parity), sum(len(c) - 1 for c in cycles) % 2, 'parity')
    vector = list(range(100, 100 + (1 << k)))
    moved = x.apply_on_vector(vector)
    same([moved[ref.m_apply(ref.m_extend(cols, k), i)] for i in range(1 << k)], vector, 'applied on vector')
    is_walsh(x, cols, 'after use')
    return d or None


@st.composite
def two(draw):
    return {'a': draw(gen.gl(0, 5)), 'b': draw(gen.gl(0, 5)), 'c': draw(gen.gl(0, 4)), 'forms': [draw(st.sampled_from(FORMS)) for _ in range(2)]}


@random_case('C10', two, quick=1500, rule='the first two do not commute')
def products(value):
    a, b, c = value['a'], value['b'], value['c']
    x, y, z = build(a, value['forms'][0]), build(b, value['forms'][1]), build(c, 'columns')
    ab = ref.m_mul(a, b)
    is_walsh(x * y, ab, 'product')
    is_walsh((x * y) * z, ref.m_mul(ab, c), 'triple product')
    is_walsh(x * (y * z), ref.m_mul(ab, c), 'triple product')
    is_walsh((x * y).inverse, ref.m_mul(ref.m_inverse(ref.m_extend(b, len(ab))), ref.m_inverse(ref.m_extend(a, len(ab)))), 'inverse of product')
    is_walsh((x * y).transpose, ref.m_transpose(ab), 'transpose of product')
    for i in [0, 1, 2, 3, 5, 6, 21, 30, 63, 1000003]:
        same(int((x * y)[i]), int(x[int(y[i])]), 'image under product')
    is_walsh(x, a, 'operand after use')
    is_walsh(y, b, 'operand after use')
    ta, tb = ref.m_trim(a), ref.m_trim(b)
    if ref.m_trim(ab) == ref.m_trim(ref.m_mul(b, a)):
        return None
    return 'same degree' if len(ta) == len(tb) else 'different degrees'


@st.composite
def with_plain(draw):
    kind = draw(st.sampled_from(['periodic', 'periodic', 'finite']))
    return {'cols': draw(gen.gl(0, 3)), 'kind': kind, 'p': draw(gen.perms(2, 6))}


@random_case('C10', with_plain, quick=1200, rule='both move something')
def mixed_with_plain_permutations(value):
    cols, p = ref.m_trim(value['cols']), value['p']
    x = WalshPerm(list(cols))
    n = len(p)
    moving = bool(cols) and p != list(range(n))
    if value['kind'] == 'finite':
        y = Perm(p)
        if moving:
            refuses(lambda: x * y, 'Walsh times finite', 'OtherPerilenMismatchError')
            refuses(lambda: y * x, 'finite times Walsh', 'OtherPerilenMismatchError')
        return 'finite' if moving else None
    y = Perm(p, perilen=n)
    size = lcm(1 << len(cols), n)
    bw = [ref.m_apply(ref.m_extend(cols, 12), i) for i in range(size)]
    bp = [p[i % n] + i - i % n for i in range(size)]
    if moving:
        is_map(x * y, list(ref.compose(bw, bp)), 'Walsh times periodic')
        is_map(y * x, list(ref.compose(bp, bw)), 'periodic times Walsh')
    same(bool(x == y), bw == bp, 'equality')
    same(bool(y == x), bw == bp, 'equality')
    return 'periodic' if moving else None


@random_case('C10', large, quick=24, rule='degree at least seven')
def large_matrices(value):
    degree = single(value)
    return degree if degree and degree > 6 else None


@st.composite
def for_complement(draw):
    return {'cols': draw(gen.gl(8, 10)), 'more': draw(st.integers(0, 3))}


@random_case('C10', for_complement, quick=60, rule='degree at least eight')
def complement_of_large(value):
    cols = ref.m_trim(value['cols'])
    x = WalshPerm(list(cols))
    for k in {len(cols), len(cols) + value['more']}:
        ones = (1 << k) - 1
        pattern = ref.m_apply(ref.m_inverse(ref.m_extend(cols, k)), ones)
        same(int(x.complement_pattern(k)), pattern, 'complement pattern')
        same(int(x.complement_distance), ones - pattern, 'complement distance')
    return len(cols) if len(cols) > 7 else None

"""Binary vectors: bitwise operators and comparisons match integers."""
from hypothesis import strategies as st

from discretehelpers.binv import Binv
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, same


@st.composite
def triples(draw):
    n = draw(st.sampled_from(list(range(13)) + [16, 17, 31, 32, 53, 64, 65, 100]))
    a = draw(gen.words(n))
    result = [a]
    for _ in range(2):
        how = draw(st.sampled_from(['any', 'any', 'same', 'near', 'sub', 'super', 'comp']))
        x = draw(gen.words(n))
        last = draw(st.sampled_from(result))
        result.append({
            'any': x, 'same': last, 'near': last ^ (1 << (x % n)) if n else 0, 'sub': last & x, 'super': last | x,
            'comp': last ^ ((1 << n) - 1),
        }[how])
    place = draw(st.integers(0, n - 1)) if n else 0
    return {'n': n, 'abc': result, 'place': place}


def build(number, n):
    return Binv(ref.digits(number, n))


def check(n, abc, place):
    a, b, c = [build(x, n) for x in abc]
    ia, ib, ic = abc
    top = (1 << n) - 1
    before = [list(a.vector), list(b.vector), list(c.vector)]

    def is_vector(v, number, message):
        same(type(v), Binv, message)
        same([int(x) for x in v.vector], ref.digits(number, n), message)
        same(v.intval, number, message + ' intval')
        same(v.length, n, message + ' length')

    is_vector(a & b, ia & ib, 'and')
    is_vector(a | b, ia | ib, 'or')
    is_vector(a ^ b, ia ^ ib, 'xor')
    is_vector(~a, ia ^ top, 'not')
    is_vector(~~a, ia, 'double not')
    # laws
    for x, y, message in [
        (a & b, b & a, 'and commutes'), (a | b, b | a, 'or commutes'), (a ^ b, b ^ a, 'xor commutes'),
        ((a & b) & c, a & (b & c), 'and associates'), ((a | b) | c, a | (b | c), 'or associates'),
        ((a ^ b) ^ c, a ^ (b ^ c), 'xor associates'),
        (a & (b | c), (a & b) | (a & c), 'and over or'), (a | (b & c), (a | b) & (a | c), 'or over and'),
        (a & (a | b), a, 'absorption'), (a | (a & b), a, 'absorption'),
        (~(a & b), ~a | ~b, 'De Morgan'), (~(a | b), ~a & ~b, 'De Morgan'),
        ((a ^ b) ^ b, a, 'xor cancels'), (a ^ b, (a & ~b) | (~a & b), 'xor by and/or'),
    ]:
        expect(x == y, message, a, b, c)
        same(hash(x), hash(y), message + ', hash')
    # orders
    subset = ia & ~ib == 0
    same(bool(a.bitwise_smaller(b)), subset and ia != ib, 'bitwise smaller')
    la, lb = ref.digits(ia, n), ref.digits(ib, n)
    same(bool(a < b), la < lb, 'less')
    same(bool(a > b), la > lb, 'greater')
    same(bool(a <= b), la <= lb, 'less or equal')
    same(bool(a >= b), la >= lb, 'greater or equal')
    same(bool(a == b), ia == ib, 'equal')
    same(bool(a != b), ia != ib, 'unequal')
    if ia == ib:
        same(hash(a), hash(b), 'hash')
    same([v.intval for v in sorted([a, b, c])], [ref.undigits(d) for d in sorted(ref.digits(x, n) for x in abc)], 'sorted')
    same(len({a, b, c}), len(set(abc)), 'set size')
    if n:
        flipped = a.flip_bit(place)
        is_vector(flipped, ia ^ (1 << place), 'flipped')
        is_vector(flipped.flip_bit(place), ia, 'flipped twice')
    same([list(a.vector), list(b.vector), list(c.vector)], before, 'operands changed')
    same([a.intval, b.intval, c.intval], abc, 'operands changed')
    if n == 0:
        return None
    relation = 'equal' if ia == ib else 'subset' if subset else 'superset' if ib & ~ia == 0 else 'incomparable'
    return relation + (', long' if n > 16 else '')


@random_case('C02', triples, quick=4000, rule='vectors of length at least 1, labelled by the relation of the first two')
def algebra_and_order(value):
    return check(value['n'], value['abc'], value['place'])


@st.composite
def lengths_differ(draw):
    digits = draw(st.lists(st.integers(0, 1), max_size=40))
    how = draw(st.sampled_from(['prefix', 'prefix', 'zeros', 'any', 'changed']))
    tail = draw(st.lists(st.integers(0, 1), min_size=1, max_size=30))
    if how == 'any':
        return [digits, tail]
    other = digits + ([0] * len(tail) if how == 'zeros' else tail)
    if how == 'changed' and digits:
        other[draw(st.integers(0, len(digits) - 1))] ^= 1
    return draw(st.sampled_from([[digits, other], [other, digits]]))


@random_case('C02', lengths_differ, quick=2000, rule='vectors of different lengths, labelled by one being the beginning of the other')
def order_of_different_lengths(value):
    la, lb = value
    a, b = Binv(list(la)), Binv(list(lb))
    same(bool(a < b), la < lb, 'less')
    same(bool(a > b), la > lb, 'greater')
    same(bool(a <= b), la <= lb, 'less or equal')
    same(bool(a >= b), la >= lb, 'greater or equal')
    same(bool(a == b), la == lb, 'equal')
    same(bool(a != b), la != lb, 'unequal')
    same(len({a, b}), 1 if la == lb else 2, 'set size')
    same([[int(x) for x in v] for v in sorted([a, b])], sorted([la, lb]), 'sorted')
    n = min(len(la), len(lb))
    return None if len(la) == len(lb) else 'beginning' if la[:n] == lb[:n] else 'different'


def pairs(tier):
    for n in range(5 if tier == 'quick' else 6):
        for a in range(1 << n):
            for b in range(1 << n):
                yield [n, a, b]


@enum_case('C02', pairs, rule='vectors of length at least 1')
def all_small_pairs(value):
    n, a, b = value
    return check(n, [a, b, (a * 5 + b * 3 + 1) % (1 << n)], (a + b) % n if n else 0)

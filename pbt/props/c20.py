"""Noble functions and patrons: numbering and quadrant maps are bijections."""
from itertools import permutations

from hypothesis import strategies as st

from discretehelpers.boolf import Boolf
from discretehelpers.boolf.a import index_to_noble, noble_to_index, noble_to_king_and_quadrant, \
    noble_to_king_index_and_quadrant, noble_to_quadrant, noble_to_royal, noble_to_royal_and_quadrant, praetor_int, \
    symmetric_to_index, twin_int
from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make


def ref_noble(i, arity):
    """The noble whose upper half is the number i: entry number i among the fixed points of the transform."""
    if arity == 0:
        return 0
    half = 1 << (arity - 1)
    return (i << half) | (i ^ ref.moebius_fast(i, arity - 1))


def ref_index(noble, arity):
    return noble >> (1 << (arity - 1)) if arity else 0


def ref_quadrant(noble, arity):
    if arity == 0:
        return 0
    i = ref_index(noble, arity)
    return (i & 1) + 2 * ((i >> ((1 << (arity - 1)) - 1)) & 1)


def ref_royal(noble, arity):
    """Member of {noble, noble^p, noble^q, noble^p^q} in quadrant 0."""
    if arity == 0:
        return noble
    p, q = 1 << ((1 << arity) - 1), (1 << (1 << arity)) - 2
    found = {x for x in (noble, noble ^ p, noble ^ q, noble ^ p ^ q) if ref_quadrant(x, arity) == 0}
    assert len(found) == 1
    return found.pop()


def permuted(bits, n, p):
    result = 0
    for i in range(1 << n):
        if (bits >> i) & 1:
            result |= 1 << ref.undigits([(i >> p[k]) & 1 for k in range(n)])
    return result


def ref_king(noble, arity):
    royal = ref_royal(noble, arity)
    return min(permuted(royal, arity, p) for p in permutations(range(arity)))


def check_noble(i, arity, king):
    noble = index_to_noble(i, arity)
    same(noble, ref_noble(i, arity), 'noble of index')
    same(ref.moebius_fast(noble, arity), noble, 'noble is its own twin')
    same(twin_int(noble, arity), noble, 'noble is its own twin')
    same(noble_to_index(noble, arity), i, 'index of noble')
    same(noble_to_index(noble, arity, trust=True), i, 'index of trusted noble')
    b = Boolf(noble, arity=arity)
    expect(b.is_noble(arity), 'not noble', noble)
    quadrant = ref_quadrant(noble, arity)
    same(noble_to_quadrant(noble, arity), quadrant, 'quadrant of noble')
    if arity:
        same(b.noble_quadrant(arity), quadrant, 'quadrant of noble function')
    royal = ref_royal(noble, arity)
    same(noble_to_royal(noble, arity), royal, 'royal of noble')
    same(tuple(noble_to_royal_and_quadrant(noble, arity)), (royal, quadrant), 'royal and quadrant of noble')
    same(noble_to_quadrant(royal, arity), 0, 'quadrant of royal')
    if king:
        k = ref_king(noble, arity)
        same(tuple(noble_to_king_and_quadrant(noble, arity)), (k, quadrant), 'king and quadrant of noble')
        same(tuple(noble_to_king_index_and_quadrant(noble, arity)), (ref_index(k, arity), quadrant), 'index of king and quadrant')
    return quadrant


def small(tier):
    for arity in range(5):
        for i in range(1 << (1 << (arity - 1)) if arity else 1):
            yield [i, arity]


@enum_case('C20', small, rule='labelled by arity and quadrant')
def all_nobles(value):
    i, arity = value
    if i == 0 and arity:
        numbers = [n for n in range(1 << (1 << arity)) if ref.moebius_fast(n, arity) == n]
        same([index_to_noble(k, arity) for k in range(len(numbers))], numbers, 'row of nobles')
        refuses(lambda: index_to_noble(len(numbers), arity), 'index too big', 'ArgTooBigError')
        refuses(lambda: noble_to_index(1 << (1 << arity), arity), 'noble too big', 'ArgTooBigError')
    if arity == 0:
        for wrong in (1, 2, 6):
            refuses(lambda: noble_to_index(wrong, 0), 'noble too big', 'ArgTooBigError')
            refuses(lambda: index_to_noble(wrong, 0), 'index too big', 'ArgTooBigError')
            refuses(lambda: noble_to_quadrant(wrong, 0), 'noble too big', 'ArgTooBigError')
            refuses(lambda: noble_to_royal_and_quadrant(wrong, 0), 'noble too big', 'ArgTooBigError')
    quadrant = check_noble(i, arity, king=arity < 4 or i % 4 == 0)
    return '%d-ary, quadrant %d' % (arity, quadrant)


@st.composite
def candidates(draw):
    arity = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 4, 5, 5, 6]))
    return {'arity': arity, 'index': draw(gen.words(1 << (arity - 1))), 'flip': draw(gen.words(1 << arity)), 'single': draw(st.booleans()), 'king': draw(st.integers(0, 3))}


@random_case('C20', candidates, quick=600, rule='the changed number is not noble; labelled by arity')
def bigger_nobles(value):
    arity = value['arity']
    check_noble(value['index'], arity, king=arity < 6 and value['king'] == 0)
    noble = ref_noble(value['index'], arity)
    other = noble ^ (1 << (value['flip'] % (1 << arity)) if value['single'] else value['flip'])
    if ref.moebius_fast(other, arity) == other:
        same(ref_noble(noble_to_index(other, arity), arity), other, 'index of noble')
        return None
    refuses(lambda: noble_to_index(other, arity), 'index of a number that is not noble', Dedicated)
    expect(not Boolf(other, arity=arity).is_noble(arity), 'noble', other)
    refuses(lambda: Boolf(other, arity=arity).noble_quadrant(arity), 'quadrant of a function that is not noble', Exception)
    return arity


@st.composite
def functions(draw):
    d = draw(gen.fns(0, 6, max_gap=1))
    return {'t': d['t'], 'v': d['v'], 'arity': draw(st.integers(0, 6)), 'king': draw(st.integers(0, 3))}


@random_case('C20', functions, quick=600, rule='patron is not zero; labelled by arity')
def patrons(value):
    f = ref.fn(value)
    if ref.adicity(f) > 7:
        return None
    arity = max(value['arity'], ref.adicity(f))
    b = make(f)
    table = ref.table_arity(f, arity)
    patron = table ^ ref.moebius_fast(table, arity)
    same(b.patron_int(arity), patron, 'number of patron')
    is_fn(b.patron_boolf(arity), ref.canon(range(arity), patron), 'patron')
    expect(b.patron_boolf(arity).is_noble(arity), 'patron is not noble')
    same(b.patron_index(arity), ref_index(patron, arity), 'index of patron')
    same(b.patron_quadrant(arity), ref_quadrant(patron, arity), 'quadrant of patron')
    same(b.patron_royal(arity), ref_royal(patron, arity), 'royal of patron')
    if arity and arity < 6 and value['king'] == 0:
        king = ref_king(patron, arity)
        same(tuple(b.patron_king_index_and_quadrant(arity)), (ref_index(king, arity), ref_quadrant(patron, arity)), 'king of patron')
    same(bool(b.is_noble(arity)), ref.moebius_fast(table, arity) == table, 'is noble')
    if arity == ref.adicity(f):
        same(bool(b.is_noble()), ref.moebius_fast(table, arity) == table, 'is noble without arity')
    is_fn(b, f, 'after use')
    return arity if patron else None


@st.composite
def numbers(draw):
    arity = draw(st.integers(0, 6))
    n = draw(gen.words(1 << arity))
    return {'arity': arity, 'n': n}


@random_case('C20', numbers, quick=800, rule='arity at least 2')
def praetors_and_symmetric(value):
    arity, n = value['arity'], value['n']
    size = 1 << arity
    half = size // 2
    if arity:
        same(praetor_int(n, arity), (n & ((1 << half) - 1)) ^ (n >> half), 'praetor')
        refuses(lambda: praetor_int(n + (1 << size), arity), 'too big number', 'ArgTooBigError')
    else:
        refuses(lambda: praetor_int(n, 0), 'arity 0', 'ArgTooSmallError')
    bits = ref.digits(n, size)
    mirrored = bits[:half][::-1] + bits[:half] if arity else bits
    m = ref.undigits(mirrored)
    same(symmetric_to_index(m, arity), ref.undigits(bits[:half]) if arity else m, 'index of symmetric number')
    if bits != bits[::-1]:
        refuses(lambda: symmetric_to_index(n, arity), 'index of a number that is not symmetric', 'ArgValueError')
    refuses(lambda: symmetric_to_index(n + (1 << size), arity), 'too big number', 'ArgTooBigError')
    return arity if arity > 1 else None

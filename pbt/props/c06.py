"""Permutations act on vectors and on binary digits as homomorphisms."""
from hypothesis import strategies as st

from discretehelpers.binv import Binv
from discretehelpers.perm import Perm
from discretehelpers.sig_perm import SigPerm
from pbt import gen, ref
from pbt.core import expect, random_case, same


@st.composite
def finite(draw):
    p, q = draw(gen.any_perms(7, 14)), draw(gen.any_perms(7, 14))
    n = max(len(p), len(q)) + draw(st.integers(0, 4))
    return {'p': p, 'q': q, 'vector': draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n)), 'kind': draw(st.sampled_from(['list', 'tuple', 'binv']))}


def move(p, v):
    p = ref.extend(p, len(v))
    result = [None] * len(v)
    for i, x in enumerate(v):
        result[p[i]] = x
    return result


@random_case('C06', finite, quick=3000, rule='both move something and do not commute')
def finite_on_vectors(value):
    p, q, v = value['p'], value['q'], value['vector']
    if value['kind'] == 'binv':
        v = [x % 2 for x in v]
    kind = {'list': list, 'tuple': tuple, 'binv': Binv}[value['kind']]
    plain = (lambda x: [int(y) for y in x]) if kind is Binv else list
    x, y = Perm(p), Perm(q)
    vector = kind(v)
    result = x.apply_on_vector(vector)
    same(type(result), kind, 'type of result')
    same(plain(result), move(p, v), 'moved vector')
    same(plain(vector), v, 'argument changed')
    same(plain((x * y).apply_on_vector(vector)), plain(x.apply_on_vector(y.apply_on_vector(vector))), 'action of a product')
    same(plain(x.inverse.apply_on_vector(result)), v, 'inverse moves back')
    n = len(ref.trim(p))
    same(plain(x.apply_on_vector(kind(v[:n]))), move(ref.trim(p), v[:n]), 'shortest fitting vector')
    a, b = ref.trim(p), ref.trim(q)
    return value['kind'] if a and b and ref.compose(a, b) != ref.compose(b, a) else None


@st.composite
def periodic(draw):
    p = draw(gen.perms(2, 6))
    times = draw(st.integers(0, 4))
    return {'p': p, 'times': times, 'vector': draw(st.lists(st.integers(-9, 9), min_size=times * len(p), max_size=times * len(p)))}


@random_case('C06', periodic, quick=1000, rule='moves something, vector not empty')
def periodic_on_vectors(value):
    p, v = value['p'], value['vector']
    n = len(p)
    x = Perm(p, perilen=n)
    long = [y + n * k for k in range(value['times']) for y in p]
    result = x.apply_on_vector(v)
    same(result, move(long, v), 'moved vector')
    same(x.inverse.apply_on_vector(result), v, 'inverse moves back')
    return value['times'] if not x.neutral and v else None


@st.composite
def plain_pairs(draw):
    return [draw(gen.perms(0, 6)), draw(gen.perms(0, 6)), draw(gen.naturals(40))]


def digit_map(s, number):
    return ref.s_number(s, number)


def is_schoute(x, s, message, numbers=()):
    """x: the object; s: signed sequence; its map on all naturals permutes and complements binary digits."""
    s = ref.s_trim(s)
    n = len(s)
    expect(isinstance(x, Perm), message + ' is not a permutation', x)
    if n == 0:
        expect(x.neutral, message + ' should be neutral', x)
    else:
        same(int(x.perilen), 1 << n, message + ' period')
        same([int(v) for v in x.sequence()], [digit_map(s, i) for i in range(1 << n)], message + ' sequence')
    for i in list(numbers) + [0, 1, 5, (1 << n) + 1, (5 << n) + 3]:
        same(int(x[i]), digit_map(s, i), '%s at %d' % (message, i))


@random_case('C06', plain_pairs, quick=1500, rule='both move something and do not commute')
def schoute_of_plain(value):
    p, q, number = value
    x, y = Perm(p), Perm(q)
    sx, sy = x.schoute_perm, y.schoute_perm
    is_schoute(sx, p, 'Schoute permutation', [number])
    product = (x * y).schoute_perm
    is_schoute(product, ref.compose(p, q), 'Schoute permutation of product', [number])
    expect(product == sx * sy, 'Schoute permutation of product is not the product', p, q)
    expect(x.inverse.schoute_perm == sx.inverse, 'Schoute permutation of inverse is not the inverse', p)
    same(bool(sx == sy), ref.trim(p) == ref.trim(q), 'Schoute permutations equal')
    back = SigPerm(schoute_perm=sx)
    same(list(back.sequence()), list(ref.trim(p)), 'recovered')
    expect(back == x, 'recovered permutation differs', back, x)
    expect(back.perm == x, 'recovered permutation differs', back, x)
    a, b = ref.trim(p), ref.trim(q)
    return 'plain' if a and b and ref.compose(a, b) != ref.compose(b, a) else None


@st.composite
def signed_pairs(draw):
    return [draw(gen.sig_perms(0, 5)), draw(gen.sig_perms(0, 5)), draw(gen.naturals(40))]


@random_case('C06', signed_pairs, quick=2000, rule='both move and negate something')
def schoute_of_signed(value):
    s, t, number = value
    x, y = SigPerm(sequence=s), SigPerm(sequence=t)
    sx, sy = x.schoute_perm, y.schoute_perm
    is_schoute(sx, s, 'Schoute permutation', [number])
    product = (x * y).schoute_perm
    is_schoute(product, ref.s_compose(s, t), 'Schoute permutation of product', [number])
    expect(product == sx * sy, 'Schoute permutation of product is not the product', s, t)
    expect(x.inverse.schoute_perm == sx.inverse, 'Schoute permutation of inverse is not the inverse', s)
    same(bool(sx == sy), ref.s_trim(s) == ref.s_trim(t), 'Schoute permutations equal')
    back = SigPerm(schoute_perm=sx)
    same(list(back.sequence()), list(ref.s_trim(s)), 'recovered')
    expect(back == x, 'recovered signed permutation differs', back, x)
    same(int(sx[number]), x.apply_on_natural_number(number), 'applied on number')
    return 'signed' if all(any(v < 0 for v in u) and any(ref.s_abs(v) != i for i, v in enumerate(u)) for u in (s, t)) else None

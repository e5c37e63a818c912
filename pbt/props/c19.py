"""Zhegalkin index, twin, prefect and consul are the algebraic transforms."""
from functools import reduce
from operator import xor

from hypothesis import strategies as st

from discretehelpers.a import arity_to_walsh_matrix
from discretehelpers.boolf import Boolf
from discretehelpers.boolf.a import exposet_to_twin_gen, intval_to_arity, intval_to_tt_length, twin_int, \
    vector_to_twin_gen, zhe_to_prefect, zhe_vector_to_prefect_gen
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import is_binv, is_fn, make


def prefect(zhe):
    """Walsh index and oddness of the xor of the variadic equivalences of all monomials."""
    return reduce(xor, ref.exps(zhe), 0), sum(ref.popcount(e) % 2 == 0 for e in ref.exps(zhe)) % 2


def check(f, arity):
    b = make(f)
    adicity = ref.adicity(f)
    arity = max(arity, adicity)
    zhe = ref.zhe(f)
    same(b.zhe, zhe, 'Zhegalkin index')
    is_fn(Boolf(zhe=zhe), f, 'function of Zhegalkin index')
    # the algebraic normal form evaluates to the function
    for place in range(1 << min(adicity, 6)):
        same(int(b[place]), sum(e & place == e for e in ref.exps(b.zhe)) % 2, 'value of the algebraic normal form')
    same(reduce(lambda x, y: x | y, ref.exps(b.zhe), 0), sum(1 << a for a in f[0]), 'arguments of the algebraic normal form')

    table = ref.table_arity(f, arity)
    anf = ref.moebius_fast(table, arity)
    twin = ref.canon(range(arity), anf)
    t = b.twin(arity)
    is_fn(t, twin, 'twin')
    is_fn(t.twin(arity), f, 'twin of twin')
    if arity == adicity:
        is_fn(b.twin(), twin, 'twin without arity')
        expect(b.twin(None) == t, 'twin without arity')
    same(ref.zhe(twin), table, 'reference model')
    same(t.zhe, table, 'Zhegalkin index of twin')
    if adicity:
        refuses(lambda: b.twin(adicity - 1), 'twin of too small arity', Exception)
    same(twin_int(table, arity), anf, 'twin of number')
    size = 1 << arity
    bits = ref.digits(table, size)
    same([int(x) for x in vector_to_twin_gen(bits, arity)], ref.digits(anf, size), 'twin of vector')
    same([int(x) for x in vector_to_twin_gen(''.join(map(str, bits)), arity)], ref.digits(anf, size), 'twin of string')
    same(sorted(exposet_to_twin_gen(ref.exps(table), arity)), ref.exps(anf), 'twin of true places')

    w, odd = prefect(zhe)
    line = ref.linear_row(w, adicity) ^ (ref.full(adicity) if odd else 0)
    is_binv(b.prefect_tt, 1 << adicity, line, 'truth table of prefect')
    is_fn(b.prefect_boolf, ref.linear_function(w, odd), 'prefect')
    same([int(x) for x in b.prefect_walsh_and_oddness], [w, odd], 'Walsh index and oddness of prefect')
    same([int(x) for x in b.prefect_leader_and_quadrant], [w >> 1, odd + 2 * ((ref.popcount(w) + odd) % 2)], 'leader and quadrant of prefect')
    same([int(x) for x in zhe_to_prefect(zhe, arity)], [w, odd], 'prefect of number')
    line = ref.linear_row(w, arity) ^ (ref.full(arity) if odd else 0)
    same([int(x) for x in zhe_vector_to_prefect_gen(ref.digits(zhe, size), arity)], ref.digits(line, size), 'prefect of vector')

    consul = reduce(xor, ref.exps(table), 0)
    same(b.consul(arity), consul, 'consul')
    same(b.consul_weight(arity), ref.popcount(consul), 'weight of consul')
    if arity == adicity:
        same(b.consul(), consul, 'consul without arity')
    if arity <= 6:
        same(int(b.consul_slow(arity)), consul, 'slow consul')
        same(int(b.consul_slow(arity, prefab_matrix=arity_to_walsh_matrix(arity))), consul, 'slow consul with matrix')
    same([int(x) for x in t.prefect_walsh_and_oddness][0], consul, 'consul and prefect of twin')
    is_fn(b, f, 'after use')


@st.composite
def cases(draw):
    d = draw(gen.fns(0, 6, max_gap=1))
    return {'t': d['t'], 'v': [x for x in d['v']], 'arity': draw(st.integers(0, 7))}


@random_case('C19', cases, quick=700, rule='not linear; labelled by number of arguments and surplus of the arity')
def transforms(value):
    f = ref.fn(value)
    if ref.adicity(f) > 7:
        return None
    check(f, value['arity'])
    if all(ref.popcount(e) < 2 for e in ref.exps(ref.zhe(f))):
        return None
    return '%d arguments, adicity %d, %s' % (len(f[0]), ref.adicity(f), 'bigger arity' if value['arity'] > ref.adicity(f) else 'own arity')


@st.composite
def indices(draw):
    return [draw(st.one_of(gen.words(64), gen.words(32), gen.words(16), gen.naturals(60))) for _ in range(2)]


@random_case('C19', indices, quick=400, rule='both above 16')
def numbers(value):
    m, n = value
    fm, fn = ref.from_zhe(m), ref.from_zhe(n)
    a, b = Boolf(zhe=m), Boolf(zhe=n)
    is_fn(a, fm, 'function of Zhegalkin index')
    same(a.zhe, m, 'Zhegalkin index read back')
    same((a ^ b).zhe, m ^ n, 'index of xor')
    expect(Boolf(zhe=m ^ n) == a ^ b, 'function of xor of indices')
    arity = intval_to_arity(m)
    same(arity, 0 if m < 2 else (m.bit_length() - 1).bit_length(), 'arity of number')
    same(intval_to_tt_length(m), 1 << arity, 'length of number')
    expect(m < 1 << (1 << arity) and (arity == 0 or m >= 1 << (1 << (arity - 1))), 'arity is not the smallest')
    return arity if m > 16 and n > 16 else None


def tables(tier):
    for n in range(4):
        for t in range(1 << (1 << n)):
            for arity in (n, n + 1, n + 2) if tier == 'thorough' else (n + t % 2,):
                yield {'t': t, 'v': list(range(n)), 'arity': arity}
    if tier == 'thorough':
        for t in range(0, 1 << 16, 37):
            yield {'t': t, 'v': [0, 1, 2, 3], 'arity': 4}


@enum_case('C19', tables, rule='not linear')
def all_small(value):
    f = ref.fn(value)
    check(f, value['arity'])
    return len(f[0]) if any(ref.popcount(e) > 1 for e in ref.exps(ref.zhe(f))) else None

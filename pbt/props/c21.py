"""Walsh spectrum and Walsh distances match the definition and invert."""
from hypothesis import strategies as st

from discretehelpers.boolf import Boolf
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make


def layered(v, n):
    return [[x for i, x in enumerate(v) if ref.popcount(i) == w] for w in range(n + 1)]


def check_one(b, table, n, args, message):
    spectrum = ref.walsh(table, n)
    result = b.walsh_spectrum(*args)
    same(list(result), spectrum, message + ': spectrum')
    expect(all(type(x) is int for x in result), message + ': entries are not integers')
    same(list(b.walsh_spectrum_abs(*args)), [abs(x) for x in spectrum], message + ': absolute spectrum')
    same([list(x) for x in b.walsh_spectrum_layered(*args)], layered(spectrum, n), message + ': layered spectrum')
    same([list(x) for x in b.walsh_spectrum_abs_layered(*args)], layered([abs(x) for x in spectrum], n), message + ': absolute layered spectrum')
    distances = [ref.popcount(table ^ ref.linear_row(j, n)) for j in range(1 << n)]
    found = [int(x) for x in b.walsh_distances(*args)]
    same(found, distances, message + ': distances')
    same(found, [s + ((1 << n) // 2 if j else 0) for j, s in enumerate(result)], message + ': distances from spectrum')
    return spectrum


def check(f, arity, extra):
    b = make(f)
    adicity = ref.adicity(f)
    if adicity <= 7:
        s = check_one(b, ref.table_arity(f, adicity), adicity, (), 'own arity')
        is_fn(Boolf(walsh_spectrum=list(s)), f, 'function of spectrum')
        is_fn(Boolf(walsh_spectrum=b.walsh_spectrum()), f, 'function of spectrum')
    if adicity <= arity:
        s = check_one(b, ref.table_arity(f, arity), arity, (arity,), 'arity %d' % arity)
        is_fn(Boolf(walsh_spectrum=tuple(s)), f, 'function of spectrum of bigger arity')
    for a in range(adicity):
        refuses(lambda: b.walsh_spectrum(a), 'arity too small', 'ArgTooSmallError')
        refuses(lambda: b.walsh_distances(a), 'arity too small', 'ArgTooSmallError')
    wide = sorted(set(f[0]) | set(extra))
    check_one(b, ref.table(f, wide), len(wide), (wide,), 'superset')
    check_one(b, ref.table(f, wide), len(wide), (set(wide),), 'superset')
    if f[0]:
        rest = [x for x in wide if x != f[0][0]]
        refuses(lambda: b.walsh_spectrum(rest), 'argument missing', 'ArgMismatchError')
    is_fn(b, f, 'after use')


@st.composite
def cases(draw):
    d = draw(gen.fns(0, 5, max_gap=2))
    return {'t': d['t'], 'v': d['v'], 'arity': draw(st.integers(0, 5)), 'extra': draw(st.lists(st.integers(0, 9), max_size=1))}


@random_case('C21', cases, quick=500, rule='depends on at least two arguments; labelled by number and kind of arity')
def spectra(value):
    f = ref.fn(value)
    check(f, value['arity'], value['extra'])
    if len(f[0]) < 2:
        return None
    return '%d arguments, %s' % (len(f[0]), 'spread' if ref.adicity(f) > len(f[0]) else 'root')


@st.composite
def bigger_cases(draw):
    d = draw(gen.fns(5, 7, max_gap=1))
    return {'t': d['t'], 'v': d['v'], 'arity': draw(st.sampled_from([6, 7])), 'extra': []}


@random_case('C21', bigger_cases, quick=60, rule='depends on at least six arguments')
def bigger_spectra(value):
    f = ref.fn(value)
    check(f, value['arity'], value['extra'])
    return len(f[0]) if len(f[0]) > 5 else None


def is_spectrum(v):
    """A vector is a spectrum if and only if its inverse transform is binary."""
    n = len(v)
    if n == 0 or n & (n - 1):
        return False
    back = [sum((-1 if ref.popcount(i & j) & 1 else 1) * x for j, x in enumerate(v)) for i in range(n)]
    return all(x in (0, n) for x in back)


@st.composite
def vectors(draw):
    n = draw(st.integers(0, 4))
    kind = draw(st.sampled_from(['spectrum', 'changed', 'any', 'scaled', 'length', 'negated', 'shifted']))
    v = ref.walsh(draw(gen.tables(n)), n)
    i = draw(gen.words(n))
    if kind == 'changed':
        v[i] += draw(st.sampled_from([-2, -1, 1, 2, 4]))
    elif kind == 'any':
        v = draw(st.lists(st.integers(-4, 4), min_size=1 << n, max_size=1 << n))
    elif kind == 'scaled':
        v = [2 * x for x in v]
    elif kind == 'negated':
        v = [-x for x in v]
    elif kind == 'shifted':
        v = v[i:] + v[:i]
    elif kind == 'length':
        v = v[:draw(st.integers(1, 1 << n))]
    return v


@random_case('C21', vectors, quick=1500, rule='is a spectrum or has the length of one; labelled by whether it is one')
def candidates(value):
    if not is_spectrum(value):
        refuses(lambda: Boolf(walsh_spectrum=list(value)), 'vector that is no spectrum', Exception)
        return None if len(value) & (len(value) - 1) else 'none'
    b = Boolf(walsh_spectrum=list(value))
    n = len(value).bit_length() - 1
    expect(list(b.walsh_spectrum(n)) == value, 'spectrum of function of spectrum', value)
    return 'spectrum'


def tables(tier):
    for names in [[], [0], [1], [0, 1], [0, 2], [0, 1, 2]]:
        for t in range(1 << (1 << len(names))):
            if tier == 'thorough' or t % 3 == 0 or len(names) < 3:
                yield {'t': t, 'v': names}


@enum_case('C21', tables, rule='depends on at least two arguments')
def all_small(value):
    f = ref.fn(value)
    check(f, 3, [1])
    return len(f[0]) if len(f[0]) > 1 else None

"""Periodic permutations equal iff they are the same map on all naturals."""
from math import lcm

from hypothesis import strategies as st

from discretehelpers.perm import Perm
from pbt import gen, ref
from pbt.core import expect, random_case, refuses, same
from pbt.props.c03 import norm_cycles


def repeat(p, times):
    n = len(p)
    return [v + n * k for k in range(times) for v in p]


def at(p, i):
    n = len(p)
    return p[i % n] + i - i % n if n else i


def minimal(p):
    """Shortest pattern of the same map, [] for the identity"""
    if all(i == v for i, v in enumerate(p)):
        return []
    return list(p[:ref.minimal_period(p)])


def build(p, form):
    """The map that repeats the pattern p."""
    n = len(p)
    if form == 'sequence':
        return Perm(list(p), perilen=n) if n > 1 else Perm()
    if form == 'short':
        return Perm(list(ref.trim(p)), perilen=n) if n > 1 else Perm()
    if form == 'tuple':
        return Perm(tuple(p), perilen=n) if n > 1 else Perm()
    if form == 'cycles':
        return Perm([list(c) for c in ref.cycles_of(p)], perilen=n) if n > 1 else Perm()
    return Perm({i: v for i, v in reversed(list(enumerate(p)))}, perilen=n) if n > 1 else Perm()


def is_map(x, p, message):
    m = minimal(p)
    n = len(p)
    expect(isinstance(x, Perm), message + ' is not a permutation', x)
    for i in list(range(2 * n + 3)) + [7 * n + 1, 1000 * n + n // 2, 10 ** 6]:
        same(int(x[i]), at(p, i), '%s at %d' % (message, i))
    if not m:
        expect(x.neutral, message + ' should be neutral', x)
        expect(x == Perm(), message + ' should equal the neutral one')
        return
    expect(not x.neutral, message + ' should not be neutral')
    same(int(x.perilen), len(m), message + ' period')
    same(int(x.length), len(m), message + ' length')
    same([int(v) for v in x.sequence()], m, message + ' sequence')
    same({int(k): int(v) for k, v in x.mapping.items()}, {i: v for i, v in enumerate(m) if i != v}, message + ' mapping')
    y = Perm(m, perilen=len(m))
    expect(x == y and y == x, message + ' differs from the one with minimal period', x, y)
    same(hash(x), hash(y), message + ' hash')
    for text in (str(x), repr(x)):
        back = eval(text, {'Perm': Perm})
        same([int(back[i]) for i in range(2 * n)], [at(p, i) for i in range(2 * n)], message + ' evaluated from its printed form')
        expect(back == x, message + ' evaluates from its printed form to another permutation', text)


@st.composite
def patterns(draw, max_len=12):
    kind = draw(st.sampled_from(['any', 'repeat', 'almost', 'sparse']))
    if kind == 'any':
        p = list(draw(gen.perms(2, max_len)))
    elif kind == 'sparse':
        n = draw(st.integers(2, 2 * max_len))
        p = list(range(n))
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        p[i], p[j] = p[j], p[i]
    else:
        base = list(draw(gen.perms(2, 6)))
        p = repeat(base, draw(st.integers(2, 6)))
        if kind == 'almost':  # disturb the repetition, keeping the set of moved places if possible
            k = draw(st.integers(0, len(p) // len(base) - 1))
            block = list(draw(gen.shuffled(base)))
            for i, v in enumerate(block):
                p[k * len(base) + i] = k * len(base) + v
    return p


FORMS = ['sequence', 'short', 'tuple', 'cycles', 'dict']


@st.composite
def one(draw):
    return {'p': draw(patterns()), 'times': draw(st.integers(1, 7)), 'form': draw(st.sampled_from(FORMS)),
            'e': draw(st.integers(-7, 7)), 'many': draw(st.one_of(st.integers(0, 4), st.integers(5, 12))), 'off': draw(st.integers(1, 5)),
            'slice': draw(st.tuples(st.none() | st.integers(0, 20), st.none() | st.integers(0, 60), st.none() | st.integers(1, 4)))}


@random_case('C05', one, quick=4000, rule='not the identity, labelled by stated period : minimal period')
def single(value):
    p = value['p']
    n = len(p)
    m = minimal(p)
    x = build(p, value['form'])
    is_map(x, p, 'pattern')
    stated = repeat(p, value['times'])
    y = build(stated, value['form'])
    is_map(y, p, 'repeated pattern')
    expect(x == y, 'stated with a multiple of the period it is another permutation', x, y)
    same(hash(x), hash(y), 'hash with a multiple of the period')
    is_map(x.inverse, list(ref.invert(p)), 'inverse')
    is_map(x * x.inverse, [0, 1], 'product with inverse')
    e = value['e']
    is_map(x ** e, list(ref.power(tuple(p), e)), 'power')
    is_map(x * Perm(), p, 'times neutral')
    is_map(Perm() * x, p, 'neutral times')
    if not m:
        return None
    k = len(m)
    times = value['many']
    same([int(v) for v in x.sequence(k * times)], repeat(m, times), 'long sequence')
    same(norm_cycles(x.cycles), norm_cycles(ref.cycles_of(m)), 'cycles')
    same(norm_cycles(x.cycles_dynamic()), norm_cycles(ref.cycles_of(m)), 'cycles within the period')
    same(norm_cycles(x.cycles_dynamic(k * times)), norm_cycles(ref.cycles_of(repeat(m, times))), 'cycles within a multiple of the period')
    same(int(x.order), lcm(*[len(c) for c in ref.cycles_of(m)]), 'order')
    start, stop, step = value['slice']
    expected = [at(m, i) for i in range(start or 0, stop if stop is not None else k, step or 1)]
    same([int(v) for v in x[start:stop:step]], expected, 'slice')
    wrong = k * times + value['off']
    if wrong % k:
        refuses(lambda: x.sequence(wrong), 'sequence length not fitting the period', 'LengthMismatchPerilenError')
        refuses(lambda: x.cycles_dynamic(wrong), 'cycles within a length not fitting the period', 'LengthMismatchPerilenError')
    is_map(x, p, 'after use')
    ratio = n * value['times'] // k
    return '1' if ratio == 1 else 'prime' if ratio in (2, 3, 5, 7, 11, 13) else 'composite'


@st.composite
def two(draw):
    how = draw(st.sampled_from(['any', 'any', 'related']))
    p = draw(patterns(8))
    if how == 'related':  # same moved places or a power of the first
        q = repeat(list(ref.power(tuple(p), draw(st.integers(-3, 3)))), draw(st.integers(1, 3)))
    else:
        q = draw(patterns(8))
    return [p, q, draw(st.sampled_from(FORMS))]


@random_case('C05', two, quick=4000, rule='both move something; labelled by the relation of the periods')
def pairs(value):
    p, q, form = value
    x, y = build(p, form), build(q, 'sequence')
    n = lcm(len(p), len(q))
    bp, bq = repeat(p, n // len(p)), repeat(q, n // len(q))
    is_map(x * y, list(ref.compose(bp, bq)), 'product')
    is_map(y * x, list(ref.compose(bq, bp)), 'product')
    is_map((x * y).inverse, list(ref.invert(ref.compose(bp, bq))), 'inverse of product')
    is_map((x * y) * x, list(ref.compose(ref.compose(bp, bq), bp)), 'triple product')
    same(bool(x == y), bp == bq, 'equality')
    same(bool(y == x), bp == bq, 'equality')
    if bp == bq:
        same(hash(x), hash(y), 'hash')
    is_map(x, p, 'after use')
    is_map(y, q, 'after use')
    mp, mq = len(minimal(p)), len(minimal(q))
    if not mp or not mq:
        return None
    return 'same period' if mp == mq else 'divides' if mp % mq == 0 or mq % mp == 0 else 'coprime' if lcm(mp, mq) == mp * mq else 'overlapping'


@st.composite
def mixed(draw):
    return {'p': draw(patterns(8)), 'q': list(draw(gen.perms(0, 8))), 'perilen': draw(st.integers(-2, 9))}


@random_case('C05', mixed, quick=1500, rule='both move something')
def mixed_with_finite(value):
    p, q = value['p'], value['q']
    x, y = build(p, 'sequence'), Perm(q)
    moving = bool(minimal(p)) and bool(ref.trim(q))
    if moving:
        refuses(lambda: x * y, 'periodic times finite', 'OtherPerilenMismatchError')
        refuses(lambda: y * x, 'finite times periodic', 'OtherPerilenMismatchError')
        expect(not (x == y), 'periodic equals finite', x, y)
        expect(not (y == x), 'finite equals periodic', x, y)
        refuses(lambda: y.cycles_dynamic(12), 'dynamic cycles of a finite permutation', 'NotPeriodicError')
        refuses(lambda: x.left_rank, 'rank of a periodic permutation', 'PermNotFiniteError')
        refuses(lambda: x.right_rank, 'rank of a periodic permutation', 'PermNotFiniteError')
    t = ref.trim(q)
    if t:
        k = value['perilen']
        if k < 0:
            refuses(lambda: Perm(q, perilen=k), 'negative period', 'PeriodLengthNotNaturalError')
        elif k < max(2, len(t)):
            refuses(lambda: Perm(q, perilen=k), 'period too small', 'PerilenTooSmallError')
        else:
            is_map(Perm(q, perilen=k), list(ref.extend(t, k)), 'pattern with trailing fixed places')
    return 'mixed' if moving else None

"""Finite permutations form a group however they are written down."""
import random
from itertools import permutations
from math import lcm

from hypothesis import strategies as st

from discretehelpers.perm import Perm
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same


def norm_cycles(cycles):
    """Cycles with smallest element first, sorted."""
    result = []
    for c in cycles:
        c = [int(x) for x in c]
        i = c.index(min(c))
        result.append(c[i:] + c[:i])
    return sorted(result)


def forms(p, seed, surplus):
    """Perm objects for the same permutation, written in different ways."""
    rng = random.Random(seed)
    trimmed = ref.trim(p)
    cycles = [list(c) for c in ref.cycles_of(p)]
    turned = []
    for c in cycles:
        r = rng.randrange(len(c))
        turned.append(c[r:] + c[:r])
    rng.shuffle(turned)
    fixed = [i for i in range(len(p) + surplus) if i >= len(p) or p[i] == i]
    singles = [[i] for i in fixed if rng.random() < .5]
    with_singles = turned + singles
    rng.shuffle(with_singles)
    moved = [i for i in range(len(p)) if p[i] != i]
    rng.shuffle(moved)
    mapping = {i: p[i] for i in moved}
    loose = dict(mapping)
    for i in fixed:
        if rng.random() < .5:
            loose[i] = i
    long = list(p) + list(range(len(p), len(p) + surplus))
    return {
        'sequence': Perm(list(trimmed)), 'tuple': Perm(tuple(trimmed)), 'long sequence': Perm(long),
        'long tuple': Perm(tuple(long)), 'cycles': Perm(turned), 'cycles with fixed points': Perm(with_singles),
        'dict': Perm(mapping), 'dict with fixed points': Perm(loose),
    }


def image(x, p):
    """Is the Perm x the map p (a tuple)?"""
    n = len(p)
    return all(int(x[i]) == p[i] for i in range(n)) and all(int(x[i]) == i for i in (n, n + 1, n + 17))


def is_perm(x, p, message):
    p = ref.trim(p)
    expect(isinstance(x, Perm), message + ' is not a permutation', x)
    expect(image(x, p), message + ' is another map', x, p)
    same([int(v) for v in x.sequence()], list(p), message + ' sequence')
    same(int(x.length), len(p), message + ' length')
    expect(x == Perm(list(p)), message + ' is not equal to the permutation built from its sequence', x, p)
    same(hash(x), hash(Perm(list(p))), message + ' hash')
    for text in (str(x), repr(x)):
        back = eval(text, {'Perm': Perm})
        expect(image(back, p) and back == x, message + ' evaluates from its printed form to another permutation', text, p)
    same(bool(x.neutral), p == (), message + ' neutral')
    same({int(i) for i in x.moved}, {i for i, v in enumerate(p) if i != v}, message + ' moved')
    same({int(k): int(v) for k, v in x.mapping.items()}, {i: v for i, v in enumerate(p) if i != v}, message + ' mapping')
    expect(x.perilen is None, message + ' is periodic')


def single(p, seed, surplus):
    t = ref.trim(p)
    fs = forms(p, seed, surplus)
    base = Perm(list(t))
    for name, x in fs.items():
        is_perm(x, t, name)
        expect(x == base and base == x, 'not equal when built from ' + name)
        same(hash(x), hash(base), 'hash when built from ' + name)
    cycles = ref.cycles_of(t)
    for x in fs.values():
        same(norm_cycles(x.cycles), norm_cycles(cycles), 'cycles')
    same(int(base.order), lcm(*[len(c) for c in cycles]) if cycles else 1, 'order')
    same(int(base.parity), sum(len(c) - 1 for c in cycles) % 2, 'parity')
    same(base.cycle_partition.blocks, sorted(sorted(c) for c in cycles), 'cycle partition')
    is_perm(base.inverse, ref.invert(t), 'inverse')
    is_perm(base.inverse.inverse, t, 'inverse of inverse')
    is_perm(base * base.inverse, (), 'product with inverse')
    is_perm(base.inverse * base, (), 'inverse product')
    is_perm(base * Perm(), t, 'times neutral')
    is_perm(Perm() * base, t, 'neutral times')
    n = len(t)
    for m in (n, n + 1, n + surplus):
        same([int(v) for v in base.sequence(m)], list(ref.extend(t, m)), 'sequence of length')
    if n:
        refuses(lambda: base.sequence(n - 1), 'sequence too short', 'LengthTooSmallError')
    is_perm(base, t, 'after use')
    return t, base


@st.composite
def one(draw):
    p = draw(gen.any_perms(9, 30))
    return {
        'p': p, 'seed': draw(st.integers(0, 10 ** 6)), 'surplus': draw(st.integers(0, 4)),
        'e': draw(st.one_of(st.integers(-12, 12), st.integers(-60, 60))), 'f': draw(st.integers(-6, 6)),
        'slices': draw(st.lists(st.tuples(st.none() | st.integers(0, 12), st.none() | st.integers(0, 30), st.none() | st.integers(1, 4)), max_size=3)),
    }


@random_case('C03', one, quick=3000, rule='moves at least three elements, labelled by cycle type')
def written_forms_and_powers(value):
    t, base = single(tuple(value['p']), value['seed'], value['surplus'])
    e, f = value['e'], value['f']
    is_perm(base ** e, ref.power(t, e), 'power')
    is_perm(base ** e * base ** f, ref.power(t, e + f), 'product of powers')
    is_perm((base ** e).inverse, ref.power(t, -e), 'inverse of power')
    if len(t) <= 12:
        is_perm(base ** int(base.order), (), 'power by order')
    big = ref.extend(t, 60)
    for start, stop, step in value['slices']:
        s = slice(start, stop, step)
        full = slice(start, stop if stop is not None else len(t), step)
        same([int(v) for v in base[s]], list(big[full]), 'slice %s of %s' % (s, t))
    is_perm(base, t, 'after use')
    kind = sorted((len(c) for c in ref.cycles_of(t)), reverse=True)
    return str(kind) if sum(kind) >= 3 else None


@st.composite
def three(draw):
    return [draw(gen.any_perms(7, 20)) for _ in range(3)]


@random_case('C03', three, quick=4000, rule='all three move something and the first two do not commute')
def group_laws(value):
    ts = [ref.trim(p) for p in value]
    a, b, c = [Perm(list(p)) for p in value]
    ta, tb, tc = ts
    is_perm(a * b, ref.compose(ta, tb), 'product')
    is_perm(b * a, ref.compose(tb, ta), 'product')
    expect((a * b) * c == a * (b * c), 'product is not associative', value)
    is_perm((a * b) * c, ref.compose(ref.compose(ta, tb), tc), 'triple product')
    is_perm((a * b).inverse, ref.compose(ref.invert(tb), ref.invert(ta)), 'inverse of product')
    expect((a * b).inverse == b.inverse * a.inverse, 'inverse of product', value)
    conj = b * a * b.inverse
    same(sorted(len(x) for x in conj.cycles), sorted(len(x) for x in a.cycles), 'cycle type of conjugate')
    same(int((a * b).parity), (int(a.parity) + int(b.parity)) % 2, 'parity of product')
    same(bool(a == b), ta == tb, 'equality')
    same(bool(a != b), ta != tb, 'inequality')
    same(len({a, b, c, a * Perm()}), len(set(ts)), 'number of different permutations')
    for x, t in zip((a, b, c), ts):
        is_perm(x, t, 'operand after use')
    n = max(len(ta), len(tb))
    if all(ts) and ref.compose(ta, tb) != ref.compose(tb, ta):
        return 'different lengths' if len(ta) != len(tb) else 'same length'
    return None


def small(tier):
    for n in range(6 if tier == 'quick' else 7):
        for p in permutations(range(n)):
            yield list(p)


@enum_case('C03', small, rule='moves at least three elements')
def all_small_permutations(value):
    t, base = single(tuple(value), 7, 2)
    is_perm(base ** 2, ref.power(t, 2), 'square')
    is_perm(base ** -3, ref.power(t, -3), 'power -3')
    return len(t) if sum(len(c) for c in ref.cycles_of(t)) >= 3 else None


########################################################################################################################


@random_case('C03', lambda: st.tuples(st.lists(st.sampled_from([2, 3, 5, 7, 8, 9, 11, 13, 17, 19, 23, 25, 29, 31, 37, 41, 43, 47, 49, 53]), min_size=1, max_size=19, unique=True), st.integers(0, 5)),
             quick=60, rule='order beyond 64 bits, labelled by number of cycles', examples=[[[2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53], 0]])
def many_cycles(value):
    """Permutations with many cycle lengths: the order is a big number."""
    lengths, first = value
    cycles = []
    for k in lengths:
        cycles.append(list(range(first, first + k)))
        first += k
    p = Perm([list(c) for c in cycles])
    order = lcm(*lengths)
    same(int(p.order), order, 'order')
    same(int(p.inverse.order), order, 'order of inverse')
    same(norm_cycles(p.cycles), norm_cycles(cycles), 'cycles')
    same(int(p.length), first, 'length')
    for c in cycles:
        for k, e in enumerate(c):
            same(int(p[e]), c[(k + 1) % len(c)], 'image')
    return len(lengths) if order >> 63 else None

"""Evaluating a Boolean function gives the same truth value everywhere."""
from fractions import Fraction
from itertools import product

from hypothesis import strategies as st

from discretehelpers.binv import Binv
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import is_binv, is_fn, make


def evaluate(f, extra, numbers, perm):
    b = make(f)
    atoms, bits = f
    n = len(atoms)
    adicity = ref.adicity(f)
    for number in numbers:
        value = b[number]
        same(int(value), ref.at(f, number), 'value at %d' % number)
    if adicity <= 8:
        is_binv(b.tt(), 1 << adicity, ref.table_arity(f, adicity), 'truth table')
        for arity in (adicity, adicity + 1, adicity + 2):
            if arity <= 9:
                is_binv(b.tt(arity), 1 << arity, ref.table_arity(f, arity), 'truth table of arity %d' % arity)
        t = ref.digits(ref.table_arity(f, adicity), 1 << adicity)
        same(b.value_fract(), Fraction(int(''.join(map(str, t)), 2), (1 << (1 << adicity)) - 1), 'value fraction')
    for arity in range(adicity):
        refuses(lambda: b.tt(arity), 'arity too small', 'ArgTooSmallError')
    wide = sorted(set(atoms) | set(extra))
    table = ref.table(f, wide)
    for kind in (set, list, tuple):
        is_binv(b.tt(kind(wide)), 1 << len(wide), table, 'truth table for %s of arguments' % kind.__name__)
        same(sorted(b.inflated_fullspots(kind(wide))), ref.exps(table), 'inflated true places')
    is_binv(b.tt(wide[::-1]), 1 << len(wide), table, 'truth table for arguments in another order')
    is_binv(b.tt(list(atoms)), 1 << n, bits, 'truth table for own arguments')
    for a in atoms:
        rest = [x for x in wide if x != a]
        refuses(lambda: b.tt(rest), 'argument missing', 'ArgMismatchError')
        refuses(lambda: b.inflated_fullspots(rest), 'argument missing', 'ArgMismatchError')
    points = list(product([0, 1], repeat=n))
    values = []
    for p in points:
        v = b.val(*p)
        same(int(v), ref.value(f, dict(zip(atoms, p))), 'value of arguments')
        same(int(b.val(*[bool(x) for x in p])), int(v), 'value of boolean arguments')
        values.append(int(v))
    if n:
        columns = [list(c) for c in zip(*points)]
        for kind in (list, Binv):
            result = b.val(*[kind(c) for c in columns])
            same([int(x) for x in result], values, 'values of lists')
        order = [k for k in perm if (k if k >= 0 else ~k) < n]
        result = b.vals(*order)
        expected = []
        for i in range(1 << n):
            j = 0
            for k, s in enumerate(order):
                v = (i >> (s if s >= 0 else ~s)) & 1
                j |= (v ^ (s < 0)) << k
            expected.append((bits >> j) & 1)
        same([int(x) for x in result], expected, 'values for permuted arguments')
    refuses(lambda: b.val(*([0] * (n + 1))), 'too many values', 'SarityMismatchError')
    if n:
        refuses(lambda: b.val(*([0] * (n - 1))), 'too few values', 'SarityMismatchError')
    spots = ref.exps(bits)
    same(sorted(b.fullspots), spots, 'true places')
    same({int(k): list(v) for k, v in b.fullspot_atoms.items()}, {s: ref.exps(s) for s in spots}, 'arguments of true places')
    weights = sorted({ref.popcount(s) for s in spots})
    same(list(b.fullspot_weights), weights, 'weights')
    same({w: {k: list(v) for k, v in d.items()} for w, d in b.fullspots_by_weight.items()},
         {w: {s: ref.exps(s) for s in spots if ref.popcount(s) == w} for w in weights}, 'true places by weight')
    same([list(x) for x in b.layered_fullspots], [[s for s in spots if ref.popcount(s) == w] for w in range(n + 1)], 'layers of true places')
    links = {w: sorted((s, t) for s in spots for t in spots if ref.popcount(s) == w and ref.popcount(t) == w + 1 and s & t == s)
             for w in weights if w + 1 in weights}
    same({w: [tuple(p) for p in ps] for w, ps in b.fullspotlinks_by_weight.items()}, links, 'links between true places')
    same(b.number_of_fullspotlinks, sum(map(len, links.values())), 'number of links')
    same(b.weight_fract, Fraction(len(spots), 1 << n), 'weight fraction')
    same(b.atomvals_integer, sum(1 << a for a in atoms), 'arguments as number')
    is_fn(b, f, 'after use')


@st.composite
def cases(draw, low=0, high=5, max_gap=2):
    d = draw(gen.fns(low, high, max_gap=max_gap))
    shift = draw(st.sampled_from([0, 0, 0, 0, 5, 40, 90]))
    v = [x + shift for x in d['v']]
    p = draw(gen.sig_perms(high + 1, high + 1))
    return {'t': d['t'], 'v': v, 'extra': draw(st.lists(st.integers(0, 12), max_size=3)), 'perm': p,
            'numbers': draw(st.lists(gen.naturals(60), max_size=8)) + [(1 << 70) - 1, (1 << 120) - 1] + draw(st.lists(gen.words(110), max_size=2))}


@random_case('C17', cases, quick=900, rule='depends on at least two arguments; labelled by their number and spread')
def evaluation(value):
    f = ref.fn(value)
    evaluate(f, value['extra'], value['numbers'] + list(range(20)), value['perm'])
    n = len(f[0])
    return None if n < 2 else '%d arguments%s' % (n, ', spread' if f[0][-1] >= n else '')


def tables(tier):
    for names in [[], [0], [2], [0, 1], [1, 3], [0, 1, 2]] + ([[0, 2, 5]] if tier == 'thorough' else []):
        for t in range(1 << (1 << len(names))):
            yield {'t': t, 'v': names}


@enum_case('C17', tables, rule='depends on at least two arguments')
def all_small(value):
    f = ref.fn(value)
    evaluate(f, [4] if value['t'] % 2 else [], range(40), [2, ~0, 1] if value['t'] % 3 else [1, 0, ~2])
    return len(f[0]) if len(f[0]) > 1 else None


@random_case('C17', lambda: cases(6, 8, 1), quick=40, rule='depends on at least six arguments; labelled by their number and spread')
def larger_functions(value):
    label = evaluation(value)
    return label if label and len(ref.fn(value)[0]) > 5 else None

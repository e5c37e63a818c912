"""Signed permutations: product, inverse and actions are consistent."""
from itertools import permutations

import numpy as np
from hypothesis import strategies as st

from discretehelpers.sig_perm import SigPerm
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, same
from pbt.props.c07 import is_sigperm, matrix_of


def move(s, v):
    """Matrix action with logical negation."""
    s = ref.extend(s, len(v))
    result = [None] * len(v)
    for i, x in enumerate(v):
        result[ref.s_abs(s[i])] = ~x if s[i] < 0 else x
    return result


def laws(s, t, u):
    a, b, c = [SigPerm(sequence=list(x)) for x in (s, t, u)]
    neutral = SigPerm(sequence=[])
    ab = ref.s_compose(s, t)
    is_sigperm(a * b, ab, 'product')
    size = max(len(s), len(t))
    ms, mt = np.array(matrix_of(s, size)).reshape(size, size), np.array(matrix_of(t, size)).reshape(size, size)
    same(np.array((a * b).matrix(size)).tolist(), ms.dot(mt).tolist(), 'matrix of product')
    expect((a * b) * c == a * (b * c), 'product is not associative', s, t, u)
    is_sigperm((a * b) * c, ref.s_compose(ab, u), 'triple product')
    is_sigperm(a.inverse, ref.s_invert(s), 'inverse')
    same(np.array(a.inverse.matrix(size)).tolist(), ms.T.tolist(), 'matrix of inverse')
    is_sigperm(a * a.inverse, (), 'product with inverse')
    is_sigperm(a.inverse * a, (), 'product with inverse')
    expect(a.inverse.inverse == a, 'inverse of inverse', s)
    expect((a * b).inverse == b.inverse * a.inverse, 'inverse of product', s, t)
    expect(a * neutral == a and neutral * a == a, 'neutral element', s)
    is_sigperm(a, s, 'operand after use')
    is_sigperm(b, t, 'operand after use')
    return a, b


@st.composite
def triples(draw):
    s, t, u = [draw(st.one_of(gen.sig_perms(0, 6), gen.sig_perms(0, 6), gen.sig_perms(0, 6), gen.sig_perms(7, 12))) for _ in range(3)]
    n = max(len(s), len(t)) + draw(st.integers(0, 3))
    return {
        's': s, 't': t, 'u': u, 'vector': draw(st.lists(st.integers(-20, 20), min_size=n, max_size=n)),
        'number': draw(st.one_of(gen.naturals(30), gen.naturals(30), gen.naturals(140))), 'kind': draw(st.sampled_from(['list', 'tuple'])),
    }


@random_case('C08', triples, quick=2500, rule='the first two negate something and do not commute')
def group_and_actions(value):
    s, t, u = value['s'], value['t'], value['u']
    a, b = laws(s, t, u)
    v = value['vector']
    kind = {'list': list, 'tuple': tuple}[value['kind']]
    vector = kind(v)
    result = a.apply_on_vector(vector)
    same(type(result), kind, 'type of result')
    same(list(result), move(s, v), 'moved vector')
    same(list((a * b).apply_on_vector(vector)), list(a.apply_on_vector(b.apply_on_vector(vector))), 'action of product on vector')
    same(list(a.inverse.apply_on_vector(result)), v, 'inverse action on vector')
    same(list(vector), v, 'argument changed')
    n = len(ref.s_trim(s))
    same(list(a.apply_on_vector(kind(v[:n]))), move(ref.s_trim(s), v[:n]), 'shortest fitting vector')
    number = value['number']
    moved = a.apply_on_natural_number(number)
    same(int(moved), ref.s_number(s, number), 'moved number')
    same(int((a * b).apply_on_natural_number(number)), ref.s_number(s, ref.s_number(t, number)), 'action of product on number')
    same(int(a.apply_on_natural_number(b.apply_on_natural_number(number))), ref.s_number(s, ref.s_number(t, number)), 'product of actions on number')
    same(int(a.inverse.apply_on_natural_number(int(moved))), number, 'inverse action on number')
    if any(x < 0 for x in s) and any(x < 0 for x in t) and ref.s_trim(ref.s_compose(s, t)) != ref.s_trim(ref.s_compose(t, s)):
        return 'different lengths' if len(ref.s_trim(s)) != len(ref.s_trim(t)) else 'same length'
    return None


def signed(n):
    for p in permutations(range(n)):
        for negs in range(1 << n):
            yield [~v if (negs >> i) & 1 else v for i, v in enumerate(p)]


def pairs(tier):
    if tier == 'quick':
        small = [s for n in range(3) for s in signed(n)]
        for s in small:
            for t in small:
                yield [s, t]
        return
    for s in signed(3):
        for n in (2, 3):
            for t in signed(n):
                yield [s, t]


@enum_case('C08', pairs, rule='the two do not commute')
def all_small_pairs(value):
    s, t = value
    a, b = laws(s, t, [1, ~0])
    for number in range(20):
        same(int(a.apply_on_natural_number(number)), ref.s_number(s, number), 'moved number')
    return 'pair' if ref.s_trim(ref.s_compose(s, t)) != ref.s_trim(ref.s_compose(t, s)) else None

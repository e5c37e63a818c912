"""Signed permutations: every construction gives one canonical value."""
from itertools import permutations

import numpy as np
from hypothesis import strategies as st

from discretehelpers.a import int_to_perm
from discretehelpers.binv import Binv
from discretehelpers.perm import Perm
from discretehelpers.sig_perm import SigPerm
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same


def matrix_of(s, size=None):
    s = ref.extend(s, size if size is not None else len(s))
    m = [[0] * len(s) for _ in s]
    for k, v in enumerate(s):
        m[ref.s_abs(v)][k] = -1 if v < 0 else 1
    return m


def forms(s, extra_perm, extra_sign, extra_key):
    """SigPerm objects for the signed sequence s; the other arguments are numbers of surplus places."""
    n = len(s)
    long = list(ref.extend(s, n + extra_perm))
    p = [ref.s_abs(v) for v in s]
    long_p = list(ref.extend(p, n + extra_perm))
    valneg = [0] * n
    for v in s:
        if v < 0:
            valneg[~v] = 1
    keyneg = [int(v < 0) for v in s]
    long_val, long_key = valneg + [0] * extra_sign, keyneg + [0] * extra_key
    vi, ki = ref.undigits(valneg), ref.undigits(keyneg)
    vs, ks = {i for i, x in enumerate(valneg) if x}, {i for i, x in enumerate(keyneg) if x}
    pi = ref.left_rank(ref.trim(p))
    result = {
        'sequence': SigPerm(sequence=list(s)), 'tuple': SigPerm(sequence=tuple(s)), 'long sequence': SigPerm(sequence=long),
        'pair': SigPerm(pair=(vi, pi)), 'pair list': SigPerm(pair=[vi, pi]),
        'valneg list, perm list': SigPerm(valneg=long_val, perm=long_p),
        'valneg tuple, perm tuple': SigPerm(valneg=tuple(long_val), perm=tuple(p)),
        'valneg string, perm': SigPerm(valneg=''.join(map(str, long_val)), perm=Perm(p)) if long_val else SigPerm(sequence=s),
        'valneg binv, perm': SigPerm(valneg=Binv(long_val), perm=Perm(long_p)),
        'valneg set, perm': SigPerm(valneg=vs, perm=Perm(p)),
        'valneg list, perm_index': SigPerm(valneg=long_val, perm_index=pi),
        'valneg_index, perm': SigPerm(valneg_index=vi, perm=Perm(p)),
        'valneg_index, perm list': SigPerm(valneg_index=vi, perm=long_p),
        'valneg_index, perm_index': SigPerm(valneg_index=vi, perm_index=pi),
        'keyneg list, perm list': SigPerm(keyneg=long_key, perm=long_p),
        'keyneg tuple, perm': SigPerm(keyneg=tuple(long_key), perm=Perm(p)),
        'keyneg binv, perm_index': SigPerm(keyneg=Binv(long_key), perm_index=pi),
        'keyneg set, perm': SigPerm(keyneg=ks, perm=Perm(long_p)),
        'keyneg_index, perm': SigPerm(keyneg_index=ki, perm=Perm(p)),
        'keyneg_index, perm_index': SigPerm(keyneg_index=ki, perm_index=pi),
    }
    if len(long):
        result['matrix'] = SigPerm(matrix=np.array(matrix_of(long)))
        result['matrix list'] = SigPerm(matrix=matrix_of(long))
    if len(long) <= 6:
        numbers = [ref.s_number(s, i) for i in range(1 << len(long))]
        result['schoute'] = SigPerm(schoute_perm=Perm(numbers, perilen=len(numbers)) if len(numbers) > 1 else Perm())
        if len(numbers) > 1:
            result['schoute list'] = SigPerm(schoute_perm=numbers)
            result['schoute tuple'] = SigPerm(schoute_perm=tuple(numbers))
    return result


def text(s):
    return '[' + ', '.join(('~%d' % ~v) if v < 0 else str(v) for v in s) + ']'


def is_sigperm(x, s, message):
    """The object x describes the signed sequence s."""
    s = ref.s_trim(s)
    n = len(s)
    same(type(x), SigPerm, message)
    same([int(v) for v in x.sequence()], list(s), message + ' sequence')
    same(int(x.length), n, message + ' length')
    same([int(v) for v in x.sequence(n + 2)], list(ref.extend(s, n + 2)), message + ' longer sequence')
    same([int(x[i]) for i in range(n)], list(s), message + ' entries')
    if n:
        refuses(lambda: x.sequence(n - 1), message + ' too short sequence', ValueError)
        refuses(lambda: x.matrix(n - 1), message + ' too small matrix', ValueError)
    same(x.sequence_string(), text(s), message + ' string')
    same(x.sequence_string(n + 1), text(ref.extend(s, n + 1)), message + ' longer string')
    same(x.sequence_string(round_parentheses=True), '(' + text(s)[1:-1] + ')', message + ' string in parentheses')
    same(np.array(x.matrix()).tolist(), matrix_of(s), message + ' matrix')
    same(np.array(x.matrix(n + 1)).tolist(), matrix_of(s, n + 1), message + ' bigger matrix')
    p = ref.trim([ref.s_abs(v) for v in s])
    valneg = sum(1 << ~v for v in s if v < 0)
    same(int(x.valneg_index), valneg, message + ' valneg_index')
    same(int(x.keyneg_index), sum(1 << k for k, v in enumerate(s) if v < 0), message + ' keyneg_index')
    same(int(x.perm_index), ref.left_rank(p), message + ' perm_index')
    same(tuple(x.pair), (valneg, ref.left_rank(p)), message + ' pair')
    expect(x.perm == Perm(list(p)), message + ' perm', x.perm, p)
    same(int(x.binv.intval), valneg, message + ' negated values')
    same(bool(x.neutral), s == (), message + ' neutral')


def check(s, a, b, c):
    s = tuple(s)
    base = SigPerm(sequence=list(ref.s_trim(s)))
    for name, x in forms(s, a, b, c).items():
        is_sigperm(x, s, name)
        expect(x == base and base == x, 'not equal when built from ' + name, x, base, x.binv, base.binv)
        expect(not (x != base), 'unequal when built from ' + name)
        same(hash(x), hash(base), 'hash when built from ' + name)
        same(str(x), str(base), 'printed when built from ' + name)
    for name, y in {
        'sequence': SigPerm(sequence=base.sequence()), 'pair': SigPerm(pair=base.pair),
        'keyneg_index and perm_index': SigPerm(keyneg_index=base.keyneg_index, perm_index=base.perm_index),
        'valneg_index and perm': SigPerm(valneg_index=base.valneg_index, perm=base.perm),
        'binv and perm': SigPerm(valneg=base.binv, perm=base.perm),
        'bigger matrix': SigPerm(matrix=base.matrix(base.length + 1)),
        'printed': eval(str(base), {'SigPerm': SigPerm}),
    }.items():
        expect(y == base, 'own %s leads to another value' % name, y, base)
        same(hash(y), hash(base), 'hash of value from own ' + name)
    if base.length:
        expect(SigPerm(matrix=base.matrix()) == base, 'own matrix leads to another value', base)
    unsigned = all(v >= 0 for v in s)
    same(bool(base == Perm([ref.s_abs(v) for v in s])), unsigned, 'equal to the plain permutation')


@st.composite
def inputs(draw):
    return {'s': draw(st.one_of(gen.sig_perms(0, 7), gen.sig_perms(0, 7), gen.sig_perms(0, 7), gen.sig_perms(8, 11))), 'surplus': [draw(st.integers(0, 3)) for _ in range(3)]}


@random_case('C07', inputs, quick=1600, rule='negates and moves something')
def random_signed_permutations(value):
    s = value['s']
    check(s, *value['surplus'])
    t = ref.s_trim(s)
    if any(v < 0 for v in t) and any(ref.s_abs(v) != i for i, v in enumerate(t)):
        plain = len(ref.trim([ref.s_abs(v) for v in t]))
        return 'negation beyond the moved places' if len(t) > plain else 'negation only among moved places'
    return None


@st.composite
def two(draw):
    s = draw(gen.sig_perms(0, 5))
    if draw(st.booleans()):
        t = draw(gen.sig_perms(0, 5))
    else:  # close to the first
        t = list(s)
        if t:
            i = draw(st.integers(0, len(t) - 1))
            t[i] = ~t[i]
        t += list(range(len(t), len(t) + draw(st.integers(0, 2))))
    return [s, t]


@random_case('C07', two, quick=3000, rule='different signed permutations')
def equality(value):
    s, t = value
    x, y = SigPerm(sequence=s), SigPerm(sequence=t)
    equal = ref.s_trim(s) == ref.s_trim(t)
    same(bool(x == y), equal, 'equality')
    same(bool(x != y), not equal, 'inequality')
    same(str(x) == str(y), equal, 'equality of printed forms')
    if equal:
        same(hash(x), hash(y), 'hash')
    same(tuple(x.pair) == tuple(y.pair), equal, 'equality of pairs')
    return None if equal else ('same permutation' if ref.trim([ref.s_abs(v) for v in s]) == ref.trim([ref.s_abs(v) for v in t]) else 'other permutation')


def small(tier):
    for n in range(4 if tier == 'quick' else 5):
        for p in permutations(range(n)):
            for negs in range(1 << n):
                yield [~v if (negs >> i) & 1 else v for i, v in enumerate(p)]


@enum_case('C07', small, rule='negates and moves something')
def all_small(value):
    check(value, 1, 2, 1)
    t = ref.s_trim(value)
    return len(t) if any(v < 0 for v in t) and any(ref.s_abs(v) != i for i, v in enumerate(t)) else None

"""Binary vectors: all constructions and readings of one vector agree."""
import copy

import numpy as np
from hypothesis import strategies as st

from discretehelpers.binv import Binv
from discretehelpers.set_part import SetPart
from pbt import gen
from pbt.core import enum_case, expect, random_case, refuses, same


def spaced(digits, gaps):
    result = ''
    for i, d in enumerate(digits):
        result += ' ' * (gaps[i % len(gaps)] if gaps else 0) + str(d)
    return result


def forms(bits, gaps=(0, 1)):
    """The same vector written down in all ways."""
    n = len(bits)
    number = sum(1 << i for i, b in enumerate(bits) if b)
    places = [i for i, b in enumerate(bits) if b]
    string = ''.join(map(str, bits))
    result = {
        'list': Binv(list(bits)), 'tuple': Binv(tuple(bits)), 'bools': Binv([bool(b) for b in bits]),
        'array': Binv(np.array(bits, dtype=int)), 'bool array': Binv(np.array(bits, dtype=bool)),
        'int8 array': Binv(np.array(bits, dtype=np.int8)),
        'digits': Binv(list(string)), 'string': Binv(string), 'spaced': Binv(spaced(bits, gaps)),
        'binv': Binv(Binv(list(bits))),
        'intval': Binv(intval=number, length=n), 'exposet': Binv(exposet=set(places), length=n),
        'exposet list': Binv(exposet=places[::-1], length=n), 'exposet tuple': Binv(exposet=tuple(places), length=n),
    }
    required = number.bit_length()
    if required == n:
        result['intval only'] = Binv(intval=number)
        result['exposet only'] = Binv(exposet=set(places))
    if required < n or n == required:
        result['intval minimal'] = Binv(intval=number, minimal_length=n)
        result['exposet minimal'] = Binv(exposet=places, minimal_length=n)
    for m in (0, required // 2, required):  # minimal length below the required one
        result['intval minimal %d' % m] = Binv(Binv(intval=number, minimal_length=m).vector + [False] * (n - required))
        result['exposet minimal %d' % m] = Binv(Binv(exposet=places, minimal_length=m).vector + [False] * (n - required))
    return result


def read_all(v, bits, message):
    n = len(bits)
    places = [i for i, b in enumerate(bits) if b]
    number = sum(1 << i for i in places)
    string = ''.join(map(str, bits))
    same(len(v), n, message + ' len')
    same(v.length, n, message + ' length')
    same([int(x) for x in v.vector], bits, message + ' vector')
    same([int(v[i]) for i in range(n)], bits, message + ' entries')
    same([int(v[i - n]) for i in range(n)], bits, message + ' entries from the end')
    same([int(x) for x in v], bits, message + ' iteration')
    same(sum(v), len(places), message + ' sum')
    same(v.weight, len(places), message + ' weight')
    same(v.intval, number, message + ' intval')
    same(v.exposet, set(places), message + ' exposet')
    same(v.string, string, message + ' string')
    same(v.required_length, number.bit_length(), message + ' required length')
    same(v.changes, sum(1 for a, b in zip(bits, bits[1:]) if a != b), message + ' changes')
    same([int(x) for x in v.reverse.vector], bits[::-1], message + ' reverse')
    same([int(x) for x in v.complement.vector], [1 - b for b in bits], message + ' complement')
    same([int(x) for x in (~v).vector], [1 - b for b in bits], message + ' inverted')
    if n in (1, 2, 4, 8, 16, 32, 64):
        groups = []
        for start in range(0, n, 16):
            sixteen = string[start:start + 16]
            groups.append(' '.join(sixteen[i:i + 4] for i in range(0, len(sixteen), 4)))
        same(v.pretty, '  '.join(groups), message + ' pretty')
        same(Binv(v.pretty), v, message + ' from pretty')
    else:
        refuses(lambda: v.pretty, message + ' pretty of other length', ValueError)
    falses = [i for i, b in enumerate(bits) if not b]
    same(v.set_part.blocks, sorted(b for b in (places, falses) if len(b) > 1), message + ' set_part blocks')
    for i in (0, n // 2, n - 1, n, n + 5):
        if i >= 0:
            same(bool(v.has_index(i)), i in places, message + ' has_index')


def vectors():
    return st.fixed_dictionaries({
        'bits': gen.bits_any(), 'gaps': st.lists(st.integers(0, 3), max_size=4),
        'slices': st.lists(st.tuples(
            st.none() | st.integers(-30, 30), st.none() | st.integers(-30, 30), st.sampled_from([None, 1, 2, 3, -1, -2])
        ), max_size=4),
        'other': gen.bits(0, 12),
    })


def label(bits):
    if len(set(bits)) < 2:
        return None
    n = len(bits)
    return '%s bits' % ('2-16' if n <= 16 else '17-52' if n <= 52 else '53 or more')


@random_case('C01', vectors, quick=4000, rule='vectors with both digits')
def forms_and_readings(value):
    bits = value['bits']
    n = len(bits)
    base = Binv(bits)
    for name, v in forms(bits, value['gaps']).items():
        same(type(v), Binv, name)
        expect(v == base and base == v, 'not equal when built from ' + name, bits, v)
        expect(not (v != base), 'unequal when built from ' + name)
        same(hash(v), hash(base), 'hash when built from ' + name)
        same(str(v), str(base), 'str when built from ' + name)
        same(repr(v), str(base), 'repr when built from ' + name)
        read_all(v, bits, name)
    back = eval(repr(base), {'Binv': Binv})
    same(type(back), Binv, 'evaluated')
    expect(back == base, 'printed form evaluates to something else', repr(base), back)
    same(hash(back), hash(base), 'hash of evaluated')
    same([int(x) for x in back.vector], bits, 'evaluated vector')
    for start, stop, step in value['slices']:
        s = slice(start, stop, step)
        same([int(x) for x in base[s]], bits[s], 'slice')
    other = Binv(value['other'])
    joined = base + other
    same([int(x) for x in joined.vector], bits + value['other'], 'concatenation')
    same(joined.intval, base.intval + (other.intval << n), 'intval of concatenation')
    same([[int(x) for x in base.vector], [int(x) for x in other.vector]], [bits, value['other']], 'operands')
    # lengths shorter than required
    required = base.required_length
    if required:
        refuses(lambda: Binv(intval=base.intval, length=required - 1), 'length too small', ValueError)
        refuses(lambda: Binv(exposet=base.exposet, length=required - 1), 'length too small', ValueError)
    return label(bits)


def small(tier):
    for n in range(9 if tier == 'quick' else 12):
        for number in range(1 << n):
            yield [n, number]


@enum_case('C01', small, rule='vectors with both digits')
def all_small_vectors(value):
    n, number = value
    bits = [(number >> i) & 1 for i in range(n)]
    v = Binv(intval=number, length=n)
    read_all(v, bits, 'intval')
    read_all(Binv(exposet=[i for i in range(n) if bits[i]], length=n), bits, 'exposet')
    expect(eval(repr(v), {'Binv': Binv}) == v, 'printed form evaluates to something else', repr(v))
    expect(Binv(bits) == v, 'list and number', bits)
    return label(bits)


def aliasing():
    return st.fixed_dictionaries({'bits': gen.bits(1, 24), 'place': st.integers(0, 23), 'form': st.sampled_from(['list', 'binv', 'array'])})


@random_case('C01', aliasing, quick=400, rule='every input')
def independent_of_the_input_object(value):
    """Changing the list, array or vector object handed in afterwards does not change the new vector, nor the other way."""
    bits, place = value['bits'], value['place'] % len(value['bits'])
    source = {'list': list(bits), 'array': np.array(bits), 'binv': Binv(bits)}[value['form']]
    v = Binv(source)
    before = copy.deepcopy(v.vector)
    if value['form'] == 'binv':
        source.vector[place] = not source.vector[place]
    else:
        source[place] = 1 - source[place]
    same(v.vector, before, 'vector after the source was changed')
    same([int(x) for x in v.vector], bits, 'vector after the source was changed')
    return value['form']

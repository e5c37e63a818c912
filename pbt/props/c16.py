"""Boolean functions form a Boolean algebra over any arguments."""
from functools import reduce

from hypothesis import strategies as st

from discretehelpers.boolf import Boolf
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, same
from pbt.lib import build, is_fn, make


def laws(fs):
    f, g, h = fs
    a, b, c = [make(x) for x in fs]
    one, zero = Boolf('1'), Boolf('0')
    is_fn(a & b, ref.f_and(f, g), 'and')
    is_fn(a | b, ref.f_or(f, g), 'or')
    is_fn(a ^ b, ref.f_xor(f, g), 'xor')
    is_fn(~a, ref.f_not(f), 'not')
    is_fn(a.complement, ref.f_not(f), 'complement')
    is_fn(a.reverse, ref.canon(f[0], ref.undigits(ref.digits(f[1], 1 << len(f[0]))[::-1])), 'reverse')
    is_fn(a.root_boolf, (tuple(range(len(f[0]))), f[1]), 'root')
    same(bool(a.is_root), list(f[0]) == list(range(len(f[0]))), 'is root')
    same(list(a.spread_vector), [x - i for i, x in enumerate(f[0])], 'spread')
    expect(a & b == b & a and a | b == b | a and a ^ b == b ^ a, 'commutativity')
    expect((a & b) & c == a & (b & c) and (a | b) | c == a | (b | c) and (a ^ b) ^ c == a ^ (b ^ c), 'associativity')
    expect(a & (b | c) == (a & b) | (a & c) and a | (b & c) == (a | b) & (a | c), 'distributivity')
    expect(a & (b ^ c) == (a & b) ^ (a & c), 'distributivity of xor')
    expect(a & (a | b) == a and a | (a & b) == a, 'absorption')
    expect(a & a == a and a | a == a and a ^ a == zero, 'idempotence')
    expect(a & ~a == zero and a | ~a == one and a ^ ~a == one and ~~a == a, 'complement')
    expect(~(a & b) == ~a | ~b and ~(a | b) == ~a & ~b and a ^ b == (a & ~b) | (~a & b), 'De Morgan')
    expect(a & one == a and a | zero == a and a & zero == zero and a | one == one and a ^ zero == a and a ^ one == ~a, 'neutral elements')
    for x, y, u, v in ((a, b, f, g), (b, a, g, f), (a & b, a, ref.f_and(f, g), f), (a, a | b, f, ref.f_or(f, g)), (a, make(f), f, f)):
        le, ge = ref.implies(u, v), ref.implies(v, u)
        same(bool(x.bitwise_le(y)), le, 'bitwise <=')
        same(bool(x.bitwise_lt(y)), le and not ge, 'bitwise <')
        same(bool(x.bitwise_ge(y)), ge, 'bitwise >=')
        same(bool(x.bitwise_gt(y)), ge and not le, 'bitwise >')
        same(bool(x.bitwise_le(y)), x & y == x, 'bitwise <= by conjunction')
        same(bool(x == y), u == v, 'equality')
        same([bool(x < y), bool(x == y), bool(x > y)].count(True), 1, 'exactly one of <, ==, >')
        same(bool(x <= y), bool(x < y or x == y), '<=')
        same(bool(x >= y), bool(x > y or x == y), '>=')
        same(bool(x < y), bool(y > x), '< and >')
    for x, y, z in ((a, b, c), (b, c, a), (c, a, b), (a, c, b), (c, b, a), (b, a, c)):
        expect(not (x < y and y < z) or x < z, 'order is not transitive', x, y, z)
    is_fn(a, f, 'operand after use')
    is_fn(b, g, 'operand after use')
    return a, b, c


@st.composite
def triples(draw):
    d = [draw(gen.fns(0, 4, max_gap=1)) for _ in range(3)]
    how = draw(st.sampled_from(['any', 'any', 'below', 'shifted', 'same names']))
    if how == 'below':
        d[1] = {'t': d[0]['t'] & draw(gen.words(1 << len(d[0]['v']))), 'v': d[0]['v']}
    elif how == 'shifted':
        d[1] = {'t': d[1]['t'], 'v': [x + 5 for x in d[1]['v']]}
    elif how == 'same names' and len(d[0]['v']) <= 4:
        d[1] = {'t': draw(gen.tables(len(d[0]['v']))), 'v': d[0]['v']}
    return d


@random_case('C16', triples, quick=700, rule='first two differ and are not constant; labelled by relation of their arguments and order')
def algebra(value):
    fs = [ref.fn(d) for d in value]
    laws(fs)
    f, g = fs[:2]
    if not f[0] or not g[0] or f == g:
        return None
    u, v = set(f[0]), set(g[0])
    relation = 'disjoint' if not u & v else 'same' if u == v else 'nested' if u <= v or v <= u else 'overlapping'
    return relation + (', comparable' if ref.implies(f, g) or ref.implies(g, f) else '')


@st.composite
def lists(draw):
    entry = st.one_of(st.integers(-6, 5), st.integers(-6, 5), gen.fns(0, 3, max_gap=1))
    more = st.one_of(st.integers(-8, 7), gen.fns(0, 2, max_gap=1))
    return draw(st.one_of(st.lists(entry, max_size=4), st.lists(entry, max_size=4), st.lists(more, min_size=5, max_size=9)))


@random_case('C16', lists, quick=1500, rule='at least two entries; labelled by number and by functions among them')
def connectives(value):
    fs = [ref.literal(x) if type(x) is int else ref.fn(x) for x in value]
    entries = [x if type(x) is int else build(x) for x in value]
    given = list(entries)
    one, zero = ref.constant(1), ref.constant(0)
    is_fn(Boolf(multi_and=entries), reduce(ref.f_and, fs, one), 'conjunction')
    is_fn(Boolf(multi_or=entries), reduce(ref.f_or, fs, zero), 'disjunction')
    is_fn(Boolf(multi_xor=entries), reduce(ref.f_xor, fs, zero), 'xor')
    is_fn(Boolf(multi_xand=entries), reduce(lambda a, b: ref.f_not(ref.f_xor(a, b)), fs, one), 'equivalence')
    is_fn(Boolf(multi_and=tuple(entries)), reduce(ref.f_and, fs, one), 'conjunction of tuple')
    expect(entries == given, 'argument changed')
    for x, f in zip(entries, fs):
        if type(x) is not int:
            is_fn(x, f, 'entry after use')
            is_fn(Boolf(multi_and=[x]), f, 'conjunction of one')
    if len(value) < 2:
        return None
    return '%d entries%s' % (len(value), '' if all(type(x) is int for x in value) else ', functions')


def pairs(tier):
    names = [[0, 1], [1, 2], [0, 2], [3, 4]]
    step = 3 if tier == 'quick' else 1
    for s in range(16):
        for t in range(0, 16, step):
            for v in names:
                yield [{'t': s, 'v': [0, 1]}, {'t': (t + s) % 16, 'v': v}, {'t': 9, 'v': [1, 3]}]


@enum_case('C16', pairs, rule='first two not constant')
def all_small_pairs(value):
    fs = [ref.fn(d) for d in value]
    laws(fs)
    return 'pair' if fs[0][0] and fs[1][0] else None


@st.composite
def larger_triples(draw):
    """Functions of up to seven arguments, all of them among the first eight."""
    d = [draw(gen.root_fns(5, 7)), draw(gen.root_fns(3, 7)), draw(gen.root_fns(1, 4))]
    for x in d:
        x['v'] = sorted(draw(gen.shuffled(range(8)))[:len(x['v'])])
    if draw(st.booleans()):
        d[1] = {'t': d[0]['t'] ^ 1 << draw(gen.words(len(d[0]['v']))), 'v': d[0]['v']}  # only one place is different
    return d


@random_case('C16', larger_triples, quick=40, rule='first two differ and have at least five arguments together; labelled by relation of their arguments and order')
def larger_functions(value):
    label = algebra(value)
    return label if len(set(ref.fn(value[0])[0]) | set(ref.fn(value[1])[0])) > 4 else None

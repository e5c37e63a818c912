"""Boolean functions have one canonical form whatever they are built from."""
from functools import reduce

from hypothesis import strategies as st

from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, same
from pbt.lib import is_fn, make


def permuted_table(atoms, bits, order):
    """Truth table for the arguments in the order given by positions in `atoms`."""
    result = 0
    for i in range(1 << len(order)):
        j = 0
        for k, pos in enumerate(order):
            if (i >> k) & 1:
                j |= 1 << pos
        if (bits >> j) & 1:
            result |= 1 << i
    return result


def documented(names, bits):
    """Function given by a truth table and names in any order, by the convention explained below."""
    ranks = [sorted(names).index(a) for a in names]
    return ref.canon([sorted(names)[k] for k in ref.invert(ranks)], bits)


def monomial(atoms, i):
    return [a for k, a in enumerate(atoms) if (i >> k) & 1]


def encodings(f, extra, order, spots_order):
    """All ways to say the same thing. `extra`: names of additional arguments. `order`: of all arguments."""
    atoms, bits = f
    n = len(atoms)
    wide = sorted(set(atoms) | set(extra))
    order = [k for k in order if k < len(wide)]
    table = ref.table(f, wide)
    # documented convention for names not in ascending order (README of the reordering helper):
    # the permutation that sorts the names also sorts the digits of the places
    t = permuted_table(wide, table, ref.invert(order))
    size = 1 << len(wide)
    names = [wide[k] for k in order]
    vector = ref.digits(t, size)
    string = ''.join(map(str, vector))
    yield 'list', Boolf(list(vector), list(names))
    yield 'list of booleans', Boolf([bool(x) for x in vector], list(names))
    yield 'tuple', Boolf(tuple(vector), tuple(names))
    yield 'string', Boolf(string, list(names))
    yield 'string with spaces', Boolf(' '.join(string[i:i + 4] for i in range(0, size, 4)), list(names))
    yield 'binary vector', Boolf(Binv(vector), list(names))
    spots = sorted(ref.exps(t), key=lambda i: (i * 7919 + spots_order) % 101)
    yield 'true places', Boolf(fullspots=spots, atomvals=list(names))
    yield 'set of true places', Boolf(fullspots=set(spots), atomvals=list(names))
    yield 'tuple of true places', Boolf(fullspots=tuple(spots), atomvals=tuple(names))
    adicity = ref.adicity(f)
    if adicity <= 5:
        arity = adicity + spots_order % 3 if adicity < 4 else adicity
        full = ref.table_arity(f, arity)
        vector = ref.digits(full, 1 << arity)
        yield 'table without names', Boolf(vector)
        yield 'integer with arity', Boolf(full, arity=arity)
        yield 'true places with arity', Boolf(fullspots=ref.exps(full), arity=arity)
        yield 'Zhegalkin index', Boolf(zhe=ref.zhe(f))
        yield 'Walsh spectrum', Boolf(walsh_spectrum=ref.walsh(full, arity))
    if n <= 4:
        literals = lambda i: [a if (i >> k) & 1 else ~a for k, a in enumerate(atoms)]
        yield 'disjunction of conjunctions', Boolf(multi_or=[Boolf(multi_and=literals(i)) for i in ref.exps(bits)])
        zeros = ref.exps(bits ^ ref.full(n))
        yield 'conjunction of disjunctions', Boolf(multi_and=[Boolf(multi_or=[~x for x in literals(i)]) for i in zeros])
        anf = ref.exps(ref.moebius_fast(bits, n))
        yield 'xor of monomials', Boolf(multi_xor=[Boolf(multi_and=monomial(atoms, i)) for i in anf])
    if n == 0:
        yield 'boolean', Boolf(bool(bits))
        yield 'one digit', Boolf(str(bits))
    if n == 1:
        yield 'single argument', Boolf(atom=atoms[0] if bits == 2 else ~atoms[0])
        yield 'conjunction of one', Boolf(multi_and=[atoms[0] if bits == 2 else ~atoms[0]])
        yield 'equivalence of one', Boolf(multi_xand=[atoms[0] if bits == 2 else ~atoms[0]])


def agree(f, extra, order, spots_order):
    first = None
    for name, b in encodings(f, extra, order, spots_order):
        is_fn(b, f, name)
        if first is None:
            first = b
        expect(b == first and first == b and not (b != first), name + ': not equal to the first', b, first)
        same(hash(b), hash(first), name + ': hash')
        same(str(b), str(first), name + ': printed form')
        same(repr(b), str(b), name + ': repr')
    for text in {str(first), repr(first)}:
        back = eval(text, {'Boolf': Boolf})
        is_fn(back, f, 'printed form')
        expect(back == first, 'printed form evaluates to something else', text)
    return first


@st.composite
def cases(draw, low=0, high=5, max_gap=3):
    d = draw(gen.fns(low, high, max_gap=max_gap))
    shift = draw(st.sampled_from([0, 0, 0, 0, 5, 40]))
    return {
        't': d['t'], 'v': [x + shift for x in d['v']], 'extra': draw(st.lists(st.integers(0, 12), max_size=2)),
        'order': draw(gen.shuffled(range(high + 2))), 'spots': draw(st.integers(0, 100)),
    }


@random_case('C15', cases, quick=1200, rule='depends on at least two arguments; labelled by their number and by surplus arguments')
def same_function(value):
    f = ref.fn(value)
    extra = [x for x in value['extra'] if x not in f[0]]
    agree(f, extra, value['order'], value['spots'])
    if len(f[0]) < 2:
        return None
    return '%d arguments%s' % (len(f[0]), ' and others' if extra or len(f[0]) < len(value['v']) else '')


@st.composite
def entries(draw):
    entry = st.one_of(st.integers(-4, 3), st.integers(-4, 3), gen.fns(0, 3, max_gap=1))
    result = draw(st.lists(entry, max_size=5))
    again = draw(st.lists(st.integers(0, 9), max_size=2))
    return draw(gen.shuffled(result + [result[k % len(result)] for k in again if result]))


@random_case('C15', entries, quick=600, rule='at least two entries; labelled by repetition')
def connectives(value):
    """A connective of arguments and functions equals the function given by its truth table, also if entries are repeated."""
    fs = [ref.literal(x) if type(x) is int else ref.fn(x) for x in value]
    given = [x if type(x) is int else make(ref.fn(x)) for x in value]
    for name, start, step in (('and', 1, ref.f_and), ('or', 0, ref.f_or), ('xor', 0, ref.f_xor), ('xand', 1, lambda f, g: ref.f_not(ref.f_xor(f, g)))):
        f = reduce(step, fs, ref.constant(start))
        first = make(f)
        for entries in (list(given), tuple(given), given[::-1]):
            b = Boolf(**{'multi_' + name: entries})
            is_fn(b, f, name)
            expect(b == first and first == b and hash(b) == hash(first), name + ': not equal to the function of the truth table', b, first)
            same(str(b), str(first), name + ': printed form')
    if len(value) < 2:
        return None
    return 'repeated' if len(set(map(str, value))) < len(value) else 'different'


def tables(tier):
    yield {'t': 0, 'v': []}
    yield {'t': 1, 'v': []}
    for names in [[0], [3], [0, 1], [1, 3], [2, 0]]:
        for t in range(1 << (1 << len(names))):
            yield {'t': t, 'v': names}
    for names in [[0, 1, 2]] if tier == 'quick' else [[0, 1, 2], [0, 2, 3], [2, 0, 1], [4, 2, 1]]:
        for t in range(256):
            yield {'t': t, 'v': names}


@enum_case('C15', tables, rule='depends on at least two arguments')
def all_small(value):
    f = documented(value['v'], value['t'])
    is_fn(Boolf(ref.digits(value['t'], 1 << len(value['v'])), list(value['v'])), f, 'given table')
    is_fn(Boolf(fullspots=ref.exps(value['t']), atomvals=list(value['v'])), f, 'given true places')
    agree(f, [5] if value['t'] % 3 else [], [1, 0, 3, 2], value['t'])
    return len(f[0]) if len(f[0]) > 1 else None


@st.composite
def pairs(draw):
    d = draw(gen.fns(0, 6))
    how = draw(st.sampled_from(['bit', 'bit', 'name', 'other', 'complement', 'swap']))
    e = {'t': d['t'], 'v': list(d['v'])}
    n = len(d['v'])
    if how == 'bit':
        e['t'] ^= 1 << draw(gen.words(n))
    elif how == 'name' and n:
        k = draw(st.integers(0, n - 1))
        e['v'][k] = draw(st.integers(0, 25).filter(lambda x: x not in d['v']))
    elif how == 'swap' and n > 1:
        i, j = draw(st.integers(0, n - 2)), n - 1
        e['v'][i], e['v'][j] = e['v'][j], e['v'][i]
    elif how == 'complement':
        e['t'] ^= ref.full(n)
    else:
        e = draw(gen.fns(0, 6))
    return [d, e]


@random_case('C15', pairs, quick=1500, rule='different functions with at least one argument; labelled by number of arguments')
def different_functions(value):
    f, g = [documented(d['v'], d['t']) for d in value]
    a, b = [Boolf(ref.digits(d['t'], 1 << len(d['v'])), list(d['v'])) for d in value]
    is_fn(a, f, 'first')
    is_fn(b, g, 'second')
    same(a == b, f == g, 'equality')
    same(a != b, f != g, 'inequality')
    same(str(a) == str(b), f == g, 'equality of printed forms')
    same(len({a, b}), 1 if f == g else 2, 'set of both')
    is_fn(eval(str(a), {'Boolf': Boolf}), f, 'printed form')
    if f == g:
        same(hash(a), hash(b), 'hash')
        return None
    return '%d and %d arguments' % (len(f[0]), len(g[0])) if f[0] and g[0] else None


@random_case('C15', lambda: cases(6, 8, 1), quick=40, rule='depends on at least six arguments; labelled by their number and by surplus arguments')
def larger_functions(value):
    label = same_function(value)
    return label if label and len(ref.fn(value)[0]) > 5 else None

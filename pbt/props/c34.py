"""Linear functions, Walsh matrices and argument patterns fit together."""
from itertools import product
from operator import mul

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same
from pbt.lib import is_binv, is_fn, make


def row(walsh, arity, parity=0):
    """Digits of the linear function."""
    return [(ref.popcount(walsh & i) + parity) % 2 for i in range(1 << arity)]


def as_bits(digits):
    return sum(d << i for i, d in enumerate(digits))


def leader_and_quadrant(walsh, parity):
    return walsh >> 1, parity + 2 * ((ref.popcount(walsh) + parity) % 2)


def reads_as(arg, walsh, parity, message):
    from discretehelpers import a
    for trust in (False, True):
        same(tuple(map(int, a.linear_to_walsh_and_oddness(arg, trust=trust))), (walsh, parity), '%s: Walsh index and oddness (trust=%s)' % (message, trust))
        same(tuple(map(int, a.linear_to_leader_and_quadrant(arg, trust=trust))), leader_and_quadrant(walsh, parity), '%s: leader and quadrant (trust=%s)' % (message, trust))
    same(tuple(map(int, a.linear_to_walsh_and_oddness(arg))), (walsh, parity), '%s: Walsh index and oddness' % message)


def is_row(result, digits, message):
    same(len(result), len(digits), message + ': length')
    same([int(d) for d in result], digits, message)


########################################################################################################################


def linear_range(tier):
    for arity in range(1, 8 if tier == 'thorough' else 6):
        for walsh in range(1 << arity):
            for parity in range(2):
                yield [walsh, arity, parity]


def linear_values():
    return gen.sizes(1, 9).flatmap(lambda n: st.tuples(gen.words(n), st.just(n), st.integers(0, 1)))


def check_linear(value):
    from discretehelpers import a
    from discretehelpers.binv import Binv
    walsh, arity, parity = value
    digits = row(walsh, arity, parity)
    leader, quadrant = leader_and_quadrant(walsh, parity)
    f = ref.linear_function(walsh, parity)

    # build
    is_row(a.make_linear_binv(walsh, arity, parity), digits, 'vector by Walsh index')
    is_row(a.make_linear_binv(leader=leader, quadrant=quadrant, arity=arity), digits, 'vector by leader and quadrant')
    patterns = a.make_atompatterns(arity)
    is_row(a.make_linear_binv(walsh, arity, bool(parity), prefab_atom_patterns=patterns), digits, 'vector by Walsh index and given patterns')
    for i in range(arity):
        is_row(patterns[i], row(1 << i, arity), 'pattern after use')
    for other in (arity - 1, arity + 1):
        if other:
            refuses(lambda: a.make_linear_binv(walsh, arity, prefab_atom_patterns=a.make_atompatterns(other)), 'given patterns of wrong arity', Dedicated)
    if not parity:
        is_row(a.make_linear_binv(walsh, arity), digits, 'vector by Walsh index alone')
        is_fn(a.make_linear_boolf(walsh), f, 'function by Walsh index alone')
    b = a.make_linear_boolf(walsh, parity)
    is_fn(b, f, 'function by Walsh index')
    is_fn(a.make_linear_boolf(leader=leader, quadrant=quadrant), f, 'function by leader and quadrant')
    same(bool(b.is_linear), True, 'is linear')

    # read
    v = Binv(list(digits))
    string = ''.join(map(str, digits))
    given = list(digits)
    for arg in (v, string, given, tuple(given), [bool(d) for d in digits]):
        reads_as(arg, walsh, parity, 'read %s' % type(arg).__name__)
    reads_as(b, walsh, parity, 'read function')
    same(given, digits, 'list after use')
    is_row(v, digits, 'vector after use')
    for trust in (False, True):
        if not parity:
            for arg in (v, string, given):
                same(int(a.walsh_function_to_index(arg, trust=trust)), walsh, 'index of Walsh function')
    if parity:
        refuses(lambda: a.walsh_function_to_index(v), 'index of negated Walsh function', Exception)

    # refused
    refuses(lambda: a.make_linear_binv(walsh, None, parity), 'no arity', Dedicated)
    refuses(lambda: a.make_linear_binv(walsh, 0, parity), 'arity 0', Dedicated)
    refuses(lambda: a.make_linear_binv(walsh | 1 << arity, arity, parity), 'too big Walsh index', Dedicated)
    refuses(lambda: a.make_linear_binv(leader=leader | 1 << arity, quadrant=quadrant, arity=arity), 'too big leader', Dedicated)
    refuses(lambda: a.make_linear_binv(walsh, arity, 2), 'wrong parity', Dedicated)
    refuses(lambda: a.make_linear_boolf(walsh, 2), 'wrong parity', Dedicated)
    for kwargs in (dict(), dict(leader=leader), dict(quadrant=quadrant), dict(parity=parity),
                   dict(walsh=walsh, leader=leader), dict(walsh=walsh, quadrant=quadrant), dict(walsh=walsh, leader=leader, quadrant=quadrant),
                   dict(leader=leader, quadrant=4), dict(leader=leader, quadrant=-1), dict(leader=leader, quadrant=quadrant, parity=parity)):
        refuses(lambda: a.make_linear_boolf(**kwargs), 'function from %s' % sorted(kwargs), Dedicated)
        refuses(lambda: a.make_linear_binv(arity=arity, **kwargs), 'vector from %s' % sorted(kwargs), Dedicated)
    return '%d%d' % (quadrant, walsh != 0) if ref.popcount(walsh) > 1 else None


@enum_case('C34', linear_range, rule='linear function of at least two arguments')
def all_linear(value):
    return check_linear(value)


@random_case('C34', linear_values, quick=60, rule='linear function of at least two arguments')
def some_linear(value):
    return check_linear(value)


@random_case('C34', lambda: gen.sizes(1, 8).flatmap(lambda n: st.tuples(st.just(n), gen.words(n), st.integers(0, 1), st.lists(st.integers(0, (1 << n) - 1), max_size=3, unique=True))), quick=400, rule='labelled by result; at least two arguments')
def nearly_linear(value):
    """Linear vectors with a few flipped places."""
    from discretehelpers import a
    from discretehelpers.binv import Binv
    from discretehelpers.boolf import Boolf
    arity, walsh, parity, flips = value
    digits = row(walsh, arity, parity)
    for i in flips:
        digits[i] ^= 1
    found = [(w, p) for w in range(1 << arity) for p in range(2) if row(w, arity, p) == digits]
    v = Binv(list(digits))
    b = Boolf(list(digits))
    same(bool(b.is_linear), bool(found), 'is linear')
    if found:
        reads_as(v, *found[0], 'read vector')
        reads_as(b, *found[0], 'read function')
    else:
        for arg in (v, b, list(digits), ''.join(map(str, digits))):
            refuses(lambda: a.linear_to_walsh_and_oddness(arg), 'Walsh index of vector that is not linear', Exception)
            refuses(lambda: a.linear_to_leader_and_quadrant(arg), 'leader of vector that is not linear', Exception)
        refuses(lambda: a.walsh_function_to_index(v), 'Walsh index of vector that is no Walsh function', Exception)
    return str(bool(found)) if arity > 1 else None


@random_case('C34', lambda: st.tuples(gen.fns(0, 5, spread=True), gen.names(5, 3), st.integers(0, 1)), quick=300, rule='linear function with gaps between the names')
def linear_objects(value):
    """Function objects with any argument names."""
    from discretehelpers import a
    desc, names, parity = value
    f = ref.fn(desc)
    n = len(f[0])
    rows = {as_bits(row(w, n, p)) for w in range(1 << n) for p in range(2)}
    same(bool(make(f).is_linear), f[1] in rows, 'is linear')
    names = names[:1 + len(f[0]) % 5]
    atoms = tuple(sorted(names))
    g = (atoms, as_bits(row((1 << len(atoms)) - 1, len(atoms), parity)))
    b = make(g)
    same(bool(b.is_linear), True, 'parity function is linear')
    if atoms[-1] < 12:
        reads_as(b, sum(1 << x for x in atoms), parity, 'read function')
    return len(atoms) if atoms != tuple(range(len(atoms))) else None


@random_case('C34', lambda: st.tuples(st.integers(2, 12), st.integers(0, 1), st.sampled_from(['length', 'set', 'digit'])), quick=100, rule='wrong length')
def malformed(value):
    from discretehelpers import a
    n, d, kind = value
    if kind == 'length':
        if n & (n - 1) == 0:
            n += 1 if n > 2 else 3
        digits = [(i + d) % 2 for i in range(n)]
        if n & (n - 1) == 0:
            return None
        refuses(lambda: a.linear_to_walsh_and_oddness(digits), 'length %d' % n, Exception)
        refuses(lambda: a.walsh_function_to_index(digits), 'length %d' % n, Exception)
        return n
    if kind == 'set':
        refuses(lambda: a.linear_to_walsh_and_oddness({0, 1}), 'set', Dedicated)
        refuses(lambda: a.linear_to_leader_and_quadrant(n), 'number', Dedicated)
    else:
        refuses(lambda: a.linear_to_walsh_and_oddness([d, n]), 'digit %d' % n, Exception)
    return None


########################################################################################################################


def matrix_range(tier):
    for n in range(9 if tier == 'thorough' else 7):
        for negate in (False, True):
            yield ['binary', n, negate]
    for n in range(9 if tier == 'thorough' else 8):
        yield ['ternary', n, None]


@enum_case('C34', matrix_range, rule='size at least three')
def matrices(value):
    from discretehelpers import a
    kind, n, negate = value
    if kind == 'binary':
        m = a.arity_to_walsh_matrix(n, negate)
        same(m.tolist(), [row(i, n, int(negate)) for i in range(1 << n)], 'Walsh matrix')
        if not negate:
            same(a.arity_to_walsh_matrix(n).tolist(), m.tolist(), 'default')
            for i in range(1 << n):
                for j in range(i):
                    expect((m[i] ^ m[j]).sum() * 2 == 1 << n, 'rows not orthogonal', i, j)
    else:
        vectors = [list(v)[::-1] for v in product([-1, 0, 1], repeat=n)]
        m = a.balanced_ternary_walsh_matrix(n)
        # all rows of the small matrices, and rows spread over the big ones
        rows = range(0, 3 ** n, 1 if n < 6 else 3 ** (n - 4) + 1)
        expected = [[(sum(map(mul, u, vectors[i])) + 1) % 3 - 1 for u in vectors] for i in rows]
        same(list(m.shape), [3 ** n, 3 ** n], 'shape of ternary Walsh matrix')
        same(m[list(rows)].tolist(), expected, 'ternary Walsh matrix')
        m, v = a.balanced_ternary_walsh_matrix(n, with_vectors_matrix=True)
        same(m[list(rows)].tolist(), expected, 'ternary Walsh matrix')
        same(v.tolist(), vectors, 'balanced ternary vectors')
        for x in vectors:
            same(a.balanced_ternary_vector_to_string(x), ''.join({-1: '−', 0: '0', 1: '+'}[e] for e in x), 'string of balanced ternary vector')
    return kind if n > 2 else None


@random_case('C34', lambda: gen.sizes(1, 8).flatmap(lambda n: st.tuples(st.just(n), gen.shuffled(range(n)), gen.words(n))), quick=200, rule='at least three arguments, some negated')
def patterns(value):
    from discretehelpers import a
    n, order, negated = value
    signed = [~k if (negated >> k) & 1 else k for k in order]
    expected = {}
    for k in range(n):
        for sign in range(2):
            digits = row(1 << k, n, sign)
            expected[~k if sign else k] = digits
            is_row(a.make_atompattern(~k if sign else k, n), digits, 'pattern of signed argument')
            is_row(a.make_atompattern(k, n, bool(sign)), digits, 'pattern of argument with sign')
            is_row(a.make_atompattern(~k, n, negate=not sign), digits, 'pattern of negated argument with sign')
            same([int(d) for d in a.make_atompattern_gen(~k if sign else k, n)], digits, 'generated pattern')
            for arg in (a.make_atompattern(k, n, bool(sign)), list(digits), tuple(digits)):
                same(tuple(map(int, a.atompattern_to_signed_index(arg))), (k, sign), 'argument and sign of pattern')
    given = list(signed)
    for arg in (given, tuple(given)):
        result = a.make_atompatterns(arg)
        same(len(result), n, 'number of patterns')
        for v, k in zip(result, signed):
            is_row(v, expected[k], 'pattern of %d' % k)
    same(given, signed, 'list after use')
    result = a.make_atompatterns(n)
    same(len(result), n, 'number of patterns')
    for k in range(n):
        is_row(result[k], expected[k], 'pattern of %d' % k)
    refuses(lambda: a.make_atompattern(n, n), 'too big', Exception)
    refuses(lambda: a.make_atompattern(~n, n), 'too big', Exception)
    refuses(lambda: a.make_atompatterns(0), 'no arguments', Exception)
    refuses(lambda: a.make_atompatterns({0, 1}), 'set', Exception)
    if n > 1:
        refuses(lambda: a.atompattern_to_signed_index(row(3, n)), 'two arguments', Exception)
    refuses(lambda: a.atompattern_to_signed_index([negated & 1] * (1 << n)), 'constant', Exception)
    return n if n > 2 and negated else None

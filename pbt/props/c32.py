"""Integer helpers are exact for arbitrarily large numbers."""
from math import factorial

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same

REFUSED = (Exception,)


def exact(value, expected, msg):
    """Equal, and an integer."""
    same(value, expected, msg)
    expect(value % 1 == 0 and not isinstance(value, float), msg + ' is not an integer', value)


def check_number(n):
    from discretehelpers.a import (log_floor, log_ceil, log_int, is_power_of_two, decimal_length, int_to_exposet, exposet_to_int, vector_to_int, int_to_weight,
                                   int_to_factoradic, index_to_evil, index_to_odious, evil_to_index, odious_to_index)
    from discretehelpers.binv.a import binary_length
    length = len(bin(n)) - 2 if n else 0
    power = n > 0 and bin(n).count('1') == 1
    same(bool(is_power_of_two(n)), power, 'power of two %d' % n)
    if n:
        exact(log_floor(n), length - 1, 'floor of logarithm')
        exact(log_ceil(n), length - 1 if power else length, 'ceiling of logarithm')
        if power:
            exact(log_int(n), length - 1, 'logarithm')
        else:
            refuses(lambda: log_int(n), 'logarithm of %d' % n, 'ArgValueError')
    exact(decimal_length(n), len(str(n)) if n else 0, 'decimal length')
    exact(binary_length(n), length, 'binary length')
    digits = [int(c) for c in bin(n)[:1:-1]] if n else []
    exps = [i for i, d in enumerate(digits) if d]
    same(list(int_to_exposet(n)), exps, 'binary exponents')
    exact(exposet_to_int(exps), n, 'number of binary exponents')
    exact(exposet_to_int(set(exps)), n, 'number of set of binary exponents')
    exact(exposet_to_int(exps[::-1]), n, 'number of reversed binary exponents')
    exact(vector_to_int(digits), n, 'number of binary digits')
    exact(vector_to_int(digits + [0] * 3), n, 'number of binary digits with zeros')
    exact(vector_to_int(tuple(bool(d) for d in digits)), n, 'number of truth values')
    exact(int_to_weight(n), len(exps), 'binary weight')
    facto = int_to_factoradic(n)
    expect(all(0 <= d <= i for i, d in enumerate(facto)), 'factorial digits out of range', facto)
    same(sum(d * factorial(i) for i, d in enumerate(facto)), n, 'number of factorial digits')
    expect(not facto or facto[-1] != 0, 'leading zero in factorial digits', facto)
    parity = len(exps) & 1
    exact(index_to_evil(n), 2 * n + parity, 'evil number')
    exact(index_to_odious(n), 2 * n + 1 - parity, 'odious number')
    exact(evil_to_index(2 * n + parity), n, 'index of evil number')
    exact(odious_to_index(2 * n + 1 - parity), n, 'index of odious number')
    refuses(lambda: evil_to_index(2 * n + 1 - parity), 'index of odious number as evil', 'ArgValueError')
    refuses(lambda: odious_to_index(2 * n + parity), 'index of evil number as odious', 'ArgValueError')
    for m in ([-n] if n else []) + [-n - 1, n + 0.5 if n < 2 ** 50 else 0.5, 'a%d' % n, None]:
        for helper in (log_floor, log_ceil, log_int, decimal_length, binary_length, index_to_evil, index_to_odious, evil_to_index, odious_to_index):
            refuses(lambda: helper(m), '%s of %r' % (helper.__name__, m), REFUSED)
        if m is not None and not isinstance(m, str):
            same(bool(is_power_of_two(m)), False, 'power of two %r' % m)
    for helper in (log_floor, log_ceil, log_int):
        refuses(lambda: helper(0), 'logarithm of 0', 'ArgValueError')


def enum_numbers(tier):
    yield from range(0, 600)
    for e in range(9, 300 if tier == 'quick' else 2000, 1 if tier == 'quick' else 3):
        for d in (-1, 0, 1):
            yield 2 ** e + d
    for e in range(3, 120 if tier == 'quick' else 700):
        for d in (-1, 0, 1):
            yield 10 ** e + d


@enum_case('C32', enum_numbers, rule='number above 2 ** 53, where floating point numbers are not exact')
def near_powers(n):
    check_number(n)
    return n.bit_length() // 64 if n > 2 ** 53 else None


@random_case('C32', lambda: gen.naturals(600), quick=1500, rule='number above 2 ** 53')
def numbers(n):
    check_number(n)
    return n.bit_length() // 64 if n > 2 ** 53 else None


########################################################################################################################


@st.composite
def binom_cases(draw):
    n = draw(st.one_of(st.integers(0, 30), st.integers(0, 400)))
    return [n, draw(st.integers(0, n))]


@random_case('C32', binom_cases, quick=400, rule='result above 2 ** 53')
def binomials(value):
    from discretehelpers.a import binom
    n, k = value
    row = 1
    for i in range(k):
        row = row * (n - i) // (i + 1)
    exact(binom(n, k), row, 'binomial coefficient %d over %d' % (n, k))
    exact(binom(n, n - k), row, 'mirrored binomial coefficient')
    if 0 < k < n:
        exact(binom(n - 1, k - 1) + binom(n - 1, k), row, 'sum of binomial coefficients')
    refuses(lambda: binom(-n - 1, k), 'binomial coefficient of negative number', Exception)
    return row.bit_length() // 32 if row > 2 ** 53 else None


def euclid(a, b):
    while b:
        a, b = b, a % b
    return a


@random_case('C32', lambda: st.lists(st.one_of(st.integers(1, 60), st.integers(1, 10 ** 9), st.integers(1, 10 ** 25)), min_size=1, max_size=8), quick=500, rule='at least three numbers, result smaller than their product')
def multiples(value):
    from discretehelpers.a import multi_lcm
    given = list(value)
    result = multi_lcm(given)
    same(given, value, 'numbers after use')
    product = expected = 1
    for x in value:
        expected = expected // euclid(expected, x) * x
        product *= x
    exact(result, expected, 'least common multiple')
    exact(multi_lcm(tuple(value[::-1])), expected, 'least common multiple in other order')
    for x in value:
        same(result % x, 0, 'multiple of %d' % x)
    return len(value) if len(value) > 2 and expected < product else None


PRIMES = [2, 2, 2, 3, 3, 5, 7, 11, 13, 97, 101, 257, 997]


@st.composite
def factor_cases(draw):
    kind = draw(st.sampled_from(['product', 'product', 'small', 'square', 'large']))
    if kind == 'small':
        n = draw(st.integers(1, 5000))
    elif kind == 'square':
        p = draw(st.sampled_from(PRIMES + [1009, 7919]))
        n = p ** draw(st.integers(1, 3))
    elif kind == 'large':
        # one big prime factor, found last
        n = draw(st.sampled_from([1, 2, 6, 49, 4 * 97])) * draw(st.sampled_from([104729, 1299709, 15485863, 2147483647]))
    else:
        n = 1
        for p in draw(st.lists(st.sampled_from(PRIMES), max_size=14)):
            n *= p
    return {'n': n, 'more': draw(st.lists(st.sampled_from([2, 3, 5, 7, 11, 13, 17, 19]), max_size=3)), 'drop': draw(st.integers(0, 20))}


def is_prime(p):
    return p > 1 and all(p % d for d in range(2, min(p, int(p ** 0.5) + 2)))


@random_case('C32', factor_cases, quick=300, rule='at least two different prime factors; labelled by number of different factors')
def factors(value):
    from discretehelpers.a import prime_factors
    n = value['n']
    result = prime_factors(n)
    product = 1
    for p, e in result.items():
        expect(is_prime(p), 'factor is not prime', p)
        expect(e > 0, 'exponent is not positive', p, e)
        product *= p ** e
    same(product, n, 'product of prime factors')
    expected = sorted(set(result) | set(value['more']))
    for given in (expected, tuple(expected[::-1]), set(expected)):
        same(list(prime_factors(n, given)), [result.get(p, 0) for p in expected], 'exponents of expected factors')
        same(sorted(given), expected, 'expected factors after use')
    if result:
        missing = sorted(result)[value['drop'] % len(result)]
        refuses(lambda: prime_factors(n, [p for p in expected if p != missing]), 'unexpected factor %d' % missing, 'UnexpectedFactorError')
    return len(result) if len(result) > 1 else None


########################################################################################################################


@st.composite
def matrices(draw):
    n = draw(gen.sizes(0, 6))
    kind = draw(st.sampled_from(['small', 'small', 'big', 'binary', 'singular']))
    entry = {'small': st.integers(-5, 5), 'big': st.integers(-10 ** 20, 10 ** 20), 'binary': st.integers(0, 1), 'singular': st.integers(-2, 2)}[kind]
    rows = [[draw(entry) for _ in range(n)] for _ in range(n)]
    if kind == 'singular' and n > 1:
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if i != j:
            rows[i] = [draw(st.integers(-2, 2)) + x for x in rows[j]] if draw(st.booleans()) else list(rows[j])
    return rows


@random_case('C32', matrices, quick=500, rule='at least three rows; labelled by size and zero or nonzero determinant')
def determinants(value):
    from discretehelpers.a import integer_determinant
    given = [list(row) for row in value]
    expected = ref.int_det(value)
    exact(integer_determinant(given), expected, 'determinant')
    same(given, value, 'matrix after use')
    n = len(value)
    exact(integer_determinant([list(c) for c in zip(*value)]), expected, 'determinant of transposed matrix')
    exact(integer_determinant(tuple(tuple(r) for r in value)), expected, 'determinant of tuples')
    if n > 1:
        exact(integer_determinant(given[1:] + given[:1]), expected * (-1) ** (n - 1), 'determinant of rotated rows')
        refuses(lambda: integer_determinant(given[1:]), 'matrix with missing row', Exception)
        refuses(lambda: integer_determinant([row[1:] for row in given]), 'matrix with missing column', Exception)
        refuses(lambda: integer_determinant(given[:1] + [row[1:] for row in given[1:]]), 'matrix with rows of different length', Exception)
        for fraction in (0.5, -0.5, -7.25):
            refuses(lambda: integer_determinant([[fraction] + given[0][1:]] + given[1:]), 'fractional matrix', Exception)
            refuses(lambda: integer_determinant(given[:-1] + [given[-1][:-1] + [fraction]]), 'matrix with last entry fractional', Exception)
    if all(x in (0, 1) for row in value for x in row):
        exact(integer_determinant([[bool(x) for x in row] for row in value]), expected, 'determinant of truth values')
    return '%d %s' % (n, 'nonzero' if expected else 'zero') if n > 2 else None

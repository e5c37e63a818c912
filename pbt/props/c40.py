"""Signed-index helpers negate, take absolute values and print consistently."""
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same


def signed():
    return st.one_of(st.integers(-5, 4), st.integers(-1000, 1000), st.integers(-(1 << 70), 1 << 70))


def absolute(n):
    return n if n >= 0 else -n - 1


def text(n):
    return ('~' if n < 0 else '') + str(absolute(n))


def texts(vector):
    return '[' + ', '.join(map(text, vector)) + ']'


@random_case('C40', signed, quick=500, rule='negative number')
def single(n):
    from discretehelpers.a import logic_abs, logic_negate, logic_str
    same(logic_abs(n), absolute(n), 'absolute value')
    same(logic_str(n), text(n), 'printed')
    for yes in (True, 1, '1'):
        same(logic_negate(n, yes), -n - 1, 'negated on demand %r' % (yes,))
        same(logic_negate(n, yes, want_string=True), text(-n - 1), 'negated and printed on demand %r' % (yes,))
    for no in (False, 0, '0'):
        same(logic_negate(n, no), n, 'not negated on demand %r' % (no,))
        same(logic_negate(n, no, want_string=True), text(n), 'printed without negation on demand %r' % (no,))
    same(logic_negate(n), -n - 1, 'negated')
    same(logic_negate(logic_negate(n)), n, 'negated twice')
    same(logic_negate(n, want_string=True), text(-n - 1), 'negated and printed')
    same(logic_abs(logic_negate(n)), logic_abs(n), 'absolute value of negation')
    same(type(logic_negate(n)), int, 'type')
    for bad in (2, -1, 'a', '2', None, ''):
        refuses(lambda: logic_negate(n, bad), 'unfit demand %r' % (bad,), Dedicated)
    for bad in (str(n), float(n % 1000), None, [n]):
        refuses(lambda: logic_negate(bad), 'no integer %r' % (bad,), Dedicated)
        refuses(lambda: logic_str(bad), 'no integer %r' % (bad,), Dedicated)
    return text(n)[:2] if n < 0 else None


@random_case('C40', lambda: st.tuples(signed(), signed()), quick=500, rule='negative first number, or a decrease')
def increase(value):
    from discretehelpers.a import logic_abs_increase
    a, b = value
    refuses(lambda: logic_abs_increase(a, str(b)), 'string', Dedicated)
    refuses(lambda: logic_abs_increase(float(a), b), 'float', Dedicated)
    refuses(lambda: logic_abs_increase(a, None), 'nothing', Dedicated)
    refuses(lambda: logic_abs_increase(a, b, 1), 'unfit demand', Dedicated)
    for c in (b, -absolute(a), -absolute(a) - 1, 0):
        result = absolute(a) + c
        if result < 0:
            refuses(lambda: logic_abs_increase(a, c), 'decrease beyond 0', Dedicated)
            refuses(lambda: logic_abs_increase(a, c, True), 'decrease beyond 0', Dedicated)
            continue
        expected = result if a >= 0 else -result - 1
        same(logic_abs_increase(a, c), expected, 'increased')
        same(logic_abs_increase(a, c, True), text(expected), 'increased and printed')
        same(logic_abs_increase(expected, -c), a, 'decreased again')
    return 'negative' if a < 0 else 'decrease' if b < 0 else None


@st.composite
def vectors(draw):
    size = draw(st.one_of(gen.sizes(0, 7), gen.sizes(0, 7), gen.sizes(8, 40)))
    small = draw(st.booleans())
    values = [draw(st.integers(-4, 3) if small else signed()) for _ in range(size)]
    return {'values': values, 'where': [draw(st.integers(0, 1)) for _ in range(size)], 'more': [draw(st.integers(-3, 4)) for _ in range(size)]}


@random_case('C40', vectors, quick=500, rule='some entries are selected and some are not')
def many(value):
    from discretehelpers.a import logic_abs_increase_vector, logic_abs_vector, logic_negate_vector, logic_str_vector
    from discretehelpers.binv import Binv
    values, where, more = value['values'], value['where'], value['more']
    given = list(values)
    same(logic_abs_vector(given), [absolute(x) for x in values], 'absolute values')
    same(logic_abs_vector(tuple(given)), [absolute(x) for x in values], 'absolute values of tuple')
    same(logic_str_vector(given), texts(values), 'printed')
    same(logic_str_vector(tuple(given)), texts(values), 'tuple printed')

    # by place
    expected = [-x - 1 if w else x for x, w in zip(values, where)]
    selections = [list(where), tuple(where), [bool(w) for w in where], ''.join(map(str, where)), list(map(str, where))]
    if where:
        selections.append(Binv(list(where)))
    for selection in selections:
        same(logic_negate_vector(given, selection), expected, 'negated by place %r' % (selection,))
        same(logic_negate_vector(values=tuple(given), where=selection), expected, 'tuple negated by place')
        same(logic_negate_vector(given, where=selection, want_string=True), texts(expected), 'negated by place and printed')
        same(logic_negate_vector(logic_negate_vector(given, selection), selection), values, 'negated twice by place')
    for bad in (list(where) + [0], [2] + list(where)[1:], [-1] + list(where)[1:]):
        refuses(lambda: logic_negate_vector(given, bad), 'unfit places %r' % (bad,), Dedicated)

    # by value
    which = sorted({absolute(x) for x, w in zip(values, where) if w})
    expected = [-x - 1 if absolute(x) in which else x for x in values]
    for selection in (list(which), tuple(which), set(which), which[::-1]):
        same(logic_negate_vector(given, which=selection), expected, 'negated by value')
        same(logic_negate_vector(given, which=selection, want_string=True), texts(expected), 'negated by value and printed')
        same(logic_negate_vector(logic_negate_vector(given, which=selection), which=selection), values, 'negated twice by value')
    absent = next(x for x in range(60) if x not in {absolute(y) for y in values})
    for bad in (which + [absent], which + [~absent], which + [min([-1] + [x for x in values if x < 0])]):
        refuses(lambda: logic_negate_vector(given, which=bad), 'unfit values %r' % (bad,), Dedicated)
    refuses(lambda: logic_negate_vector(given), 'no selection', Dedicated)
    refuses(lambda: logic_negate_vector(given, where=where, which=which), 'two selections', Dedicated)
    same(given, values, 'vector after use')

    # increase
    results = [absolute(x) + y for x, y in zip(values, more)]
    if min(results, default=0) < 0:
        refuses(lambda: logic_abs_increase_vector(given, more), 'decrease beyond 0', Dedicated)
        refuses(lambda: logic_abs_increase_vector(given, more, want_string=True), 'decrease beyond 0', Dedicated)
    else:
        expected = [r if x >= 0 else -r - 1 for x, r in zip(values, results)]
        same(logic_abs_increase_vector(given, list(more)), expected, 'increased')
        same(logic_abs_increase_vector(tuple(given), tuple(more)), expected, 'tuple increased')
        same(logic_abs_increase_vector(given, more, want_string=True), texts(expected), 'increased and printed')
    refuses(lambda: logic_abs_increase_vector(given, more + [0]), 'different lengths', Dedicated)
    refuses(lambda: logic_abs_increase_vector(given + [0], more), 'different lengths', Dedicated)
    return len(values) if 0 < sum(where) < len(where) else None

"""Functions kept with irrelevant arguments keep their truth table and describe it."""
from hypothesis import strategies as st

from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf
from pbt import gen, ref
from pbt.core import enum_case, random_case, refuses, same
from pbt.lib import is_binv, is_fn
from pbt.props import c24, c25, c27, c30


def ascending(names, table):
    """Table after the arguments are brought in ascending order, none dropped."""
    order = sorted(range(len(names)), key=lambda k: names[k])
    new = 0
    for s in ref.exps(table):
        new |= 1 << ref.undigits([(s >> k) & 1 for k in order])
    return tuple(sorted(names)), new


def by_convention(names, table):
    """How arguments in any order are understood (see C15)."""
    ranks = [sorted(names).index(a) for a in names]
    return ascending([sorted(names)[k] for k in ref.invert(ranks)], table)


def ways(f):
    """The kept function, built in all ways from ascending arguments."""
    names, table = f
    n = len(names)
    digits = ref.digits(table, 1 << n)
    places = ref.exps(table)
    yield 'list', Boolf(digits, list(names), skip_deflation=True)
    yield 'tuple', Boolf(tuple(digits), tuple(names), skip_deflation=True)
    yield 'string', Boolf(''.join(map(str, digits)), list(names), skip_deflation=True)
    yield 'binary vector', Boolf(Binv(digits), list(names), skip_deflation=True)
    yield 'set of places', Boolf(fullspots=set(places), atomvals=list(names), skip_deflation=True)
    yield 'list of places', Boolf(fullspots=list(places), atomvals=list(names), skip_deflation=True)
    if list(names) == list(range(n)):
        yield 'plain list', Boolf(digits, skip_deflation=True)
        yield 'integer', Boolf(table, arity=n, skip_deflation=True)
        yield 'places and arity', Boolf(fullspots=set(places), arity=n, skip_deflation=True)


def is_kept(b, f, message):
    is_fn(b, f, message)
    same(bool(b.is_inflated), len(ref.canon(*f)[0]) < len(f[0]), message + ': has irrelevant arguments')
    same(set(b.fullspots), set(ref.exps(f[1])), message + ': true places')


def check(f):
    names, table = f
    n = len(names)
    b = None
    for way, b in ways(f):
        is_kept(b, f, way)
    deflated = ref.canon(*f)
    is_fn(Boolf(b.root, b.atomvals), deflated, 'built anew without irrelevant arguments')
    same(bool(Boolf(b.root, b.atomvals).is_inflated), False, 'ordinary function has irrelevant arguments')
    for s in range(1 << n):
        same(int(b.val(*ref.digits(s, n))), (table >> s) & 1, 'value at %d' % s)
        key = sum(1 << v for k, v in enumerate(names) if (s >> k) & 1)
        if max(names) < 12:
            same(int(b[key]), (table >> s) & 1, 'value at place %d' % key)
    is_binv(b.tt(list(names)), 1 << n, table, 'truth table of the arguments')
    if max(names) < 9:
        arity = max(names) + 1
        is_binv(b.tt(), 1 << arity, ref.table_arity(f, arity), 'truth table')
        is_binv(b.tt(arity + 1), 1 << arity + 1, ref.table_arity(f, arity + 1), 'wide truth table')
        refuses(lambda: b.tt(arity - 1), 'too small arity', 'ArgTooSmallError')
    same(b.weight_fract.numerator * (1 << n), table.bit_count() * b.weight_fract.denominator, 'weight')
    if 0 < table < ref.full(n):
        c24.check_splits(f, b)
        c24.check_facts(f, b)
    c25.check_pairs(f, b)
    if table and (n > 1 or table != ref.full(n)):
        c27.check(f, b)
    if n < 5:
        c30.check(f, b)
    is_kept(b, f, 'after use')
    if len(deflated[0]) < n:
        return 'constant' if not deflated[0] else '%d of %d arguments' % (len(deflated[0]), n)


def small(tier):
    for n in range(1, 4):
        for t in range(1 << (1 << n)):
            yield {'t': t, 'v': list(range(n)), 'order': list(range(n))}
    for t in range(16):
        yield {'t': t, 'v': [3, 30], 'order': [30, 3]}


@enum_case('C43', small, rule='some irrelevant argument; labelled by number of relevant ones')
def small_functions(value):
    return check((tuple(value['v']), value['t']))


@st.composite
def kept(draw, low=0, high=4):
    """A function of some arguments, with irrelevant ones mixed in."""
    inner = draw(gen.fns(low, high))
    extra = draw(st.lists(st.integers(0, 9).filter(lambda v: v not in inner['v']), max_size=2 if len(inner['v']) > 3 else 3, unique=True))
    names = sorted(set(inner['v']) | set(extra))
    if not names:
        names = [draw(st.integers(0, 5))]
    table = ref.table(ref.fn(inner), names)
    return {'t': table, 'v': names, 'order': draw(gen.shuffled(names))}


@random_case('C43', kept, quick=300, rule='some irrelevant argument; labelled by number of relevant ones')
def functions(value):
    f = (tuple(value['v']), value['t'])
    label = check(f)
    # arguments in another order
    order = value['order']
    n = len(order)
    for kind in (list, tuple):
        is_kept(Boolf(ref.digits(f[1], 1 << n), kind(order), skip_deflation=True), by_convention(order, f[1]), 'arguments in order %s' % order)
        is_kept(Boolf(fullspots=ref.exps(f[1]), atomvals=kind(order), skip_deflation=True), by_convention(order, f[1]), 'places for arguments in order %s' % order)
    # the list of arguments given by the user stays independent
    given = list(order)
    b = Boolf(ref.digits(f[1], 1 << n), given, skip_deflation=True)
    same(given, order, 'given arguments after use')
    given.append(77)
    is_kept(b, by_convention(order, f[1]), 'after a change of the given list')
    given = sorted(order)
    b = Boolf(fullspots=ref.exps(f[1]), atomvals=given, skip_deflation=True)
    given[0] = 78
    is_kept(b, f, 'after a change of the given list')
    given = sorted(order)
    b = Boolf(ref.digits(f[1], 1 << n), given, skip_deflation=True)
    given.pop()
    is_kept(b, f, 'after a change of the given list')
    wrong = order[:-1] + [order[0]] if n > 1 else order * 2
    digits = ref.digits(f[1], 1 << n)
    refuses(lambda: Boolf(digits, wrong, skip_deflation=True), 'repeated arguments', Exception)
    refuses(lambda: Boolf(digits, order[:-1] + [-1], skip_deflation=True), 'negative argument', 'AtomvalNegativeError')
    refuses(lambda: Boolf(digits, order + [99], skip_deflation=True), 'wrong length', 'SarityVectorMismatchError')
    refuses(lambda: Boolf(digits + [0], skip_deflation=True), 'length is no power of two', Exception)
    for flag in (1, 0, 'yes', [True]):
        refuses(lambda: Boolf(digits, order, skip_deflation=flag), 'flag of wrong type', 'ArgTypeError')
    for constant in (False, True):
        refuses(lambda: Boolf(constant, skip_deflation=True), 'constant without table', 'ArgComboError')
    for places in (ref.exps(f[1]), []):
        refuses(lambda: Boolf(fullspots=places, atomvals=wrong, skip_deflation=True), 'repeated arguments', 'AtomvalsNotUniqueError')
        refuses(lambda: Boolf(fullspots=places, atomvals=wrong), 'repeated arguments', 'AtomvalsNotUniqueError')
        refuses(lambda: Boolf(fullspots=places, atomvals=order[:-1] + [-1]), 'negative argument', 'AtomvalNegativeError')
        refuses(lambda: Boolf(fullspots=places), 'places without arguments', 'ArgComboError')
        refuses(lambda: Boolf(fullspots=places, atomvals=order, arity=n), 'arguments and arity', 'ArgComboError')
    for places in ([1], [0, 1], [7]):
        refuses(lambda: Boolf(fullspots=places, atomvals=[]), 'places without arguments', 'ArgMismatchError')
    refuses(lambda: Boolf(fullspots=[0, 1 << n], atomvals=order, skip_deflation=True), 'place outside the table', Exception)
    return label


@random_case('C43', lambda: kept(5, 5), quick=30, rule='some irrelevant argument; labelled by number of relevant ones')
def larger_functions(value):
    return functions(value)

"""Truth-table helper functions agree with the function objects."""
from copy import deepcopy

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make


def ints(digits):
    return [int(d) for d in digits]


def bits_of(digits):
    return ref.undigits(ints(digits))


########################################################################################################################
# generators of truth tables


@st.composite
def literal_cases(draw, signed=True):
    arity = draw(gen.sizes(0, 6))
    chosen = draw(gen.shuffled(range(arity)))[:draw(gen.sizes(0, 6))]
    word = draw(gen.words(6)) if signed else 0
    return {'arity': arity, 'literals': [~x if (word >> x) & 1 else x for x in chosen]}


OPERATIONS = {
    'and': lambda v: all(v),
    'or': lambda v: any(v),
    'xor': lambda v: sum(v) % 2 == 1,
    'xand': lambda v: sum(not x for x in v) % 2 == 0,
    'eq': lambda v: bool(v) and len(set(v)) == 1,
    'sand': lambda v: sum(not x for x in v) == 1,
    'gand': lambda v: sum(not x for x in v) <= 1,
    'esand': lambda v: sum(not x for x in v) == 1 or len(v) % 2 == 0 and all(v),
    'osand': lambda v: sum(not x for x in v) == 1 or len(v) % 2 == 1 and all(v),
}


@st.composite
def many_literals(draw):
    """All or almost all arguments, some of them repeated (possibly with different signs)."""
    arity = draw(st.integers(2, 9))
    chosen = draw(gen.shuffled(range(arity)))[:arity - draw(st.integers(0, 2))]
    word = draw(gen.words(9))
    literals = [~x if (word >> x) & 1 else x for x in chosen]
    for x in draw(st.lists(st.integers(0, arity - 1), max_size=2)):
        literals.append(draw(st.sampled_from([x, ~x])))
    return {'arity': arity, 'literals': literals}


@random_case('C38', many_literals, quick=60, rule='at least two literals; labelled by their number and whether some are repeated')
def generators_of_many(value):
    literals = value['literals']
    repeated = len({max(x, ~x) for x in literals}) < len(literals)
    label = generators(value)
    return label and '%d%s' % (label, ' repeated' if repeated else '')


@random_case('C38', literal_cases, quick=400, rule='at least two literals')
def generators(value):
    from discretehelpers.boolf import Boolf
    from discretehelpers.boolf import a as helpers
    arity, literals = value['arity'], value['literals']
    for name, rule in OPERATIONS.items():
        expected = []
        for i in range(1 << arity):
            values = [bool((i >> (x if x >= 0 else ~x)) & 1) != (x < 0) for x in literals]
            expected.append(int(bool(rule(values))))
        generator = getattr(helpers, 'atoms_to_%s_gen' % name)
        given = list(literals)
        same(ints(generator(given, arity)), expected, 'values of ' + name)
        same(given, literals, 'literals after use')
        same(ints(generator(tuple(given), arity)), expected, 'values of %s for tuple' % name)
        same(ints(generator(given[::-1], arity)), expected, 'values of %s for other order' % name)
        if name in ('and', 'or', 'xor', 'xand') and literals:
            is_fn(Boolf(**{'multi_' + name: list(literals)}), ref.canon(range(arity), ref.undigits(expected)), 'function object of ' + name)
        refuses(lambda: list(generator(given + [arity], arity)), 'too big argument', Exception)
    return len(literals) if len(literals) > 1 else None


@random_case('C38', lambda: gen.sizes(0, 7).flatmap(lambda n: st.tuples(st.just(n), gen.tables(n))), quick=400, rule='at least two arguments, neither empty nor full')
def twins(value):
    from discretehelpers.binv import Binv
    from discretehelpers.boolf import a as helpers
    n, t = value
    size = 1 << n
    digits = ref.digits(t, size)
    twin = ref.moebius(t, n)
    expected = ref.digits(twin, size)
    for message, arg in (('list', list(digits)), ('tuple', tuple(digits)), ('string', ''.join(map(str, digits))), ('binary vector', Binv(list(digits)))):
        same(ints(helpers.vector_to_twin_gen(arg, n)), expected, 'twin of %s' % message)
        same(bits_of(arg) if message != 'string' else t, t, '%s after use' % message)
    same(sorted(helpers.exposet_to_twin_gen(ref.exps(t), n)), ref.exps(twin), 'twin of places')
    same(list(helpers.exposet_to_twin_gen(set(ref.exps(t)), n)), ref.exps(twin), 'places of the twin in order')
    same(helpers.twin_int(t, n), twin, 'twin of number')
    same(helpers.twin_int(helpers.twin_int(t, n), n), t, 'twin of twin')
    f = ref.canon(range(n), t)
    same(make(f).twin(n).tt(n).intval, twin, 'twin of function object')
    refuses(lambda: list(helpers.vector_to_twin_gen(digits + [0], n)), 'wrong length', Exception)
    refuses(lambda: helpers.twin_int((1 << size) | t, n), 'too big number', Exception)

    # prefects: exclusive-and of the arguments in each true place of the Zhegalkin index
    prefect = [sum((ref.popcount(k & ~i) + 1) % 2 for k in ref.exps(t)) % 2 for i in range(size)]
    same(ints(helpers.zhe_vector_to_prefect_gen(digits, n)), prefect, 'prefect of list')
    w, odd = helpers.zhe_to_prefect(t, n)
    same([(ref.popcount(int(w) & i) + int(odd)) % 2 for i in range(size)], prefect, 'Walsh index and oddness of prefect')
    zhegalkin = ref.from_zhe(t)
    if ref.adicity(zhegalkin) <= n:
        b = make(zhegalkin)
        table = ref.table_arity(ref.canon(range(b.adicity), bits_of(b.prefect_tt)), n)
        same(ref.digits(table, size), prefect, 'prefect of function object')
    return n if n > 1 and 0 < t < ref.full(n) else None


@st.composite
def sparse_tables(draw):
    n = draw(st.integers(7, 9))
    return n, sum({1 << x for x in draw(st.lists(gen.words(n), max_size=4))})


@random_case('C38', sparse_tables, quick=24, rule='not empty')
def twins_of_sparse_tables(value):
    return twins(value)


########################################################################################################################
# permuted and negated truth tables


@random_case('C38', lambda: gen.sizes(1, 7).flatmap(lambda n: st.tuples(st.just(n), gen.tables(n), gen.shuffled(range(n)), gen.words(n))), quick=400, rule='truth table that is changed by the permutation or negation')
def modified(value):
    from discretehelpers.binv import Binv
    from discretehelpers.boolf.a import mod_tt_neg, mod_tt_perm
    n, t, p, word = value
    size = 1 << n
    digits = ref.digits(t, size)
    v = Binv(list(digits))
    f = ref.canon(range(n), t)

    def place(i):
        return sum(1 << p[k] for k in ref.exps(i))

    permuted = [digits[place(i)] for i in range(size)]
    for arg in (list(p), tuple(p)):
        same(ints(mod_tt_perm(v, arg)), permuted, 'permuted truth table')
    same(ints(mod_tt_perm(list(digits), list(p))), permuted, 'permuted list')
    same(ints(mod_tt_perm(mod_tt_perm(v, list(p)), list(ref.invert(p)))), digits, 'truth table permuted back')
    g = ref.substitute(f, [ref.invert(p)[x] for x in f[0]])
    is_fn(make(f).apply(*[ref.invert(p)[x] for x in f[0]]) if f[0] else make(f), g, 'permuted function')
    same(permuted, ref.digits(ref.table_arity(g, n), size), 'permuted truth table and function')

    negated = [digits[i ^ word] for i in range(size)]
    signs = ref.digits(word, n)
    for message, arg in (('number', word), ('list', list(signs)), ('binary vector', Binv(list(signs)))):
        same(ints(mod_tt_neg(v, arg)), negated, 'truth table negated by ' + message)
        same(ints(mod_tt_neg(mod_tt_neg(v, arg), arg)), digits, 'truth table negated twice by ' + message)
    same(ints(mod_tt_neg(list(digits), word)), negated, 'negated list')
    h = ref.substitute(f, [~x if (word >> x) & 1 else x for x in f[0]])
    same(negated, ref.digits(ref.table_arity(h, n), size), 'negated truth table and function')
    same(ints(v), digits, 'vector after use')
    return n if permuted != digits or negated != digits else None


@random_case('C38', lambda: gen.sizes(1, 4).flatmap(lambda n: st.tuples(st.just(n), gen.sig_perms(1, n), st.lists(st.tuples(st.integers(0, (1 << n) - 1), st.sampled_from(['a', 'b', 'c', '', 0, 1])), max_size=8, unique_by=lambda x: x[0]))), quick=300, rule='at least two colours')
def colours(value):
    from discretehelpers.boolf.a import apply_sigperm_to_colors
    from discretehelpers.sig_perm import SigPerm
    n, s, coloured = value
    s = list(s)
    colours = {}
    for spot, c in coloured:
        colours.setdefault(c, []).append(spot)
    full = list(ref.extend(s, n))
    expected = {c: sorted(ref.s_number(full, x) for x in spots) for c, spots in colours.items()}
    given = deepcopy(colours)
    for arg in (list(s), tuple(s), SigPerm(sequence=list(s))):
        result = apply_sigperm_to_colors(given, n, arg)
        same({c: sorted(x) for c, x in result.items()}, expected, 'coloured places')
    same(given, colours, 'colours after use')
    for c, spots in colours.items():
        f = ref.canon(range(n), sum(1 << x for x in spots))
        g = ref.substitute(f, [full[x] for x in f[0]])
        same(ref.exps(ref.table_arity(g, n)), expected[c], 'places of one colour and of the function object')
    return len(colours) if len(colours) > 1 else None


@random_case('C38', lambda: st.tuples(gen.sig_perms(1, 6), st.lists(st.integers(0, 5), min_size=6, max_size=6)), quick=200, rule='at least two places')
def spread_signs(value):
    from discretehelpers.boolf.a import spread_sigperm_to_sigvar
    s, spread = list(value[0]), value[1]
    spread = spread[:len(s)]
    given = list(s), list(spread)
    expected = [x + spread[x] if x >= 0 else x - spread[~x] for x in s]
    same(list(spread_sigperm_to_sigvar(*given)), expected, 'spread signed permutation')
    same(given, (s, spread), 'arguments after use')
    refuses(lambda: spread_sigperm_to_sigvar(s, spread + [0]), 'different lengths', Dedicated)
    return len(s) if len(s) > 1 else None


########################################################################################################################
# Sierpinski, matrix coordinates, numbers


def squeeze(i, mask, arity):
    """Number made from the digits of i outside of the mask."""
    return ref.undigits([(i >> k) & 1 for k in range(arity) if not (mask >> k) & 1])


@random_case('C38', lambda: gen.sizes(1, 7).flatmap(lambda n: gen.words(n).flatmap(lambda w: st.tuples(st.just(n), st.just(w), gen.tables(n - ref.popcount(w))))), quick=300, rule='both kinds of digits')
def sierpinski(value):
    from discretehelpers.boolf.a import sierpinski_partition, sierpinski_twin
    n, mask, small = value
    part = sierpinski_partition(mask, n)
    blocks = {}
    for i in range(1 << n):
        blocks.setdefault(i & ~mask, []).append(i)
    same([list(b) for b in part.blocks], sorted(b for b in blocks.values() if len(b) > 1), 'blocks')
    same(part.domain, 'N', 'domain')
    m = n - ref.popcount(mask)
    digits = ref.digits(small, 1 << m)
    twin = ref.moebius(small, m)
    expected = [(twin >> squeeze(i, mask, n)) & 1 for i in range(1 << n)]
    for arg in (list(digits), ''.join(map(str, digits))):
        same(ints(sierpinski_twin(arg, mask, n)), expected, 'Sierpinski twin')
    refuses(lambda: sierpinski_twin(digits, mask, n + 1), 'wrong arity', Exception)
    refuses(lambda: sierpinski_partition(mask | 1 << n, n), 'too big number', Exception)
    return n if 0 < mask < (1 << n) - 1 else None


@random_case('C38', lambda: gen.sizes(1, 8).flatmap(lambda n: st.tuples(st.just(n), gen.tables(n))), quick=300, rule='both coordinates are not 0')
def coordinates(value):
    from discretehelpers.boolf.a import hasse_matrix_coordinates_to_tt
    n, t = value
    half = 1 << n - 1
    i = t & (1 << half) - 1
    j = ref.undigits(ref.digits(t >> half, half)[::-1])
    v = hasse_matrix_coordinates_to_tt(i, j, n)
    same(ints(v), ref.digits(t, 2 * half), 'truth table of coordinates')
    b = make(ref.canon(range(n), t))
    same(tuple(b.hasse_matrix_coordinates(n)), (i, j), 'coordinates of function')
    same(b.tt(n) == v, True, 'truth table of function')
    refuses(lambda: hasse_matrix_coordinates_to_tt(1 << half, j, n), 'too big coordinate', Exception)
    refuses(lambda: hasse_matrix_coordinates_to_tt(i, 1 << half, n), 'too big coordinate', Exception)
    return n if i and j else None


def rings(n):
    """Number of the nested exponents by depth."""
    result = []
    level = [n]
    while True:
        level = [e for x in level for e in ref.exps(x)]
        if not level:
            return result
        result.append(len(level))


@random_case('C38', lambda: st.tuples(st.one_of(gen.naturals(300), st.integers(0, 1 << 600)), st.integers(0, 4)), quick=300, rule='at least three levels')
def numbers(value):
    from discretehelpers.boolf.a import int_to_rcv, intval_to_arity, intval_to_tt_length
    n, more = value
    expected = rings(n)
    same(list(int_to_rcv(n)), expected, 'ring count vector')
    same(list(int_to_rcv(n, len(expected) + more)), expected + [0] * more, 'ring count vector with length')
    if expected:
        refuses(lambda: int_to_rcv(n, len(expected) - 1), 'too short', Dedicated)
    arity = 0
    while n >= 1 << (1 << arity):
        arity += 1
    same(intval_to_arity(n), arity, 'smallest arity')
    same(intval_to_tt_length(n), 1 << arity, 'smallest length')
    refuses(lambda: intval_to_arity(-n - 1), 'negative', Dedicated)
    refuses(lambda: intval_to_arity('a'), 'string', Exception)
    return len(expected) if len(expected) > 2 else None


def edges(tier):
    for arity in range(12 if tier == 'thorough' else 10):
        for d in (-2, -1, 0, 1):
            yield max(0, (1 << (1 << arity)) + d)


@enum_case('C38', edges, rule='number next to a limit')
def limits(n):
    from discretehelpers.boolf.a import intval_to_arity, intval_to_tt_length
    arity = 0
    while n >= 1 << (1 << arity):
        arity += 1
    same(intval_to_arity(n), arity, 'smallest arity')
    same(intval_to_tt_length(n), 1 << arity, 'smallest length')
    return str(arity)


@random_case('C38', lambda: st.tuples(st.lists(st.integers(0, 6), min_size=1, max_size=5, unique=True), st.integers(1, 3)), quick=200, rule='at least two arguments, not ascending')
def argument_sequences(value):
    from discretehelpers.boolf.a import atom_indices_to_sequence
    atoms, times = value
    size = 1 << max(atoms) + 1
    expected = tuple(sum(1 << i for i, x in enumerate(atoms) if (j >> x) & 1) for j in range(size))
    given = list(atoms)
    same(tuple(atom_indices_to_sequence(given)), expected, 'sequence')
    same(given, atoms, 'arguments after use')
    same(tuple(atom_indices_to_sequence(tuple(given))), expected, 'sequence of tuple')
    same(tuple(atom_indices_to_sequence(given, size * times)), expected * times, 'longer sequence')
    refuses(lambda: atom_indices_to_sequence(given, size * times + 1), 'wrong length', Exception)
    refuses(lambda: atom_indices_to_sequence(given + given[:1]), 'repeated argument', Exception)
    refuses(lambda: atom_indices_to_sequence(set(given)), 'set', Exception)
    return len(atoms) if len(atoms) > 1 and atoms != sorted(atoms) else None


########################################################################################################################
# layers, splits


def layers(vector, n):
    return tuple(tuple(vector[i] for i in range(1 << n) if ref.popcount(i) == w) for w in range(n + 1))


@random_case('C38', lambda: gen.sizes(0, 7).flatmap(lambda n: st.tuples(st.just(n), gen.tables(n), gen.tables(n), gen.shuffled(range(n)))), quick=400, rule='at least two arguments, different tables of the same weight')
def layering(value):
    from discretehelpers.binv import Binv
    from discretehelpers.boolf.a import flat_to_layered, layered_is_greater, sort_each_layer
    n, t, u, p = value
    size = 1 << n
    # often the same weight: the same function with permuted arguments
    if u % 3 == 0:
        u = ref.table_arity(ref.substitute(ref.canon(range(n), t), [p[x] for x in ref.canon(range(n), t)[0]]), n)
    # or the true places moved cyclically, which usually gives different weights of the layers
    elif u % 3 == 1:
        k = u % size
        u = (t >> k | t << size - k) & ref.full(n)
    digits, other = ref.digits(t, size), ref.digits(u, size)
    x, y = layers(digits, n), layers(other, n)
    for arg in (list(digits), tuple(digits), Binv(list(digits))):
        same(flat_to_layered(arg), x, 'layers')
        places = {w: ([i for i in range(size) if ref.popcount(i) == w and not digits[i]], [i for i in range(size) if ref.popcount(i) == w and digits[i]]) for w in range(n + 1)}
        result = flat_to_layered(arg, false_and_true_places=True)
        same({w: (list(a), list(b)) for w, (a, b) in result.items()}, places, 'layers of places')
    spectrum = ref.walsh(t, n)
    same(flat_to_layered(list(spectrum)), layers(spectrum, n), 'layers of integers')
    given = deepcopy(x)
    same(sort_each_layer(given), tuple(tuple(sorted(z)) for z in x), 'sorted layers')
    same(sort_each_layer([list(z) for z in x]), tuple(tuple(sorted(z)) for z in x), 'sorted layers of lists')
    key = lambda z: (sum(map(sum, z)), [sum(w) for w in z], z)
    same(bool(layered_is_greater(x, y)), key(x) > key(y), 'order of layered truth tables')
    same(bool(layered_is_greater(y, x)), key(y) > key(x), 'order of layered truth tables')
    same(bool(layered_is_greater(x, deepcopy(x))), False, 'not greater than itself')
    if t.bit_length() and ref.canon(range(n), t)[0] == tuple(range(n)):
        same(make(ref.canon(range(n), t)).layered_tt, x, 'layered truth table of function object')
    refuses(lambda: flat_to_layered(digits + [0, 1, 1] + digits), 'wrong length', Exception)
    return n if n > 1 and t != u and ref.popcount(t) == ref.popcount(u) else None


@st.composite
def tied_layers(draw):
    """Tables of the same weight that agree in the lower or upper layers, with some true places moved among the others."""
    n = draw(st.integers(3, 7))
    t = draw(gen.words(1 << n))
    cut = draw(st.integers(0, n - 1))
    lower = draw(st.booleans())
    places = [i for i in range(1 << n) if (n - ref.popcount(i) if lower else ref.popcount(i)) >= cut]
    u = t
    for _ in range(draw(st.integers(1, 4))):
        on, off = [i for i in places if (u >> i) & 1], [i for i in places if not (u >> i) & 1]
        if on and off:
            u ^= 1 << draw(st.sampled_from(on)) | 1 << draw(st.sampled_from(off))
    return n, t, u


@random_case('C38', tied_layers, quick=300, rule='different tables; labelled by number of arguments and whether their layers have the same weights')
def layers_of_same_weight(value):
    from discretehelpers.boolf.a import layered_is_greater
    n, t, u = value
    x, y = layers(ref.digits(t, 1 << n), n), layers(ref.digits(u, 1 << n), n)
    key = lambda z: (sum(map(sum, z)), [sum(w) for w in z], z)
    same(bool(layered_is_greater(x, y)), key(x) > key(y), 'order of layered truth tables')
    same(bool(layered_is_greater(y, x)), key(y) > key(x), 'order of layered truth tables')
    return '%d %s' % (n, [sum(w) for w in x] == [sum(w) for w in y]) if t != u else None


@random_case('C38', lambda: gen.sizes(1, 7).flatmap(lambda n: st.tuples(st.just(n), gen.tables(n))), quick=300, rule='at least two arguments and places')
def splitting(value):
    from discretehelpers.boolf.a import count_split_regions, spotints_to_splits
    n, t = value
    spots = ref.exps(t)
    expected = [({i for i in spots if (i >> k) & 1}, {i for i in spots if not (i >> k) & 1}) for k in range(n)]
    given = list(spots)
    result = spotints_to_splits(given, n)
    same([(set(a), set(b)) for a, b in result], expected, 'splits')
    same(given, spots, 'places after use')
    f = ref.canon(range(n), t)
    if f[0] == tuple(range(n)):
        same([(set(a), set(b)) for a, b in make(f).splits], expected, 'splits of function object')
    for j in range(n):
        for k in range(n):
            number = sum(bool(x & y) for x in expected[j] for y in expected[k])
            same(count_split_regions(result[j], result[k]), number, 'regions of splits %d and %d' % (j, k))
    refuses(lambda: spotints_to_splits(spots + [1 << n], n), 'too big place', Exception)
    return n if n > 1 and len(spots) > 1 else None


@random_case('C38', lambda: gen.sizes(1, 4).flatmap(lambda n: st.tuples(st.just(n), gen.root_fns(n, n), st.lists(gen.root_fns(n, n), max_size=4), st.lists(gen.shuffled(range(n)), max_size=5))), quick=300, rule='at least three functions')
def swans(value):
    """The last by truths in the layers, or the first when layers and places are reversed."""
    from discretehelpers.boolf.a import boolfs_to_swan
    n, first, rest, orders = value
    functions = [ref.fn(d) for d in [first] + rest]
    functions = [f for f in functions if f[0] == tuple(range(n))]
    # functions with permuted arguments have layers of the same weights
    functions += [ref.substitute(f, p) for f in functions[:2] for p in orders]
    if not functions:
        return None
    boolfs = [make(f) for f in functions]

    def key(f):
        x = layers(ref.digits(f[1], 1 << n), n)
        return tuple(map(sum, x)), x

    def reflected(f):
        x = layers(ref.digits(f[1], 1 << n), n)
        x = [w[::-1] for w in x[::-1]]
        return [sum(w) for w in x], x

    is_fn(boolfs_to_swan(boolfs, True, False), max(functions, key=key), 'verophile swan')
    is_fn(boolfs_to_swan(boolfs[::-1], False, False), min(functions, key=reflected), 'falsophobe swan')
    return len(functions) if len(functions) > 2 else None


########################################################################################################################
# arguments


@random_case('C38', lambda: gen.sizes(1, 5).flatmap(lambda n: st.tuples(st.just(n), gen.fns(0, n, spread=False), gen.names(n, 4), gen.shuffled(range(n)))), quick=300, rule='some argument without influence and some with')
def deflation(value):
    from discretehelpers.binv import Binv
    from discretehelpers.boolf.a import deflate, reorder_if_atomvals_not_asc
    n, desc, names, order = value
    f = ref.fn(desc)
    f = (tuple(order[k] for k in range(len(f[0]))), f[1])
    f = ref.canon(f[0], f[1])
    t = ref.table_arity(f, n)
    names = sorted(names)[:n]
    digits = ref.digits(t, 1 << n)
    v, given = Binv(list(digits)), list(names)
    if f[0]:
        short, atoms = deflate(v, given)
        same(list(atoms), [names[k] for k in f[0]], 'names that are left')
        same(bits_of(short), f[1], 'shortened truth table')
        same(len(short), 1 << len(f[0]), 'length')
        same((ints(v), given), (digits, names), 'arguments after use')
    mixed = [names[k] for k in order]
    w, atoms = reorder_if_atomvals_not_asc(v, list(mixed))
    same(list(atoms), sorted(names), 'sorted names')
    if mixed == sorted(mixed):
        same(ints(w), digits, 'unchanged truth table')
    else:
        # moved back by the inverse
        back = [sorted(range(n), key=lambda k: mixed[k])[k] for k in range(n)]
        x, atoms = reorder_if_atomvals_not_asc(w, list(back))
        again, _ = reorder_if_atomvals_not_asc(v, list(mixed))
        same(ints(again), ints(w), 'same result again')
        same(ints(x), digits, 'truth table after reordering forth and back')
    same(ints(v), digits, 'vector after use')
    return n if 0 < len(f[0]) < n else None


########################################################################################################################
# further pairs of definition and helper


@random_case('C38', lambda: st.lists(st.integers(0, 4), max_size=12), quick=200, rule='some repeated entry')
def entry_counts(entries):
    from discretehelpers.boolf.a import sequence_to_entry_counts
    expected = [entries[:k].count(x) for k, x in enumerate(entries)]
    given = list(entries)
    same(list(sequence_to_entry_counts(given)), expected, 'number of equal entries before')
    same(given, entries, 'entries after use')
    same(list(sequence_to_entry_counts(tuple(entries))), expected, 'counts of tuple')
    same(list(sequence_to_entry_counts(['x%d' % x for x in entries])), expected, 'counts of strings')
    return max(expected) if any(expected) else None


@random_case('C38', lambda: gen.sizes(0, 8).flatmap(lambda n: st.tuples(st.just(n), gen.tables(n))), quick=300, rule='at least two arguments, some true places')
def halves(value):
    from discretehelpers.boolf.a import praetor_int, symmetric_to_index, zhe_exposet_to_prefect_gen
    n, t = value
    size = 1 << n
    prefect = [i for i in range(size) if sum((ref.popcount(k & ~i) + 1) % 2 for k in ref.exps(t)) % 2]
    same(list(zhe_exposet_to_prefect_gen(ref.exps(t), n)), prefect, 'true places of prefect')
    refuses(lambda: praetor_int(t | 1 << size, n), 'too big number', Dedicated)
    refuses(lambda: symmetric_to_index(t | 1 << size, n), 'too big number', Dedicated)
    if n == 0:
        same(symmetric_to_index(t, 0), t, 'index of constant')
        refuses(lambda: praetor_int(t, 0), 'arity 0', Dedicated)
        return None
    half = size // 2
    same(praetor_int(t, n), (t ^ t >> half) & (1 << half) - 1, 'praetor')
    right = ref.digits(t >> half, half)
    same(symmetric_to_index(ref.undigits(right[::-1] + right), n), t >> half, 'index of symmetric truth table')
    digits = ref.digits(t, size)
    if digits != digits[::-1]:
        refuses(lambda: symmetric_to_index(t, n), 'not symmetric', Dedicated)
    return n if n > 1 and t else None


def places(tier):
    for arity in range(1, 8 if tier == 'thorough' else 6):
        for k in range(arity):
            yield k, arity


@enum_case('C38', places, rule='at least two arguments')
def single_arguments(value):
    from discretehelpers.boolf.a.sierpinski_partition.atom_partition import atom_partition
    k, arity = value
    part = atom_partition(k, arity)
    same([list(b) for b in part.blocks], [[i, i | 1 << k] for i in range(1 << arity) if not (i >> k) & 1], 'pairs of places')
    return str(arity) if arity > 1 else None

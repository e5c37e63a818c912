"""Families, factions and clans are the orbits under negation and permutation."""
from itertools import combinations, product
from math import factorial

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make, of


def signed(m, n, size):
    """Permutation number n, with negated values in the binary digits of m."""
    p = ref.extend(ref.perm_of_left_rank(n), size)
    return [~v if (m >> v) & 1 else v for v in p]


def moved(f, s):
    s = ref.extend(s, ref.adicity(f))
    return ref.substitute(f, [s[a] for a in f[0]])


def carried(s, vector):
    """Entry number i goes to place |s[i]|, complemented where s is negative."""
    result = [None] * len(vector)
    for i, v in enumerate(s):
        result[ref.s_abs(v)] = ~vector[i] if v < 0 else vector[i]
    return result


def ref_family(f):
    n = len(f[0])
    return {m: ref.substitute(f, [~a if (m >> k) & 1 else a for k, a in enumerate(f[0])]) for m in range(1 << n)}


def ref_long(f, arity, negate):
    if negate:
        return {(m, n): moved(f, signed(m, n, arity)) for m, n in product(range(1 << arity), range(factorial(arity)))}
    return {n: moved(f, signed(0, n, arity)) for n in range(factorial(arity))}


def ref_short(f, arity, negate):
    size = len(f[0])
    result = {}
    for c, combo in enumerate(combinations(range(arity), size)):
        for n in range(factorial(size)):
            if negate:
                for m in range(1 << size):
                    result[m, n, c] = ref.substitute(f, carried(signed(m, n, size), combo))
            else:
                result[n, c] = ref.substitute(f, carried(signed(0, n, size), combo))
    return result


def is_class(part, expected, message):
    """Labelled partition of the keys of the dictionary by their values."""
    same(set(part.domain), set(expected), message + ': transforms')
    by_label = {}
    for key, g in expected.items():
        by_label.setdefault(g, []).append(key)
    labels = {}
    for block, b in part.block_labels.items():
        g = of(b)
        is_fn(b, g, message + ': label')
        expect(g not in labels, message + ': label given twice', g)
        labels[g] = sorted(block)
    same(set(labels), set(by_label), message + ': functions')
    sizes = set()
    for g, keys in by_label.items():
        keys = sorted(keys)
        sizes.add(len(keys))
        same(labels[g], keys, message + ': transforms of a function')
        b = make(g)
        same(sorted(part.get_block_from_label(b)), keys, message + ': block of label')
        is_fn(part.get_label_from_element(keys[-1]), g, message + ': label of element')
        is_fn(part.get_label_from_element(keys[0]), g, message + ': label of element')
    same(sorted(sorted(b) for b in part.blocks), sorted(sorted(keys) for keys in by_label.values() if len(keys) > 1), message + ': blocks')
    same(len(sizes), 1, message + ': number of block sizes')
    return sizes.pop()


def label_set(part):
    return {of(b) for b in part.block_labels.values()}


def check_family(f, pick):
    b = make(f)
    expected = ref_family(f)
    family = b.ec_family()
    size = is_class(family, expected, 'family')
    g = expected[pick % len(expected)]
    same(label_set(make(g).ec_family()), set(expected.values()), 'family of a member')
    is_fn(b, f, 'after use')
    return size, len(set(expected.values()))


def check_perms(f, arity, negate, pick, more):
    b = make(f)
    name = 'clan' if negate else 'faction'

    def query(h, *args, **kwargs):
        return h.ec_clan(*args, **kwargs) if negate else h.ec_faction(*args, **kwargs)

    long = ref_long(f, arity, negate)
    size = is_class(query(b, arity, suppress_abbreviation=True), long, 'long ' + name)
    functions = set(long.values())
    part = query(b, arity)
    if arity == len(f[0]):
        is_class(part, long, name)
    else:
        short = ref_short(f, arity, negate)
        assert set(short.values()) == functions
        is_class(part, short, 'short ' + name)
        if f[0]:
            same([tuple(c) for c in part.glove_compartment], list(combinations(range(arity), len(f[0]))), 'selections of arguments')
    if arity == ref.adicity(f):
        default = query(b)
        same(dict(default.block_labels), dict(part.block_labels), name + ' without arity')
        same(set(default.domain), set(part.domain), name + ' without arity')
    g = sorted(functions)[pick % len(functions)]
    same(label_set(query(make(g), arity)), functions, name + ' of a member')
    if f[0]:
        for smaller in range(ref.adicity(f)):
            refuses(lambda: query(b, smaller), 'too small arity', 'ArgTooSmallError')
            refuses(lambda: query(b, smaller, suppress_abbreviation=True), 'too small arity', 'ArgTooSmallError')
    if more:
        other = ref.f_not(f) if ref.f_not(f) not in functions else None
        if other is not None:
            expect(not label_set(query(make(other), arity)) & functions, 'classes overlap')
    is_fn(b, f, 'after use')
    return size, len(functions)


def describe(size, count):
    return 'with several functions, %s' % ('blocks' if size > 1 else 'singletons') if count > 1 else None


def two_arguments(tier):
    for t in range(16):
        for v in ([0, 1], [0, 2], [1, 2], [1, 3]):
            yield {'t': t, 'v': v}
    for t in range(256) if tier == 'thorough' else range(3, 256, 5):
        yield {'t': t, 'v': [0, 1, 2]}


@enum_case('C22', two_arguments, rule='more than one function in the class')
def small_classes(value):
    f = ref.fn(value)
    check_family(f, value['t'])
    arities = [ref.adicity(f)]
    if ref.adicity(f) < 3 or value['t'] % 32 == 3:
        arities.append(arities[0] + 1)
    for arity in arities:
        check_perms(f, arity, False, value['t'] // 3, arity < 4)
        size, count = check_perms(f, arity, True, value['t'] // 5, arity < 4)
    return describe(size, count)


@st.composite
def family_cases(draw):
    return [draw(gen.fns(0, 5, max_gap=2)), draw(gen.words(5))]


@random_case('C22', family_cases, quick=250, rule='more than one function in the family; labelled by kind of block')
def families(value):
    d, pick = value
    f = ref.fn(d)
    if ref.adicity(f) > 10:
        return None
    return describe(*check_family(f, pick))


@st.composite
def faction_cases(draw):
    d = draw(st.one_of(gen.small_spread_fns(3, 4), gen.fns(2, 4, max_gap=0), gen.root_fns(4, 4)))
    return [d, draw(st.integers(0, 1)), draw(gen.words(5))]


@random_case('C22', faction_cases, quick=200, rule='more than one function in the faction; labelled by kind of block')
def factions(value):
    d, surplus, pick = value
    f = ref.fn(d)
    arity = min(5, ref.adicity(f) + surplus)
    if arity < ref.adicity(f):
        return None
    return describe(*check_perms(f, arity, False, pick, True))


@random_case('C22', faction_cases, quick=60, rule='more than one function in the clan; labelled by kind of block')
def clans(value):
    d, surplus, pick = value
    f = ref.fn(d)
    arity = ref.adicity(f) + (surplus if len(f[0]) < 3 and ref.adicity(f) < 4 else 0)
    if arity > 4:
        return None
    return describe(*check_perms(f, arity, True, pick, False))


@st.composite
def big_cases(draw):
    return [{'t': draw(gen.tables(5)), 'v': [0, 1, 2, 3, 4]}, draw(gen.words(5))]


@random_case('C22', big_cases, quick=6, thorough=60, rule='more than one function in the faction; labelled by kind of block')
def five_arguments(value):
    d, pick = value
    f = ref.fn(d)
    return describe(*check_perms(f, 5, False, pick, False))

"""A clan splits into factions, families and splinters without remainder."""
from functools import reduce
from itertools import product
from math import factorial, lcm

from hypothesis import strategies as st

from discretehelpers.sig_perm import SigPerm
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make, of
from .c22 import moved, signed
from .c23 import clan_tables, faction_tables, family_tables, twin


def classes(t, n):
    """Zhegalkin indices of the clan, split into factions and into families. Names are the smallest members."""
    members = clan_tables(t, n)

    def split(tables_of):
        result = {}
        rest = set(members)
        while rest:
            block = tables_of(next(iter(rest)), n)
            assert block <= rest
            rest -= block
            zhes = sorted(twin(u, n) for u in block)
            result[zhes[0]] = zhes
        return result

    return {twin(u, n) for u in members}, split(faction_tables), split(family_tables)


def check_partition(f, result):
    """Compare the five parts. Order of splinters is not compared."""
    n = ref.adicity(f)
    members, factions, families = classes(ref.table_arity(f, n), n)
    faction_reps, family_reps, faction_dict, family_dict, splinters = result
    same(list(faction_reps), sorted(factions), 'names of factions')
    same(list(family_reps), sorted(families), 'names of families')
    same({k: list(v) for k, v in faction_dict.items()}, factions, 'factions')
    same({k: list(v) for k, v in family_dict.items()}, families, 'families')
    same(set(splinters), set(product(factions, families)), 'pairs of names')
    sizes = set()
    listed = []
    for (p, q), zhes in splinters.items():
        same(sorted(zhes), sorted(set(factions[p]) & set(families[q])), 'splinter')
        sizes.add((p, len(zhes)))
        listed += list(zhes)
    same(sorted(listed), sorted(members), 'members of clan')
    same(len(sizes), len(factions), 'sizes of the splinters of each faction')
    return factions, families


def check_rest(f):
    """Splinters of the family."""
    n = ref.adicity(f)
    b = make(f)
    t = ref.table_arity(f, n)
    _, factions, families = classes(t, n)
    own = next(v for v in families.values() if twin(t, n) in v)
    expected = {}
    for rep in sorted(factions):
        splinter = sorted(set(own) & set(factions[rep]))
        if splinter:
            expected[splinter[0]] = splinter
    same({k: list(v) for k, v in b.ec_family_splinters().items()}, expected, 'splinters of family')


def check_factions(f, arity):
    b = make(f)
    _, factions, _ = classes(ref.table_arity(f, arity), arity)
    result = b.ec_clan_factions(arity)
    same({k: list(v) for k, v in result.items()}, factions, 'factions of clan')
    same(list(result), sorted(factions), 'order of factions')


def check_matrix(f):
    b = make(f)
    n = len(f[0])
    result = b.ec_clan_matrix()
    same(len(result), 13, 'number of parts')
    factions, families = check_partition(f, result[:5])
    splinters, sizes, common, weights, faction_keynegs, family_perms, zhe_keynegs, zhe_valnegs, triples = result[4:]
    same(dict(sizes), {p: len(v) // len(families) for p, v in factions.items()}, 'sizes of splinters')
    same(common, reduce(lcm, [len(v) // len(families) for v in factions.values()]), 'least common multiple of sizes')
    expected = {}
    for m, p in product(range(1 << n), range(factorial(n))):
        s = signed(m, p, n)
        keyneg = ref.undigits([v < 0 for v in s])
        expected.setdefault(ref.zhe(moved(f, s)), []).append((keyneg, p, m))
    same({k: sorted(v) for k, v in triples.items()}, {k: sorted(v) for k, v in expected.items()}, 'transforms of each function')
    for zhe, found in expected.items():
        same(list(zhe_keynegs[zhe]), sorted({t[0] for t in found}), 'negated positions of a function')
        same(list(zhe_valnegs[zhe]), sorted({t[2] for t in found}), 'negated values of a function')
    same(set(zhe_keynegs), set(expected), 'functions with negated positions')
    same(set(zhe_valnegs), set(expected), 'functions with negated values')
    zhe, found = sorted(expected.items())[-1]
    keyneg, p, m = found[-1]
    is_fn(b.apply_sigperm(SigPerm(pair=(m, p))), ref.from_zhe(zhe), 'function from permutation and negated values')
    same(SigPerm(pair=(m, p)).keyneg_index, keyneg, 'negated positions')
    for rep, members in factions.items():
        same({ref.popcount(z) for z in members}, {weights[rep]}, 'weight in faction')
        same(list(faction_keynegs[rep]), sorted({t[0] for z in members for t in expected[z]}), 'negated positions of a faction')
    for rep, members in families.items():
        same(list(family_perms[rep]), sorted({t[1] for z in members for t in expected[z]}), 'permutations of a family')
    same((set(weights), set(faction_keynegs), set(family_perms)), (set(factions), set(factions), set(families)), 'names in the dictionaries')
    return '%d-ary, %s and %s' % (n, 'several families' if len(families) > 1 else 'one family', 'several factions' if len(factions) > 1 else 'one faction')


def check(f, surplus):
    b = make(f)
    factions, families = check_partition(f, b.ec_clan_partitioned())
    check_rest(f)
    for arity in range(ref.adicity(f), ref.adicity(f) + surplus + 1):
        check_factions(f, arity)
    if f[0] == tuple(range(len(f[0]))):
        label = check_matrix(f)
    else:
        refuses(lambda: b.ec_clan_matrix(), 'table for spread function', 'NotSpreadlessError')
        label = 'spread'
    is_fn(b, f, 'after use')
    return label if len(factions) > 1 or len(families) > 1 else None


def small(tier):
    for t in range(16):
        for v in ([0, 1], [0, 2], [1, 2]):
            yield {'t': t, 'v': v}
    for t in range(256) if tier == 'thorough' else range(1, 256, 5):
        yield {'t': t, 'v': [0, 1, 2]}


@enum_case('C31', small, rule='clan has several factions or families')
def small_functions(value):
    return check(ref.fn(value), int(len(value['v']) < 3 or value['t'] % 32 == 1))


@st.composite
def cases(draw):
    return draw(st.one_of(gen.small_spread_fns(2, 4, min_n=1), gen.small_spread_fns(3, 4, min_n=2)))


@random_case('C31', cases, quick=60, rule='clan has several factions or families')
def spread_functions(value):
    f = ref.fn(value)
    return check(f, int(ref.adicity(f) < 3))


@st.composite
def four(draw):
    return {'t': draw(gen.tables(4)), 'v': [0, 1, 2, 3]}


@random_case('C31', four, quick=10, thorough=100, rule='clan has several factions or families')
def four_arguments(value):
    return check(ref.fn(value), 0)

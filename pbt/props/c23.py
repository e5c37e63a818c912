"""Class representatives are the minima and are invariant within the class."""
from functools import lru_cache
from itertools import permutations

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make, of


@lru_cache(None)
def readings(n):
    """For each permutation of n digits, where each place is read."""
    return [[sum(((i >> k) & 1) << v for k, v in enumerate(p)) for i in range(1 << n)] for p in permutations(range(n))]


def twin(t, n):
    for k, mask in enumerate(gen.spot_masks(n)):
        t ^= (t << (1 << k)) & mask
    return t


def negated(t, n, m):
    for k, mask in enumerate(gen.spot_masks(n)):
        if (m >> k) & 1:
            t = ((t & mask) >> (1 << k)) | ((t << (1 << k)) & mask)
    return t


def family_tables(t, n):
    return {negated(t, n, m) for m in range(1 << n)}


def faction_tables(t, n):
    v = ref.digits(t, 1 << n)
    return {ref.undigits([v[j] for j in reading]) for reading in readings(n)}


def clan_tables(t, n):
    return {u for s in faction_tables(t, n) for u in family_tables(s, n)}


def smallest(tables, n):
    return ref.from_zhe(min(twin(t, n) for t in tables))


def places_xor(f):
    result = 0
    for i in ref.exps(f[1]):
        result ^= i
    return result


def check_family(f):
    b = make(f)
    n = ref.adicity(f)
    tables = family_tables(ref.table_arity(f, n), n)
    is_fn(b.family_minrep, smallest(tables, n), 'minimal representative of family')
    same(bool(b.family_is_self_complementary), ref.table_arity(ref.f_not(f), n) in tables, 'family is self complementary')
    own = family_tables(f[1], len(f[0]))
    if ref.popcount(f[1]) & 1:
        found = {t for t in own if places_xor((f[0], t)) == 0}
        same(len(found), 1, 'members with zero exclusive or')
        is_fn(b.family_malerep, ref.canon(f[0], found.pop()), 'male representative')
    else:
        refuses(lambda: b.family_malerep, 'male representative for even weight', Exception)
    is_fn(b, f, 'after use')


def check_perms(f, clan):
    b = make(f)
    n = ref.adicity(f)
    t = ref.table_arity(f, n)
    is_fn(b.faction_minrep, smallest(faction_tables(t, n), n), 'minimal representative of faction')
    if clan:
        expected = smallest(clan_tables(t, n), n)
        is_fn(b.clan_minrep, expected, 'minimal representative of clan')
        if n < 4 and hasattr(b, '_clan_minrep_prototype'):  # slow variant
            is_fn(b._clan_minrep_prototype, expected, 'minimal representative of clan by prototype')
    is_fn(b, f, 'after use')


def small(tier):
    for t in range(256):
        yield {'t': t, 'v': [0, 1, 2]}
    for t in range(16):
        for v in ([0, 2], [1, 2], [1, 3], [0, 3]):
            yield {'t': t, 'v': v}
    for t in range(0, 65536, 7 if tier == 'thorough' else 331):
        yield {'t': t, 'v': [0, 1, 2, 3]}


@enum_case('C23', small, rule='function is not its own representative in the clan')
def small_functions(value):
    f = ref.fn(value)
    check_family(f)
    check_perms(f, True)
    return None if of(make(f).clan_minrep) == f else ref.adicity(f)


@st.composite
def family_cases(draw):
    return draw(gen.fns(0, 6, max_gap=1))


@random_case('C23', family_cases, quick=250, rule='function is not its own representative; labelled by parity of weight')
def families(value):
    f = ref.fn(value)
    if ref.adicity(f) > 7:
        return None
    check_family(f)
    return None if of(make(f).family_minrep) == f else 'odd weight' if ref.popcount(f[1]) & 1 else 'even weight'


@st.composite
def balanced(draw):
    """Tables whose complement is reached by negating arguments, possibly with a true and a false place exchanged."""
    n = draw(st.integers(4, 6))
    m = draw(st.integers(1, (1 << n) - 1))
    t = draw(gen.tables(n))
    for i in range(1 << n):
        if i < i ^ m:
            t = t & ~(1 << (i ^ m)) | (~(t >> i) & 1) << (i ^ m)
    for x, y in draw(st.lists(st.tuples(gen.words(n), gen.words(n)), max_size=2)):
        if (t >> x) & 1 != (t >> y) & 1:
            t ^= (1 << x) | (1 << y)
    return {'t': t, 'v': list(range(n))}


@random_case('C23', balanced, quick=150, rule='as many true as false places; labelled by number of arguments and whether the family contains the complement')
def families_of_balanced_functions(value):
    f = ref.fn(value)
    check_family(f)
    n = len(f[0])
    return '%d arguments, %s' % (n, f[1] ^ ref.full(n) in family_tables(f[1], n))


@st.composite
def sparse(draw):
    n = draw(st.integers(5, 7))
    kind = draw(st.sampled_from(['true places', 'monomials']))
    places = draw(st.lists(gen.words(n), min_size=1, max_size=4, unique=True))
    t = sum(1 << x for x in places)
    return {'t': t if kind == 'true places' else twin(t, n), 'v': list(range(n))}


@random_case('C23', sparse, quick=60, rule='function is not its own representative; labelled by adicity')
def families_of_sparse_functions(value):
    f = ref.fn(value)
    check_family(f)
    return None if of(make(f).family_minrep) == f else ref.adicity(f)


@st.composite
def perm_cases(draw):
    d = draw(st.one_of(gen.small_spread_fns(3, 5), gen.root_fns(3, 4), gen.root_fns(5, 5)))
    return {'t': d['t'], 'v': d['v'], 'clan': draw(st.integers(0, 4))}


@random_case('C23', perm_cases, quick=250, rule='function is not its own representative in the faction; labelled by adicity')
def factions_and_clans(value):
    f = ref.fn(value)
    check_perms(f, ref.adicity(f) < 5 or value['clan'] == 0)
    return None if of(make(f).faction_minrep) == f else ref.adicity(f)


@st.composite
def pairs(draw):
    d = draw(gen.root_fns(2, 4))
    e = draw(st.one_of(st.none(), gen.tables(len(d['v']))))
    return {'t': d['t'], 'n': len(d['v']), 'other': e, 'sig': draw(gen.sig_perms(len(d['v']), len(d['v']))), 'flips': draw(st.lists(gen.words(len(d['v'])), max_size=2))}


@random_case('C23', pairs, quick=250, rule='the two functions are different; labelled by the finest class they share')
def invariant(value):
    n = value['n']
    s = value['sig']
    t = value['t']
    u = value['other']
    if u is None:
        u = ref.undigits([(t >> sum((((i >> ref.s_abs(s[k])) & 1) ^ (s[k] < 0)) << k for k in range(n))) & 1 for i in range(1 << n)])
        for place in value['flips']:
            u ^= 1 << place
    f, g = ref.canon(range(n), t), ref.canon(range(n), u)
    b, c = make(f), make(g)
    family = u in family_tables(t, n)
    faction = u in faction_tables(t, n)
    clan = u in clan_tables(t, n)
    same(b.family_minrep == c.family_minrep, family, 'same representative and same family')
    same(b.faction_minrep == c.faction_minrep, faction, 'same representative and same faction')
    same(b.clan_minrep == c.clan_minrep, clan, 'same representative and same clan')
    if f == g:
        return None
    return 'family' if family else 'faction' if faction else 'clan' if clan else 'none'

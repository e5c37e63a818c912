"""Strategies producing plain JSON values, valid by construction."""
from functools import lru_cache

from hypothesis import strategies as st

from . import ref

########################################################################################################################
# numbers and vectors


@st.composite
def words(draw, size):
    """Uniform integers with the given number of binary digits. (The strategy for big integers prefers small ones.)"""
    result = 0
    for start in range(0, size, 6):
        result |= draw(st.integers(0, (1 << min(6, size - start)) - 1)) << start
    return result


def bits(min_size=0, max_size=40):
    return st.lists(st.integers(0, 1), min_size=min_size, max_size=max_size)


@st.composite
def bits_any(draw, max_small=20, max_big=150):
    """Bit lists of very different lengths, with runs of ones and zeros (long carries, all ones, single ones)."""
    kind = draw(st.sampled_from(['small', 'small', 'runs', 'big', 'power']))
    if kind == 'small':
        return draw(bits(0, max_small))
    if kind == 'power':
        n = draw(st.integers(0, 6))
        return ref.digits(draw(words(1 << n)), 1 << n)
    if kind == 'runs':
        runs = draw(st.lists(st.integers(1, 40), min_size=1, max_size=6))
        first = draw(st.integers(0, 1))
        result = []
        for r in runs:
            result += [first] * r
            first ^= 1
        return result[:max_big]
    n = draw(st.integers(0, max_big))
    return ref.digits(draw(words(n)), n)


@st.composite
def naturals(draw, max_bits=300):
    """Natural numbers of any size, often next to powers of two or ten."""
    kind = draw(st.sampled_from(['small', 'two', 'ten', 'big', 'product']))
    if kind == 'small':
        return draw(st.integers(0, 300))
    if kind == 'two':
        return max(0, (1 << draw(st.integers(0, max_bits))) + draw(st.integers(-3, 3)))
    if kind == 'ten':
        return max(0, 10 ** draw(st.integers(0, max_bits // 4)) + draw(st.integers(-3, 3)))
    if kind == 'product':
        return draw(st.integers(0, 10 ** 6)) * draw(st.integers(0, 10 ** 6))
    n = draw(st.integers(0, max_bits))
    return draw(st.integers(0, 1 << n))


########################################################################################################################
# permutations


def sizes(low, high):
    """Bigger sizes more often."""
    middle = (low + high + 1) // 2
    return st.sampled_from(list(range(low, high + 1)) + 2 * list(range(middle, high + 1)))


@st.composite
def perms(draw, min_size=0, max_size=8):
    """Permutations of any length, uniform for each length, shrinking towards the identity."""
    return draw(shuffled(range(draw(sizes(min_size, max_size)))))


@st.composite
def shuffled(draw, elements):
    """Any order of the elements."""
    pool = list(elements)
    return [pool.pop(draw(st.integers(0, k - 1))) for k in range(len(pool), 0, -1)]


@st.composite
def sparse_perms(draw, max_size=30):
    """Long permutations moving few places."""
    n = draw(st.integers(0, max_size))
    p = list(range(n))
    for _ in range(draw(st.integers(0, 4))):
        if n:
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            p[i], p[j] = p[j], p[i]
    return p


def any_perms(max_size=8, max_sparse=24):
    return st.one_of(perms(0, max_size), perms(0, max_size), sparse_perms(max_sparse))


@st.composite
def sig_perms(draw, min_size=0, max_size=6):
    p = draw(perms(min_size, max_size))
    negs = draw(st.integers(0, (1 << len(p)) - 1))
    return [~v if (negs >> i) & 1 else v for i, v in enumerate(p)]


@st.composite
def gl(draw, min_size=0, max_size=6):
    """Invertible binary matrix as list of columns: product of elementary operations on a permuted triangular one."""
    n = draw(sizes(min_size, max_size))
    p = draw(perms(n, n))
    cols = [1 << v for v in p]
    for k in range(1, n):
        mask = draw(st.integers(0, (1 << k) - 1))
        for j in range(k):
            if (mask >> j) & 1:
                cols[k] ^= cols[j]
    for k in range(n - 2, -1, -1):
        mask = draw(st.integers(0, (1 << (n - 1 - k)) - 1))
        for j in range(n - 1 - k):
            if (mask >> j) & 1:
                cols[k] ^= cols[k + 1 + j]
    return cols


########################################################################################################################
# Boolean functions {'t': truth table as integer, 'v': argument names}


@lru_cache(None)
def spot_masks(n):
    """Truth tables of the arguments."""
    return tuple(ref.undigits([(i >> k) & 1 for i in range(1 << n)]) for k in range(n))


@lru_cache(None)
def layer_masks(n):
    return tuple(ref.undigits([ref.popcount(i) == w for i in range(1 << n)]) for w in range(n + 1))


@st.composite
def tables(draw, n):
    """Truth tables over n arguments, from different structured families."""
    top = ref.full(n)
    kind = draw(st.sampled_from(['uniform', 'uniform', 'uniform', 'sparse', 'dense', 'layers', 'linear', 'blight', 'blight', 'inflated', 'conjunction', 'andor', 'perm']))
    if kind == 'uniform' or n == 0:
        return draw(words(1 << n))
    masks = spot_masks(n)
    if kind in ('sparse', 'dense'):
        t = 0
        for s in draw(st.lists(st.integers(0, (1 << n) - 1), max_size=6)):
            t |= 1 << s
        return t if kind == 'sparse' else t ^ top
    if kind == 'layers':
        t = 0
        pick = draw(st.integers(0, (1 << (n + 1)) - 1))
        for w, m in enumerate(layer_masks(n)):
            if (pick >> w) & 1:
                t |= m
        for _ in range(draw(st.integers(0, 1))):
            t ^= 1 << draw(words(n))
        neg = draw(words(n))
        return ref.undigits([(t >> (i ^ neg)) & 1 for i in range(1 << n)])
    if kind == 'linear':
        t = ref.linear_row(draw(words(n)), n)
        if draw(st.booleans()):
            t ^= top
        for _ in range(draw(st.integers(0, 2))):
            t ^= 1 << draw(words(n))
        return t
    if kind == 'blight':
        # some arguments equal or complementary to earlier ones, or empty, or universal
        t = draw(words(1 << n))
        for k in range(n):
            how = draw(st.sampled_from(['free', 'free', 'equal', 'comp', 'empty', 'full', 'sub']))
            if how == 'empty':
                t &= ~masks[k] & top
            elif how == 'full':
                t &= masks[k]
            elif how in ('equal', 'comp', 'sub') and k:
                j = draw(st.integers(0, k - 1))
                if how == 'sub':
                    t &= (~masks[k] | masks[j]) & top
                else:
                    x = masks[k] ^ masks[j]
                    t &= x if how == 'comp' else (x ^ top)
        return t
    if kind == 'inflated':
        t = draw(words(1 << n))
        for k in range(n):
            if draw(st.booleans()):
                lo = t & ~masks[k]
                t = lo | (lo << (1 << k))
        return t & top
    if kind == 'conjunction':
        t = top
        for _ in range(draw(st.integers(1, 4))):
            clause = 0
            for _ in range(draw(st.integers(1, 3))):
                m = masks[draw(st.integers(0, n - 1))]
                clause |= m if draw(st.booleans()) else m ^ top
            t &= clause
        return t
    if kind == 'andor':
        t = draw(st.sampled_from([0, top]))
        for _ in range(draw(st.integers(1, n + 1))):
            m = masks[draw(st.integers(0, n - 1))]
            if draw(st.booleans()):
                m ^= top
            op = draw(st.sampled_from('aox'))
            t = t & m if op == 'a' else t | m if op == 'o' else t ^ m
        return t
    # invariant under a permutation of the arguments
    t = draw(words(1 << n))
    p = draw(perms(n, n))
    result = 0
    size = 1 << n
    seen = set()
    for i in range(size):
        if i not in seen:
            j = i
            while j not in seen:
                seen.add(j)
                if (t >> i) & 1:
                    result |= 1 << j
                j = ref.undigits([(j >> p[k]) & 1 for k in range(n)])
    return result


@st.composite
def names(draw, n, max_gap=3):
    """n ascending argument names, often without gaps."""
    if draw(st.booleans()):
        return list(range(n))
    result = []
    current = -1
    for _ in range(n):
        current += 1 + draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3][:4 + max_gap]))
        result.append(current)
    return result


@st.composite
def fns(draw, min_n=0, max_n=4, spread=True, max_gap=3):
    n = draw(sizes(min_n, max_n))
    t = draw(tables(n))
    v = draw(names(n, max_gap)) if spread else list(range(n))
    return {'t': t, 'v': v}


def root_fns(min_n=0, max_n=4):
    return fns(min_n, max_n, spread=False)


@st.composite
def small_spread_fns(draw, max_n=3, max_adicity=5, min_n=0):
    """Functions whose biggest argument name stays small, for the expensive equivalence classes."""
    n = draw(sizes(min_n, max_n))
    t = draw(tables(n))
    top = draw(st.integers(n, max(n, max_adicity)))
    v = sorted(draw(shuffled(list(range(top))))[:n])
    return {'t': t, 'v': v}


########################################################################################################################
# partitions


@st.composite
def block_lists(draw, elements, max_blocks=4):
    """Disjoint lists of elements."""
    elements = draw(shuffled(elements))
    k = draw(st.integers(0, max_blocks))
    cuts = sorted(draw(st.lists(st.integers(0, len(elements)), min_size=k + 1, max_size=k + 1)))
    return [elements[a:b] for a, b in zip(cuts, cuts[1:]) if b > a]


@st.composite
def blighted(draw, min_n=2, max_n=6, spread=True):
    """Functions with redundant sets in any place: each set is new, or equal or complementary to another, empty or universal."""
    n = draw(sizes(min_n, max_n))
    base = draw(st.integers(1, max(1, n - 1)))
    places = draw(shuffled(range(n)))
    kinds = {}
    for rank, k in enumerate(places):
        if rank < base:
            kinds[k] = ('new', rank)
        else:
            kinds[k] = (draw(st.sampled_from(['equal', 'equal', 'comp', 'comp', 'empty', 'full'])), draw(st.integers(0, base - 1)))
    small = draw(st.one_of(tables(base), words(1 << base)))
    t = 0
    for s in ref.exps(small):
        place = 0
        for k, (kind, j) in kinds.items():
            digit = (s >> j) & 1
            place |= {'new': digit, 'equal': digit, 'comp': 1 - digit, 'empty': 0, 'full': 1}[kind] << k
        t |= 1 << place
    return {'t': t, 'v': draw(names(n)) if spread else list(range(n))}

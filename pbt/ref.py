"""
Reference models, written from the definitions and independent of the code under test.

- Boolean function: pair (atoms, bits). `atoms` is an ascending tuple of argument names; bit number i of the integer
  `bits` is the truth value where argument atoms[k] has the value of binary digit k of i.
- permutation: tuple of images.   - signed permutation: tuple of images, ~v for negated.
- binary matrix: list of columns as integers.   - set partition: frozenset of frozensets.
"""
from itertools import combinations, permutations, product
from math import factorial

########################################################################################################################
# bits


def popcount(n):
    return bin(n).count('1')


def digits(n, length):
    return [(n >> i) & 1 for i in range(length)]


def undigits(ds):
    return sum(1 << i for i, d in enumerate(ds) if d)


def exps(n):
    return [i for i in range(n.bit_length()) if (n >> i) & 1]


########################################################################################################################
# Boolean functions


def table_size(n):
    return 1 << n


def full(n):
    return (1 << (1 << n)) - 1


def value(f, point):
    """`point`: dict from argument name to truth value."""
    atoms, bits = f
    i = 0
    for k, a in enumerate(atoms):
        if point[a]:
            i |= 1 << k
    return (bits >> i) & 1


def at(f, number):
    """Truth value where argument a has the value of binary digit a of the number."""
    atoms, bits = f
    i = 0
    for k, a in enumerate(atoms):
        if (number >> a) & 1:
            i |= 1 << k
    return (bits >> i) & 1


def table(f, atoms):
    """Truth table (integer) over a superset of the arguments, given in ascending order."""
    own, bits = f
    places = [list(atoms).index(a) for a in own]
    result = 0
    for i in range(1 << len(atoms)):
        j = 0
        for k, p in enumerate(places):
            if (i >> p) & 1:
                j |= 1 << k
        if (bits >> j) & 1:
            result |= 1 << i
    return result


def table_arity(f, arity):
    return table(f, range(arity))


def cofactors(bits, n, k):
    """Truth tables over the other n-1 arguments, with argument number k fixed to 0 and 1."""
    lo = hi = 0
    for i in range(1 << (n - 1)):
        low = i & ((1 << k) - 1)
        high = (i >> k) << (k + 1)
        if (bits >> (high | low)) & 1:
            lo |= 1 << i
        if (bits >> (high | low | (1 << k))) & 1:
            hi |= 1 << i
    return lo, hi


def canon(atoms, bits):
    """Drop arguments without influence. Arguments may be in any order."""
    atoms = list(atoms)
    order = sorted(range(len(atoms)), key=lambda k: atoms[k])
    if order != list(range(len(atoms))):
        new = 0
        for i in range(1 << len(atoms)):
            if (bits >> i) & 1:
                j = 0
                for pos, k in enumerate(order):
                    if (i >> k) & 1:
                        j |= 1 << pos
                new |= 1 << j
        bits = new
        atoms = [atoms[k] for k in order]
    k = 0
    while k < len(atoms):
        lo, hi = cofactors(bits, len(atoms), k)
        if lo == hi:
            bits = lo
            del atoms[k]
        else:
            k += 1
    return tuple(atoms), bits


def fn(desc):
    """From the generated description {'t': table, 'v': argument names}."""
    return canon(desc['v'], desc['t'])


def constant(val):
    return (), int(bool(val))


def combine(op, f, g):
    atoms = sorted(set(f[0]) | set(g[0]))
    return canon(atoms, op(table(f, atoms), table(g, atoms)) & full(len(atoms)))


def f_and(f, g):
    return combine(lambda a, b: a & b, f, g)


def f_or(f, g):
    return combine(lambda a, b: a | b, f, g)


def f_xor(f, g):
    return combine(lambda a, b: a ^ b, f, g)


def f_not(f):
    return f[0], f[1] ^ full(len(f[0]))


def implies(f, g):
    atoms = sorted(set(f[0]) | set(g[0]))
    return table(f, atoms) & ~table(g, atoms) == 0


def literal(signed):
    return ((~signed,), 1) if signed < 0 else ((signed,), 2)


def substitute(f, signed_args):
    """Replace the arguments, in ascending order, by the given distinct signed names."""
    names = sorted(s if s >= 0 else ~s for s in signed_args)
    bits = 0
    for i in range(1 << len(names)):
        j = 0
        for k, s in enumerate(signed_args):
            name = s if s >= 0 else ~s
            v = (i >> names.index(name)) & 1
            if s < 0:
                v ^= 1
            j |= v << k
        if (f[1] >> j) & 1:
            bits |= 1 << i
    return canon(names, bits)


def moebius(bits, n):
    """Algebraic normal form coefficients: entry i is the xor of the entries at all subsets of i."""
    result = 0
    for i in range(1 << n):
        acc = 0
        j = i
        while True:
            acc ^= (bits >> j) & 1
            if j == 0:
                break
            j = (j - 1) & i
        if acc:
            result |= 1 << i
    return result


def moebius_fast(bits, n):
    v = digits(bits, 1 << n)
    for k in range(n):
        for i in range(1 << n):
            if (i >> k) & 1:
                v[i] ^= v[i ^ (1 << k)]
    return undigits(v)


def zhe(f):
    arity = f[0][-1] + 1 if f[0] else 0
    return moebius_fast(table_arity(f, arity), arity)


def from_zhe(n):
    arity = 0
    while n >> (1 << arity):
        arity += 1
    return canon(range(arity), moebius_fast(n, arity))


def adicity(f):
    return f[0][-1] + 1 if f[0] else 0


def walsh(bits, n):
    return [sum(-1 if popcount(i & j) & 1 else 1 for i in range(1 << n) if (bits >> i) & 1) for j in range(1 << n)]


def linear_row(w, n):
    return undigits([popcount(w & i) & 1 for i in range(1 << n)])


def linear_function(w, odd):
    atoms = exps(w)
    f = canon(atoms, linear_row((1 << len(atoms)) - 1, len(atoms)))
    return f_not(f) if odd else f


def project(f, keys):
    """Existential projection to the argument positions `keys` (ascending)."""
    atoms, bits = f
    result = 0
    for i in range(1 << len(atoms)):
        if (bits >> i) & 1:
            j = 0
            for pos, k in enumerate(keys):
                if (i >> k) & 1:
                    j |= 1 << pos
            result |= 1 << j
    return result


########################################################################################################################
# permutations


def trim(p):
    p = list(p)
    while p and p[-1] == len(p) - 1:
        p.pop()
    return tuple(p)


def extend(p, n):
    return tuple(p) + tuple(range(len(p), n))


def compose(p, q):
    """p after q"""
    n = max(len(p), len(q))
    p, q = extend(p, n), extend(q, n)
    return tuple(p[q[i]] for i in range(n))


def invert(p):
    result = [0] * len(p)
    for i, v in enumerate(p):
        result[v] = i
    return tuple(result)


def power(p, e):
    if e < 0:
        p, e = invert(p), -e
    result = tuple(range(len(p)))
    for _ in range(e):
        result = compose(p, result)
    return result


def cycles_of(p):
    seen = set()
    result = []
    for i in range(len(p)):
        if i in seen or p[i] == i:
            continue
        cycle = []
        j = i
        while j not in seen:
            seen.add(j)
            cycle.append(j)
            j = p[j]
        result.append(cycle)
    return result


def inversions(p):
    return [(i, j) for i, j in combinations(range(len(p)), 2) if p[i] > p[j]]


def left_rank(p):
    """Position in reverse colexicographic order of the finite permutations (factorial number of smaller entries...)"""
    return sum(factorial(j) * sum(1 for i in range(j) if p[i] > p[j]) for j in range(len(p)))


def lex_rank(p):
    n = len(p)
    return sum(factorial(n - 1 - i) * sum(1 for j in range(i + 1, n) if p[j] < p[i]) for i in range(n))


def perm_of_left_rank(r):
    n = 0
    while factorial(n) <= r:
        n += 1
    counts = []
    for j in range(n - 1, -1, -1):
        counts.insert(0, r // factorial(j))
        r %= factorial(j)
    pool = list(range(n))
    result = [0] * n
    for j in range(n - 1, -1, -1):
        result[j] = pool.pop(j - counts[j])
    return trim(result)


def minimal_period(p):
    """p: tuple of length n, repeated with period n on the naturals. The smallest period describing the same map."""
    n = len(p)
    for d in range(1, n + 1):
        if n % d == 0 and all(0 <= p[i] - (i // d) * d < d and p[i] - (i // d) * d == p[i % d] for i in range(n)):
            return d
    return n


########################################################################################################################
# signed permutations (tuple s: value at position i is s[i], ~v if negated)


def s_abs(v):
    return ~v if v < 0 else v


def s_trim(s):
    s = list(s)
    while s and s[-1] == len(s) - 1:
        s.pop()
    return tuple(s)


def s_compose(s, t):
    n = max(len(s), len(t))
    s, t = extend(s, n), extend(t, n)
    result = []
    for v in t:
        w = s[s_abs(v)]
        result.append(~w if v < 0 else w)
    return tuple(result)


def s_invert(s):
    result = [0] * len(s)
    for i, v in enumerate(s):
        result[s_abs(v)] = ~i if v < 0 else i
    return tuple(result)


def s_number(s, number):
    """Binary digit i of the number goes to place |s[i]|, complemented if negative."""
    n = max(len(s), number.bit_length())
    s = extend(s, n)
    result = 0
    for i, v in enumerate(s):
        d = (number >> i) & 1
        if v < 0:
            d ^= 1
        result |= d << s_abs(v)
    return result


########################################################################################################################
# binary matrices as lists of columns (integers, binary digit = row)


def m_apply(cols, x):
    result = 0
    for k, c in enumerate(cols):
        if (x >> k) & 1:
            result ^= c
    return result


def m_mul(a, b):
    n = max(len(a), len(b))
    a, b = m_extend(a, n), m_extend(b, n)
    return [m_apply(a, c) for c in b]


def m_extend(cols, n):
    return list(cols) + [1 << k for k in range(len(cols), n)]


def m_trim(cols):
    cols = list(cols)
    while cols and cols[-1] == 1 << (len(cols) - 1) and not any((c >> (len(cols) - 1)) & 1 for c in cols[:-1]):
        cols.pop()
    return cols


def m_transpose(cols):
    n = len(cols)
    return [undigits([(cols[k] >> r) & 1 for k in range(n)]) for r in range(n)]


def m_rank(cols):
    basis = []
    for c in cols:
        for b in basis:
            c = min(c, c ^ b)
        if c:
            basis.append(c)
    return len(basis)


def m_inverse(cols):
    n = len(cols)
    work = [[c, 1 << k] for k, c in enumerate(cols)]
    for r in range(n):
        pivot = next(k for k in range(r, n) if (work[k][0] >> r) & 1)
        work[r], work[pivot] = work[pivot], work[r]
        for k in range(n):
            if k != r and (work[k][0] >> r) & 1:
                work[k][0] ^= work[r][0]
                work[k][1] ^= work[r][1]
    return [work[r][1] for r in range(n)]


def int_det(rows):
    """Exact determinant by fractions."""
    from fractions import Fraction
    m = [[Fraction(x) for x in row] for row in rows]
    n = len(m)
    det = Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i] != 0), None)
        if p is None:
            return 0
        if p != i:
            m[i], m[p] = m[p], m[i]
            det = -det
        det *= m[i][i]
        for r in range(i + 1, n):
            q = m[r][i] / m[i][i]
            for c in range(i, n):
                m[r][c] -= q * m[i][c]
    return int(det)


########################################################################################################################
# partitions


class Classes:
    """Equivalence classes on a growing set of elements (union by relabelling, slow and simple)."""

    def __init__(self):
        self.of = {}

    def add(self, x):
        if x not in self.of:
            self.of[x] = {x}

    def merge(self, x, y):
        self.add(x)
        self.add(y)
        if self.of[x] is not self.of[y]:
            union = self.of[x] | self.of[y]
            for z in union:
                self.of[z] = union

    def same(self, x, y):
        return x == y or (x in self.of and y in self.of and self.of[x] is self.of[y])

    def block(self, x):
        return self.of.get(x, {x})

    def blocks(self):
        """Blocks with at least two elements."""
        return sorted(sorted(b) for b in {frozenset(b) for b in self.of.values()} if len(b) > 1)


def orbits(elements, moves):
    c = Classes()
    for e in elements:
        c.add(e)
        for m in moves:
            c.merge(e, m(e))
    return sorted(sorted(b) for b in {frozenset(b) for b in c.of.values()})

"""Set partitions form a lattice: meet, join and refinement order agree."""
from itertools import combinations

from hypothesis import strategies as st

from discretehelpers.set_part import SetPart
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.props.c11 import KINDS, domain_of, translate


def block_of(blocks, x):
    return next((set(b) for b in blocks if x in b), {x})


def ref_meet(a, b, universe):
    return sorted(sorted(b) for b in {frozenset(block_of(a, x) & block_of(b, x)) for x in universe} if len(b) > 1)


def ref_join(a, b):
    c = ref.Classes()
    for block in a + b:
        for x in block:
            c.merge(block[0], x)
    return c.blocks()


def ref_below(a, b):
    return all(set(block) <= block_of(b, block[0]) for block in a)


def proper(blocks):
    return sorted(sorted(b) for b in blocks if len(b) > 1)


def check(kind, raw, width=5):
    domain = domain_of(kind, width)
    universe = [translate(kind, e, width) for e in range(-width, width + 1)]
    a, b, c = [proper([[translate(kind, e, width) for e in block] for block in r]) for r in raw]
    x, y, z = [SetPart(blocks, domain) for blocks in (a, b, c)]

    def is_part(p, blocks, message):
        same(type(p), SetPart, message)
        same(p.blocks, blocks, message)
        same(p.domain, domain, message + ' domain')
        q = SetPart(blocks, domain)
        expect(p == q, message + ' differs from the partition built from its blocks')

    meet, join = ref_meet(a, b, universe), ref_join(a, b)
    is_part(x.meet(y), meet, 'meet')
    is_part(y.meet(x), meet, 'meet the other way')
    is_part(x.join(y), join, 'join')
    is_part(y.join(x), join, 'join the other way')
    is_part(x._meet_prototype(y), meet, 'meet prototype')
    is_part(x._join_prototype(y), join, 'join prototype')
    is_part(x._join_prototype_improved(y), join, 'improved join prototype')
    is_part(x.meet(x), a, 'meet with itself')
    is_part(x.join(x), a, 'join with itself')
    is_part(x.meet(x.join(y)), a, 'absorption')
    is_part(x.join(x.meet(y)), a, 'absorption')
    is_part(x.meet(y).meet(z), ref_meet(meet, c, universe), 'triple meet')
    is_part(x.meet(y.meet(z)), ref_meet(meet, c, universe), 'triple meet')
    is_part(x.join(y).join(z), ref_join(join, c), 'triple join')
    is_part(x.join(y.join(z)), ref_join(join, c), 'triple join')
    for p, q, r, s in ((x, y, a, b), (y, x, b, a), (x, x, a, a), (x.meet(y), x, meet, a), (x, x.join(y), a, join)):
        below = ref_below(r, s)
        same(bool(p <= q), below, 'below or equal')
        same(bool(p < q), below and r != s, 'strictly below')
        same(bool(q >= p), below, 'above or equal')
        same(bool(q > p), below and r != s, 'strictly above')
        same(bool(p == q), r == s, 'equal')
        same(bool(p != q), r != s, 'not equal')
        same(bool(p.meet(q) == p), below, 'below by meet')
        same(bool(p.join(q) == q), below, 'below by join')
    for p, blocks in ((x, a), (y, b), (z, c)):
        is_part(p, blocks, 'operand after use')
    if not a or not b:
        return None
    return 'nested' if ref_below(a, b) or ref_below(b, a) else 'crossing'


@st.composite
def triples(draw, width=5):
    kind = draw(st.sampled_from(KINDS))
    a, b, c = [draw(gen.block_lists(range(-width, width + 1), width)) for _ in range(3)]
    how = draw(st.sampled_from(['any', 'any', 'finer', 'coarser', 'nearly finer']))
    if how == 'finer':
        b = [part for block in a for part in (block[:len(block) // 2], block[len(block) // 2:]) if part]
    elif how == 'coarser' and len(a) > 1:
        b = [a[0] + a[1]] + a[2:]
    elif how == 'nearly finer' and a:
        b = a[1:] + [a[0][:1] + [e for e in range(-width, width + 1) if not any(e in block for block in a)][:1]]
    return {'kind': kind, 'parts': [a, b, c]}


@random_case('C12', triples, quick=2500, rule='first two both have proper blocks; labelled by domain and relation')
def lattice(value):
    label = check(value['kind'], value['parts'])
    return label and '%s, %s' % (value['kind'], label)


@random_case('C12', lambda: triples(14), quick=300, rule='first two both have proper blocks, 29 elements; labelled by domain and relation')
def bigger_lattice(value):
    label = check(value['kind'], value['parts'], 14)
    return label and '%s, %s' % (value['kind'], label)


@st.composite
def different_domains(draw):
    return [draw(st.sampled_from(['N', 'Z', 'set', 'other set'])), draw(st.sampled_from(['N', 'Z', 'set', 'other set'])),
            draw(gen.block_lists(range(6), 3)), draw(gen.block_lists(range(6), 3))]


@random_case('C12', different_domains, quick=800, rule='different domains')
def different_domains_refused(value):
    domains = {'N': 'N', 'Z': 'Z', 'set': set(range(6)), 'other set': set(range(7))}
    p, q = SetPart(value[2], domains[value[0]]), SetPart(value[3], domains[value[1]])
    if value[0] == value[1]:
        p.meet(q), p.join(q), p == q, p <= q
        return None
    for name, thunk in {
        '==': lambda: p == q, '<=': lambda: p <= q, '<': lambda: p < q, '>=': lambda: p >= q, '>': lambda: p > q,
        'meet': lambda: p.meet(q), 'join': lambda: p.join(q),
        'meet prototype': lambda: p._meet_prototype(q), 'join prototype': lambda: p._join_prototype(q),
        'improved join prototype': lambda: p._join_prototype_improved(q),
    }.items():
        refuses(thunk, name + ' with different domains', 'DomainsNotEqualError')
    return '%s and %s' % (value[0], value[1])


def partitions(n):
    """All partitions of range(n)."""
    if n == 0:
        yield []
        return
    for p in partitions(n - 1):
        yield p + [[n - 1]]
        for i in range(len(p)):
            yield p[:i] + [p[i] + [n - 1]] + p[i + 1:]


def pairs(tier):
    n = 4 if tier == 'quick' else 5
    everything = list(partitions(n))
    for a in everything:
        for b in everything:
            yield [a, b]


@enum_case('C12', pairs, rule='both have proper blocks')
def all_small_pairs(value):
    a, b = value
    return [check(kind, [a, b, [[0, 1]]]) for kind in ('N', 'Z')][0]

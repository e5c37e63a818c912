"""Set partitions: any history of merges and refinements keeps the right blocks."""
from itertools import combinations

from hypothesis import strategies as st

from discretehelpers.set_part import SetPart
from pbt import gen
from pbt.core import Dedicated, expect, random_case, refuses, same

########################################################################################################################
# elements and domains: the generated elements are small integers, translated for each kind of domain

KINDS = ['N', 'Z', 'finite', 'pairs']


def translate(kind, e, width=5):
    if kind == 'N':
        return e + width
    if kind == 'pairs':
        return divmod(e + width, 3)
    return e


def domain_of(kind, width=5):
    """Generated elements lie in range(-width, width + 1)."""
    if kind in 'NZ':
        return kind
    if kind == 'pairs':
        return {divmod(i, 3) for i in range(2 * width + 1)}
    return set(range(-width, width + 1))


def outside(kind):
    return {'N': -1, 'Z': 1.5, 'finite': 77, 'pairs': (9, 9)}[kind]


class Model:
    """Disjoint blocks covering the elements mentioned so far."""

    def __init__(self, blocks):
        self.blocks = [set(b) for b in blocks if b]

    def block(self, x):
        for b in self.blocks:
            if x in b:
                return b
        b = {x}
        self.blocks.append(b)
        return b

    def merge(self, xs):
        xs = list(xs)
        for x in xs[1:]:
            a, b = self.block(xs[0]), self.block(x)
            if a is not b:
                self.blocks = [c for c in self.blocks if c is not a and c is not b] + [a | b]

    def refine(self, parts):
        old = set().union(*map(set, parts))
        self.blocks = [c for c in self.blocks if c != old] + [set(p) for p in parts if p]

    def proper(self):
        return sorted(sorted(b) for b in self.blocks if len(b) > 1)


def read(p, kind, m, what, universe, width=5):
    """Compare one kind of reading with the model."""
    blocks = m.proper()
    elements = sorted(x for b in blocks for x in b)
    if what == 'blocks':
        same(p.blocks, blocks, 'blocks')
        same(set(p.non_singletons), set(elements), 'elements of proper blocks')
        same(bool(p.trivial), not blocks, 'trivial')
        same({tuple(p.blocks[i]) for i in p.non_singleton_to_block_index.values()}, set(map(tuple, blocks)), 'indexed blocks')
    elif what == 'pairs':
        same({tuple(x) for x in p.pairs}, {pair for b in blocks for pair in combinations(b, 2)}, 'pairs')
    elif what == 'canonical':
        if kind == 'N':
            cover = range(max(elements) + 1) if elements else range(0)
        elif kind == 'Z':
            cover = range(min(elements), max(elements) + 1) if elements else range(0)
        else:
            cover = domain_of(kind, width)
        expected = sorted(blocks + [[x] for x in cover if x not in elements])
        same(p.canonical_blocks_with_singletons, expected, 'canonical blocks with singletons')
        same(p.blocks_with_singletons(), expected, 'blocks with singletons')
    elif what == 'with singletons':
        expected = sorted(blocks + [[x] for x in universe if x not in elements])
        same(p.blocks_with_singletons(elements=set(universe)), expected, 'blocks with given singletons')
        same(p.blocks_with_singletons(elements=list(universe)), expected, 'blocks with given singletons')
        if elements:
            refuses(lambda: p.blocks_with_singletons(elements=set(universe) - {elements[0]}), 'element missing', 'ElementsMismatchError')
        if kind in 'NZ':
            same(p.blocks_with_singletons(elements=range(-width - 2, 2 * width + 4)), sorted(blocks + [[x] for x in range(-width - 2, 2 * width + 4) if x not in elements]), 'blocks with range of singletons')
        if kind != 'N':
            refuses(lambda: p.blocks_with_singletons(2 * width + 2), 'length for other domain', Dedicated)
        if kind != 'Z':
            refuses(lambda: p.blocks_with_singletons(range_pair=(-width - 1, width + 3)), 'range for other domain', Dedicated)
        for two in ({'length': 2 * width + 2, 'range_pair': (-width - 1, width + 3)}, {'length': 2 * width + 2, 'elements': set(universe)}, {'range_pair': (-width - 1, width + 3), 'elements': set(universe)}):
            refuses(lambda: p.blocks_with_singletons(**two), 'two descriptions of the elements', Dedicated)
        if kind == 'N':
            same(p.blocks_with_singletons(2 * width + 2), sorted(blocks + [[x] for x in range(2 * width + 2) if x not in elements]), 'blocks of length')
            if elements:
                refuses(lambda: p.blocks_with_singletons(max(elements)), 'length too small', 'LengthMismatchError')
        if kind == 'Z':
            same(p.blocks_with_singletons(range_pair=(-width - 1, width + 3)), sorted(blocks + [[x] for x in range(-width - 1, width + 3) if x not in elements]), 'blocks of range')
            if elements:
                refuses(lambda: p.blocks_with_singletons(range_pair=(-width - 1, max(elements))), 'range too small', 'RangeMismatchError')
                refuses(lambda: p.blocks_with_singletons(range_pair=(min(elements) + 1, width + 4)), 'range too small', 'RangeMismatchError')
    elif what == 'elements':
        for x in universe:
            same(list(p.element_to_block(x)), sorted(m.block(x)), 'block of element')
            expect(p.element_in_domain(x), 'element not in domain', x)
            for y in universe:
                same(bool(p.pair_in_same_block(x, y)), x == y or y in m.block(x), 'same block')
        expect(not p.element_in_domain(outside(kind)), 'element in domain', outside(kind))
    elif what == 'numbers':
        if kind == 'N':
            same(p.length, max(elements) + 1 if elements else 0, 'length')
            same(p.intval, sum(1 << (b * (b - 1) // 2 + a) for block in blocks for a, b in combinations(block, 2)), 'number of pairs')
    elif what == 'singletons':
        if kind in 'NZ':
            refuses(lambda: p.singletons, 'singletons of infinite domain', 'DomainNotFiniteError')
        else:
            same(set(p.singletons), set(domain_of(kind, width)) - set(elements), 'singletons')
    elif what == 'printed':
        back = eval(str(p), {'SetPart': SetPart})
        expect(back == p, 'printed form evaluates to something else', str(p))
        same(repr(p), str(p), 'repr')


READS = ['blocks', 'pairs', 'canonical', 'with singletons', 'elements', 'numbers', 'singletons', 'printed']


@st.composite
def operations(draw, width=5):
    element = st.integers(-width, width)
    op = draw(st.sampled_from(['pair', 'pair', 'many', 'refine', 'read', 'read', 'read', 'bad pair', 'bad many', 'bad refine']))
    if op in ('pair', 'bad pair'):
        return [op, draw(element), draw(element)]
    if op in ('many', 'bad many'):
        return [op, draw(st.lists(element, max_size=5))]
    if op in ('refine', 'bad refine'):
        return [op, draw(st.integers(0, 5)), [draw(st.integers(0, 2)) for _ in range(2 * width + 1)], draw(st.integers(0, 99))]
    return [op, draw(st.sampled_from(READS))]


@st.composite
def histories(draw, width=5):
    return {
        'kind': draw(st.sampled_from(KINDS)),
        'width': width,
        'start': draw(st.one_of(st.none(), gen.block_lists(range(-width, width + 1), width - 1))),
        'ops': draw(st.lists(operations(width), min_size=1, max_size=14)),
    }


@random_case('C11', histories, quick=4000, rule='history with at least two effective changes and a reading before a change')
def history(value):
    return follow(**value)


@random_case('C11', lambda: histories(14), quick=400, rule='history with at least two effective changes and a reading before a change, 29 elements')
def long_history(value):
    return follow(**value)


def follow(kind, width, start, ops):
    domain = domain_of(kind, width)
    universe = sorted({translate(kind, e, width) for e in range(-width, width + 1)})
    blocks = None if start is None else [[translate(kind, e, width) for e in b] for b in start]
    p = SetPart(blocks, domain) if blocks is not None else SetPart(domain=domain)
    m = Model(blocks or [])
    changes, read_before = 0, False
    was_read = False
    for op, *args in ops:
        before = m.proper()
        if op == 'pair':
            a, b = [translate(kind, e, width) for e in args]
            p.merge_pair(a, b)
            m.merge([a, b])
        elif op == 'many':
            xs = [translate(kind, e, width) for e in args[0]]
            p.merge_many(xs)
            m.merge(xs)
        elif op == 'refine':
            proper = m.proper()
            if not proper:
                continue
            block = proper[args[0] % len(proper)]
            parts = [[], [], []]
            for i, x in enumerate(block):
                parts[args[1][i]].append(x)
            parts = [part for part in parts if part]
            if args[2] % 2:
                parts = [part[::-1] for part in parts]
            if args[2] % 3 == 0:
                parts = parts[::-1]
            given = [list(part) for part in parts]
            p.refine_block(parts)
            same(parts, given, 'argument changed')
            m.refine(parts)
        elif op == 'bad pair':
            a = translate(kind, args[0], width)
            refuses(lambda: p.merge_pair(a, outside(kind)), 'merge with element outside the domain', 'NotInDomainError')
            refuses(lambda: p.merge_pair(outside(kind), a), 'merge with element outside the domain', 'NotInDomainError')
        elif op == 'bad many':
            xs = [translate(kind, e, width) for e in args[0]] + [outside(kind)]
            if len(xs) > 1:
                refuses(lambda: p.merge_many(xs), 'merge with element outside the domain', 'NotInDomainError')
        elif op == 'bad refine':
            proper = m.proper()
            free = [x for x in universe if len(m.block(x)) == 1]
            candidates = [[universe[:1], universe[1:]]] if [universe] != proper else []
            if free:
                candidates.append([[free[0]], []])
            if proper:
                block = proper[args[0] % len(proper)]
                candidates.append([block[:-1]])
                candidates.append([block, block[:1]])
                candidates.append([block[:1], block])
                if free:
                    candidates.append([block[:1], block[1:] + free[:1]])
            for parts in candidates:
                if sorted(x for part in parts for x in part) in proper:
                    continue
                refuses(lambda: p.refine_block([list(part) for part in parts]), 'refinement that does not fit', Exception)
        else:
            read(p, kind, m, args[0], universe, width)
            was_read = True
        if op != 'read':
            same(p.blocks, m.proper(), 'blocks after ' + op)
        if m.proper() != before:
            changes += 1
            read_before = read_before or was_read
    for what in READS:
        read(p, kind, m, what, universe, width)
    fresh = SetPart(m.proper(), domain)
    expect(fresh == p and p == fresh, 'differs from the partition built from its blocks', p, fresh)
    return kind if changes > 1 and read_before else None


@st.composite
def written(draw):
    kind = draw(st.sampled_from(KINDS))
    blocks = draw(gen.block_lists(range(-5, 6), 5))
    return {'kind': kind, 'a': blocks, 'b': draw(gen.shuffled(blocks)), 'containers': [draw(st.sampled_from(['list', 'tuple', 'set'])) for _ in range(6)]}


@random_case('C11', written, quick=1500, rule='at least one proper block')
def written_forms(value):
    """Order of blocks and elements, containers, singletons and empty blocks do not matter."""
    kind = value['kind']
    tr = lambda blocks: [[translate(kind, e) for e in b] for b in blocks]
    a, b = tr(value['a']), tr(value['b'])
    make = {'list': list, 'tuple': tuple, 'set': set}
    p = SetPart(a, domain_of(kind))
    q = SetPart([make[c](x) for c, x in zip(value['containers'], b + [[]])] + [x for x in b[5:]], domain_of(kind))
    expect(p == q and not (p != q), 'not equal', a, b)
    universe = sorted({translate(kind, e) for e in range(-5, 6)})
    m = Model(a)
    for what in READS:
        read(p, kind, m, what, universe)
        read(q, kind, m, what, universe)
    return kind if m.proper() else None

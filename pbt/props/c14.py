"""Partitions with complements: equality and complement facts stay consistent."""
from hypothesis import strategies as st

from discretehelpers.set_part import SetPart
from discretehelpers.set_part_comp import SetPartComp
from pbt import gen, ref
from pbt.core import expect, random_case, refuses, same


class Facts:
    """Closure of the statements: classes of the signed elements (x, False), (x, True)."""

    def __init__(self):
        self.c = ref.Classes()

    def state(self, a, b):
        if self.c.same((a, False), (b, False)):
            return 'equal'
        if self.c.same((a, False), (b, True)):
            return 'comp'
        return None

    def add(self, a, b, comp):
        for sign in (False, True):
            self.c.merge((a, sign), (b, sign != comp))

    def block(self, x):
        return sorted(y for y, s in self.c.block((x, False)) if not s)

    def comp_block(self, x):
        return sorted(y for y, s in self.c.block((x, False)) if s)


ELEMENTS = list(range(-1, 7))


def compare(p, f, message, elements=ELEMENTS):
    for a in elements:
        same(list(p.get_block(a)), f.block(a), message + ': block')
        same(p.get_repr(a), f.block(a)[0], message + ': representative')
        cb = f.comp_block(a)
        same(p.get_comp(a), cb[0] if cb else None, message + ': complement representative')
        for b in elements:
            same(bool(p.are_equal(a, b)), f.state(a, b) == 'equal', message + ': %d equal to %d' % (a, b))
            same(bool(p.are_comp(a, b)), f.state(a, b) == 'comp', message + ': %d complement of %d' % (a, b))
    pairs = {(a, b) for a in elements for b in elements if a < b and f.state(a, b) == 'comp'}
    same({tuple(x) for x in p.all_complement_pairs()}, pairs, message + ': all complementary pairs')
    related = sorted(b for b in {tuple(sorted(f.block(x) + f.comp_block(x))) for x in elements} if len(b) > 1)
    same([tuple(b) for b in p.related_part().blocks], related, message + ': related blocks')
    same(p.number_of_related_blocks(), len(related), message + ': number of related blocks')
    affected = sorted(x for b in related for x in b)
    same(list(p.affected_elements()), affected, message + ': affected elements')
    same(p.number_of_affected_elements(), len(affected), message + ': number of affected elements')
    if affected:
        same(p.length(), max(affected) + 1, message + ': length')


def respects(f, number):
    for a in range(7):
        for b in range(a):
            s = f.state(a, b)
            if s and ((number >> a) & 1) ^ ((number >> b) & 1) != (s == 'comp'):
                return False
    return True


def numbers(p, f, message):
    """Only for natural elements."""
    true = [n for n in range(128) if respects(f, n)]
    same([n for n in range(128) if p.int_matches(n)], true, message + ': numbers respecting the facts')
    same(bool(p.int_matches(128 + 1024)), 0 in true, message + ': bigger number')
    b = p.boolf()
    same([n for n in range(128) if b[n]], true, message + ': true places of the function')


@st.composite
def histories(draw):
    low = draw(st.sampled_from([-1, 0]))
    element = st.integers(low, 6)
    statement = st.tuples(st.sampled_from(['equal', 'comp', 'comp']), element, element)
    return draw(st.lists(statement, min_size=1, max_size=12))


@random_case('C14', histories, quick=1500, rule='at least two facts of which one is a complement; labelled by refusals')
def history(value):
    p = SetPartComp()
    f = Facts()
    refused = effective = comps = 0
    for op, a, b in value:
        state = f.state(a, b)
        if op == 'equal':
            if state == 'comp':
                refuses(lambda: p.set_equal(a, b), 'equality of complements', 'SetEqualComplementsError')
                refused += 1
            else:
                p.set_equal(a, b)
                f.add(a, b, False)
        else:
            if state == 'equal':
                refuses(lambda: p.set_comp(a, b), 'complementarity of equals', 'SetCompEqualsError')
                refused += 1
            else:
                p.set_comp(a, b)
                f.add(a, b, True)
                comps += state is None
        effective += state is None
        same([list(p.get_block(x)) for x in ELEMENTS], [f.block(x) for x in ELEMENTS], 'blocks after ' + op)
        same([p.get_comp(x) for x in ELEMENTS], [(f.comp_block(x) or [None])[0] for x in ELEMENTS], 'complements after ' + op)
    compare(p, f, 'at the end')
    if all(a >= 0 and b >= 0 for op, a, b in value):
        numbers(p, f, 'at the end')
    # same facts, stated in reverse
    q = SetPartComp()
    for op, a, b in reversed(value):
        s = f.state(a, b)
        (q.set_equal if s == 'equal' else q.set_comp)(a, b)
    compare(q, f, 'stated in reverse')
    expect(p == q and q == p, 'same facts stated in reverse are not equal', p, q)
    return ('refusal' if refused else 'no refusal') if effective > 1 and comps else None


@st.composite
def two_histories(draw):
    element = st.integers(-1, 6)
    statement = st.tuples(st.sampled_from(['equal', 'comp', 'comp']), element, element)
    common = draw(st.lists(statement, max_size=5))
    how = draw(st.sampled_from(['other end', 'other end', 'other kind', 'shuffled', 'longer']))
    if how == 'other end' or not common:
        ends = [draw(st.lists(statement, min_size=1, max_size=2)) for _ in range(2)]
        return [common + ends[0], common + ends[1]]
    if how == 'longer':
        return [common, common + [draw(statement)]]
    if how == 'shuffled':
        return [common, draw(st.permutations(common))]
    k = draw(st.integers(0, len(common) - 1))
    op, a, b = common[k]
    return [common, common[:k] + [('comp' if op == 'equal' else 'equal', a, b)] + common[k + 1:]]


@random_case('C14', two_histories, quick=1200, rule='both know a complement; labelled by equality and number of facts')
def equality_of_two(value):
    objects, facts = [], []
    for statements in value:
        p, f = SetPartComp(), Facts()
        for op, a, b in statements:
            if (op, f.state(a, b)) not in (('equal', 'comp'), ('comp', 'equal')):
                (p.set_equal if op == 'equal' else p.set_comp)(a, b)
                f.add(a, b, op == 'comp')
        objects.append(p)
        facts.append([f.state(a, b) for a in ELEMENTS for b in ELEMENTS])
    p, q = objects
    agree = facts[0] == facts[1]
    same(bool(p == q), agree, 'equality')
    same(bool(q == p), agree, 'equality')
    same(bool(p != q), not agree, 'inequality')
    same(str(p) == str(q), agree, 'equality of the printed forms')
    if not all('comp' in f for f in facts):
        return None
    return [agree, facts[0].count('comp') == facts[1].count('comp')]


@st.composite
def long_histories(draw):
    element = st.integers(0, 19)
    statement = st.tuples(st.sampled_from(['equal', 'comp', 'comp']), element, element)
    return draw(st.lists(statement, min_size=10, max_size=30))


@random_case('C14', long_histories, quick=150, rule='at least ten facts that were new; labelled by refusals')
def long_history(value):
    p, f = SetPartComp(), Facts()
    refused = effective = 0
    for op, a, b in value:
        state = f.state(a, b)
        if (op, state) in (('equal', 'comp'), ('comp', 'equal')):
            refuses(lambda: (p.set_equal if op == 'equal' else p.set_comp)(a, b), 'contradiction', ['SetEqualComplementsError', 'SetCompEqualsError'])
            refused += 1
        else:
            (p.set_equal if op == 'equal' else p.set_comp)(a, b)
            f.add(a, b, op == 'comp')
            effective += state is None
    compare(p, f, 'at the end', range(20))
    return ('refusal' if refused else 'no refusal') if effective > 9 else None


@st.composite
def constructions(draw):
    low = draw(st.sampled_from([-1, 0]))
    element = st.integers(low, 6)
    return {'blocks': draw(gen.block_lists(range(low, 7), 4)), 'pairs': draw(st.lists(st.tuples(element, element), max_size=5)),
            'form': draw(st.sampled_from(['list', 'part'])), 'then': draw(st.tuples(element, element))}


@random_case('C14', constructions, quick=2000, rule='some pair; labelled by contradiction')
def constructor(value):
    f = Facts()
    for block in value['blocks']:
        for x in block:
            f.add(block[0], x, False)
    contradiction = False
    for a, b in value['pairs']:
        if f.state(a, b) == 'equal':
            contradiction = True
        else:
            f.add(a, b, True)
    blocks = [list(b) for b in value['blocks']]
    part = blocks if value['form'] == 'list' else SetPart(blocks, 'Z')
    pairs = {tuple(x) for x in value['pairs']}
    if contradiction:
        refuses(lambda: SetPartComp(part, pairs), 'contradicting blocks and pairs', 'PartCompMismatchError')
        return 'contradiction'
    p = SetPartComp(part, pairs)
    compare(p, f, 'constructed')
    if min([x for b in blocks for x in b] + [x for y in pairs for x in y], default=0) >= 0:
        numbers(p, f, 'constructed')
    same(pairs, {tuple(x) for x in value['pairs']}, 'pairs changed')
    back = eval(str(p), {'SetPartComp': SetPartComp})
    expect(back == p, 'printed form evaluates to something else', str(p), str(back))
    a, b = value['then']
    if f.state(a, b) is None:
        p.set_equal(a, b)
        f.add(a, b, False)
        compare(p, f, 'constructed and changed')
    if value['form'] == 'list':
        same(blocks, value['blocks'], 'blocks changed')
    else:
        same(part.blocks, sorted(sorted(b) for b in blocks if len(b) > 1), 'partition handed in changed')
    return 'consistent' if pairs else None


@st.composite
def only_parts(draw):
    return draw(gen.block_lists(range(-1, 7), 4))


@random_case('C14', only_parts, quick=300, rule='at least one proper block')
def constructor_without_pairs(value):
    f = Facts()
    for block in value:
        for x in block:
            f.add(block[0], x, False)
    compare(SetPartComp(value), f, 'blocks')
    compare(SetPartComp(SetPart(value, 'Z')), f, 'partition')
    refuses(lambda: SetPartComp(comp_pairs={(0, 1)}), 'pairs without partition', 'CompWithoutPartError')
    return 'blocks' if any(len(b) > 1 for b in value) else None

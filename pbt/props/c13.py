"""Block labels stay attached to the right blocks through every change."""
from hypothesis import strategies as st

from discretehelpers.a import inventory_dict, inventory_partition
from discretehelpers.set_part import SetPart
from pbt import gen
from pbt.core import expect, random_case, refuses, same
from pbt.props import c11
from pbt.props.c11 import Model, domain_of, outside

LABELS = ['a', 'b', 'c', 0, 1, (2, 3)]
MORE_LABELS = LABELS + ['', -1, (), 'ab', 7, 8, (0,), 'd']


class Labelled(Model):
    def __init__(self, blocks, labels=None):
        super().__init__(blocks)
        self.labels = {}   # frozenset --> label
        for b, l in (labels or {}).items():
            self.labels[frozenset(b)] = l

    def label(self, x):
        return self.labels.get(frozenset(self.block(x)))

    def with_label(self, label):
        for b, l in self.labels.items():
            if l == label:
                return b
        return None

    def merge(self, xs):
        xs = list(xs)
        kept = {l for x in xs for l in [self.label(x)] if l is not None}
        assert len(kept) < 2
        for x in xs:
            self.labels.pop(frozenset(self.block(x)), None)
        super().merge(xs)
        if kept:
            self.labels[frozenset(self.block(xs[0]))] = kept.pop()

    def refine(self, parts, labels=None):
        old = frozenset().union(*map(frozenset, parts))
        self.labels.pop(old, None)
        super().refine(parts)
        for part, l in zip(parts, labels or []):
            self.labels[frozenset(part)] = l


def compare_labels(p, m, universe, message, labels):
    same(p.blocks, m.proper(), message + ': blocks')
    same({frozenset(b): l for b, l in p.block_labels.items()}, m.labels, message + ': labels')
    for x in universe:
        block, label = sorted(m.block(x)), m.label(x)
        same(p.get_label_from_element(x), label, message + ': label of element')
        same(p.get_label_from_block(block), label, message + ': label of block')
        same(p.get_label_from_block(tuple(block)), label, message + ': label of block')
        if label is not None:
            same(list(p.get_block_from_element(x)), block, message + ': labelled block of element')
    for label in labels + ['unused']:
        block = m.with_label(label)
        same(p.get_block_from_label(label), None if block is None else sorted(block), message + ': block of label')


@st.composite
def operations(draw, width=5, labels=LABELS):
    element = st.integers(-width, width)
    label = st.integers(0, len(labels) - 1)
    op = draw(st.sampled_from(['label element', 'label element', 'label element', 'label block', 'pair', 'many', 'refine', 'refine labelled', 'outside']))
    if op in ('label element', 'label block'):
        return [op, draw(element), draw(label)]
    if op == 'pair':
        return [op, draw(element), draw(element)]
    if op == 'many':
        return [op, draw(st.lists(element, max_size=4))]
    if op == 'outside':
        return [op, draw(label)]
    return [op, draw(st.integers(0, 5)), [draw(st.integers(0, 2)) for _ in range(2 * width + 1)], draw(st.lists(label, min_size=3, max_size=3)), draw(st.booleans())]


@st.composite
def histories(draw):
    return {
        'kind': draw(st.sampled_from(['N', 'Z', 'finite', 'pairs'])),
        'start': draw(gen.block_lists(range(-5, 6), 3)),
        'ops': draw(st.lists(operations(), min_size=1, max_size=14)),
    }


@random_case('C13', histories, quick=5000, rule='labelled by which of merged, refused, refined happened to labelled blocks')
def history(value):
    return follow(value, 5, LABELS)


@st.composite
def long_histories(draw):
    return {
        'kind': draw(st.sampled_from(['N', 'Z', 'finite', 'pairs'])),
        'start': draw(gen.block_lists(range(-12, 13), 8)),
        'ops': draw(st.lists(operations(12, MORE_LABELS), min_size=8, max_size=25)),
    }


@random_case('C13', long_histories, quick=300, rule='labelled by which of merged, refused, refined happened to labelled blocks')
def long_history(value):
    return follow(value, 12, MORE_LABELS)


def follow(value, width, LABELS):
    def translate(kind, e):
        return c11.translate(kind, e, width)

    def compare(p, m, universe, message):
        return compare_labels(p, m, universe, message, LABELS)

    kind = value['kind']
    universe = sorted({translate(kind, e) for e in range(-width, width + 1)})
    blocks = [[translate(kind, e) for e in b] for b in value['start']]
    if kind in 'NZ':  # keep one fixed big block around, so that all elements are in the range of the canonical blocks
        far = [universe[-1] + 2, universe[-1] + 3] if kind == 'N' else [universe[0] - 2, universe[-1] + 2]
        blocks.append(far)
    p = SetPart(blocks, domain_of(kind, width))
    m = Labelled(blocks)
    happened = set()
    for op, *args in value['ops']:
        if op == 'label element':
            x, label = translate(kind, args[0]), LABELS[args[1]]
            old, holder = m.label(x), m.with_label(label)
            if old is not None and old != label:
                refuses(lambda: p.add_label_to_element(x, label), 'second label for a block', 'LabelContradictionError')
                happened.add('refused')
            else:
                p.add_label_to_element(x, label)
                if holder is not None:
                    if x not in holder:
                        happened.add('merged by label')
                    m.merge([x, min(holder)])
                else:
                    m.labels[frozenset(m.block(x))] = label
        elif op == 'label block':
            block, label = sorted(m.block(translate(kind, args[0]))), LABELS[args[1]]
            old, holder = m.label(block[0]), m.with_label(label)
            if old is not None and old != label:
                refuses(lambda: p.add_label_to_block(block, label), 'second label for a block', 'LabelContradictionError')
                happened.add('refused')
            elif holder is not None and holder != frozenset(block):
                refuses(lambda: p.add_label_to_block(block, label), 'label of another block', Exception)
                happened.add('refused')
            else:
                p.add_label_to_block(tuple(block) if args[1] % 2 else block, label)
                m.labels[frozenset(block)] = label
            wrong = [block[0], universe[-1] + 1] if kind == 'finite' else block[:-1]
            if sorted(m.block(wrong[0])) != wrong if wrong else False:
                refuses(lambda: p.add_label_to_block(wrong, 'unused'), 'label for something that is no block', 'UnknownBlockError')
        elif op in ('pair', 'many'):
            xs = [translate(kind, e) for e in (args if op == 'pair' else args[0])]
            labels = {l for x in xs for l in [m.label(x)] if l is not None}
            call = (lambda: p.merge_pair(*xs)) if op == 'pair' else (lambda: p.merge_many(xs))
            if len(labels) > 1:
                refuses(call, 'merge of differently labelled blocks', 'LabelContradictionError')
                happened.add('refused')
            else:
                call()
                if labels and len({frozenset(m.block(x)) for x in xs}) > 1:
                    happened.add('merged')
                m.merge(xs)
        elif op == 'outside':
            if kind != 'Z':
                refuses(lambda: p.add_label_to_element(outside(kind), LABELS[args[0]]), 'label for element outside the domain', 'UnknownElementError')
        else:
            proper = [b for b in m.proper() if b[0] in universe and b[-1] in universe]
            if not proper:
                continue
            block = proper[args[0] % len(proper)]
            parts = [[], [], []]
            for i, x in enumerate(block):
                parts[args[1][i]].append(x)
            parts = [part for part in parts if part]
            if args[3]:
                parts = [part[::-1] for part in parts]
            given = [list(part) for part in parts]
            if op == 'refine':
                p.refine_block(parts)
                m.refine(parts)
            else:
                labels = [LABELS[i] for i in args[2][:len(parts)]]
                others = {l for b, l in m.labels.items() if b != frozenset(block)}
                if len(set(labels)) < len(labels) or others & set(labels):
                    refuses(lambda: p.refine_block(parts, labels), 'refinement with a label used twice', Exception)
                    happened.add('refused')
                else:
                    refuses(lambda: p.refine_block(parts, labels + ['unused']), 'too many labels', Exception)
                    refuses(lambda: p.refine_block(parts, labels[1:]), 'too few labels', Exception)
                    compare(p, m, universe, 'after refused refinement')
                    p.refine_block(parts, labels)
                    m.refine(parts, labels)
                    happened.add('refined')
            same(parts, given, 'argument changed')
        compare(p, m, universe, 'after ' + op)
    # the same partition with the same labels, built anew
    q = SetPart(p.blocks, p.domain, p.block_labels)
    compare(q, m, universe, 'built anew')
    q.merge_pair(universe[0], universe[0])
    if m.labels:
        b = min(m.labels, key=sorted)
        expect(q.block_labels is not p.block_labels, 'labels shared')
    return ', '.join(sorted(happened)) or None


@st.composite
def inventories(draw):
    values = draw(st.lists(st.integers(0, 5), max_size=14))
    keys = draw(gen.shuffled(range(-3, len(values) - 3)))
    return {'values': values, 'keys': keys, 'strings': draw(st.booleans())}


@random_case('C13', inventories, quick=2500, rule='some value occurs at least twice and not all are equal')
def inventory(value):
    values = [str(v) * 2 if value['strings'] else v for v in value['values']]
    groups = {}
    for i, v in enumerate(values):
        groups.setdefault(v, []).append(i)
    for kind in (list, tuple):
        p = inventory_partition(kind(values))
        same(p.domain, set(range(len(values))), 'domain')
        same(p.blocks, sorted(g for g in groups.values() if len(g) > 1), 'blocks of list')
        same({tuple(b): l for b, l in p.block_labels.items()}, {tuple(g): v for v, g in groups.items()}, 'labels of list')
        for i, v in enumerate(values):
            same(p.get_label_from_element(i), v, 'label of place')
    d = dict(zip(value['keys'], values))
    groups = {}
    for k in sorted(d):
        groups.setdefault(d[k], []).append(k)
    p = inventory_partition(d)
    same(p.domain, set(d), 'domain')
    same(p.blocks, sorted(g for g in groups.values() if len(g) > 1), 'blocks of dict')
    same({tuple(b): l for b, l in p.block_labels.items()}, {tuple(g): v for v, g in groups.items()}, 'labels of dict')
    same(list(d.items()), list(zip(value['keys'], values)), 'argument changed')
    for arg in (values, d):
        same(inventory_dict(arg), {v: len(g) for v, g in groups.items()}, 'numbers of occurrences')
    return len(groups) if 1 < len(groups) < len(values) else None

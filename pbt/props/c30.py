"""Segments of a diagram are the geometric closure of its true places."""
import contextlib
import io
import re
from itertools import combinations, product

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make
from pbt.props.c25 import letters
from pbt.props.c26 import components, diagrams, few_places


def closure(f):
    """Smallest collection of vectors with entries -1, 0, 1, by rounds until nothing is added."""
    n = len(f[0])
    result = {tuple(1 if (s >> k) & 1 else -1 for k in range(n)) for s in ref.exps(f[1])}
    new = set(result)
    while new:
        found = set()
        for v in new:
            for k in range(n):
                if v[k] == 0:
                    found |= {v[:k] + (sign,) + v[k + 1:] for sign in (-1, 1)}
                elif v[:k] + (-v[k],) + v[k + 1:] in result:
                    found.add(v[:k] + (0,) + v[k + 1:])
        new = found - result
        result |= new
    return result


def cells_of(v):
    return sorted(ref.undigits([x == 1 for x in w]) for w in product(*[[-1, 1] if x == 0 else [x] for x in v]))


def check_printed(text, n, *names):
    """Each segment is below the heading of its dimension, in the row of the arguments it crosses."""
    dimension, rows = None, {}
    for line in text.splitlines():
        if line.startswith('#'):
            dimension = int(line.strip('# '))
            continue
        label, _, entries = line.partition('{')
        for v in re.findall("'([^']*)':", entries):
            crossed = [k for k, c in enumerate(v) if c == '0']
            same(len(crossed), dimension, 'heading of printed segment %s' % v)
            expect(label.strip() in [','.join(own[k] for k in crossed) for own in names], 'row of printed segment', v, label)
            rows.setdefault((label.strip(), tuple(crossed)), set()).add(line)
    for (label, _), lines in rows.items():
        same(len(lines), 1, 'different printed rows for %s' % label)


def check(f, b=None):
    from discretehelpers.boolf.a import segment_to_adjacent_spots
    n = len(f[0])
    b = make(f) if b is None else b
    segments = closure(f)
    result = b.find_segments()
    same(len(result), 2, 'length of result')
    connected, collection = result
    found = {}
    for dimension, members in collection.segments.items():
        for v in members:
            same(sum(x == 0 for x in v), dimension, 'dimension of %s' % (v,))
            found[tuple(v)] = members[v]
    same(set(found), segments, 'segments')
    same(list(collection.number_by_dimension), [sum(1 for v in segments if v.count(0) == d) for d in range(n + 1)], 'numbers by dimension')
    for v in segments:
        same(list(segment_to_adjacent_spots(v)), cells_of(v), 'cells adjacent to %s' % (v,))
        expect(collection.inquire(list(v)), 'segment not found by inquiry', v)
    for v in product([-1, 0, 1], repeat=min(n, 4)):
        v = v + (1,) * (n - len(v))
        same(bool(collection.inquire(list(v))), v in segments, 'inquiry for %s' % (v,))
    cells = set(ref.exps(f[1]))
    same(set(collection.get_spots()), cells, 'cells')
    walls = {k: {(s, s | 1 << k) for s in cells if not (s >> k) & 1 and s | 1 << k in cells} for k in range(n)}
    links = collection.get_links()
    same({k: {tuple(p) for p in x} for k, x in links.items()}, {k: x for k, x in walls.items() if x}, 'walls')
    pairs = {}
    for k in range(n):
        for wall in walls[k]:
            for j in range(n):
                other = tuple(s | 1 << j for s in wall)
                if j != k and not (wall[0] >> j) & 1 and other in walls[k]:
                    pairs.setdefault(k, set()).add(frozenset((wall, other)))
    same({k: {frozenset(tuple(x) for x in p) for p in ps} for k, ps in collection.get_neighboring_links().items()}, pairs, 'neighbouring walls')
    if cells:
        expected = len(components(cells, [p for x in walls.values() for p in x])) == 1
        for k in range(n):
            expected = expected and len(components(walls[k], [tuple(p) for p in pairs.get(k, ())])) < 2
        same(bool(connected), expected, 'connected')
    output = io.StringIO()
    with contextlib.redirect_stdout(output):
        collection.print_segments()
        collection.print_segments(['%s_' % 'zyxwvuts'[i] for i in range(n)])
    printed = output.getvalue()
    for v in segments:
        label = ''.join({-1: '−', 0: '0', 1: '+'}[x] for x in v)
        same(printed.count("'%s': %s" % (label, cells_of(v))), 2, 'printed segment %s' % label)
    check_printed(printed, n, [str(x) for x in letters(f)], ['%s_' % 'zyxwvuts'[i] for i in range(n)])
    if n > 1:
        for wrong in (['a'] * n, ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i'][:n + 1], ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i'][:n - 1]):
            with contextlib.redirect_stdout(io.StringIO()):
                refuses(lambda: collection.print_segments(wrong), 'wrong number of names', Dedicated)
    is_fn(b, f, 'after use')
    top = max((v.count(0) for v in segments), default=0)
    return '%s, dimension %d' % ('connected' if connected else 'not connected', top) if len(segments) > len(cells) else None


def small(tier):
    for n in range(4):
        for t in range(1 << (1 << n)):
            yield {'t': t, 'v': list(range(n))}
    for t in range(2, 65536, 37 if tier == 'thorough' else 401):
        yield {'t': t, 'v': [0, 2, 3, 4]}
    for t in range(16):
        yield {'t': t, 'v': [3, 30]}


@enum_case('C30', small, rule='some neighbouring true places; labelled by connectedness and highest dimension')
def small_functions(value):
    return check(ref.fn(value))


@random_case('C30', lambda: st.one_of(diagrams(), few_places(), gen.fns(3, 6)), quick=250, rule='some neighbouring true places; labelled by connectedness and highest dimension')
def functions(value):
    return check(ref.fn(value))


@st.composite
def unions_of_subcubes(draw, low=3, high=6):
    n = draw(gen.sizes(low, high))
    t = 0
    for v in draw(st.lists(st.lists(st.integers(-1, 1), min_size=n, max_size=n), min_size=1, max_size=5)):
        for s in cells_of(v):
            t |= 1 << s
    return {'t': t, 'v': draw(gen.names(n))}


@random_case('C30', unions_of_subcubes, quick=200, rule='some neighbouring true places; labelled by connectedness and highest dimension')
def subcubes(value):
    return check(ref.fn(value))


@random_case('C30', lambda: unions_of_subcubes(7, 7), quick=12, rule='some neighbouring true places; labelled by connectedness and highest dimension')
def larger_subcubes(value):
    return check(ref.fn(value))


@random_case('C30', lambda: st.lists(st.sampled_from([-1, 0, 0, 1]), min_size=0, max_size=10), quick=100, rule='some free place; labelled by their number')
def adjacent_cells(value):
    from discretehelpers.boolf.a import segment_to_adjacent_spots
    for kind in (list, tuple):
        given = kind(value)
        same(list(segment_to_adjacent_spots(given)), cells_of(value), 'cells adjacent to %s' % (value,))
        same(given, kind(value), 'vector after use')
    return value.count(0) or None

"""The SVG path of a binary matrix fills exactly its ones."""
import re

from hypothesis import strategies as st

from pbt import gen
from pbt.core import enum_case, expect, random_case, same


def outlines(path):
    """Corner lists (x, y) of the subpaths, the way from the last to the first corner included."""
    expect(isinstance(path, str), 'not a string', path)
    tokens = re.findall(r'[A-Za-z]|-?\d+|[^\s,]', path)
    result = []
    x = y = 0
    k = 0
    command = None
    while k < len(tokens):
        if tokens[k].isalpha():
            command = tokens[k]
            k += 1
        expect(command is not None and command in 'MmLlHhVvZz', 'unknown command', path)
        wanted = {'M': 2, 'L': 2, 'H': 1, 'V': 1, 'Z': 0}[command.upper()]
        numbers = tokens[k:k + wanted]
        k += wanted
        expect(len(numbers) == wanted and all(re.fullmatch(r'-?\d+', t) for t in numbers), 'wrong parameters of command', path)
        numbers = [int(t) for t in numbers]
        if command.islower() and command != 'z':
            p, q = x, y
        else:
            p, q = 0, 0
        if command in 'MmLl':
            x, y = p + numbers[0], q + numbers[1]
        elif command in 'Hh':
            x = p + numbers[0]
        elif command in 'Vv':
            y = q + numbers[0]
        if command in 'Mm':
            result.append([(x, y)])
            command = {'M': 'L', 'm': 'l'}[command]  # further numbers without command
        elif command in 'Zz':
            expect(result, 'path does not begin with a move', path)
            x, y = result[-1][0]
            command = None
        else:
            expect(result, 'path does not begin with a move', path)
            result[-1].append((x, y))
    for corners in result:
        if corners[-1] == corners[0]:
            corners.pop()
    return result


def check_matrix(rows):
    import numpy as np
    from discretehelpers.a import bin2svg
    high, wide = len(rows), len(rows[0])
    given = np.array(rows)
    path = bin2svg(given)
    same(given.tolist(), rows, 'matrix after use')
    same(bin2svg(given), path, 'path of the same matrix')
    plain = [list(r) for r in rows]
    same(bin2svg(plain), path, 'path of nested lists')
    same(plain, rows, 'lists after use')
    same(bin2svg(np.array(rows, dtype=bool)), path, 'path of logical array')

    one = lambda i, j: 0 <= i < high and 0 <= j < wide and rows[i][j] == 1
    drawn = {}  # unit pieces: direction by place
    for corners in outlines(path):
        expect(len(corners) >= 4, 'outline with less than four corners', corners)
        for (x, y), (p, q) in zip(corners, corners[1:] + corners[:1]):
            expect((x == p) != (y == q), 'piece is not axis-parallel', (x, y), (p, q))
            while (x, y) != (p, q):
                if y == q:
                    d = 1 if p > x else -1
                    piece = ('h', min(x, x + d), y)
                    x += d
                else:
                    d = 1 if q > y else -1
                    piece = ('v', x, min(y, y + d))
                    y += d
                expect(piece not in drawn, 'piece drawn twice', piece)
                drawn[piece] = d
    border = set()
    for i in range(-1, high + 1):
        for j in range(-1, wide + 1):
            if one(i, j) != one(i + 1, j):
                border.add(('h', j, i + 1))
            if one(i, j) != one(i, j + 1):
                border.add(('v', j + 1, i))
    same(set(drawn), border, 'pieces of the outlines')

    # the colour by both of SVG's rules
    for i in range(high):
        winding = crossings = 0
        for j in range(wide):
            d = drawn.get(('v', j, i), 0)
            winding += d
            crossings += abs(d)
            same(winding != 0, one(i, j), 'filled by rule nonzero at row %d column %d' % (i, j))
            same(crossings % 2 == 1, one(i, j), 'filled by rule evenodd at row %d column %d' % (i, j))
    same(path == '', not border, 'empty path')


def small_matrices(tier):
    for high in range(1, 5):
        for wide in range(1, 5):
            if high * wide <= (12 if tier == 'thorough' else 9):
                for n in range(1 << high * wide):
                    yield [high, wide, n]


def label(rows):
    """ones touching diagonally, or a hole"""
    high, wide = len(rows), len(rows[0])
    labels = []
    for i in range(high - 1):
        for j in range(wide - 1):
            if rows[i][j] == rows[i + 1][j + 1] != rows[i][j + 1] == rows[i + 1][j]:
                labels.append('diagonal')
                break
        if labels:
            break
    outside = {(i, j) for i in range(-1, high + 1) for j in range(-1, wide + 1) if not (0 <= i < high and 0 <= j < wide)}
    todo = list(outside)
    while todo:
        i, j = todo.pop()
        for p, q in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if 0 <= p < high and 0 <= q < wide and (p, q) not in outside and not rows[p][q]:
                outside.add((p, q))
                todo.append((p, q))
    if any(not rows[i][j] and (i, j) not in outside for i in range(high) for j in range(wide)):
        labels.append('hole')
    return ' '.join(labels) or None


@enum_case('C35', small_matrices, rule='ones touching diagonally or zeros enclosed by ones')
def small(value):
    high, wide, n = value
    rows = [[(n >> (i * wide + j)) & 1 for j in range(wide)] for i in range(high)]
    check_matrix(rows)
    return label(rows)


@st.composite
def matrices(draw, top=14):
    high, wide = draw(gen.sizes(1, top)), draw(gen.sizes(1, top))
    kind = draw(st.sampled_from(['any', 'rectangles', 'chess']))
    rows = [[0] * wide for _ in range(high)]
    if kind == 'any':
        return [[draw(st.integers(0, 1)) for _ in range(wide)] for _ in range(high)]
    if kind == 'chess':
        rows = [[(i + j) % 2 for j in range(wide)] for i in range(high)]
    for _ in range(draw(st.integers(1, 6))):
        t, b = sorted([draw(st.integers(0, high - 1)), draw(st.integers(0, high - 1))])
        l, r = sorted([draw(st.integers(0, wide - 1)), draw(st.integers(0, wide - 1))])
        for i in range(t, b + 1):
            for j in range(l, r + 1):
                rows[i][j] ^= 1
    return rows


@random_case('C35', matrices, quick=800, rule='ones touching diagonally or zeros enclosed by ones')
def big(rows):
    check_matrix(rows)
    return label(rows)


@random_case('C35', lambda: st.tuples(matrices(6), st.integers(2, 5)), quick=200, rule='ones touching diagonally or zeros enclosed by ones')
def enlarged(value):
    """Every entry repeated: the same outlines with all coordinates multiplied."""
    from discretehelpers.a import bin2svg
    rows, k = value
    large = [[x for x in r for _ in range(k)] for r in rows for _ in range(k)]
    check_matrix(large)
    return label(rows)

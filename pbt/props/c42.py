"""Printed tables and markup show the data of the function they describe.

The printed text is parsed, and the data in it are compared with the reference model. The decoration is ignored.
"""
import contextlib
import io
import re
from fractions import Fraction
from functools import reduce
from itertools import product
from math import factorial, lcm

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make
from .c22 import moved, signed
from .c26 import diagrams
from .c31 import classes


def printed(thunk):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        result = thunk()
    return result, out.getvalue()


########################################################################################################################
# row of a table of functions


def columns(f):
    n = len(f[0])
    spots = ref.exps(f[1])
    return [tuple((i >> k) & 1 for i in spots) for k in range(n)]


def has_blight(f):
    seen = set()
    for c in columns(f):
        d = tuple(1 - x for x in c)
        if len(set(c)) < 2 or c in seen or d in seen:
            return True
        seen.add(c)
    return False


def number_of_bundles(f):
    cols = columns(f)
    n = len(cols)
    crossing = lambda j, k: len(set(zip(cols[j], cols[k]))) == 4
    return len(ref.orbits(range(n), [lambda j, k=k: k if j != k and crossing(j, k) else j for k in range(n)]))


def font(*numbers):
    size = max(len(str(x)) for x in numbers)
    return 'smaller' if size > 30 else 'small' if size > 15 else ''


def fields(text):
    result = []
    for line in text.strip('\n').split('\n')[1:]:
        m = re.fullmatch(r'\|class="([^"]*)"\| ?(.*)', line)
        expect(m, 'line of the row', line)
        result.append((m.group(1).split(), m.group(2).strip()))
    return result


@st.composite
def row_cases(draw):
    desc = draw(st.one_of(diagrams(), gen.root_fns(2, 6), gen.root_fns(7, 8), gen.fns(0, 4)))
    return {'f': desc, 'name': draw(st.sampled_from(['x', 'A and B', '[[link]]', '', '100$']))}


@random_case('C42', row_cases, quick=300, rule='row printed for a function that is not constant; labelled by number of arguments')
def rows(value):
    f = ref.fn(value['f'])
    n = len(f[0])
    b = make(f)
    if not n:
        return None
    if has_blight(f) or f[0] != tuple(range(n)):
        refuses(lambda: b.wiki_table_row(value['name']), 'redundant sets or gaps', Dedicated)
        return None
    text = b.wiki_table_row(value['name'])
    found = fields(text)
    same(len(found), 12, 'number of fields')
    zhe = ref.zhe(f)
    size = 1 << n
    # the value fraction reads the truth table as binary digits that repeat forever
    v = Fraction(ref.undigits(ref.digits(f[1], size)[::-1]), (1 << size) - 1)
    w = Fraction(ref.popcount(f[1]), size)
    same(b.weight_fract, w, 'weight')
    same(b.value_fract(), v, 'value')
    classes_of, values = zip(*found)
    same(int(values[0]), zhe, 'Zhegalkin index')
    same(classes_of[0][1:], ['odd' if zhe % 2 else 'even'] + [x for x in [font(zhe)] if x], 'kind of Zhegalkin index')
    same((int(values[1]), int(values[2])), (v.numerator, v.denominator), 'value fraction')
    same([c[2:] for c in classes_of[1:3]], [[x for x in [font(v.numerator, v.denominator)] if x]] * 2, 'size of the fraction')
    expect(abs(Fraction(values[3]) - v) < Fraction(1, 10 ** 15), 'value as decimal number', values[3], v)
    same(classes_of[3][2], 'below-half' if v < Fraction(1, 2) else 'above-half', 'half of value')
    same((int(values[4]), int(values[5])), (w.numerator, w.denominator), 'weight fraction')
    same(Fraction(values[6]), w, 'weight as decimal number')
    same(classes_of[6][2], 'below-half' if w < Fraction(1, 2) else 'above-half' if w > Fraction(1, 2) else 'exactly-half', 'half of weight')
    same((int(values[7]), int(values[8])), (ref.popcount(f[1]), size), 'weight fraction that is not reduced')
    same(int(values[9]), n, 'number of arguments')
    bundles = number_of_bundles(f)
    same(int(values[10]), bundles, 'number of bundles')
    same('uni' in classes_of[10], bundles == 1, 'class of functions with one bundle')
    same(values[11], value['name'], 'names')
    return str(n)


########################################################################################################################
# table of a clan


def numbers(text, pattern):
    return [int(x) for x in re.findall(pattern, text)]


PERM = r'Finite permutation number (\d+)\.svg'
VALNEG = r'Cube vertex number (\d+)\.svg'
KEYNEG = r'Cube vertex number (\d+) in square\.svg'


def parse_cell(line, n):
    m = re.match(r'\|colspan="(\d+)" *(?:class="([^"]*)")? *\|', line)
    expect(m, 'start of cell', line[:200])
    cell = {'span': int(m.group(1)), 'kinds': set((m.group(2) or '').split())}
    m = re.search(r'<abbr class="([^"]*)" title="([01 ]+)&#10;([01 ]+)">(\d+)</abbr>', line)
    expect(m, 'number in cell', line[:300])
    cell['number kinds'] = set(m.group(1).split())
    cell['zhe digits'], cell['digits'], cell['zhe'] = m.group(2).replace(' ', ''), m.group(3).replace(' ', ''), int(m.group(4))
    m = re.search(r'File:Venn ?([01 ]+)\.svg', line)
    cell['venn'] = m and m.group(1)
    icons, table = line.split('<table class="valneg-hover">')
    cell['icons'] = numbers(icons, VALNEG)
    head, *rest = re.split(r'<tr', table.replace('<tr class="top-labels">', '', 1))
    cell['head'] = numbers(head, VALNEG)
    transforms = []
    cell['left'] = []
    for row in rest:
        label = numbers(row.split('<td')[0], KEYNEG)
        same(len(label), 1, 'number at the left')
        cell['left'] += label
        tds = re.split(r'<td[^>]*>', row)[1:]
        same(len(tds), len(cell['head']), 'width of the table')
        for valneg, td in zip(cell['head'], tds):
            perms = numbers(td, PERM)
            same(perms, sorted(set(perms)), 'permutations in order')
            for perm, part in zip(perms, re.split(PERM, td)[2::2]):
                entries = re.findall(r'class="entry( negated)?">(\d+)<', part)
                transforms.append((label[0], perm, valneg, [~int(x) if sign else int(x) for sign, x in entries]))
    cell['transforms'] = transforms
    return cell


def by_weight(values):
    return sorted(set(values), key=lambda x: (ref.popcount(x), x))


def check_clan(f):
    n = len(f[0])
    b = make(f)
    if f[0] != tuple(range(n)):
        refuses(lambda: printed(b.ec_clan_matrix_wiki), 'gaps between the names', Dedicated)
        return None
    _, text = printed(b.ec_clan_matrix_wiki)
    is_fn(b, f, 'after printing')
    members, factions, families = classes(ref.table_arity(f, n), n)
    transforms = {}
    for m, p in product(range(1 << n), range(factorial(n))):
        s = signed(m, p, n)
        transforms.setdefault(ref.zhe(moved(f, s)), []).append((ref.undigits([v < 0 for v in s]), p, m, s))
    common = reduce(lcm, [len(v) // len(families) for v in factions.values()])

    top, *rows = text.split('|-\n')[1:]
    heads = [line for line in top.split('\n') if 'neg-ec-min' in line]
    same([int(re.search(r'>(\d+)</span>$', line).group(1)) for line in heads], sorted(families), 'names of families')
    for line in heads:
        rep = int(re.search(r'>(\d+)</span>$', line).group(1))
        same(numbers(line, PERM), sorted({t[1] for z in families[rep] for t in transforms[z]}), 'permutations of family')
        same(numbers(line, r'colspan="(\d+)"'), [common], 'width of family')

    same(len(rows), len(factions), 'number of rows')
    listed = []
    for rep, row in zip(sorted(factions), rows):
        lines = row.split('\n')
        same(int(lines[0].split('|')[-1]), ref.popcount(rep), 'weight')
        same(int(lines[1].split('|')[-1]), len(factions[rep]), 'cardinality')
        same(int(lines[2].split('|')[-1]), rep, 'name of faction')
        keynegs = by_weight(t[0] for z in factions[rep] for t in transforms[z])
        same(numbers(lines[3], KEYNEG), keynegs, 'negated positions of faction')
        weights = sorted({ref.popcount(x) for x in keynegs})
        same(numbers(lines[3].split('<tr class="indices">')[0], r'<td>(\d+)</td>'), weights, 'weights of negated positions')
        same([numbers(x, KEYNEG) for x in lines[3].split('<tr class="indices">')[1].split('<td>')[1:]], [[x for x in keynegs if ref.popcount(x) == w] for w in weights], 'negated positions by weight')
        expect('&%d_%s<' % (sum(weights), ''.join(map(str, weights))) in lines[3], 'key for sorting', lines[3][:200])
        cells = [parse_cell(line, n) for line in lines[4:] if line.startswith('|colspan')]
        same(sorted(c['zhe'] for c in cells), factions[rep], 'members of faction')
        size = len(factions[rep]) // len(families)
        for k, family in enumerate(sorted(families)):
            splinter = cells[k * size:(k + 1) * size]
            same({c['zhe'] for c in splinter}, set(factions[rep]) & set(families[family]), 'members in the column of the family')
            for i, c in enumerate(splinter):
                same('border' in c['kinds'], i == size - 1, 'border of cell')
        for c in cells:
            z = c['zhe']
            g = ref.from_zhe(z)
            listed.append(z)
            same(c['span'], common // size, 'width of cell')
            same('base' in c['kinds'], z == ref.zhe(f), 'cell of the function itself')
            same('neg-ec-min' in c['number kinds'], z in families, 'smallest of family')
            same('perm-ec-min' in c['number kinds'], z in factions, 'smallest of faction')
            digits = ''.join(map(str, ref.digits(ref.table_arity(g, n), 1 << n)))
            same(c['digits'], digits, 'truth table')
            same(c['zhe digits'], ''.join(map(str, ref.digits(z, 1 << n))), 'Zhegalkin digits')
            if n in (2, 3):
                same((c['venn'] or '').replace(' ', ''), digits, 'diagram')
            own = transforms[z]
            same(sorted(c['transforms']), sorted((k, p, m, list(s)) for k, p, m, s in own), 'transforms')
            same(c['left'], by_weight(t[0] for t in own), 'negated positions')
            same(c['head'], by_weight(t[2] for t in own), 'negated values')
            same(c['icons'], c['head'], 'negated values above the table')
    same(sorted(listed), sorted(members), 'members of clan')
    expect(('4-ary' in text) == (n == 4), 'category of functions of four arguments')
    return '%d-ary, %d members' % (n, len(members))


def clans_of(tier):
    for t in range(16):
        yield {'t': t, 'v': [0, 1]}
    yield {'t': 6, 'v': [0, 2]}
    for t in range(256) if tier == 'thorough' else range(1, 256, 7):
        yield {'t': t, 'v': [0, 1, 2]}


@enum_case('C42', clans_of, rule='table of a clan with at least two members')
def clans(value):
    f = ref.fn(value)
    if not f[0]:
        return None
    label = check_clan(f)
    return label if label and ' 1 ' not in label else None


@random_case('C42', lambda: gen.root_fns(4, 4), quick=8, thorough=60, rule='table of a clan with at least two members')
def clans_of_four(value):
    f = ref.fn(value)
    if not f[0]:
        return None
    label = check_clan(f)
    return label if label and ' 1 ' not in label else None


########################################################################################################################
# signs


@random_case('C42', lambda: st.recursive(st.one_of(st.integers(-30, 30), st.booleans(), st.sampled_from('abc')), lambda x: st.lists(x, max_size=9), max_leaves=30), quick=300, rule='some negative number and some other number')
def signs(value):
    from discretehelpers.a import pretty_signs
    text = str(value)
    expected = re.sub(r'(?<![0-9-])([0-9])', r' \1', text.replace('True', '●').replace('False', '○'))
    same(pretty_signs(value), expected, 'text with aligned signs')
    for other in (tuple(value) if isinstance(value, list) else {value}, {0: value}, text.replace('[', '{').replace(' ', '\n').replace(',', '|')):
        same(pretty_signs(other), re.sub(r'(?<![0-9-])([0-9])', r' \1', str(other).replace('True', '●').replace('False', '○')), 'text of other kind with aligned signs')
    numbers_in = re.findall(r'-?\d+', text)
    return 'nested' if any(x[0] == '-' for x in numbers_in) and any(x[0] != '-' for x in numbers_in) else None


########################################################################################################################
# listings


@random_case('C42', lambda: st.one_of(diagrams(), gen.fns(2, 4)), quick=150, rule='at least two arguments and no redundant sets')
def listings(value):
    f = ref.fn(value)
    n = len(f[0])
    b = make(f)
    if not n or has_blight(f):
        return None
    for name in ('hypersplits_pretty', 'hypersplits_potential_cores_pretty'):
        for names in (None, ['x%d' % k for k in range(n)]):
            expected = getattr(b, name)(names)
            result, text = printed(lambda: getattr(make(f), name)(names, print_only=True))
            same(result, None, 'result of printing')
            lines = text.strip('\n').split('\n')
            same([int(line.split()[1]) for line in lines if line.startswith('#')], list(expected), 'printed dimensions')
            same([line for line in lines if not line.startswith('#')], [str(entry) for d in expected for entry in expected[d]], 'printed entries')
    try:
        links = b.fullspotlinks_by_atom_pretty()
    except AttributeError:
        pass  # see known_findings.txt
    else:
        expected = {}
        for k in range(n):
            pairs = [(i, i | 1 << k) for i in ref.exps(f[1]) if not (i >> k) & 1 and (f[1] >> (i | 1 << k)) & 1]
            expected[k] = sorted(pairs)
        same([sorted(tuple(sorted(p)) for p in v) for v in links.values()], list(expected.values()), 'links by argument')
    return str(n) if n > 1 else None


@random_case('C42', lambda: gen.sizes(1, 3).flatmap(lambda n: st.lists(gen.tables(n).map(lambda t: [n, t]), min_size=1, max_size=5)), quick=100, rule='at least two functions')
def swans(value):
    from discretehelpers.boolf.a import boolfs_to_swan
    functions = [ref.canon(range(n), t) for n, t in value]
    n = value[0][0]
    functions = [f for f in functions if len(f[0]) == n]
    if not functions:
        return None
    boolfs = [make(f) for f in functions]
    for verophile in (True, False):
        silent, text = printed(lambda: boolfs_to_swan(boolfs, verophile, False))
        same(text, '', 'nothing printed')
        swan, text = printed(lambda: boolfs_to_swan(boolfs, verophile, True))
        same(swan == silent, True, 'same result with printing')
        lines = text.strip('\n').split('\n')
        tables = [re.split(r' {3,}', line)[-1].replace(' ', '') for line in lines]
        same(sorted(tables), sorted(''.join(map(str, ref.digits(f[1], 1 << n))) for f in functions), 'printed truth tables')
        for line, table in zip(lines, tables):
            digits = [int(x) for x in table]
            layers = tuple(tuple(digits[i] for i in range(1 << n) if ref.popcount(i) == w) for w in range(n + 1))
            same(re.findall(r'[01]', line.split(')', 1)[1].rsplit('   ', 1)[0]), [str(x) for w in layers for x in w], 'printed layers')
            same([int(x) for x in re.findall(r'\d+', line.split(')')[0])], [sum(w) for w in layers], 'printed layer weights')
    return len(functions) if len(functions) > 1 else None

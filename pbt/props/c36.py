"""Invalid input is refused promptly and never silently accepted.

Each case takes the description of a valid object, shows that it is accepted, damages it in one way, and expects an exception.
"""
from copy import deepcopy

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same


def refused(call, args, message):
    """The call raises an exception and leaves its arguments alone."""
    before = deepcopy(args)
    refuses(lambda: call(*args), message, Exception)
    for x, y in zip(args, before):
        same(type(x), type(y), message + ': type of argument after use')
        if type(x) in (list, tuple, dict, set, str, int, bool, float):
            same(x, y, message + ': argument after use')


def accepted(call, args, message):
    before = deepcopy(args)
    result = call(*args)
    for x, y in zip(args, before):
        if type(x) in (list, tuple, dict, set, str, int, bool, float):
            same(x, y, message + ': argument after use')
    return result


STRANGE = ['a', 0.5, None, -1]

########################################################################################################################
# permutations


@st.composite
def perm_cases(draw):
    p = draw(gen.perms(2, 8).filter(lambda x: list(x) != sorted(x)))
    return {'p': list(p), 'i': draw(st.integers(0, 99)), 'j': draw(st.integers(0, 99)),
            'form': draw(st.sampled_from(['sequence', 'cycles', 'dict', 'period', 'type'])),
            'damage': draw(st.integers(0, 5)), 'strange': draw(st.integers(0, 3))}


@random_case('C36', perm_cases, quick=1500, rule='every damaged description')
def permutations(value):
    from discretehelpers.perm import Perm
    p, form, damage = value['p'], value['form'], value['damage']
    n = len(p)
    i = value['i'] % n
    strange = STRANGE[value['strange']]
    cycles = [list(c) for c in ref.cycles_of(p)]
    expected = accepted(Perm, [list(p)], 'sequence')
    same(accepted(Perm, [deepcopy(cycles)], 'cycles') == expected, True, 'cycles')
    same(accepted(Perm, [dict(enumerate(p))], 'dictionary') == expected, True, 'dictionary')
    if form == 'sequence':
        q = list(p)
        if damage == 0:
            q[i] = q[(i + 1) % n]
        elif damage == 1:
            q[i] = n + value['j'] % 3
        elif damage == 2:
            q.append(n + 1)
        elif damage == 3:
            q[i] = strange
        elif damage == 4:
            q[i] = ~q[i]
        else:
            q.pop(q.index(i % (n - 1)))
        for arg in (q, tuple(q)):
            refused(Perm, [arg], 'sequence %r' % (arg,))
    elif form == 'cycles':
        c = deepcopy(cycles)
        k = value['j'] % len(c)
        if damage == 0:
            c[k].append(c[k][0])
        elif damage == 1:
            c.append([c[k][0], n + 1])
        elif damage == 2:
            c.append(list(c[k]))
        elif damage == 3:
            c[k][value['i'] % len(c[k])] = strange
        elif damage == 4:
            c.insert(0, [c[k][-1], n])
        else:
            c.append(n)
        refused(Perm, [c], 'cycles %r' % (c,))
    elif form == 'dict':
        d = dict(enumerate(p))
        if damage == 0:
            d[i] = d[(i + 1) % n]
        elif damage == 1:
            d.pop(next(k for k in range(n) if p[k] != k))
        elif damage == 2:
            d[i] = n
        elif damage == 3:
            d = {k - 1: v - 1 for k, v in d.items()}
            if d.get(-1) == -1:
                d.update({-1: -2, -2: -1})
        elif damage == 4:
            d = {k + 0.5: v + 0.5 for k, v in d.items()}
        else:
            d[n] = n + 1
        refused(Perm, [d], 'dictionary %r' % (d,))
    elif form == 'period':
        top = max(k for k in range(n) if p[k] != k)
        accepted(Perm, [list(p), n], 'period')
        for wrong in (0, 1, -n, n + 0.5, 'a', top):
            refused(Perm, [list(p), wrong], 'period %r' % (wrong,))
            refused(Perm, [deepcopy(cycles), wrong], 'period %r' % (wrong,))
    else:
        for wrong in (''.join(map(str, p)), set(p), n, 1.5, frozenset(p), iter(p)):
            refuses(lambda: Perm(wrong), 'type %s' % type(wrong).__name__, Exception)
        for wrong in ([str(x) for x in p], [tuple(c) for c in cycles], [set(c) for c in cycles], [float(x) + 0.5 for x in p], [None] * n, [{x: x} for x in p]):
            refused(Perm, [wrong], 'elements of type %s' % type(wrong[0]).__name__)
    return form + str(damage)


@st.composite
def sig_cases(draw):
    s = draw(gen.sig_perms(2, 6))
    return {'s': list(s), 'i': draw(st.integers(0, 99)), 'j': draw(st.integers(0, 99)),
            'form': draw(st.sampled_from(['sequence', 'matrix', 'combination', 'value', 'places'])),
            'damage': draw(st.integers(0, 5)), 'strange': draw(st.integers(0, 3))}


@random_case('C36', sig_cases, quick=1500, rule='every damaged description')
def signed_permutations(value):
    from discretehelpers.perm import Perm
    from discretehelpers.sig_perm import SigPerm
    s, form, damage = value['s'], value['form'], value['damage']
    n = len(s)
    i, j = value['i'] % n, value['j'] % n
    strange = STRANGE[value['strange']]
    p = [x if x >= 0 else ~x for x in s]
    valneg = [int(~x in s) for x in range(n)]
    keyneg = [int(x < 0) for x in s]
    matrix = [[0] * n for _ in range(n)]
    for k, x in enumerate(s):
        matrix[p[k]][k] = 1 if x >= 0 else -1
    parts = {
        'valneg': valneg, 'valneg_index': sum(d << k for k, d in enumerate(valneg)),
        'keyneg': keyneg, 'keyneg_index': sum(d << k for k, d in enumerate(keyneg)),
        'perm': p, 'perm_index': ref.left_rank(p),
        'pair': (sum(d << k for k, d in enumerate(valneg)), ref.left_rank(p)),
        'sequence': s, 'matrix': matrix
    }

    def of(*names, **changes):
        return SigPerm(**{k: deepcopy(parts[k]) for k in names}, **changes)

    good = of('sequence')
    for names in (['matrix'], ['pair'], ['valneg', 'perm'], ['keyneg', 'perm'], ['valneg_index', 'perm_index'], ['keyneg_index', 'perm']):
        same(of(*names) == good, True, 'description by %s' % names)

    if form == 'sequence':
        q = list(s)
        if damage == 0:
            q[i] = q[(i + 1) % n]
        elif damage == 1:
            q[i] = ~q[(i + 1) % n]
        elif damage == 2:
            q.append(n + 1)
        elif damage == 3:
            q.append(~(n + 1))
        elif damage == 4:
            q[i] = 'a' if strange in (-1, 0.5) else strange
        else:
            q = [q]
        refused(lambda x: SigPerm(sequence=x), [q], 'sequence %r' % (q,))
    elif form == 'matrix':
        m = deepcopy(matrix)
        if damage == 0:
            m[i][j] = 1 if m[i][j] == 0 else 0
        elif damage == 1:
            m[i][j] = 2
        elif damage == 2:
            m.pop()
        elif damage == 3:
            m = [r + [0] for r in m] + [[0] * (n + 1)]
        elif damage == 4:
            m[i] = list(m[(i + 1) % n])
        else:
            for r in range(n):
                m[r][i] = m[r][(i + 1) % n]
        refused(lambda x: SigPerm(matrix=x), [m], 'matrix %r' % (m,))
    elif form == 'combination':
        negs = ['valneg', 'valneg_index', 'keyneg', 'keyneg_index']
        perms = ['perm', 'perm_index']
        wholes = ['pair', 'sequence', 'matrix']
        a, b = negs[value['i'] % 4], negs[(value['i'] + 1 + value['j'] % 3) % 4]
        c, d = perms[value['j'] % 2], perms[1 - value['j'] % 2]
        e, f = wholes[value['i'] % 3], wholes[(value['i'] + 1 + value['j'] % 2) % 3]
        for names in ([], [a], [c], [a, b], [c, d], [a, b, c], [a, c, d], [a, c, e], [a, e], [c, e], [e, f]):
            refuses(lambda: of(*names), 'combination of %s' % names, Exception)
    elif form == 'value':
        for kwargs in (dict(valneg_index=-1 - i, perm=list(p)), dict(keyneg_index=-1 - i, perm=list(p)), dict(perm_index=-1 - i, valneg=list(valneg)),
                       dict(valneg=list(valneg), perm=[p[0]] + list(p)), dict(valneg=valneg[:i] + [2] + valneg[i + 1:], perm=list(p)),
                       dict(keyneg=keyneg[:i] + [-1] + keyneg[i + 1:], perm=list(p)), dict(valneg={-1}, perm=list(p)), dict(keyneg={0.5}, perm=list(p)),
                       dict(pair=(1,)), dict(pair=(1, 2, 3)), dict(pair=(-1, 1)), dict(pair=(1, -1)), dict(pair=5),
                       dict(valneg=0.5, perm=list(p)), dict(keyneg=0.5, perm=list(p)), dict(sequence=5), dict(matrix=5), dict(matrix=[1, 0])):
            refuses(lambda: SigPerm(**kwargs), 'values %r' % (kwargs,), Exception)
    else:
        # permutation of the places that does not come from a signed permutation
        accepted(lambda x: SigPerm(schoute_perm=x), [good.schoute_perm], 'permutation of places')
        size = 1 << n
        q = [k for k in range(size)]
        # exchange of two places
        x, y = value['i'] % size, value['j'] % size
        if x == y:
            y = (x + 1) % size
        q[x], q[y] = q[y], q[x]
        if not is_place_perm(q, n):
            refuses(lambda: SigPerm(schoute_perm=Perm(q, size)), 'permutation %r of places' % (q,), Exception)
    return form + str(damage)


def is_place_perm(q, n):
    """Whether all images are given by signed argument permutation."""
    zero = q[0]
    images = [q[1 << k] ^ zero for k in range(n)]
    if sorted(images) != [1 << k for k in range(n)]:
        return False
    for i in range(1 << n):
        x = zero
        for k in range(n):
            if (i >> k) & 1:
                x ^= images[k]
        if x != q[i]:
            return False
    return True


@st.composite
def gl_cases(draw):
    m = draw(gen.gl(2, 5))
    return {'m': list(m), 'i': draw(st.integers(0, 99)), 'j': draw(st.integers(0, 99)),
            'form': draw(st.sampled_from(['vector', 'matrix', 'perm', 'combination'])),
            'damage': draw(st.integers(0, 5)), 'strange': draw(st.integers(0, 3))}


@random_case('C36', gl_cases, quick=1500, rule='every damaged description')
def walsh_permutations(value):
    from discretehelpers.perm import Perm
    from discretehelpers.walsh_perm import WalshPerm
    m, form, damage = value['m'], value['form'], value['damage']
    n = len(m)
    i = value['i'] % n
    strange = STRANGE[value['strange']]
    matrix = [[(m[c] >> r) & 1 for c in range(n)] for r in range(n)]
    places = [ref.m_apply(m, k) for k in range(1 << n)]
    good = accepted(WalshPerm, [list(m)], 'vector')
    same(accepted(lambda x: WalshPerm(matrix=x), [deepcopy(matrix)], 'matrix') == good, True, 'matrix')
    same(accepted(lambda x: WalshPerm(perm=x), [list(places)], 'permutation') == good, True, 'permutation')
    if form == 'vector':
        v = list(m)
        if damage == 0:
            v[i] = 0
        elif damage == 1:
            v[i] = v[(i + 1) % n]
        elif damage == 2:
            x = 0
            for k in range(n):
                if k != i and (value['j'] >> k) & 1:
                    x ^= v[k]
            v[i] = x  # dependent
        elif damage == 3:
            v[i] = v[i] | 1 << n + value['j'] % 3
        elif damage == 4:
            v[i] = strange
        else:
            v.append(v[i])
        for arg in (v, tuple(v)):
            refused(WalshPerm, [arg], 'vector %r' % (arg,))
    elif form == 'matrix':
        x = deepcopy(matrix)
        if damage == 0:
            x[i] = list(x[(i + 1) % n])
        elif damage == 1:
            x[i] = [0] * n
        elif damage == 2:
            x.pop()
        elif damage == 3:
            x[i][value['j'] % n] = 2
        elif damage == 4:
            x = [r + [0] for r in x] + [[0] * (n + 1)]
        else:
            x[i] = [sum(x[k][c] for k in range(n) if k != i) % 2 for c in range(n)]
        refused(lambda y: WalshPerm(matrix=y), [x], 'matrix %r' % (x,))
    elif form == 'perm':
        q = list(places)
        a, b = value['i'] % len(q), value['j'] % len(q)
        if a == b:
            b = (a + 1) % len(q)
        if damage < 3:
            q[a], q[b] = q[b], q[a]
            linear = all(q[x ^ y] == q[x] ^ q[y] for x in range(len(q)) for y in range(len(q)))
        elif damage == 3:
            q = [x ^ (1 + value['j'] % (len(q) - 1)) for x in q]
            linear = False
        elif damage == 4:
            q[a] = q[b]
            linear = False
        else:
            q = q[:-1]
            linear = False
        if not linear:
            refused(lambda y: WalshPerm(perm=y), [q], 'permutation %r' % (q,))
            if sorted(q) == list(range(1 << n)):
                refuses(lambda: WalshPerm(perm=Perm(q, 1 << n)), 'permutation %r' % (q,), Exception)
    else:
        for kwargs in (dict(vector=list(m), matrix=matrix), dict(vector=list(m), perm=places), dict(matrix=matrix, perm=places), dict(vector=list(m), matrix=matrix, perm=places),
                       dict(vector=5), dict(matrix=5), dict(vector=set(m)), dict(matrix=[1, 0])):
            refuses(lambda: WalshPerm(**kwargs), 'arguments %r' % (kwargs,), Exception)
    return form + str(damage)


########################################################################################################################
# partitions


@st.composite
def part_cases(draw):
    size = draw(gen.sizes(3, 9))
    order = draw(gen.shuffled(range(size)))
    cut = draw(st.integers(2, size - 1))
    blocks = [order[:cut], order[cut:]]
    return {'blocks': blocks, 'i': draw(st.integers(0, 99)), 'j': draw(st.integers(0, 99)), 'domain': draw(st.sampled_from(['N', 'Z', 'set'])),
            'damage': draw(st.integers(0, 6))}


@random_case('C36', part_cases, quick=1500, rule='every damaged description')
def partitions(value):
    from discretehelpers.set_part import SetPart
    from discretehelpers.set_part_comp import SetPartComp
    blocks, damage = value['blocks'], value['damage']
    size = sum(map(len, blocks))
    domain = set(range(size)) if value['domain'] == 'set' else value['domain']
    i, j = value['i'], value['j']
    accepted(SetPart, [deepcopy(blocks), domain], 'blocks')
    accepted(SetPartComp, [deepcopy(blocks)], 'blocks')
    x = deepcopy(blocks)
    first, second = x
    if damage == 0:
        second.append(first[i % len(first)])
    elif damage == 1:
        first.insert(i % (len(first) + 1), first[j % len(first)])
    elif damage == 2:
        first[i % len(first)] = 0.5
    elif damage == 3:
        first[i % len(first)] = 'a'
    elif damage == 4:
        x.append([first[i % len(first)]])
    elif damage == 5:
        if value['domain'] == 'Z':
            second.append(0.25)
        elif value['domain'] == 'N':
            second.append(-1 - i)
        else:
            second.append(size + i)
    else:
        for wrong in ('Q', 7, None, {0: 1}, 1.5):
            refused(SetPart, [deepcopy(blocks), wrong], 'domain %r' % (wrong,))
        for wrong in (5, [5], [None], [[[0]]]):
            refused(SetPart, [wrong, domain], 'blocks %r' % (wrong,))
            refused(SetPartComp, [wrong], 'blocks %r' % (wrong,))
        refused(SetPart, [deepcopy(blocks), domain, 5], 'labels 5')
        refused(SetPart, [deepcopy(blocks), domain, {tuple(sorted(first)): 'a', tuple(sorted(second)): 'a'}], 'the same label for two blocks')
        return 'type'
    refused(SetPart, [x, domain], 'blocks %r' % (x,))
    if damage != 5 or value['domain'] == 'Z':
        refused(SetPartComp, [x], 'blocks %r' % (x,))
    return '%s%d' % (value['domain'], damage)


@st.composite
def comp_cases(draw):
    value = draw(part_cases())
    size = sum(map(len, value['blocks']))
    value['pairs'] = draw(st.lists(st.tuples(st.integers(0, size), st.integers(0, size)), max_size=3))
    return value


@random_case('C36', comp_cases, quick=1500, rule='damaged or contradictory description')
def complements(value):
    from discretehelpers.set_part import SetPart
    from discretehelpers.set_part_comp import SetPartComp
    blocks, damage = value['blocks'], value['damage']
    size = sum(map(len, blocks))
    i, j = value['i'], value['j']
    # two-colouring of the blocks
    pairs = [tuple(p) for p in value['pairs']]
    classes = ref.Classes()
    for b in blocks:
        for side in (0, 1):
            for e in b:
                classes.merge((b[0], side), (e, side))
    for a, b in pairs:
        for side in (0, 1):
            classes.merge((a, side), (b, 1 - side))
    contradictory = any(classes.same((e, 0), (e, 1)) for e in range(size + 1))
    if contradictory:
        refused(SetPartComp, [deepcopy(blocks), list(pairs)], 'contradictory pairs %r' % (pairs,))
        refused(SetPartComp, [deepcopy(blocks), set(pairs)], 'contradictory pairs %r' % (pairs,))
        refuses(lambda: SetPartComp(SetPart(blocks), pairs), 'contradictory pairs %r' % (pairs,), Exception)
        return 'contradiction'
    accepted(SetPartComp, [deepcopy(blocks), list(pairs)], 'pairs')
    first = blocks[0]
    if damage == 0:
        bad = [(first[0], first[-1])]
    elif damage == 1:
        bad = [(i, i)]
    elif damage == 2:
        bad = [(0, 'a')]
    elif damage == 3:
        bad = [(0, 1, 2)]
    elif damage == 4:
        bad = [(0, 0.5)]
    elif damage == 5:
        outside = -1 - i
        refuses(lambda: SetPartComp(SetPart(blocks), pairs + [(first[0], outside)]), 'complement outside of domain', Exception)
        part = SetPart(blocks, range(size + 1))
        refuses(lambda: SetPartComp(part, pairs + [(size + 1 + i, first[0])]), 'complement outside of domain', Exception)
        same(sorted(map(sorted, part.blocks)), sorted(sorted(b) for b in blocks if len(b) > 1), 'partition after use')
        return 'outside'
    else:
        refused(SetPartComp, [None, [(0, 1)]], 'complements without blocks')
        refused(SetPartComp, [deepcopy(blocks), 5], 'number')
        return 'type'
    refused(SetPartComp, [deepcopy(blocks), list(pairs) + bad], 'pairs %r' % (bad,))
    refused(SetPartComp, [deepcopy(blocks), bad + list(pairs)], 'pairs %r' % (bad,))
    return 'pair%d' % damage


########################################################################################################################
# vectors and functions


@st.composite
def vector_cases(draw):
    n = draw(gen.sizes(1, 12))
    w = draw(gen.words(n))
    return {'n': n, 'w': w, 'i': draw(st.integers(0, 99)), 'form': draw(st.sampled_from(['digit', 'number', 'exponents', 'combination'])),
            'strange': draw(st.integers(0, 5))}


@random_case('C36', vector_cases, quick=1500, rule='every damaged description')
def vectors(value):
    from discretehelpers.binv import Binv
    n, w, form = value['n'], value['w'], value['form']
    i = value['i'] % n
    digits = [(w >> k) & 1 for k in range(n)]
    exps = set(ref.exps(w))
    good = accepted(Binv, [list(digits)], 'digits')
    same([int(d) for d in good], digits, 'digits')
    if form == 'digit':
        wrong = [2, -1, 0.5, 'a', None, 1.5][value['strange']]
        for arg in (digits[:i] + [wrong] + digits[i + 1:], tuple(digits[:i] + [wrong] + digits[i + 1:])):
            refused(Binv, [arg], 'digits %r' % (arg,))
        string = ''.join(map(str, digits))
        wrong = '2a-.,x'[value['strange']]
        refused(Binv, [string[:i] + wrong + string[i + 1:]], 'digit %s' % wrong)
        for arg in (set(digits), w, 1.5, {0: 1}, [digits]):
            refused(Binv, [arg], 'digits %r' % (arg,))
    elif form == 'number':
        for wrong in (-1 - w, w + 0.5, str(w), [w]):
            refuses(lambda: Binv(intval=wrong), 'number %r' % (wrong,), Exception)
            refuses(lambda: Binv(intval=wrong, length=n), 'number %r' % (wrong,), Exception)
        accepted(lambda: Binv(intval=w, length=n), [], 'number')
        if w:
            for length in range(-1, len(bin(w)) - 2):
                refuses(lambda: Binv(intval=w, length=length), 'number %d with length %d' % (w, length), Exception)
        refuses(lambda: Binv(intval=w, length='a'), 'length', Exception)
    elif form == 'exponents':
        accepted(lambda x: Binv(exposet=x, length=n), [exps], 'exponents')
        for wrong in ({-1 - i}, {0.5}, ['a'], 5, 'a', [None], {i: i}):
            refuses(lambda: Binv(exposet=wrong), 'exponents %r' % (wrong,), Exception)
            refuses(lambda: Binv(exposet=wrong, length=n), 'exponents %r' % (wrong,), Exception)
        if exps:
            for length in range(-1, max(exps) + 1):
                refuses(lambda: Binv(exposet=exps, length=length), 'exponents %r with length %d' % (exps, length), Exception)
    else:
        for kwargs in (dict(), dict(length=n), dict(minimal_length=n), dict(vector=digits, intval=w), dict(vector=digits, exposet=exps), dict(intval=w, exposet=exps),
                       dict(vector=digits, length=n), dict(vector=digits, length=n + 1), dict(vector=digits, minimal_length=n + 1), dict(vector=digits, intval=w, exposet=exps)):
            refuses(lambda: Binv(**kwargs), 'combination %s' % sorted(kwargs), Exception)
    return form


@st.composite
def function_cases(draw):
    n = draw(gen.sizes(1, 4))
    desc = {'n': n, 'bits': draw(gen.words(1 << n)), 'names': draw(gen.names(n, 4)), 'i': draw(st.integers(0, 99)), 'j': draw(st.integers(0, 99))}
    desc['form'] = draw(st.sampled_from(['digits', 'names', 'places', 'numbers', 'spectrum', 'literals', 'combination']))
    desc['order'] = draw(gen.shuffled(range(n)))
    desc['strange'] = draw(st.integers(0, 5))
    return desc


@random_case('C36', function_cases, quick=1500, rule='every damaged description')
def functions(value):
    from discretehelpers.binv import Binv
    from discretehelpers.boolf import Boolf
    n, bits, form = value['n'], value['bits'], value['form']
    names = [sorted(value['names'])[k] for k in value['order']]
    i, j = value['i'] % n, value['j']
    size = 1 << n
    digits = [(bits >> k) & 1 for k in range(size)]
    string = ''.join(map(str, digits))
    spots = ref.exps(bits)
    accepted(Boolf, [list(digits), list(names)], 'function')
    accepted(Boolf, [string, tuple(names)], 'function')
    wrong = [2, -1, 0.5, 'a', None, 1.5][value['strange']]
    if form == 'digits':
        k = j % size
        for arg in (digits[:k] + [wrong] + digits[k + 1:], tuple(digits[:k] + [wrong] + digits[k + 1:])):
            refused(Boolf, [arg], 'digits %r' % (arg,))
            refused(Boolf, [arg, list(names)], 'digits %r' % (arg,))
        refused(Boolf, [string[:k] + '2a-.,x'[value['strange']] + string[k + 1:]], 'digit')
        for length in (size + 1, size + 1 + j % (size - 1) if size > 2 else 3):
            arg = (digits * 2)[:length]
            refused(Boolf, [arg], 'length %d' % length)
            refused(Boolf, [tuple(arg)], 'length %d' % length)
            refuses(lambda: Boolf(Binv(arg)), 'length %d' % length, Exception)
        for arg in ([], '', (), 5, set(digits), 1.5, {0: 1}, [digits]):
            refused(Boolf, [arg], 'truth table %r' % (arg,))
        return form
    if form == 'names':
        bad = [names + [max(names) + 1], names[:-1], names[:i] + [-1 - j] + names[i + 1:], names[:i] + [wrong if wrong != 2 else 0.25] + names[i + 1:]]
        if n > 1:
            bad.append(names[:i] + [names[(i + 1) % n]] + names[i + 1:])
        for arg in bad:
            refused(Boolf, [list(digits), arg], 'names %r' % (arg,))
            refused(Boolf, [string, tuple(arg)], 'names %r' % (arg,))
            refused(lambda x, y: Boolf(fullspots=x, atomvals=y), [list(spots) + [size - 1], arg], 'names %r' % (arg,)) if len(arg) == n else None
            refused(lambda x, y: Boolf(x, y, skip_deflation=True), [list(digits), arg], 'names %r' % (arg,))
        for arg in (5, 1.5, 'abcdefgh'[:n]):
            refused(Boolf, [list(digits), arg], 'names %r' % (arg,))
        return form
    if form == 'places':
        accepted(lambda x, y: Boolf(fullspots=x, atomvals=y), [list(spots), list(names)], 'places')
        accepted(lambda x: Boolf(fullspots=x, arity=n), [list(spots)], 'places')
        for bad in ([size + j], [-1 - j], [0.5], ['a'], [None]):
            for arg in (spots + bad, bad + spots):
                refused(lambda x, y: Boolf(fullspots=x, atomvals=y), [arg, list(names)], 'places %r' % (arg,))
                refused(lambda x: Boolf(fullspots=x, arity=n), [arg], 'places %r' % (arg,))
        for bad in ([1 + j], [0, 1 + j], [-1 - j, 0], [0, 0.5]):
            refused(lambda x: Boolf(fullspots=x, arity=0), [bad], 'places %r of no arguments' % (bad,))
            refused(lambda x, y: Boolf(fullspots=x, atomvals=y), [bad, []], 'places %r of no arguments' % (bad,))
        for arg in (5, 0.5):
            refused(lambda x: Boolf(fullspots=x, arity=n), [arg], 'places %r' % (arg,))
        refuses(lambda: Boolf(fullspots=spots), 'places alone', Exception)
        refuses(lambda: Boolf(fullspots=spots, atomvals=names, arity=n), 'places with names and arity', Exception)
        return form
    if form == 'numbers':
        accepted(lambda: Boolf(bits, arity=n), [], 'number')
        for arg in (1 << size, (1 << size) + bits, -1 - bits, bits + 0.5, 'a'):
            refuses(lambda: Boolf(arg, arity=n), 'number %r' % (arg,), Exception)
        for arity in (-1, 0.5, 'a'):
            refuses(lambda: Boolf(bits, arity=arity), 'arity %r' % (arity,), Exception)
        refuses(lambda: Boolf(digits, arity=n), 'truth table and arity', Exception)
        refuses(lambda: Boolf(string, names, arity=n), 'truth table, names and arity', Exception)
        for arg in (-1 - j, 0.5 + j, 'a', [j]):
            refuses(lambda: Boolf(zhe=arg), 'Zhegalkin index %r' % (arg,), Exception)
        for arg in ('a', 0.5, [j], None):
            refuses(lambda: Boolf(atom=arg), 'argument %r' % (arg,), Exception)
        return form
    if form == 'spectrum':
        spectrum = ref.walsh(bits, n)
        accepted(lambda x: Boolf(walsh_spectrum=x), [list(spectrum)], 'Walsh spectrum')
        k = j % size
        for bad in (spectrum[:k] + [spectrum[k] + 1] + spectrum[k + 1:], spectrum[:-1], spectrum + [0], [2 * x for x in spectrum] if bits else [3] * size,
                    spectrum[:k] + [spectrum[k] + 0.5] + spectrum[k + 1:], []):
            if len(bad) == 1 and bad[0] in (0, 1):
                continue
            refused(lambda x: Boolf(walsh_spectrum=x), [bad], 'Walsh spectrum %r' % (bad,))
        for arg in (5, 'ab', {0: 1}):
            refused(lambda x: Boolf(walsh_spectrum=x), [arg], 'Walsh spectrum %r' % (arg,))
        return form
    if form == 'literals':
        for key in ('multi_and', 'multi_or', 'multi_xor', 'multi_xand'):
            accepted(lambda x: Boolf(**{key: x}), [list(names)], key)
            for arg in (5, 'ab', [0.5], ['a'], [None], names + ['a'], [[0]]):
                refused(lambda x: Boolf(**{key: x}), [arg], '%s %r' % (key, arg))
        return form
    args = {'tt': list(digits), 'fullspots': list(spots), 'multi_and': list(names), 'multi_or': list(names), 'multi_xor': list(names), 'multi_xand': list(names),
            'zhe': bits, 'walsh_spectrum': list(ref.walsh(bits, n)), 'atom': i}
    keys = sorted(args)
    first = keys[value['i'] % len(keys)]
    second = keys[(value['i'] + 1 + j % (len(keys) - 1)) % len(keys)]
    third = keys[(value['i'] + 3) % len(keys)]
    for chosen in ([first, second], [first, second, third]):
        if len(set(chosen)) > 1:
            refuses(lambda: Boolf(**{k: args[k] for k in chosen}), 'combination %s' % chosen, Exception)
            refuses(lambda: Boolf(atomvals=names, **{k: args[k] for k in chosen}), 'combination %s with names' % chosen, Exception)
            refuses(lambda: Boolf(arity=n, **{k: args[k] for k in chosen}), 'combination %s with arity' % chosen, Exception)
    for kwargs in (dict(), dict(atomvals=names), dict(arity=n), dict(atomvals=names, arity=n)):
        refuses(lambda: Boolf(**kwargs), 'combination %s' % sorted(kwargs), Exception)
    for key in ('multi_and', 'multi_or', 'multi_xor', 'multi_xand', 'zhe', 'walsh_spectrum', 'atom'):
        refuses(lambda: Boolf(**{key: args[key], 'atomvals': names}), '%s with names' % key, Exception)
        refuses(lambda: Boolf(**{key: args[key], 'arity': n}), '%s with arity' % key, Exception)
    for b in (True, False):
        refuses(lambda: Boolf(b, names), 'constant with names', Exception)
        refuses(lambda: Boolf(b, arity=n), 'constant with arity', Exception)
    return form

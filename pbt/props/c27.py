"""Hypersplits are exactly the fully crossing subsets of sets."""
from itertools import combinations, product

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Dedicated, enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make
from pbt.props.c24 import is_free
from pbt.props.c25 import letters, pair_string
from pbt.props.c26 import diagrams, few_places


def by_signs(f, keys):
    """True places by their digits at the keys."""
    result = {}
    for s in ref.exps(f[1]):
        result.setdefault(''.join(str((s >> k) & 1) for k in keys), []).append(s)
    return result


def ref_hypersplits(f):
    n = len(f[0])
    result = {}
    for size in range(1, n + 1):
        for keys in combinations(range(n), size):
            parts = by_signs(f, keys)
            if len(parts) == 1 << size:
                result[keys] = parts
    return result


def ref_core(f, keys):
    """Signs of the other arguments determined by their relations to the given ones, and the places that are left."""
    n = len(f[0])
    determined = {}
    free = []
    for k in range(n):
        if k not in keys:
            strings = {pair_string(f, j, k) for j in keys}
            plus, minus = strings & {'0111', '1011'}, strings & {'1101', '1110'}
            expect(not (plus and minus), 'contradicting relations (reference)')
            if plus or minus:
                determined[k] = 1 if plus else -1
            else:
                free.append(k)
    choices = [[0] if k in keys else [determined[k]] if k in determined else [-1, 1] for k in range(n)]
    return determined, free, sorted(product(*choices))


def partition(blocks):
    return sorted(sorted(x) for x in blocks)


def pretty_vector(v):
    return ''.join({-1: '−', 0: '0', 1: '+'}[x] for x in v)


def check_hypersplits(f, b):
    n = len(f[0])
    expected = ref_hypersplits(f)
    top = max(map(len, expected), default=1)
    same(sorted(b.hypersplits), list(range(1, top + 1)), 'dimensions')
    detailed, cores = b.hypersplits_detailed, b.hypersplits_potential_cores
    names = [str(x) for x in letters(f)]
    pretty, pretty_cores = b.hypersplits_pretty(), b.hypersplits_potential_cores_pretty()
    own = ['%s' % 'zyxwvutsr'[i] for i in range(n)]
    pretty_own, pretty_cores_own = b.hypersplits_pretty(own), b.hypersplits_potential_cores_pretty(own)
    for found in (detailed, cores, pretty, pretty_cores, pretty_own, pretty_cores_own):
        same(sorted(found), list(range(1, top + 1)), 'dimensions')
    for size in range(1, top + 1):
        keys = [x for x in expected if len(x) == size]
        order = [tuple(x['atomkeys']) for x in b.hypersplits[size]]
        same(sorted(order), keys, 'hypersplits of dimension %d' % size)
        for x in b.hypersplits[size]:
            same(partition(x['setpart'].blocks_with_singletons(elements=set(ref.exps(f[1])))),
                 partition(expected[tuple(x['atomkeys'])].values()), 'partition of hypersplit')
        same([tuple(x['atomkeys']) for x in detailed[size]], order, 'keys of detailed hypersplits')
        for x in detailed[size]:
            same({k: list(v) for k, v in x['setpart'].items()}, expected[tuple(x['atomkeys'])], 'labelled blocks')
        for listing, labels in ((pretty, names), (pretty_own, own)):
            same(len(listing[size]), len(order), 'number of pretty hypersplits')
            for x, ks in zip(listing[size], order):
                same({k: list(v) for k, v in x.items()},
                     {' '.join(('+' if c == '1' else '−') + labels[k] for c, k in zip(string, ks)): v for string, v in expected[ks].items()}, 'pretty blocks')
        same([tuple(x['fixed']) for x in cores[size]], order, 'fixed arguments of potential cores')
        for place, x in enumerate(cores[size]):
            determined, free, vectors = ref_core(f, order[place])
            same(dict(x['determined']), determined, 'determined signs')
            same(sorted(x['free']), free, 'free arguments')
            same(sorted(tuple(v) for v in x['vectors']), vectors, 'potential cores')
            for listing, labels in ((pretty_cores, names), (pretty_cores_own, own)):
                y = listing[size][place]
                same(y['fixed'], ''.join(labels[k] for k in order[place]), 'pretty fixed arguments')
                same(y['free'], ''.join(labels[k] for k in x['free']), 'pretty free arguments')
                same(sorted(y['determined'].split()), sorted(labels[k] + ('+' if v > 0 else '−') for k, v in determined.items()), 'pretty determined signs')
                same(list(y['vectors']), [pretty_vector(v) for v in x['vectors']], 'pretty vectors')
    for wrong in (own + ['q'], (own[:1] + own[:-1]) if n > 1 else ['p', 'q']):
        refuses(lambda: b.hypersplits_pretty(wrong), 'wrong number of names', Dedicated)
        refuses(lambda: b.hypersplits_potential_cores_pretty(wrong), 'wrong number of names', Dedicated)
    return top


def check(f, b=None):
    b = make(f) if b is None else b
    if is_free(f):
        top = check_hypersplits(f, b)
    else:
        top = None
        for query in ('hypersplits', 'hypersplits_detailed', 'hypersplits_potential_cores'):
            refuses(lambda: getattr(b, query), query + ' with redundant sets', Exception)
        refuses(b.hypersplits_pretty, 'pretty hypersplits with redundant sets', Exception)
        refuses(b.hypersplits_potential_cores_pretty, 'pretty cores with redundant sets', Exception)
    is_fn(b, f, 'after use')
    return top


def small(tier):
    for n in range(4):
        for t in range(1 << (1 << n)):
            yield {'t': t, 'v': list(range(n))}
    for t in range(2, 65536, 29 if tier == 'thorough' else 293):
        yield {'t': t, 'v': [0, 2, 3, 4]}
    for t in range(16):
        yield {'t': t, 'v': [3, 30]}


@enum_case('C27', small, rule='no redundant sets, at least two sets; labelled by highest dimension')
def small_functions(value):
    f = ref.fn(value)
    top = check(f)
    return top if len(f[0]) > 1 else None


@random_case('C27', lambda: st.one_of(diagrams(), few_places(), gen.fns(3, 5)), quick=600, rule='no redundant sets, and not all sign combinations occur; labelled by highest dimension')
def functions(value):
    f = ref.fn(value)
    if len(f[0]) > 6:
        return None
    top = check(f)
    return None if top == len(f[0]) else top


@st.composite
def combinations_of_splits(draw):
    f = ref.fn(draw(st.one_of(gen.fns(1, 6), few_places(), gen.blighted(2, 6), diagrams())))
    keys = draw(st.lists(st.integers(0, max(0, len(f[0]) - 1)), max_size=6))
    return {'t': f[1], 'v': list(f[0]), 'keys': keys if f[0] else []}


@random_case('C27', combinations_of_splits, quick=1000, rule='at least two different splits combined; labelled by number of blocks')
def combined_splits(value):
    f = ref.fn(value)
    keys = value['keys']
    if not keys:
        return None
    b = make(f)
    parts = by_signs(f, keys)
    same(partition(b.splits_combined(keys)), partition(parts.values()), 'combined splits')
    same(partition(b.splits_combined(keys[::-1])), partition(parts.values()), 'combined splits in other order')
    is_fn(b, f, 'after use')
    return len(parts) if len(set(keys)) > 1 else None


@random_case('C27', lambda: diagrams(7, 7), quick=16, rule='no redundant sets, and not all sign combinations occur; labelled by highest dimension')
def many_sets(value):
    f = ref.fn(value)
    top = check(f)
    return None if top == len(f[0]) else top

"""Fissions and hyperfissions cut the truth table and its spectrum consistently."""
from itertools import permutations

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import is_binv, is_fn, make


def pieces(table, n, dims):
    """Truth tables (bit lists) with the arguments in `dims` fixed; piece number p has digit i of p as value of dims[i]."""
    result = [[] for _ in range(1 << len(dims))]
    labels = [[] for _ in range(1 << len(dims))]
    for i in range(1 << n):
        p = sum(((i >> d) & 1) << k for k, d in enumerate(dims))
        result[p].append((table >> i) & 1)
        labels[p].append(i)
    return result, labels


def spectrum(v):
    return tuple(sum(-x if ref.popcount(i & j) & 1 else x for j, x in enumerate(v)) for i in range(len(v)))


def layered(v):
    n = len(v).bit_length() - 1
    return tuple(tuple(x for i, x in enumerate(v) if ref.popcount(i) == w) for w in range(n + 1))


def absolute(v):
    return tuple(abs(x) for x in v)


def zipped(parts, labels):
    result = {}
    for part, places in zip(parts, labels):
        result.update(zip(places, part))
    return tuple(result[i] for i in range(len(result)))


def ints(nested):
    return tuple(ints(x) for x in nested) if hasattr(nested, '__len__') else int(nested)


def check_fissions(f):
    b = make(f)
    n = ref.adicity(f)
    table = ref.table_arity(f, n)
    names = ('fissions', 'fissions_layered', 'fissions_weight', 'fissions_weight_layered', 'fission_walsh_spectra', 'fission_walsh_spectra_abs',
             'fission_walsh_spectra_layered', 'fission_walsh_spectra_layered_abs', 'fission_walsh_spectra_zipped', 'fission_walsh_spectra_abs_zipped')
    if n == 0:
        for name in names:
            refuses(lambda: getattr(b, name), name + ' of constant', Exception)
        return
    for name in names:
        same(len(getattr(b, name)), n, 'number of ' + name)
    whole = spectrum(ref.digits(table, 1 << n))
    for d in range(n):
        parts, labels = pieces(table, n, [d])
        for piece, part in zip(b.fissions[d], parts):
            is_binv(piece, len(part), ref.undigits(part), 'fission in dimension %d' % d)
        same(len(b.fissions[d]), 2, 'number of pieces')
        spectra = [spectrum(p) for p in parts]
        for name, expected in (('fissions_layered', [layered(p) for p in parts]),
                               ('fissions_weight', [sum(p) for p in parts]),
                               ('fissions_weight_layered', [[sum(x) for x in layered(p)] for p in parts]),
                               ('fission_walsh_spectra', spectra),
                               ('fission_walsh_spectra_abs', [absolute(s) for s in spectra]),
                               ('fission_walsh_spectra_layered', [layered(s) for s in spectra]),
                               ('fission_walsh_spectra_layered_abs', [layered(absolute(s)) for s in spectra]),
                               ('fission_walsh_spectra_zipped', zipped(spectra, labels)),
                               ('fission_walsh_spectra_abs_zipped', absolute(zipped(spectra, labels)))):
            same(ints(getattr(b, name)[d]), ints(expected), '%s in dimension %d' % (name, d))
        low, high = b.fission_walsh_spectra[d]
        short = [i for i in range(1 << n) if not (i >> d) & 1]
        for k, i in enumerate(short):
            same(int(low[k] + high[k]), whole[i], 'sum of spectra at %d' % i)
            same(int(low[k] - high[k]), whole[i | 1 << d], 'difference of spectra at %d' % i)
    is_fn(b, f, 'after use')


def check_hyper(f, dims, kind):
    b = make(f)
    n = ref.adicity(f)
    table = ref.table_arity(f, n)
    parts, labels = pieces(table, n, dims)
    spectra = [spectrum(p) for p in parts]
    given = kind(dims)
    found = b.hyperfission(given)
    same(len(found), len(parts), 'number of pieces')
    for piece, part in zip(found, parts):
        is_binv(piece, len(part), ref.undigits(part), 'piece of hyperfission %s' % (given,))
    same(ints(b.hyperfission_walsh_spectra(given)), ints(spectra), 'spectra of hyperfission %s' % (given,))
    same(ints(b.hyperfission_walsh_spectra_abs(given)), ints([absolute(s) for s in spectra]), 'absolute spectra of hyperfission')
    same(ints(b.hyperfission_walsh_spectra_layered_abs(given)), ints([layered(absolute(s)) for s in spectra]), 'layered spectra of hyperfission')
    same(ints(b.hyperfission_walsh_spectra_zipped(given)), zipped(spectra, labels), 'zipped spectra of hyperfission')
    labeled = b.hyperfission_walsh_spectra_labeled(given)
    if dims:
        same({ints(k): ints(v) for k, v in labeled.items()}, {tuple(k): v for k, v in zip(labels, spectra)}, 'labelled spectra of hyperfission')
    else:
        same(ints(labeled), spectra[0], 'labelled spectrum of the function')
    same(list(given), list(dims), 'dimensions after use')
    # zipping the pieces restores the truth table
    from discretehelpers.a import vector_zip_together
    from discretehelpers.boolf.a import atom_indices_to_sequence
    if dims:
        sequence = atom_indices_to_sequence(given, 1 << n)
        same(list(sequence), [sum(((i >> d) & 1) << k for k, d in enumerate(dims)) for i in range(1 << n)], 'sequence of pieces')
        same(ints(vector_zip_together([[int(x) for x in p] for p in found], sequence)), tuple(ref.digits(table, 1 << n)), 'pieces zipped together')
    is_fn(b, f, 'after use')


def small(tier):
    for n in range(4):
        for t in range(1 << (1 << n)):
            yield {'t': t, 'v': list(range(n))}
    for t in range(1, 65536, 97 if tier == 'thorough' else 971):
        yield {'t': t, 'v': [0, 1, 2, 3]}


@enum_case('C28', small, rule='function of at least two arguments')
def small_functions(value):
    f = ref.fn(value)
    check_fissions(f)
    n = ref.adicity(f)
    if n < 4:
        for k in range(n + 1):
            for dims in permutations(range(n), k):
                check_hyper(f, list(dims), list)
    return n if n > 1 else None


@random_case('C28', lambda: gen.fns(1, 6, max_gap=1), quick=150, rule='at least three dimensions')
def fissions(value):
    f = ref.fn(value)
    n = ref.adicity(f)
    if n > 7:
        return None
    check_fissions(f)
    return n if n > 2 else None


@st.composite
def hyper_cases(draw):
    f = ref.fn(draw(gen.fns(1, 6, max_gap=1).filter(lambda d: ref.adicity(ref.fn(d)) < 8)))
    n = ref.adicity(f)
    dims = draw(gen.shuffled(range(n)))
    return {'t': f[1], 'v': list(f[0]), 'dims': dims[:draw(gen.sizes(0, n))], 'tuple': draw(st.booleans())}


@random_case('C28', hyper_cases, quick=250, rule='at least two dimensions, not in ascending order; labelled by their number')
def hyperfissions(value):
    f = (tuple(value['v']), value['t'])
    dims = value['dims']
    check_hyper(f, dims, tuple if value['tuple'] else list)
    return len(dims) if dims != sorted(dims) else None


@random_case('C28', lambda: gen.root_fns(7, 8), quick=8, rule='at least seven dimensions')
def larger_fissions(value):
    f = ref.fn(value)
    check_fissions(f)
    return ref.adicity(f) if ref.adicity(f) > 6 else None

"""Foibles, quadrants, layers and leaders obey their defining relations."""
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import is_binv, is_fn, make
from pbt.props.c28 import layered


def foibles(f, arity):
    t = ref.table_arity(f, arity)
    odd, odious = t & 1, (t >> ((1 << arity) - 1)) & 1
    sharp = ref.popcount(t) & 1
    return {'odd': odd, 'odious': odious, 'sharp': sharp, 'ugly': odd ^ odious, 'acute': odd ^ odious ^ sharp, 'rude': odd ^ sharp, 'rough': odious ^ sharp}


def read(b, arity):
    return {'odd': int(b.is_odd), 'odious': int(b.is_odious), 'sharp': int(b.is_sharp(arity)), 'ugly': int(b.is_ugly),
            'acute': int(b.is_acute(arity)), 'rude': int(b.is_rude(arity)), 'rough': int(b.is_rough(arity))}


def check_foibles(f, arity):
    b = make(f)
    own = foibles(f, arity)
    same(read(b, arity), own, 'foibles for arity %d' % arity)
    same(bool(b.is_male), ref.popcount(f[1]) & 1 == 1, 'male')
    twin, complement, reverse = b.twin(arity), b.complement, b.reverse
    t = read(twin, arity)
    same((t['odd'], t['odious'], t['sharp'], t['ugly'], t['rough'], t['rude']),
         (own['odd'], own['sharp'], own['odious'], own['rude'], own['rough'], own['ugly']), 'foibles of twin (odd, odious, sharp, ugly, rough, rude)')
    c = read(complement, arity)
    flip = int(arity == 0)
    same((c['odd'], c['odious'], c['sharp'], c['ugly']), (1 - own['odd'], 1 - own['odious'], own['sharp'] ^ flip, own['ugly']), 'foibles of complement (odd, odious, sharp, ugly)')
    r = read(reverse, arity)
    same((r['odd'], r['odious'], r['sharp'], r['rough'], r['rude'], r['acute']),
         (own['odious'], own['odd'], own['sharp'], own['rude'], own['rough'], own['acute']), 'foibles of reverse (odd, odious, sharp, rough, rude, acute)')
    quadrant = own['odd'] + 2 * own['odious']
    weight_quadrant = own['rough'] + 2 * own['odious']
    same(int(b.quadrant), quadrant, 'quadrant')
    same(int(b.weight_quadrant(arity)), weight_quadrant, 'weight quadrant')
    same(int(b.acute_quadrant(arity)), own['ugly'] + 2 * own['acute'], 'acute quadrant')
    same(int(b.octant(arity)), quadrant + 4 * own['acute'], 'octant')
    same(weight_quadrant != quadrant, own['acute'] == 1, 'acute if weight quadrant differs (reference)')
    if arity:
        same(b.patron_quadrant(arity) in (1, 2), own['acute'] == 1, 'acute if patron quadrant is 1 or 2')
    if arity == ref.adicity(f):
        same(int(b.weight_quadrant()), weight_quadrant, 'weight quadrant without arity')
        same(int(b.acute_quadrant()), own['ugly'] + 2 * own['acute'], 'acute quadrant without arity')
    for too_small in range(max(0, ref.adicity(f) - 2), ref.adicity(f)):
        for query in (b.is_sharp, b.is_acute, b.is_rude, b.is_rough, b.weight_quadrant, b.acute_quadrant, b.octant):
            refuses(lambda: query(too_small), 'arity %d too small' % too_small, Exception)
    if arity > 0:
        half = 1 << (arity - 1)
        v = ref.digits(ref.table_arity(f, arity), 2 * half)
        i, j = ref.undigits(v[:half]), ref.undigits(v[half:][::-1])
        same(tuple(int(x) for x in b.hasse_matrix_coordinates(arity)), (i, j), 'Hasse matrix coordinates')
        if arity == ref.adicity(f):
            same(tuple(int(x) for x in b.hasse_matrix_coordinates()), (i, j), 'Hasse matrix coordinates without arity')
        if arity > 1:
            same(int(b.is_solid(arity)), sum(v[half - 2:half + 2]) & 1, 'solid')
        from discretehelpers.boolf.a import hasse_matrix_coordinates_to_tt
        is_binv(hasse_matrix_coordinates_to_tt(i, j, arity), 2 * half, ref.table_arity(f, arity), 'truth table of Hasse matrix coordinates')
    is_fn(b, f, 'after use')
    return own


def check_leader(f, arity):
    t = ref.table_arity(f, arity)
    top = ref.full(arity)
    coset = [t, t ^ top, t ^ 1, t ^ 1 ^ top]
    leaders = [u for u in coset if not u & 1 and not u >> ((1 << arity) - 1)]
    if arity == 0:
        leaders = [0]
    same(len(set(leaders)), 1, 'leaders of coset (reference)')
    expected = ref.canon(range(arity), leaders[0])
    seen = set()
    for u in coset:
        g = ref.canon(range(arity), u)
        b = make(g)
        r = b.leader(arity)
        seen.add(int(b.quadrant))
        is_fn(r, expected, 'leader for arity %d' % arity)
        same(int(r.quadrant), 0, 'quadrant of leader')
        is_fn(r.leader(arity), expected, 'leader of leader')
        if ref.adicity(g) == arity:
            is_fn(b.leader(), expected, 'leader without arity')
        is_fn(b, g, 'after use')
    if arity:
        same(seen, {0, 1, 2, 3}, 'quadrants of the coset')


def check_layers(f):
    b = make(f)
    n = len(f[0])
    v = ref.digits(f[1], 1 << n)
    layers = layered(v)
    places = ref.exps(f[1])
    same(tuple(tuple(int(x) for x in layer) for layer in b.layered_tt), layers, 'layered truth table')
    same(tuple(int(x) for x in b.layered_weight), tuple(sum(x) for x in layers), 'layered weight')
    same([list(x) for x in b.layered_fullspots], [[s for s in places if ref.popcount(s) == w] for w in range(n + 1)], 'layered true places')
    weights = sorted({ref.popcount(s) for s in places})
    same(list(b.fullspot_weights), weights, 'weights of true places')
    same({w: {s: list(x) for s, x in d.items()} for w, d in b.fullspots_by_weight.items()},
         {w: {s: ref.exps(s) for s in places if ref.popcount(s) == w} for w in weights}, 'true places by weight')
    same({s: list(x) for s, x in b.fullspot_atoms.items()}, {s: ref.exps(s) for s in places}, 'digits of true places')
    links = {w: sorted((s, s | 1 << k) for s in places if ref.popcount(s) == w for k in range(n) if not (s >> k) & 1 and (f[1] >> (s | 1 << k)) & 1)
             for w in weights if w + 1 in weights}
    same({w: [tuple(p) for p in x] for w, x in b.fullspotlinks_by_weight.items()}, links, 'links of true places by weight')
    same(int(b.number_of_fullspotlinks), sum(map(len, links.values())), 'number of links')
    symmetric = all(len(set(x)) == 1 for x in layers)
    same(bool(b.is_symmetric), symmetric, 'symmetric')
    is_fn(b, f, 'after use')
    return symmetric


def small(tier):
    for n in range(4):
        for t in range(1 << (1 << n)):
            yield {'t': t, 'v': list(range(n))}
    for t in range(1, 65536, 23 if tier == 'thorough' else 307):
        yield {'t': t, 'v': [0, 1, 2, 3]}
    for t in range(16):
        yield {'t': t, 'v': [1, 2]}
        yield {'t': t, 'v': [0, 2]}


@enum_case('C29', small, rule='function of at least two arguments; labelled by foibles')
def small_functions(value):
    f = ref.fn(value)
    n = ref.adicity(f)
    for arity in (n, n + 1, n + 2)[:3 if n < 4 else 1]:
        own = check_foibles(f, arity)
        check_leader(f, arity)
        if arity == n:
            label = ' '.join(k for k, v in own.items() if v) or 'none'
    check_layers(f)
    return label if len(f[0]) > 1 else None


@st.composite
def cases(draw):
    d = draw(gen.fns(0, 6, max_gap=1).filter(lambda x: ref.adicity(ref.fn(x)) < 9))
    return {'t': d['t'], 'v': d['v'], 'more': draw(st.sampled_from([0, 0, 0, 1, 1, 2]))}


@random_case('C29', cases, quick=400, rule='adicity at least three; labelled by foibles')
def functions(value):
    f = ref.fn(value)
    n = ref.adicity(f)
    arity = min(n + value['more'], max(n, 8))
    own = check_foibles(f, arity)
    check_leader(f, arity)
    return (' '.join(k for k, v in own.items() if v) or 'none') if n > 2 else None


@st.composite
def layer_cases(draw):
    """Constant layers, sometimes with one wrong place."""
    n = draw(gen.sizes(0, 7))
    t = 0
    for m in gen.layer_masks(n):
        t |= m if draw(st.booleans()) else 0
    if draw(st.booleans()):
        t ^= 1 << draw(gen.words(n))
    return {'t': t, 'v': draw(gen.names(n))}


@random_case('C29', lambda: st.one_of(layer_cases(), gen.fns(0, 7)), quick=300, rule='at least three arguments; labelled by symmetric or not')
def layers(value):
    f = ref.fn(value)
    symmetric = check_layers(f)
    return ('symmetric' if symmetric else 'not symmetric') if len(f[0]) > 2 else None


@random_case('C29', lambda: gen.root_fns(7, 8), quick=24, rule='at least seven arguments; labelled by foibles')
def larger_functions(value):
    f = ref.fn(value)
    n = ref.adicity(f)
    own = check_foibles(f, n)
    check_leader(f, n)
    check_layers(f)
    return (' '.join(k for k, v in own.items() if v) or 'none') if n > 6 else None

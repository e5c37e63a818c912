"""Applying functions to signed arguments is substitution and a group action."""
from hypothesis import strategies as st

from discretehelpers.boolf import Boolf
from discretehelpers.perm import Perm
from discretehelpers.sig_perm import SigPerm
from pbt import gen, ref
from pbt.core import enum_case, expect, random_case, refuses, same
from pbt.lib import is_fn, make


def image(f, s):
    s = ref.extend(s, ref.adicity(f))
    return ref.substitute(f, [s[a] for a in f[0]])


def check(f, g, s, t):
    b, c = make(f), make(g)
    p, q = SigPerm(sequence=list(s)), SigPerm(sequence=list(t))
    moved = image(f, s)
    r = b.apply_sigperm(p)
    is_fn(r, moved, 'signed permutation')
    is_fn(b.apply_sigperm(list(s)), moved, 'signed permutation as list')
    is_fn(b.apply_sigperm(tuple(s)), moved, 'signed permutation as tuple')
    if all(x >= 0 for x in s):
        is_fn(b.apply_sigperm(Perm(list(s))), moved, 'permutation')
    size = max(ref.adicity(f), len(s))
    extended = ref.extend(s, size)
    for x in range(1 << size):
        # place x is true in the moved function if and only if the place read through s is true in the original one
        y = sum((((x >> ref.s_abs(extended[k])) & 1) ^ (extended[k] < 0)) << k for k in range(size))
        same(int(r[x]), int(b[y]), 'moved true places')
        same(int(r[ref.s_number(extended, y) % (1 << size)]), int(b[y]), 'moved true places by action on numbers') if size == len(ref.s_trim(s)) else None
    both = r.apply_sigperm(q)
    is_fn(both, image(moved, t), 'two signed permutations')
    expect(both == b.apply_sigperm(q * p), 'product of signed permutations', s, t)
    expect(r.apply_sigperm(p.inverse) == b, 'inverse of signed permutation', s)
    expect(b.apply_sigperm(p.inverse).apply_sigperm(p) == b, 'inverse of signed permutation', s)
    expect(b.apply_sigperm(SigPerm(sequence=[])) == b, 'neutral signed permutation')
    expect((b & c).apply_sigperm(p) == b.apply_sigperm(p) & c.apply_sigperm(p), 'commutes with and')
    expect((b | c).apply_sigperm(p) == b.apply_sigperm(p) | c.apply_sigperm(p), 'commutes with or')
    expect((b ^ c).apply_sigperm(p) == b.apply_sigperm(p) ^ c.apply_sigperm(p), 'commutes with xor')
    expect((~b).apply_sigperm(p) == ~b.apply_sigperm(p), 'commutes with not')
    same(r.weight_fract, b.weight_fract, 'weight')
    is_fn(b, f, 'after use')


@st.composite
def cases(draw):
    return [draw(gen.fns(0, 4, max_gap=1)), draw(gen.fns(0, 4, max_gap=1)), draw(gen.sig_perms(0, 6)), draw(gen.sig_perms(0, 6))]


@random_case('C18', cases, quick=800, rule='first function has two arguments or more and is changed by the signed permutation')
def signed_permutations(value):
    d, e, s, t = value
    f, g = ref.fn(d), ref.fn(e)
    check(f, g, s, t)
    if len(f[0]) < 2 or image(f, s) == f:
        return None
    return 'longer' if len(ref.s_trim(s)) > ref.adicity(f) else 'shorter or equal'


@st.composite
def substitutions(draw, low=0, high=5):
    d = draw(gen.fns(low, high))
    names = draw(gen.shuffled(range(draw(st.sampled_from([high + 1, high + 1, 12]))) if draw(st.booleans()) else [0, 3, 7, 20, 33, 50, 51, 70]))[:high]
    signs = draw(st.lists(st.booleans(), min_size=high, max_size=high))
    return {'t': d['t'], 'v': d['v'], 'args': [~x if s else x for x, s in zip(names, signs)]}


@random_case('C18', substitutions, quick=2500, rule='at least two arguments in another order or negated')
def substitution(value):
    f = ref.fn(value)
    n = len(f[0])
    args = value['args'][:n]
    b = make(f)
    result = b.apply(*args)
    is_fn(result, ref.substitute(f, args), 'substitution')
    for x in range(16):
        # pseudo random places on the new names
        place = sum(((x * 2654435761 >> k) & 1) << ref.s_abs(a) for k, a in enumerate(args))
        values = [((place >> ref.s_abs(a)) & 1) ^ (a < 0) for a in args]
        same(int(result[place]), int(ref.value(f, dict(zip(f[0], values)))), 'value of substituted function')
    refuses(lambda: b.apply(*(args + [77])), 'too many arguments', 'SarityMismatchError')
    if n:
        refuses(lambda: b.apply(*args[1:]), 'too few arguments', 'SarityMismatchError')
        back = result.apply(*inverse(result, f, args))
        is_fn(back, f, 'substituted back')
    is_fn(b, f, 'after use')
    return n if n > 1 and args != sorted(args, key=ref.s_abs) or any(a < 0 for a in args) else None


def inverse(result, f, args):
    """Signed old names for the arguments of the result, in ascending order."""
    back = {ref.s_abs(a): (~old if a < 0 else old) for a, old in zip(args, f[0])}
    return [back[a] for a in sorted(back)]


def small(tier):
    step = 5 if tier == 'quick' else 1
    sps = [[0, 1], [1, 0], [~0, 1], [0, ~1], [~1, 0], [1, ~0], [~0, ~1], [~1, ~0], [2, 0, 1], [1, 2, ~0], [0, 3, ~2, 1]]
    for t in range(0, 256, step):
        for s in sps:
            yield [{'t': t, 'v': [0, 1, 2]}, s]


@enum_case('C18', small, rule='changed by the signed permutation')
def all_small(value):
    f = ref.fn(value[0])
    check(f, ((0, 2), 8), value[1], [1, ~0])
    return 'changed' if image(f, value[1]) != f else None


@random_case('C18', lambda: substitutions(6, 8), quick=60, rule='at least six arguments in another order or negated')
def larger_substitution(value):
    label = substitution(value)
    return label if len(ref.fn(value)[0]) > 5 else None


@st.composite
def larger_cases(draw):
    return [draw(gen.root_fns(5, 7)), draw(gen.root_fns(4, 6)), draw(gen.sig_perms(6, 8)), draw(gen.sig_perms(3, 8))]


@random_case('C18', larger_cases, quick=30, rule='first function has five arguments or more and is changed by the signed permutation')
def larger_functions(value):
    label = signed_permutations(value)
    return label if len(ref.fn(value[0])[0]) > 4 else None

"""Bridge between the library's Boolean functions and the reference model in ref.py."""
from discretehelpers.boolf import Boolf

from . import ref
from .core import expect, same


def make(f):
    """Library object of a reference function (atoms, bits)."""
    atoms, bits = f
    return Boolf(ref.digits(bits, 1 << len(atoms)), list(atoms))


def build(desc):
    """Library object of a generated description {'t', 'v'}, arguments without influence included."""
    return Boolf(ref.digits(desc['t'], 1 << len(desc['v'])), list(desc['v']))


def of(b):
    return tuple(b.atomvals), ref.undigits(list(b.root))


def is_fn(b, f, message):
    """The object is the canonical form of the reference function."""
    same(type(b), Boolf, message + ': type')
    same(list(b.atomvals), list(f[0]), message + ': arguments')
    same([int(x) for x in b.root], ref.digits(f[1], 1 << len(f[0])), message + ': truth table')
    same(b.valency, len(f[0]), message + ': number of arguments')
    same(b.adicity, ref.adicity(f), message + ': adicity')
    same(bool(b.is_constant), not f[0], message + ': constant')


def is_binv(v, size, bits, message):
    same(type(v).__name__, 'Binv', message + ': type')
    same([int(x) for x in v], ref.digits(bits, size), message)


def binary(v):
    """Binary vector or list as integer."""
    return ref.undigits([int(x) for x in v])

"""helpers the property modules share"""
import z3
from .core import *
from . import core
from .core import CTX, Unsupported
from .values import *
from .arr import *
from . import rt
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def nat(name, lo=0):
    n = CTX.fresh(name, I)
    CTX.assume(n >= lo)
    return SInt(n)


def real(name, *conds):
    x = CTX.fresh(name, R)
    for c in conds:
        CTX.assume(c(x))
    return SReal(x)


def idx(name, n):
    """a skolem index in [0, n)"""
    k = CTX.fresh(name, I)
    CTX.assume(And(k >= 0, k < to_int_e(n)))
    CTX.skolems.append(k)
    del CTX.skolems[:-8]
    return k


def to_e(x):
    return x.e if hasattr(x, 'e') else x


def inp(name, shape, kind, fact=None):
    """input array; fact(value expr) -> formula holding for every element"""
    a = SArr.fresh(name, shape, kind)
    if fact is not None:
        probe = a.elem(tuple(z3.Int('probe!%d' % j) for j in range(len(shape))))
        nm = probe.e.decl().name()
        d = probe.e.decl()
        CTX.input_facts[nm] = lambda ch, d=d: [fact(d(*ch))]
    return a


def prove(name, f):
    return CTX.prove(name, f)


def flag(name="flag"):
    return SBits(CTX.fresh(name, BVS))


def prove_at(name, dims, fn):
    """prove fn(index) for every index within dims (leaves the path condition alone)"""
    q = tuple(CTX.fresh('q', I) for _ in dims)
    with rt.Scope(*[And(k >= 0, k < to_int_e(n)) for k, n in zip(q, dims)]):
        return CTX.prove(name, fn(q))

"""the `np` module of transformed code: contracts of the numpy functions used"""
import types
import numpy as _np
import z3
from . import core
from .core import CTX, And, Or, Not, If, Unsupported, mk_fold1
from .values import (
    Sym, SBool, SInt, SReal, SBits, NUMS, is_scalar, lift, arith, unary, site,
    cast, dkind, truth, to_real, to_int_e, wrap, mki, mkb, compare, smax, smin,
    sqrt as vsqrt, floor as vfloor, ceil as vceil, rint as vrint, isnan as vnan,
    isfinite as vfin, isinf as vinf, trunc, uf1, bits_of, unwrap_const, R, I,
)
from .arr import (
    SArr, SSel, SRec, Flat, WhereTok, SDtype, ew, assign, asarray, stack_arrays,
    concat, dot as adot, inv22, reduce_, rot90 as arot90, from_np, kind_of, seq_shape,
    transpose as atranspose, add_fields, coerce, same_dim, ix, dim, flip, binop,
    SelStack, stack_scalars,
)
from . import rt
from .rt import SList, resolve, GUnion, SymSeq


def plain(x):
    """SList -> list for dtype descriptions"""
    if isinstance(x, SList):
        return [plain(i) for i in x.items()]
    return x


def is_descr(dt):
    dt = plain(dt)
    return isinstance(dt, list) or (isinstance(dt, SDtype) and dt.names)


def descr_of(dt):
    if isinstance(dt, SDtype):
        return dt.descr
    return [tuple(d) for d in plain(dt)]


def shp(s):
    s = resolve(s)
    return tuple(resolve(d) for d in seq_shape(s))


def _fill(v):
    def f(shape, dtype=None, order=None, **kw):
        if 'dtype' in kw:
            dtype = kw['dtype']
        if is_descr(dtype):
            if v != 0:
                raise Unsupported('ones of records')
            return SRec.zeros(shp(shape), descr_of(dtype))
        k = dkind(dtype)
        val = {'f': float(v), 'i': int(v), 'b': bool(v), 'U': '', 'S': '',
               'O': None}[k]
        return SArr.full(shp(shape), val, k)
    return f


zeros = _fill(0)
ones = _fill(1)


def empty(shape, dtype=None, **kw):
    if is_descr(dtype):
        return SRec.zeros(shp(shape), descr_of(dtype))
    k = dkind(dtype)
    return SArr.fresh('empty', shp(shape), k)


def full(shape, v, dtype=None):
    k = dkind(dtype) if dtype is not None else kind_of(v)
    return SArr.full(shp(shape), v, k)


def _like(v):
    def f(a, dtype=None, **kw):
        a = asarray(resolve(a))
        if isinstance(a, SRec):
            return SRec.zeros(a.shape, a.descr)
        k = a.kind if dtype is None else dkind(dtype)
        return SArr.full(a.shape, {'f': float(v), 'i': int(v), 'b': bool(v)}[k], k)
    return f


zeros_like = _like(0)
ones_like = _like(1)


def full_like(a, v, dtype=None):
    a = asarray(resolve(a))
    k = a.kind if dtype is None else dkind(dtype)
    return SArr.full(a.shape, v, k)


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    x = resolve(x)
    if is_descr(dtype):
        raise Unsupported('array of records')
    r = asarray(x, dtype)
    if r is x and not isinstance(r, SelStack):
        r = r.copy()
    return r


def asarray_(x, dtype=None, **kw):
    return asarray(resolve(x), dtype)


def atleast_1d(x):
    x = resolve(x)
    a = asarray(x)
    if isinstance(a, SArr) and a.ndim == 0:
        s = a.snap()
        return SArr.make((1,), lambda v: s(()), a.kind)
    if isinstance(a, SRec) and a.ndim == 0:
        raise Unsupported('atleast_1d of record')
    return a


def atleast_2d(x):
    a = atleast_1d(x)
    if a.ndim == 1:
        s = a.snap()
        return SArr.make((1,) + a.shape, lambda v: s(tuple(v[1:])), a.kind)
    return a


def _ew1(fn, kind=None):
    def f(x, out=None, **kw):
        x = resolve(x)
        x = coerce(x)
        k = kind or kind_of(x)
        r = ew(fn, x, kind=k)
        if out is not None:
            assign(out, r)
            return out
        return r
    return f


sqrt = _ew1(vsqrt, 'f')
isnan = _ew1(vnan, 'b')
isfinite = _ew1(vfin, 'b')
isinf = _ew1(vinf, 'b')
rint = _ew1(vrint, 'f')
floor = _ew1(vfloor, 'f')
ceil = _ew1(vceil, 'f')
abs_ = _ew1(lambda x: unary('abs', x))
negative = _ew1(lambda x: unary('-', x))
logical_not = _ew1(lambda x: mkb(Not(truth(x))), 'b')
invert = _ew1(lambda x: unary('~', x))
square = _ew1(lambda x: arith('*', x, x))
sign = _ew1(lambda x: site(compare('>', x, 0), 1.0,
                           site(compare('<', x, 0), -1.0, 0.0)), 'f')


def _ufn(name, pyf):
    import math

    def one(x):
        if isinstance(x, NUMS):
            try:
                return pyf(x)
            except ValueError:
                return float('nan')
        x = to_real(x)
        return SReal(uf1(name)(x.e), x.k)
    return _ew1(one, 'f')


import math as _m
log = _ufn('log', _m.log)
log10 = _ufn('log10', _m.log10)
exp = _ufn('exp', _m.exp)
cos = _ufn('cos', _m.cos)
sin = _ufn('sin', _m.sin)
arctan = _ufn('arctan', _m.atan)


def _bin(op):
    def f(a, b, out=None, **kw):
        a, b = resolve(a), resolve(b)
        r = binop(op, coerce(a), coerce(b))
        if out is not None:
            assign(out, r)
            return out
        return r
    return f


add = _bin('+')
subtract = _bin('-')
multiply = _bin('*')
divide = true_divide = _bin('/')
less, less_equal, greater, greater_equal = _bin('<'), _bin('<='), _bin('>'), _bin('>=')
equal, not_equal = _bin('=='), _bin('!=')
bitwise_and = _bin('&')


class _BOr:
    __name__ = 'bitwise_or'

    def __call__(self, a, b, out=None):
        return _bin('|')(a, b, out=out)

    def reduce(self, x, axis=0, **kw):
        x = resolve(x)
        if isinstance(x, SArr) and x.ndim == 2 and axis is not None:
            return reduce_axis_bor(x, axis)
        if isinstance(x, SRec):
            raise Unsupported('bitwise_or of record')
        a = coerce(x)
        if isinstance(a, SArr) and a.ndim > 1 and axis == 0:
            return reduce_axis_bor(a, 0)
        return reduce_('bor', a)


def reduce_axis_bor(a, axis):
    from .arr import reduce_axis
    s = a.snap()
    n = a.shape[axis]
    rest = a.shape[:axis] + a.shape[axis+1:]

    def fn(v):
        if isinstance(n, int):
            r = s(v[:axis] + (z3.IntVal(0),) + v[axis:])
            for i in range(1, n):
                r = arith('|', r, s(v[:axis] + (z3.IntVal(i),) + v[axis:]))
            return r
        sub = SArr.make((n,), lambda w: s(v[:axis] + (w[0],) + v[axis:]), 'i')
        return reduce_('bor', sub)
    return SArr.make(rest, fn, 'i')


bitwise_or = _BOr()
bitwise_xor = _bin('^')


def logical_and(a, b):
    return ew(lambda x, y: mkb(And(truth(x), truth(y))), resolve(a), resolve(b), kind='b')


def logical_or(a, b):
    return ew(lambda x, y: mkb(Or(truth(x), truth(y))), resolve(a), resolve(b), kind='b')


def _np_reduce(op):
    def f(a, axis=None, **kw):
        a = resolve(a)
        if op in ('any', 'all') and is_scalar(a):
            return mkb(truth(a)) if isinstance(a, Sym) else bool(a)
        if op in ('any', 'all') and isinstance(a, (SList, list, tuple)):
            return rt.any_(a) if op == 'any' else rt.all_(a)
        a = coerce(a)
        return reduce_(op, a, axis)
    return f


any_ = _np_reduce('any')
all_ = _np_reduce('all')
sum_ = _np_reduce('sum')
mean = _np_reduce('mean')
max_ = amax = _np_reduce('max')
min_ = amin = _np_reduce('min')
median = _np_reduce('median')


def maximum(a, b):
    a, b = resolve(a), resolve(b)
    k = max(kind_of(a), kind_of(b), key='bif'.index)
    return ew(lambda x, y: smax(x, y), a, b, kind=k)


def minimum(a, b):
    a, b = resolve(a), resolve(b)
    k = max(kind_of(a), kind_of(b), key='bif'.index)
    return ew(lambda x, y: smin(x, y), a, b, kind=k)


def clip(a, lo, hi, out=None):
    a = resolve(a)
    if is_scalar(a):
        r = a
        if lo is not None:
            r = smax(r, lo)
        if hi is not None:
            r = smin(r, hi)
        return r
    return coerce(a).clip(lo, hi, out=out)


def where(c, a=None, b=None):
    c = coerce(resolve(c))
    if a is None and b is None:
        if is_scalar(c):
            raise Unsupported('where of scalar')
        if c.kind != 'b':
            s = c.snap()
            c = SArr.make(c.shape, lambda v: mkb(truth(s(v))), 'b')
        if isinstance(c, SArr) and all(isinstance(d, int) for d in c.shape) and \
                c.ndim == 1:
            pass
        return tuple(WhereTok(c, i) for i in range(len(c.shape)))
    k = kind_of(a)
    k2 = kind_of(b)
    if k in 'bif' and k2 in 'bif':
        k = 'bif'[max('bif'.index(k), 'bif'.index(k2))]
    return ew(lambda x, y, z: site(mkb(truth(x)), y, z), c, resolve(a), resolve(b),
              kind=k)


def nonzero(a):
    return where(a)


def count_nonzero(a):
    a = coerce(resolve(a))
    return reduce_('sum', ew(lambda x: mkb(truth(x)), a, kind='b'))


def rot90(a, k=1):
    return arot90(asarray(resolve(a)), k)


def transpose(a):
    return atranspose(asarray(resolve(a)))


def _rows(items):
    """n one-row tables below each other"""
    if len(items.segs) != 1 or items.segs[0][0] != 's':
        raise Unsupported('hstack of a mixed list')
    _, n, fn = items.segs[0]
    one = fn(CTX.index('k'))
    if not isinstance(one, SRec) or len(one.shape) != 1 or one.shape[0] != 1:
        raise Unsupported('hstack of a symbolic list')
    if not CTX.decide(n > 0):
        raise ValueError('need at least one array to concatenate')
    z = z3.IntVal(0)
    out = {}
    for c, a in one.fields.items():
        out[c] = SArr.make((wrap(n),) + tuple(a.shape[1:]), lambda i, c=c: fn(
            i[0]).fields[c].elem((z,) + tuple(i[1:])), a.kind, c)
    return SRec((wrap(n),), out, list(one.descr))


def hstack(items):
    if isinstance(items, SList) and items.is_symbolic():
        return _rows(items)
    items = [resolve(i) for i in rt.list_(items)]
    return concat([i if isinstance(i, SRec) else atleast_1d(i) for i in items])


def concatenate(items, axis=0):
    items = [resolve(i) for i in rt.list_(items)]
    return concat(items)


def vstack(items):
    items = [atleast_2d(resolve(i)) for i in rt.list_(items)]
    if all(isinstance(i.shape[0], int) and i.shape[0] == 1 for i in items):
        return stack_arrays([i[0] for i in items])
    raise Unsupported('vstack')


def stack(items, axis=0):
    if axis != 0:
        raise Unsupported('stack axis')
    it = resolve(items)
    if isinstance(it, SList) and it.is_symbolic():
        return it.to_array()
    return stack_arrays([resolve(i) for i in it])


def dot(a, b):
    return adot(resolve(a), resolve(b))


def eye(n):
    return SArr.make((n, n), lambda v: site(mkb(v[0] == v[1]), 1.0, 0.0), 'f')


def arange(*a, dtype=None):
    a = [resolve(x) for x in a]
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported('arange step')
    if any(isinstance(x, (float, SReal)) for x in (lo, hi)):
        raise Unsupported('float arange')
    n = smax(arith('-', hi, lo), 0)
    k = 'i' if dtype is None else dkind(dtype)
    return SArr.make((n,), lambda v: cast(arith('+', lo, mki(v[0])), k), k)


def indices(shape):
    s = shp(shape)
    return tuple(SArr.make(s, lambda v, i=i: mki(v[i]), 'i') for i in range(len(s)))


mgrid = ogrid = None


def array_equal(a, b):
    a, b = resolve(a), resolve(b)
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for p, q in zip(a.shape, b.shape):
        if isinstance(p, int) and isinstance(q, int):
            if p != q:
                return False
        elif CTX.decide(ix(p) != ix(q)):
            return False
    return reduce_('all', binop('==', a, b))


def copy(a):
    return asarray(resolve(a)).copy()


def ravel(a):
    return asarray(resolve(a)).ravel()


def digitize(x, bins, right=False):
    """number of bins below x (increasing bins of concrete length)"""
    b = asarray(resolve(bins))
    n = b.shape[0]
    if not isinstance(n, int):
        raise Unsupported('digitize with a symbolic number of bins')
    vals = [b.elem((z3.IntVal(i),)) for i in range(n)]
    for p, q in zip(vals, vals[1:]):
        if not CTX.decide(truth(p <= q)):
            raise ValueError('bins must be monotonically increasing or decreasing')

    def fn(v):
        e = z3.IntVal(0)
        for q in vals:
            c = truth(v > q) if right else truth(v >= q)
            e = e + If(c, z3.IntVal(1), z3.IntVal(0))
        return SInt(z3.simplify(e))
    return ew(fn, resolve(x), kind='i')


def searchsorted(a, v, side='left'):
    return digitize(v, a, right=(side == 'left'))


class Errstate:
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class LinAlgError(ValueError):
    pass


def linv(a):
    return inv22(resolve(a))


class NDMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SArr, SRec, SSel, Flat, _np.ndarray))


class ndarray(metaclass=NDMeta):
    pass


class _DT:
    """numpy scalar type: kind marker and conversion"""
    def __init__(self, kind, name):
        self.__symkind__ = kind
        self.name = name
        self.__name__ = name

    def __call__(self, x=0):
        x = resolve(x)
        if is_scalar(x):
            return unwrap_const(cast(x, self.__symkind__)) if isinstance(x, Sym) \
                else cast(x, self.__symkind__)
        return asarray(x, self)

    def __eq__(self, o):
        if isinstance(o, str):
            return o == self.name or dkind(o) == self.__symkind__
        return self is o or (isinstance(o, SDtype) and o == self)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)


_T = {n: _DT(k, n) for n, k in dict(
    int8='i', int16='i', int32='i', int64='i', uint8='i', uint16='i', uint32='i',
    uint64='i', float32='f', float64='f', bool_='b', int_='i', float_='f',
    intp='i').items()}


class Generic:
    pass


class RandomState:
    """ghost random stream: draws are uninterpreted per call"""
    __sym_heap__ = True

    def __init__(self, seed=None):
        self.seed = seed
        self.ncalls = 0

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.ncalls += 1
        if size is None:
            x = SReal(CTX.fresh('rng', R))
            return arith('+', loc, arith('*', scale, x))
        return asarray(arith_arr('+', loc, arith_arr('*', scale, SArr.fresh(
            'rng', shp(size), 'f'))))

    def uniform(self, low=0.0, high=1.0, size=None):
        self.ncalls += 1
        if size is None:
            x = CTX.fresh('rng', R)
            CTX.assume(And(x >= 0, x < 1))
            return arith('+', low, arith('*', arith('-', high, low), SReal(x)))
        raise Unsupported('uniform array')

    def randint(self, low, high=None, size=None):
        self.ncalls += 1
        if high is None:
            low, high = 0, low
        if size is None:
            x = CTX.fresh('rng', I)
            CTX.assume(And(x >= to_int_e(lift(low)), x < to_int_e(lift(high))))
            return SInt(x)
        raise Unsupported('randint array')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('RandomState.' + n)


def arith_arr(op, a, b):
    if is_scalar(a) and is_scalar(b):
        return arith(op, a, b)
    return binop(op, coerce(a), coerce(b))


class NP(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('np.' + n)


def dtype_(d, *a):
    if is_descr(d):
        ds = descr_of(d)
        return SDtype('V', names=tuple(x[0] for x in ds), descr=ds)
    return SDtype(dkind(d))


def build():
    m = NP('numpy')
    d = m.__dict__
    d.update(
        zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like,
        ones_like=ones_like, empty_like=zeros_like, full_like=full_like,
        array=array, asarray=asarray_, asanyarray=asarray_,
        ascontiguousarray=asarray_, atleast_1d=atleast_1d, atleast_2d=atleast_2d,
        sqrt=sqrt, isnan=isnan, isfinite=isfinite, isinf=isinf, rint=rint,
        floor=floor, ceil=ceil, abs=abs_, absolute=abs_, fabs=abs_,
        negative=negative, logical_not=logical_not, invert=invert, square=square,
        log=log, log10=log10, exp=exp, cos=cos, sin=sin, arctan=arctan, sign=sign,
        add=add, subtract=subtract, multiply=multiply, divide=divide,
        true_divide=divide, less=less, less_equal=less_equal, greater=greater,
        greater_equal=greater_equal, equal=equal, not_equal=not_equal,
        bitwise_and=bitwise_and, bitwise_or=bitwise_or, bitwise_xor=bitwise_xor,
        logical_and=logical_and, logical_or=logical_or,
        any=any_, all=all_, sum=sum_, mean=mean, average=mean, max=max_, min=min_, amax=max_,
        amin=min_, median=median, maximum=maximum, minimum=minimum, clip=clip,
        where=where, nonzero=nonzero, count_nonzero=count_nonzero, rot90=rot90,
        transpose=transpose, hstack=hstack, vstack=vstack, concatenate=concatenate,
        stack=stack, dot=dot, matmul=dot, eye=eye, identity=eye, arange=arange,
        indices=indices, array_equal=array_equal, copy=copy, ravel=ravel,
        errstate=Errstate, ndarray=ndarray, nan=float('nan'), inf=float('inf'),
        pi=_m.pi, newaxis=None, dtype=dtype_, ndindex=None, generic=Generic,
        round=rint, NaN=float('nan'), digitize=digitize, searchsorted=searchsorted,
    )
    del d['ndindex']
    d.update(_T)
    d['float'] = None
    del d['float']
    la = NP('numpy.linalg')
    la.inv = linv
    la.LinAlgError = LinAlgError
    m.linalg = la
    rnd = NP('numpy.random')
    rnd.RandomState = RandomState
    m.random = rnd
    return m

"""symbolic numpy arrays: functional buffers, affine views, selections, records"""
import numpy as _np
import z3
from .core import (
    CTX, And, Or, Not, If, Unsupported, mk_fold, raw_fold, rewrite, is_true,
    nary_add, nary_mul, bvval, EngineError,
)
from .values import (
    Sym, SBool, SInt, SReal, SBits, NUMS, is_scalar, lift, arith, unary, site,
    cast, dkind, truth, to_real, to_int_e, wrap, mki, mkb, same_value, unwrap_const,
    bits_of, compare, smax, smin, kof, I, R, B, BVS, NAN, FIN,
)


def ix(x):
    """index -> z3 Int expr"""
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    return to_int_e(x)


def dim(x):
    """dimension: python int or SInt"""
    if isinstance(x, (int, _np.integer)):
        return int(x)
    if isinstance(x, SInt):
        e = z3.simplify(x.e)
        if z3.is_int_value(e):
            return e.as_long()
        return SInt(e)
    if isinstance(x, z3.ExprRef):
        return dim(SInt(x))
    if isinstance(x, (float, SReal)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if hasattr(x, '__index__'):
        return int(x)
    raise TypeError('bad dimension %r' % (x,))


def dmul(dims):
    r = 1
    for d in dims:
        r = arith('*', r, d)
    return r


class Ver:
    """one immutable version of a buffer's content"""
    __slots__ = ('fn', 'memo')

    def __init__(self, fn):
        self.fn = fn
        self.memo = {}

    def __call__(self, idx):
        key = tuple(i.get_id() for i in idx)
        r = self.memo.get(key)
        if r is None:
            v = self.fn(idx)
            self.memo[key] = (v, idx)
            return v
        return r[0]


class Buf:
    def __init__(self, fn, kind, ndim, name='buf'):
        self.ver = Ver(fn)
        self.kind = kind
        self.ndim = ndim
        self.name = name
        self.readonly = False

    def set(self, fn):
        self.ver = Ver(fn)


class SDtype:
    def __init__(self, kind, names=None, descr=None, text=None, kinds=None):
        self.kind = kind
        self.names = names
        self.descr = descr
        self.text = text
        self.kinds = kinds

    @property
    def __symkind__(self):
        return self.kind

    @property
    def fields(self):
        return None if self.names is None else {n: None for n in self.names}

    def __eq__(self, o):
        if isinstance(o, SDtype):
            return self.kind == o.kind and self.descr == o.descr
        try:
            return self.kind == dkind(o)
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __str__(self):
        return {'f': 'float64', 'i': 'int64', 'b': 'bool'}.get(self.kind, self.kind)


def ident(v):
    return v


def ident_inv(b):
    return z3.BoolVal(True), b


class SArr:
    __array_priority__ = 2000
    __hash__ = None
    __array_ufunc__ = None

    def __init__(self, shape, buf, fwd=ident, inv=ident_inv):
        self._shape = tuple(dim(d) for d in shape)
        self.buf = buf
        self.fwd = fwd
        self.inv = inv
        self.ro = False

    # -- construction
    @staticmethod
    def make(shape, fn, kind, name='a'):
        return SArr(shape, Buf(fn, kind, len(shape), name))

    @staticmethod
    def full(shape, val, kind):
        if not isinstance(shape, (tuple, list)):
            shape = seq_shape(shape)
        v = cast(val, kind)
        return SArr.make(tuple(shape), lambda i: v, kind, 'full')

    @staticmethod
    def fresh(name, shape, kind, pre=()):
        """unconstrained input array; `pre` are leading index expressions"""
        sort = {'f': R, 'i': I, 'b': B, 'bits': BVS}[kind]
        f = CTX.fresh_fun(name, [I] * len(shape), sort)
        k = 'i' if kind == 'bits' else kind
        return SArr.make(shape, lambda i: wrap(f(*i)), k, name)

    # -- attributes
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return dmul(self._shape)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        return SDtype(self.buf.kind)

    @property
    def T(self):
        return transpose(self)

    def __len__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported('python len() of symbolic array')

    def __sym_len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return self._shape[0]

    def __sym_scalar__(self):
        if all(isinstance(d, int) and d == 1 for d in self._shape):
            return self.elem(tuple(z3.IntVal(0) for _ in self._shape))
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self._shape):
            return bool(self.__sym_scalar__())
        for d in self._shape:
            if isinstance(d, int) and d != 1:
                raise ValueError('The truth value of an array is ambiguous')
        if bool(self.size == 1):
            return bool(self.elem(tuple(z3.IntVal(0) for _ in self._shape)))
        raise ValueError('The truth value of an array is ambiguous')

    def __float__(self):
        return float(self.__sym_scalar__())

    def __int__(self):
        return int(self.__sym_scalar__())

    def __repr__(self):
        return '<SArr %s %s>' % (self.buf.name, self._shape)

    def __format__(self, s):
        return repr(self)

    # -- element access
    def snap(self):
        """reader of the current content"""
        ver, fwd = self.buf.ver, self.fwd
        if fwd is ident:
            return ver
        return lambda v: ver(fwd(v))

    def elem(self, idx):
        return self.buf.ver(self.fwd(tuple(idx)))

    def guard(self, idx):
        return And(*[And(ix(0) <= i, i < ix(d)) if not (
            isinstance(d, int) and d == 1 and False) else z3.BoolVal(True)
            for i, d in zip(idx, self._shape)])

    def write(self, fn, cond=None):
        """set every element v (where cond(v)) to fn(v, old)"""
        if self.ro or self.buf.readonly:
            raise ValueError('assignment destination is read-only')
        old = self.buf.ver
        inv = self.inv
        kind = self.buf.kind
        shape = self._shape
        full = inv is ident_inv

        def new(b):
            c, v = inv(b)
            if full:
                cc = z3.BoolVal(True)
            else:
                g = [c]
                cc = And(*g)
            if cond is not None:
                x = cond(v)
                cc = And(cc, x)
            cc = z3.simplify(cc)
            o = old(b)
            if z3.is_false(cc):
                return o
            return site(mkb(cc), cast(fn(v, o), kind), o)
        self.buf.set(new)

    # -- views
    def __iter__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported('native iteration over symbolic array')

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def copy(self, order=None):
        s = self.snap()
        return SArr.make(self._shape, s, self.buf.kind, self.buf.name + '.copy')

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True, **kw):
        k = dkind(dt)
        s = self.snap()
        return SArr.make(self._shape, lambda i: cast(s(i), k), k)

    def view(self, *a):
        return self

    def fill(self, v):
        self.write(lambda i, o: v)

    def ravel(self):
        if self.ndim == 1:
            return self
        return Flat(self)

    flatten = ravel

    def squeeze(self):
        if all(isinstance(d, int) and d == 1 for d in self._shape):
            return self.__sym_scalar__()
        return self

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        if len(sh) == 1 and sh[0] == -1:
            return self.ravel()
        raise Unsupported('reshape')

    def item(self):
        return self.__sym_scalar__()

    def tolist(self):
        if self.ndim == 1 and isinstance(self._shape[0], int):
            return [self[i] for i in range(self._shape[0])]
        raise Unsupported('tolist')

    # -- reductions
    def sum(self, axis=None, **kw):
        return reduce_('sum', self, axis)

    def any(self, axis=None):
        return reduce_('any', self, axis)

    def all(self, axis=None):
        return reduce_('all', self, axis)

    def max(self, axis=None):
        return reduce_('max', self, axis)

    def min(self, axis=None):
        return reduce_('min', self, axis)

    def mean(self, axis=None, dtype=None):
        return reduce_('mean', self, axis)

    def clip(self, min=None, max=None, out=None):
        r = self
        if min is not None:
            r = ew(lambda x, m: smax(x, m), r, min, kind=self.kind)
        if max is not None:
            r = ew(lambda x, m: smin(x, m), r, max, kind=self.kind)
        if r is self:
            r = self.copy()
        if out is not None:
            assign(out, r)
            return out
        return r

    # -- operators
    def _bin(self, op, o, refl=False):
        return binop(op, o, self) if refl else binop(op, self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def __invert__(self):
        return ew(lambda x: unary('~', x), self, kind=self.kind)

    def __neg__(self):
        return ew(lambda x: unary('-', x), self, kind=self.kind)

    def __abs__(self):
        return ew(lambda x: unary('abs', x), self, kind=self.kind)

    def __pos__(self):
        return self.copy()


def _mkop(op):
    def f(self, o):
        return binop(op, self, o)

    def rf(self, o):
        return binop(op, o, self)

    def jf(self, o):
        return inplace(op, self, o)
    return f, rf, jf


OPS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv',
       '%': 'mod', '**': 'pow', '&': 'and', '|': 'or', '^': 'xor'}
CMPS = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}


def binkind(op, a, b):
    if op in CMPS:
        return 'b'
    ka, kb = kind_of(a), kind_of(b)
    if op in ('&', '|', '^'):
        if ka == 'b' and kb == 'b':
            return 'b'
        return 'i'
    if op == '/':
        return 'f'
    order = 'bif'
    if ka not in order or kb not in order:
        return 'O'
    k = order[max(order.index(ka), order.index(kb))]
    return 'i' if k == 'b' else k


def kind_of(x):
    if isinstance(x, (SArr, SSel, Flat)):
        return x.kind
    if isinstance(x, (bool, _np.bool_, SBool)):
        return 'b'
    if isinstance(x, (int, _np.integer, SInt, SBits)):
        return 'i'
    if isinstance(x, (float, SReal)):
        return 'f'
    if isinstance(x, _np.ndarray):
        return dkind(x.dtype)
    if isinstance(x, str):
        return 'U'
    return 'O'


def coerce(x):
    """argument of an elementwise operation"""
    from .rt import SList
    if isinstance(x, (SArr, SSel, Flat)) or is_scalar(x):
        return x
    if isinstance(x, _np.ndarray):
        return from_np(x)
    if isinstance(x, (SList, list, tuple)):
        return asarray(x)
    if hasattr(x, '__sym_scalar__'):
        return x.__sym_scalar__()
    if isinstance(x, str):
        return x
    if isinstance(x, WhereTok):
        return x.sel()
    return None


def from_np(a):
    if a.ndim == 0:
        return a.item()
    k = dkind(a.dtype)

    def fn(idx):
        if all(z3.is_int_value(i) for i in idx):
            return a[tuple(i.as_long() for i in idx)].item()
        if a.size > 256:
            raise Unsupported('symbolic index into a concrete array')
        r = None
        for p in _np.ndindex(*a.shape):
            v = a[p].item()
            r = v if r is None else site(
                mkb(And(*[i == q for i, q in zip(idx, p)])), v, r)
        return r
    return SArr.make(a.shape, fn, k, 'const')


def binop(op, a, b):
    if op in ('==', '!=') and (b is None or a is None):
        return op == '!='
    ca, cb = coerce(a), coerce(b)
    if ca is None or cb is None:
        return NotImplemented
    if isinstance(ca, str) or isinstance(cb, str) or \
            kind_of(ca) == 'U' or kind_of(cb) == 'U':
        def cmp(x, y):
            r = x == y
            return r if op == '==' else (not r if isinstance(r, bool) else ~r)
        return ew(cmp, ca, cb, kind='b')
    if kind_of(ca) == 'f' and op in ('&', '|', '^') or \
            kind_of(cb) == 'f' and op in ('&', '|', '^'):
        raise TypeError("ufunc 'bitwise' not supported for the input types")
    return ew(lambda x, y: arith(op, x, y), ca, cb, kind=binkind(op, ca, cb))


def inplace(op, a, b):
    cb = coerce(b)
    if cb is None:
        return NotImplemented
    k = binkind(op, a, cb)
    if isinstance(a, SSel):
        return binop(op, a, cb)
    order = 'bif'
    if k in order and a.kind in order and order.index(k) > order.index(a.kind):
        if not (k == 'i' and a.kind == 'b' and False):
            raise TypeError("Cannot cast ufunc output from dtype(%s) to dtype(%s) "
                            "with casting rule 'same_kind'" % (k, a.kind))
    r = bcast_to(cb, a.shape)
    a.write(lambda v, o: arith(op, o, r(v)))
    return a


for _op, _nm in OPS.items():
    _f, _rf, _jf = _mkop(_op)
    setattr(SArr, '__%s__' % _nm, _f)
    setattr(SArr, '__r%s__' % _nm, _rf)
    setattr(SArr, '__i%s__' % _nm, _jf)
for _op, _nm in CMPS.items():
    setattr(SArr, '__%s__' % _nm, _mkop(_op)[0])


def is_one(d):
    return isinstance(d, int) and d == 1


def same_dim(a, b):
    """decide equality of dimensions (forks when open)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ea, eb = ix(a), ix(b)
    if ea.eq(eb):
        return True
    return CTX.decide(ea == eb)


def bcast_shape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        d = 1
        for s in shapes:
            j = ax - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if is_one(x):
                continue
            if is_one(d):
                d = x
            elif not same_dim(d, x):
                # numpy broadcasts a length one dimension
                if isinstance(d, SInt) and CTX.decide(ix(d) == 1):
                    d = x
                elif isinstance(x, SInt) and CTX.decide(ix(x) == 1):
                    pass
                else:
                    raise ValueError('operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def reader(x, shape):
    """function from an index of `shape` to the element of x (broadcast)"""
    if is_scalar(x) or isinstance(x, str):
        return lambda v: x
    s = x.snap()
    nd = len(shape)
    xs = x.shape
    if len(xs) == nd and all(not is_one(d) or is_one(e) for d, e in zip(xs, shape)):
        return s
    off = nd - len(xs)
    ones = [is_one(d) for d in xs]

    def f(v):
        w = v[off:]
        return s(tuple(z3.IntVal(0) if o else i for i, o in zip(w, ones)))
    return f


def bcast_to(x, shape):
    if is_scalar(x) or isinstance(x, str):
        return lambda v: x
    if isinstance(x, SSel):
        raise Unsupported('selection assigned to array')
    if isinstance(x, Flat):
        raise Unsupported('flat array broadcast')
    xs = x.shape
    if len(xs) > len(shape):
        if all(is_one(d) for d in xs[:len(xs) - len(shape)]):
            extra = len(xs) - len(shape)
            s = x.snap()
            return lambda v: s(tuple([z3.IntVal(0)] * extra) + tuple(v))
        raise ValueError('could not broadcast input array')
    for a, b in zip(xs[::-1], shape[::-1]):
        if is_one(a):
            continue
        if not same_dim(a, b):
            raise ValueError('could not broadcast input array')
    return reader(x, shape)


def ew(fn, *args, kind='f'):
    """elementwise operation"""
    args = [coerce(a) for a in args]
    if any(isinstance(a, SSel) for a in args):
        return sel_ew(fn, args, kind)
    if any(isinstance(a, Flat) for a in args):
        base = [a for a in args if isinstance(a, Flat)][0]
        args = [a.base if isinstance(a, Flat) else a for a in args]
        return Flat(ew(fn, *args, kind=kind))
    if all(is_scalar(a) or isinstance(a, str) for a in args):
        return fn(*args)
    shape = bcast_shape([a.shape for a in args if isinstance(a, SArr)])
    rs = [reader(a, shape) for a in args]
    if kind in 'fib':
        return SArr.make(shape, lambda v: cast(fn(*[r(v) for r in rs]), kind), kind)
    return SArr.make(shape, lambda v: fn(*[r(v) for r in rs]), kind)


def assign(dst, src):
    c = coerce(src)
    if c is None:
        if src is None and dst.kind == 'f':
            c = float('nan')
        else:
            raise TypeError('cannot assign %r to array' % (src,))
    r = bcast_to(c, dst.shape)
    dst.write(lambda v, o: r(v))


class Flat:
    """ravel() of an n-d array: only order independent uses"""
    def __init__(self, base):
        self.base = base
        self.kind = base.kind

    @property
    def shape(self):
        return (self.base.size,)

    @property
    def size(self):
        return self.base.size

    def __getattr__(self, n):
        if n in ('sum', 'any', 'all', 'max', 'min', 'mean'):
            return getattr(self.base, n)
        raise Unsupported('ravel().%s' % n)

    def __getitem__(self, key):
        if isinstance(key, Flat):
            return self.base[key.base]
        raise Unsupported('flat indexing')


for _op, _nm in list(OPS.items()) + list(CMPS.items()):
    def _ff(op):
        return lambda self, o: binop(op, self, o)
    setattr(Flat, '__%s__' % _nm, _ff(_op))


# ---------------------------------------------------------------------------
# selections

class SSel:
    """a[mask]: the selected elements, aligned with the mask's index space"""
    __array_priority__ = 2100
    __hash__ = None

    def __init__(self, mask, fn, kind):
        self.mask = mask       # SArr of bool (snapshot copy)
        self.mfn = mask.snap()
        self.fn = fn           # full index -> value
        self.kind = kind

    @property
    def ndim(self):
        return 1

    @property
    def dtype(self):
        return SDtype(self.kind)

    @property
    def size(self):
        return count(self.mask.shape, self.mfn)

    @property
    def shape(self):
        return (self.size,)

    def __sym_len__(self):
        return self.size

    def copy(self):
        return self

    def astype(self, dt):
        k = dkind(dt)
        return SSel(self.mask, lambda v: cast(self.fn(v), k), k)

    def sum(self, axis=None):
        return reduce_('sum', self, None)

    def any(self):
        return reduce_('any', self, None)

    def all(self):
        return reduce_('all', self, None)

    def max(self):
        return reduce_('max', self, None)

    def min(self):
        return reduce_('min', self, None)

    def mean(self):
        return reduce_('mean', self, None)

    def __invert__(self):
        return sel_ew(lambda x: unary('~', x), [self], self.kind)

    def __neg__(self):
        return sel_ew(lambda x: unary('-', x), [self], self.kind)

    def __setitem__(self, key, val):
        raise Unsupported('write to a selection copy')

    def __getitem__(self, key):
        if isinstance(key, SSel) and key.kind == 'b' and same_mask(self, key):
            mfn, kfn = self.mfn, key.fn
            m = SArr.make(self.mask.shape,
                          lambda v: mkb(And(truth(mfn(v)), truth(kfn(v)))), 'b')
            return SSel(m, self.fn, self.kind)
        raise Unsupported('indexing a selection')


for _op, _nm in OPS.items():
    _f, _rf, _jf = _mkop(_op)
    setattr(SSel, '__%s__' % _nm, _f)
    setattr(SSel, '__r%s__' % _nm, _rf)
for _op, _nm in CMPS.items():
    setattr(SSel, '__%s__' % _nm, _mkop(_op)[0])


def mask_id_eq(m1, m2):
    """provably the same mask"""
    if m1 is m2:
        return True
    if len(m1.shape) != len(m2.shape):
        return False
    for a, b in zip(m1.shape, m2.shape):
        if isinstance(a, int) and isinstance(b, int):
            if a != b:
                return False
        elif not CTX.entailed(ix(a) == ix(b)):
            return False
    v = tuple(CTX.index('m') for _ in m1.shape)
    a = truth(m1.elem(v))
    b = truth(m2.elem(v))
    if a.eq(b):
        return True
    return CTX.entailed(z3.Implies(m1.guard(v), a == b))


def same_mask(a, b):
    return mask_id_eq(a.mask, b.mask)


def sel_ew(fn, args, kind):
    sels = [a for a in args if isinstance(a, SSel)]
    s0 = sels[0]
    for s in sels[1:]:
        if not same_mask(s0, s):
            raise Unsupported('operation between different selections')
    rs = []
    for a in args:
        if isinstance(a, SSel):
            rs.append(a.fn)
        elif is_scalar(a):
            rs.append(lambda v, a=a: a)
        elif isinstance(a, SArr) and all(is_one(d) for d in a.shape):
            rs.append(lambda v, a=a.__sym_scalar__(): a)
        else:
            raise Unsupported('selection with array')
    if kind in 'fib':
        return SSel(s0.mask, lambda v: cast(fn(*[r(v) for r in rs]), kind), kind)
    return SSel(s0.mask, lambda v: fn(*[r(v) for r in rs]), kind)


class WhereTok:
    """np.where(mask)[axis]"""
    __hash__ = None

    def __init__(self, mask, axis):
        self.mask = mask
        self.axis = axis
        self.mfn = mask.snap()

    named = None        # a name given to the size

    @property
    def size(self):
        return count(self.mask.shape, self.mfn) if self.named is None else self.named

    @property
    def shape(self):
        return (self.size,)

    @property
    def kind(self):
        return 'i'

    ndim = 1

    def __sym_len__(self):
        return self.size

    def sel(self):
        ax = self.axis
        return SSel(self.mask, lambda v: mki(v[ax]), 'i')

    def copy(self):
        return self

    def __getitem__(self, key):
        if isinstance(key, SSel) and key.kind == 'b' and mask_id_eq(self.mask, key.mask):
            mfn, kfn = self.mfn, key.fn
            return WhereTok(SArr.make(self.mask.shape,
                                      lambda v: mkb(And(truth(mfn(v)), truth(kfn(v)))), 'b'),
                            self.axis)
        raise Unsupported('indexing np.where(...)')

    def __getattr__(self, n):
        if n in ('min', 'max', 'sum', 'mean'):
            return getattr(self.sel(), n)
        raise AttributeError(n)


for _op, _nm in list(OPS.items()) + list(CMPS.items()):
    def _wf(op):
        return lambda self, o: binop(op, self.sel(), o)
    setattr(WhereTok, '__%s__' % _nm, _wf(_op))


def count(shape, mfn):
    r = fold_nest('sum', shape, lambda v: If(truth(mfn(v)), z3.IntVal(1),
                                             z3.IntVal(0)))
    return mki(z3.simplify(r)) if z3.is_int_value(z3.simplify(r)) else SInt(r)


# ---------------------------------------------------------------------------
# folds over arrays

def fold_nest(op, shape, bodyfn):
    ks = [CTX.index('r') for _ in shape]
    body = bodyfn(tuple(ks))
    for k, d in list(zip(ks, shape))[::-1]:
        body = mk_fold(op, [(k, z3.IntVal(0), ix(d))], [body])
    return body


def fold_multi(op, shape, bodyfn, sort):
    ks = [CTX.index('r') for _ in shape]
    bodies = bodyfn(tuple(ks))
    return raw_fold(op, [(k, z3.IntVal(0), ix(d)) for k, d in zip(ks, shape)],
                    bodies, sort)


def reduce_(op, a, axis=None):
    if is_scalar(a):
        return a
    if isinstance(a, Flat):
        a = a.base
    if isinstance(a, WhereTok):
        a = a.sel()
    if axis is not None and isinstance(a, SArr):
        if isinstance(axis, int) and axis < 0:
            axis += a.ndim
        if a.ndim == 1 and axis == 0:
            axis = None
    if axis is not None:
        return reduce_axis(op, a, axis)
    if isinstance(a, SSel):
        shape, g, f = a.mask.shape, (lambda v: truth(a.mfn(v))), a.fn
    else:
        s = a.snap()
        shape, g, f = a.shape, (lambda v: z3.BoolVal(True)), s
    kind = a.kind
    if op == 'any':
        e = fold_nest('any', shape, lambda v: And(g(v), truth(f(v))))
        return mkb(e)
    if op == 'all':
        e = fold_nest('any', shape, lambda v: And(g(v), Not(truth(f(v)))))
        return mkb(Not(e))
    if op == 'sum':
        if all(isinstance(d, int) for d in shape) and isinstance(a, SArr) and \
                int(_np.prod(shape)) <= 64:
            r = 0 if kind != 'f' else 0.0
            for p in _np.ndindex(*shape):
                r = arith('+', r, f(tuple(z3.IntVal(q) for q in p)))
            return r
        if kind == 'b':
            r = fold_nest('sum', shape, lambda v: If(And(g(v), truth(f(v))),
                                                     z3.IntVal(1), z3.IntVal(0)))
            return SInt(r)
        if kind == 'i':
            r = fold_nest('sum', shape, lambda v: If(g(v), to_int_e(f(v)),
                                                     z3.IntVal(0)))
            return SInt(r)

        spec = []

        def body(v):
            x = to_real(f(v))
            if x.k is not None:
                spec.append(1)
            return If(g(v), x.e, z3.RealVal(0))
        r = fold_nest('sum', shape, body)
        if spec:
            # nan/inf entries: propagate nan when any entry is not finite
            def bad(v):
                x = to_real(f(v))
                return And(g(v), kof(x) != FIN)
            e = fold_nest('any', shape, bad)
            return SReal(r, If(e, z3.IntVal(NAN), z3.IntVal(FIN)))
        return SReal(r)
    if op == 'mean':
        n = a.size
        return arith('/', reduce_('sum', a), to_real(n))
    if op in ('max', 'min'):
        if isinstance(a, SArr) and all(isinstance(d, int) for d in shape) and \
                int(_np.prod(shape)) <= 64:
            vals = [f(tuple(z3.IntVal(q) for q in p)) for p in _np.ndindex(*shape)]
            if not vals:
                raise ValueError('zero-size array to reduction operation')
            r = vals[0]
            for x in vals[1:]:
                r = smax(r, x) if op == 'max' else smin(r, x)
            return r
        if isinstance(a, SSel):
            raise Unsupported('max of selection')
        for d in shape:
            if not isinstance(d, int):
                if CTX.decide(ix(d) == 0):
                    raise ValueError('zero-size array to reduction operation')
            elif d == 0:
                raise ValueError('zero-size array to reduction operation')
        if kind == 'f':
            return SReal(fold_multi(op, shape, lambda v: [to_real(f(v)).e], R))
        if kind == 'b':
            return reduce_('any' if op == 'max' else 'all', a)
        x = f(tuple(z3.IntVal(0) for _ in shape))
        if isinstance(x, SBits):
            return SBits(fold_multi(op, shape, lambda v: [bits_of(f(v))], BVS))
        return SInt(fold_multi(op, shape, lambda v: [to_int_e(f(v))], I))
    if op == 'bor':
        return SBits(fold_nest('bor', shape,
                               lambda v: If(g(v), bits_of(f(v)), bvval(0))))
    if op == 'median':
        spec = []

        def body(v):
            x = to_real(f(v))
            if x.k is not None:
                spec.append(1)
            return [g(v), x.e]
        r = fold_multi('median', shape, body, R)
        # an empty selection has median nan
        empty = Not(fold_nest('any', shape, g))
        if isinstance(a, SArr):
            empty = Or(*[ix(d) == 0 for d in shape])
        if CTX.frames and not spec:
            if z3.is_false(z3.simplify(empty)):
                return SReal(r)
            return SReal(r, If(empty, z3.IntVal(NAN), z3.IntVal(FIN)))
        return SReal(r)
    raise Unsupported('reduction ' + op)


def reduce_axis(op, a, axis):
    if isinstance(axis, tuple):
        raise Unsupported('tuple axis')
    s = a.snap()
    n = a.shape[axis]
    rest = a.shape[:axis] + a.shape[axis+1:]

    def fn(v):
        def at(k):
            return s(v[:axis] + (k,) + v[axis:])
        if isinstance(n, int):
            vals = [at(z3.IntVal(i)) for i in range(n)]
            r = vals[0]
            for x in vals[1:]:
                if op == 'sum':
                    r = arith('+', r, x)
                elif op == 'max':
                    r = smax(r, x)
                elif op == 'min':
                    r = smin(r, x)
                elif op == 'any':
                    r = mkb(Or(truth(r), truth(x)))
                elif op == 'all':
                    r = mkb(And(truth(r), truth(x)))
                elif op == 'mean':
                    r = arith('+', r, x)
                else:
                    raise Unsupported('axis reduction ' + op)
            if op == 'mean':
                r = arith('/', r, n)
            return r
        sub = SArr.make((n,), lambda w: at(w[0]), a.kind)
        return reduce_(op, sub)
    k = 'b' if op in ('any', 'all') else ('f' if op == 'mean' else a.kind)
    return SArr.make(rest, fn, k)


# ---------------------------------------------------------------------------
# views and indexing

def subview(a, shape, f, finv):
    """view of a: f maps view index -> index of a, finv: index of a -> (cond, view)"""
    afwd, ainv = a.fwd, a.inv

    def fwd(v):
        return afwd(f(v))

    def inv(b):
        c, w = ainv(b)
        c2, v = finv(w)
        return And(c, c2), v
    r = SArr(shape, a.buf, fwd, inv)
    r.ro = a.ro
    return r


def transpose(a):
    def f(v):
        return tuple(v[::-1])

    def fi(w):
        return z3.BoolVal(True), tuple(w[::-1])
    return subview(a, a.shape[::-1], f, fi)


def rot90(a, k=1):
    if not isinstance(k, int):
        raise Unsupported('symbolic rot90 count')
    k = k % 4
    ny, nx = a.shape[:2]
    T = z3.BoolVal(True)
    if k == 0:
        return a
    if k == 1:
        # out[i, j] = a[j, nx-1-i]
        return subview(a, (nx, ny),
                       lambda v: (v[1], ix(nx) - 1 - v[0]) + tuple(v[2:]),
                       lambda w: (T, (ix(nx) - 1 - w[1], w[0]) + tuple(w[2:])))
    if k == 2:
        return subview(a, (ny, nx),
                       lambda v: (ix(ny) - 1 - v[0], ix(nx) - 1 - v[1]),
                       lambda w: (T, (ix(ny) - 1 - w[0], ix(nx) - 1 - w[1])))
    # k == 3: out[i, j] = a[ny-1-j, i]
    return subview(a, (nx, ny),
                   lambda v: (ix(ny) - 1 - v[1], v[0]),
                   lambda w: (T, (w[1], ix(ny) - 1 - w[0])))


def flip(a, axis):
    n = a.shape[axis]

    def f(v):
        v = list(v)
        v[axis] = ix(n) - 1 - v[axis]
        return tuple(v)
    return subview(a, a.shape, f, lambda w: (z3.BoolVal(True), f(w)))


def norm_index(i, n, what='index'):
    """numpy integer index semantics; returns z3 expr"""
    e = ix(i)
    en = ix(n)
    if z3.is_int_value(e):
        v = e.as_long()
        if v < 0:
            e = z3.simplify(en + v)
            if CTX.decide(e < 0):
                raise IndexError('index out of bounds')
            return e
        if CTX.decide(e >= en):
            raise IndexError('index out of bounds')
        return e
    if CTX.decide(And(e >= 0, e < en)):
        return e
    if CTX.decide(And(e < 0, e + en >= 0)):
        return e + en
    raise IndexError('index out of bounds')


def norm_slice(s, n):
    """-> (start, length) z3 exprs, step 1 (or reversed: step -1)"""
    if isinstance(s.step, int) and s.step == -1 and s.start is None and s.stop is None:
        return 'rev'
    if not (s.step is None or (isinstance(s.step, int) and s.step == 1)):
        raise Unsupported('slice step')
    en = ix(n)

    def clampv(x, default):
        if x is None:
            return default
        if isinstance(x, (float, SReal)):
            raise TypeError('slice indices must be integers')
        e = ix(x)
        if CTX.entailed(And(e >= 0, e <= en)):
            return e
        if z3.is_int_value(e) and e.as_long() < 0:
            w = z3.simplify(en + e)
            return If(w < 0, z3.IntVal(0), w)
        w = If(e < 0, en + e, e)
        return z3.simplify(If(w < 0, z3.IntVal(0), If(w > en, en, w)))
    lo = clampv(s.start, z3.IntVal(0))
    hi = clampv(s.stop, en)
    ln = z3.simplify(hi - lo)
    if not CTX.entailed(ln >= 0):
        ln = z3.simplify(If(ln < 0, z3.IntVal(0), ln))
    return lo, ln


def is_int_index(k):
    return isinstance(k, (int, _np.integer, SInt)) and not isinstance(
        k, (bool, _np.bool_))


def is_boolarr(k):
    return isinstance(k, SArr) and k.kind == 'b'


def is_where(k):
    return isinstance(k, tuple) and k and all(isinstance(t, WhereTok) for t in k)


def basic_view(a, key):
    """view for a tuple of ints/slices/Ellipsis/None; scalar when all ints"""
    from .rt import GUnion
    key = list(key)
    if Ellipsis in [k for k in key if k is Ellipsis]:
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        nn = len([k for k in key if k is not Ellipsis and k is not None])
        key[p:p+1] = [slice(None)] * (a.ndim - nn)
    nn = len([k for k in key if k is not None])
    if nn > a.ndim:
        raise IndexError('too many indices for array')
    key += [slice(None)] * (a.ndim - nn)
    plan = []
    shape = []
    ax = 0
    for k in key:
        if k is None:
            plan.append(('new',))
            shape.append(1)
            continue
        n = a.shape[ax]
        ax += 1
        if isinstance(k, slice):
            r = norm_slice(k, n)
            if r == 'rev':
                plan.append(('rev', ix(n)))
                shape.append(n)
            else:
                lo, ln = r
                plan.append(('sl', lo, ln, ln.eq(ix(n))))
                shape.append(dim(ln))
        elif is_int_index(k):
            plan.append(('int', norm_index(k, n)))
        elif isinstance(k, SBits):
            raise Unsupported('bits as index')
        elif isinstance(k, (float, SReal)):
            raise IndexError('only integers, slices are valid indices')
        elif isinstance(k, SArr) and k.ndim == 0:
            plan.append(('int', norm_index(k.elem(()), n)))
        else:
            raise Unsupported('index %r' % (k,))

    def f(v):
        out = []
        j = 0
        for p in plan:
            if p[0] == 'int':
                out.append(p[1])
            elif p[0] == 'new':
                j += 1
            elif p[0] == 'rev':
                out.append(p[1] - 1 - v[j])
                j += 1
            else:
                lo = p[1]
                out.append(nary_add([lo, v[j]]) if not z3.is_int_value(lo) or
                           lo.as_long() != 0 else v[j])
                j += 1
        return tuple(out)

    def fi(w):
        c = []
        out = []
        j = 0
        for p in plan:
            if p[0] == 'new':
                out.append(z3.IntVal(0))
                continue
            x = w[j]
            j += 1
            if p[0] == 'int':
                c.append(eqi(x, p[1]))
            elif p[0] == 'rev':
                out.append(p[1] - 1 - x)
            else:
                lo, ln, full = p[1:]
                if not full:
                    c.append(And(lo <= x, x < lo + ln))
                out.append(x - lo if not (z3.is_int_value(lo) and lo.as_long() == 0)
                           else x)
        return And(*c), tuple(out)
    return tuple(shape), f, fi


def eqi(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    return a == b


def getitem(a, key):
    key = fixkey(key)
    if is_boolarr(key):
        return mask_get(a, key)
    if isinstance(key, SSel):
        if key.kind == 'b':
            raise Unsupported('selection as mask')
        return gather_sel(a, (key,))
    if is_where(key):
        return SSel(key[0].mask, a.snap(), a.kind) if len(key) == a.ndim else \
            mask_get(a, key[0].mask)
    if isinstance(key, WhereTok) and a.ndim == 1:
        return SSel(key.mask, a.snap(), a.kind)
    if isinstance(key, SArr) and key.kind == 'i' and key.ndim > 0:
        return gather(a, (key,))
    if isinstance(key, tuple) and len(key) == 1 and is_boolarr(key[0]):
        return mask_get(a, key[0])
    if isinstance(key, tuple) and any(isinstance(k, (SArr, SSel)) for k in key):
        if all(isinstance(k, SSel) or is_int_index(k) for k in key):
            return gather_sel(a, key)
        if all(isinstance(k, SArr) or is_int_index(k) for k in key):
            return gather(a, key)
        return gather(a, key)
    if not isinstance(key, tuple):
        key = (key,)
    shape, f, fi = basic_view(a, key)
    if not shape:
        return unwrap_const2(a.elem(f(())))
    return subview(a, shape, f, fi)


def unwrap_const2(x):
    if isinstance(x, Sym):
        return unwrap_const(x)
    return x


def fixkey(key):
    from .rt import SList
    if isinstance(key, (SList, list)):
        key = asarray(key)
    elif isinstance(key, _np.ndarray):
        key = from_np(key)
    elif isinstance(key, WhereTok):
        return key
    elif isinstance(key, tuple):
        key = tuple(fixkey(k) if isinstance(k, (SList, list, _np.ndarray)) else k
                    for k in key)
    elif hasattr(key, '__sym_scalar__') and isinstance(key, SArr) and key.ndim == 0:
        key = key.elem(())
    if isinstance(key, SBool):
        raise Unsupported('boolean scalar index')
    return key


def mask_get(a, m):
    if len(m.shape) != a.ndim:
        if len(m.shape) < a.ndim:
            raise Unsupported('partial mask')
        raise IndexError('too many indices')
    for d, e in zip(m.shape, a.shape):
        if not same_dim(d, e):
            raise IndexError('boolean index did not match indexed array')
    if all(isinstance(d, int) for d in m.shape) and len(m.shape) == 1:
        # concrete length: enumerate when the mask is decided
        vals = [m.elem((z3.IntVal(i),)) for i in range(m.shape[0])]
        if all(isinstance(v, (bool, _np.bool_)) for v in vals):
            keep = [i for i, v in enumerate(vals) if v]
            s = a.snap()
            return stack_scalars([s((z3.IntVal(i),)) for i in keep], a.kind)
    return SSel(m.copy(), a.snap(), a.kind)


def stack_scalars(vals, kind=None):
    if kind is None:
        kind = 'b'
        for v in vals:
            k = kind_of(v)
            if k not in 'bif':
                kind = k
                break
            if 'bif'.index(k) > 'bif'.index(kind):
                kind = k
        if not vals:
            kind = 'f'
    vals = [cast(v, kind) if kind in 'fib' else v for v in vals]

    def fn(idx):
        i = idx[0]
        if z3.is_int_value(i):
            return vals[i.as_long()]
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = gsite(i == j, vals[j], r)
        return r
    return SArr.make((len(vals),), fn, kind, 'lst')


def gsite(ce, a, b):
    """if-then-else on general element values"""
    if is_scalar(a) and is_scalar(b):
        return site(mkb(ce), a, b)
    from .rt import merge
    return merge(ce, a, b)


def gather(a, keys):
    """fancy indexing with integer arrays (broadcast) and scalars"""
    keys = list(keys)
    keys = [asarray(k) if isinstance(k, (list,)) else k for k in keys]
    if any(isinstance(k, slice) for k in keys):
        # one index array and slices
        pos = [i for i, k in enumerate(keys) if isinstance(k, SArr)]
        if len(pos) == 1 and len(keys) == a.ndim and all(
                isinstance(k, SArr) or k == slice(None) for k in keys):
            p = pos[0]
            idx = keys[p]
            chk_idx(idx, a.shape[p])
            s = a.snap()
            r = idx.snap()
            n = a.shape[p]
            return SArr.make(
                a.shape[:p] + idx.shape + a.shape[p+1:],
                lambda v: s(v[:p] + (wrapneg(ix(r((v[p],))), n),) + v[p+1:]), a.kind)
        raise Unsupported('mixed fancy indexing')
    shape = bcast_shape([k.shape for k in keys if isinstance(k, SArr)])
    rs = []
    for k, n in zip(keys, a.shape):
        if isinstance(k, SArr):
            if k.kind == 'f':
                raise IndexError('arrays used as indices must be of integer type')
            chk_idx(k, n)
            rd = reader(k, shape)
            rs.append(lambda v, rd=rd, n=n: wrapneg(ix(rd(v)), n))
        else:
            e = norm_index(k, n)
            rs.append(lambda v, e=e: e)
    rest = a.shape[len(keys):]
    nd = len(shape)
    s = a.snap()
    return SArr.make(shape + rest,
                     lambda v: s(tuple(r(v[:nd]) for r in rs) + tuple(v[nd:])),
                     a.kind)


def wrapneg(e, n):
    if CTX.frames and CTX.entailed(e >= 0):
        return e
    if z3.is_int_value(e) and e.as_long() >= 0:
        return e
    return If(e < 0, e + ix(n), e)


def chk_idx(k, n):
    """every entry of the index array is in bounds, else IndexError"""
    s = k.snap()
    en = ix(n)
    bad = fold_nest('any', k.shape, lambda v: Or(ix(s(v)) >= en, ix(s(v)) < -en))
    # try to refute with a generic index
    v = tuple(CTX.index('g') for _ in k.shape)
    if CTX.entailed(z3.Implies(k.guard(v), And(ix(s(v)) < en, ix(s(v)) >= -en))):
        return
    if CTX.decide(bad):
        raise IndexError('index out of bounds')


def gather_sel(a, keys):
    s0 = [k for k in keys if isinstance(k, SSel)][0]
    for k in keys:
        if isinstance(k, SSel) and not same_mask(s0, k):
            raise Unsupported('different selections in index')
    for k, n in zip(keys, a.shape):
        if isinstance(k, SSel):
            v = tuple(CTX.index('g') for _ in k.mask.shape)
            en = ix(n)
            if not CTX.entailed(z3.Implies(
                    And(k.mask.guard(v), truth(k.mfn(v))),
                    And(ix(k.fn(v)) >= 0, ix(k.fn(v)) < en))):
                raise Unsupported('selection index bounds')
    s = a.snap()

    def fn(v):
        return s(tuple(ix(k.fn(v)) if isinstance(k, SSel) else ix(k) for k in keys))
    return SSel(s0.mask, fn, a.kind)


def setitem(a, key, val):
    key = fixkey(key)
    if isinstance(key, tuple) and len(key) == 1 and is_boolarr(key[0]):
        key = key[0]
    if is_boolarr(key) or is_where(key) or isinstance(key, WhereTok):
        if is_boolarr(key):
            m = key
        elif isinstance(key, WhereTok):
            m = key.mask
        else:
            m = key[0].mask
        if len(m.shape) != a.ndim:
            raise Unsupported('partial mask assignment')
        for d, e in zip(m.shape, a.shape):
            if not same_dim(d, e):
                raise IndexError('boolean index did not match indexed array')
        mfn = m.snap()
        c = coerce(val)
        if isinstance(c, SSel):
            if not mask_id_eq(c.mask, m):
                raise Unsupported('assignment between different selections')
            vf = c.fn
        elif is_scalar(c):
            def vf(v):
                return c
        elif isinstance(c, SArr) and all(is_one(d) for d in c.shape):
            x = c.__sym_scalar__()

            def vf(v):
                return x
        else:
            raise Unsupported('mask assignment from array')
        a.write(lambda v, o: vf(v), cond=lambda v: truth(mfn(v)))
        return
    if isinstance(key, SArr) and key.kind == 'i':
        key = (key,)
    if isinstance(key, tuple) and any(isinstance(k, SArr) for k in key):
        scatter(a, key, val)
        return
    if isinstance(key, tuple) and any(isinstance(k, SSel) for k in key):
        sel_scatter(a, key, val)
        return
    if not isinstance(key, tuple):
        key = (key,)
    shape, f, fi = basic_view(a, key)
    v = subview(a, shape, f, fi)
    if a.kind in 'UO':
        if isinstance(val, SArr):
            r = bcast_to(val, v.shape)
            v.write(lambda w, o: r(w))
        else:
            v.write(lambda w, o: val)
        return
    assign(v, val)


def scatter(a, key, val):
    """a[..., intarray, ...] = val, index array of concrete length"""
    pos = [i for i, k in enumerate(key) if isinstance(k, SArr)]
    if len(pos) != 1 or key[pos[0]].ndim != 1:
        raise Unsupported('general scatter')
    p = pos[0]
    idx = key[p]
    n = idx.shape[0]
    c = coerce(val)
    if not isinstance(n, int):
        return scatter_sym(a, key, p, idx, c)
    for j in range(n):
        k2 = key[:p] + (idx.elem((z3.IntVal(j),)),) + key[p+1:]
        if isinstance(c, SArr) and c.ndim > 0 and not is_one(c.shape[-1]):
            setitem(a, k2, c[j] if c.ndim == 1 else c[..., j])
        elif isinstance(c, SArr) and c.ndim > 0:
            setitem(a, k2, c[0] if c.ndim == 1 else c[..., 0])
        else:
            setitem(a, k2, c)


def scatter_sym(a, key, p, idx, c):
    raise Unsupported('scatter with symbolic length')


def sel_scatter(a, key, val):
    """a[sel0, sel1] = val where the selections are coordinates of their own mask"""
    s0 = [k for k in key if isinstance(k, SSel)][0]
    raise Unsupported('selection scatter')


# ---------------------------------------------------------------------------
# constructors

def seq_shape(s):
    from .rt import SList
    if isinstance(s, (tuple, list, SList)):
        return tuple(s)
    return (s,)


def asarray(x, dtype=None):
    from .rt import SList
    if isinstance(x, SArr):
        return x if dtype is None or dkind(dtype) == x.kind else x.astype(dtype)
    if isinstance(x, SRec):
        return x
    if isinstance(x, (SSel, Flat)):
        return x if dtype is None else x.astype(dtype)
    if isinstance(x, WhereTok):
        return x.sel()
    if isinstance(x, _np.ndarray):
        r = from_np(x)
        return r if dtype is None else r.astype(dtype)
    if is_scalar(x):
        k = kind_of(x) if dtype is None else dkind(dtype)
        v = cast(x, k)
        return SArr.make((), lambda i: v, k)
    if isinstance(x, SList) and x.is_symbolic():
        return x.to_array(dtype)
    if isinstance(x, (list, tuple, SList, range)):
        items = [i for i in x]
        if all(is_scalar(i) for i in items):
            return stack_scalars(items, None if dtype is None else dkind(dtype))
        if all(isinstance(i, str) for i in items):
            return stack_scalars(items, 'U')
        if any(i is None for i in items):
            return stack_scalars(items, 'O')
        items = [coerce(i) for i in items]
        if any(isinstance(i, SSel) for i in items):
            return SelStack(items)
        r = stack_arrays(items)
        return r if dtype is None else r.astype(dtype)
    if hasattr(x, '__sym_array__'):
        return x.__sym_array__()
    raise Unsupported('asarray %r' % (type(x),))


class SelStack:
    """np.array((sel0, sel1)): only .T / rows"""
    def __init__(self, items):
        self.items = items
        self.T = self

    @property
    def shape(self):
        return (len(self.items),) + self.items[0].shape


def stack_arrays(items):
    """new leading axis"""
    items = [asarray(i) for i in items]
    sh = items[0].shape
    for i in items[1:]:
        if len(i.shape) != len(sh) or not all(
                same_dim(p, q) for p, q in zip(sh, i.shape)):
            raise ValueError('all input arrays must have the same shape')
    kind = items[0].kind
    for i in items[1:]:
        kind = 'bif'[max('bif'.index(kind), 'bif'.index(i.kind))]
    ss = [i.snap() for i in items]

    def fn(v):
        i = v[0]
        r = tuple(v[1:])
        if z3.is_int_value(i):
            return cast(ss[i.as_long()](r), kind)
        o = ss[-1](r)
        for j in range(len(ss) - 2, -1, -1):
            o = site(mkb(i == j), ss[j](r), o)
        return cast(o, kind)
    return SArr.make((len(items),) + tuple(sh), fn, kind)


def concat(items):
    """concatenate 1-d arrays / records"""
    items = [i for i in items]
    if any(isinstance(i, SRec) for i in items):
        return rec_concat(items)
    items = [asarray(i) for i in items]
    if len(items) == 1:
        return items[0].copy()
    kind = items[0].kind
    for i in items[1:]:
        if kind in 'bif' and i.kind in 'bif':
            kind = 'bif'[max('bif'.index(kind), 'bif'.index(i.kind))]
    ss = [i.snap() for i in items]
    offs = [0]
    for i in items:
        offs.append(arith('+', offs[-1], i.shape[0]))

    def fn(v):
        i = v[0]
        r = None
        for j in range(len(ss) - 1, -1, -1):
            x = ss[j]((i - ix(offs[j]),) + tuple(v[1:]))
            r = x if r is None else gsite(i < ix(offs[j+1]), x, r)
        return r
    return SArr.make((offs[-1],) + tuple(items[0].shape[1:]), fn, kind)


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return reduce_('sum', binop('*', a, b))
    n = a.shape[-1]
    n2 = b.shape[-2] if b.ndim > 1 else b.shape[0]
    if not same_dim(n, n2):
        raise ValueError('shapes not aligned')
    if not isinstance(n, int):
        raise Unsupported('dot over symbolic dimension')
    sa, sb = a.snap(), b.snap()
    na = a.ndim - 1
    shape = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if b.ndim > 1 else ())

    def fn(v):
        r = None
        for j in range(n):
            J = z3.IntVal(j)
            va = tuple(v[:na]) + (J,)
            vb = tuple(v[na:-1]) + (J, v[-1]) if b.ndim > 1 else (J,)
            t = arith('*', sa(va), sb(vb))
            r = t if r is None else arith('+', r, t)
        return r
    kind = 'f' if 'f' in (a.kind, b.kind) else a.kind
    return SArr.make(shape, fn, kind)


def inv22(a):
    a = asarray(a)
    if a.shape != (2, 2):
        raise Unsupported('inverse of general matrix')
    p, q, r, s = a[0, 0], a[0, 1], a[1, 0], a[1, 1]
    det = p * s - q * r
    if isinstance(det, Sym):
        if bool(det == 0):
            raise ValueError('Singular matrix')
    rows = [[s / det, -q / det], [-r / det, p / det]]
    return asarray([asarray(x) for x in rows])


# ---------------------------------------------------------------------------
# record arrays

class SRec:
    """structured array: ordered fields, each an SArr of shape self.shape + sub"""
    __hash__ = None
    __array_priority__ = 2200

    def __init__(self, shape, fields, descr):
        self._shape = tuple(shape)
        self.fields = fields
        self.descr = descr

    @staticmethod
    def zeros(shape, descr):
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(dim(d) for d in shape)
        fields = {}
        out = []
        seen = set()
        for d in descr:
            d = tuple(d)
            name, dt = d[0], d[1]
            if name in seen:
                raise ValueError('field %r occurs more than once' % name)
            seen.add(name)
            sub = ()
            if len(d) > 2:
                sub = d[2]
                if not isinstance(sub, (tuple, list)):
                    sub = (sub,)
                sub = tuple(dim(q) for q in sub)
            k = dkind(dt)
            z = {'f': 0.0, 'i': 0, 'b': False, 'U': '', 'S': '', 'O': None}[k]
            fields[name] = SArr.make(shape + sub, lambda i, z=z: z, k, name)
            out.append((name, dt) if not sub else (name, dt, sub))
        return SRec(shape, fields, out)

    @property
    def shape(self):
        return self._shape

    @property
    def size(self):
        return dmul(self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return SDtype('V', names=tuple(self.fields), descr=list(self.descr))

    def __sym_len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return self._shape[0]

    def __len__(self):
        return int(self._shape[0])

    def __iter__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported('native iteration over symbolic record array')

    def copy(self):
        return SRec(self._shape, {n: a.copy() for n, a in self.fields.items()},
                    list(self.descr))

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, key):
        if isinstance(key, str):
            if key not in self.fields:
                raise ValueError('no field of name %s' % key)
            f = self.fields[key]
            if f.ndim == 0:
                return unwrap_const2(f.elem(()))
            return f
        from .rt import SList
        if isinstance(key, (list, SList)) and len(key) and all(
                isinstance(k, str) for k in key):
            return SRec(self._shape, {k: self.fields[k] for k in key},
                        [d for d in self.descr if d[0] in key])
        out = {}
        shape = None
        nd = len(self._shape)
        key2 = key if isinstance(key, tuple) else (key,)
        for n, f in self.fields.items():
            v = getitem0(f, key2)
            out[n] = v
        if not out:
            raise Unsupported('record without fields')
        f0 = next(iter(self.fields))
        sub0 = len(self.fields[f0].shape) - nd
        v0 = out[f0]
        shape = v0.shape[:len(v0.shape) - sub0]
        return SRec(shape, out, self.descr)

    def __setitem__(self, key, val):
        if isinstance(key, str):
            if key not in self.fields:
                raise ValueError('no field of name %s' % key)
            f = self.fields[key]
            if f.kind in 'UO':
                if isinstance(val, SArr):
                    r = bcast_to(val, f.shape)
                    f.write(lambda v, o: r(v))
                else:
                    f.write(lambda v, o: val)
                return
            assign(f, val)
            return
        dst = self[key]
        if isinstance(val, SRec):
            for n in dst.fields:
                dst[n] = val[n]
            return
        raise Unsupported('record assignment')


def getitem0(f, key):
    """basic indexing keeping 0-d views (record scalars)"""
    k0 = fixkey(key if len(key) > 1 else key[0])
    if is_boolarr(k0) or isinstance(k0, SArr):
        return getitem(f, k0) if f.ndim == 1 else gather_rows(f, k0)
    shape, g, gi = basic_view(f, key)
    return subview(f, shape, g, gi)


def gather_rows(f, k):
    if is_boolarr(k):
        raise Unsupported('mask on record with sub arrays')
    return gather(f, (k,))


def rec_concat(items):
    items = [i for i in items]
    r0 = items[0]
    for r in items[1:]:
        if list(r.fields) != list(r0.fields):
            raise TypeError('invalid type promotion with structured datatypes')
    fields = {n: concat([r.fields[n] for r in items]) for n in r0.fields}
    return SRec((next(iter(fields.values())).shape[0],), fields, r0.descr)


def add_fields(rec, add):
    """contract of esutil.numpy_util.add_fields"""
    new = SRec.zeros(rec.shape, list(rec.descr) + [tuple(d) for d in add])
    for n in rec.fields:
        new.fields[n] = rec.fields[n].copy()
    return new

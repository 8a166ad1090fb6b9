"""
Runtime of the transformed code: sequences, merged values, builtins and the loop
rule (inferred invariants, each checked by the solver).
"""
import builtins as _bi
import copy as _copy
import types
import numpy as _np
import z3
from . import core
from .core import (
    apps, prove_formula,
    CTX, And, Or, Not, If, Unsupported, Prune, NeedBits, NeedPeel, Frame,
    mk_fold, mk_fold1, raw_fold, rewrite, free_syms, lift_const, valid, combine,
    UNITS, eq_candidates, has_const, bvval, EngineError, Obligation, is_true,
    nary_add, mknum, FOLDS,
)
from .values import (
    Sym, SBool, SInt, SReal, SBits, NUMS, is_scalar, lift, arith, unary, site,
    cast, dkind, truth, to_real, to_int_e, wrap, mki, mkb, same_value, trunc,
    bits_of, compare, smax, smin, kof, I, R, B, BVS, FIN, NAN, unwrap_const, rint,
    join_lift,
)
from .arr import (
    SArr, SSel, SRec, Flat, WhereTok, Buf, Ver, ix, dim, asarray, ew, fold_nest,
    reduce_, gsite, SDtype,
)


# ---------------------------------------------------------------------------
# special values

def entered(name):
    CTX.functions.add(name)


class _Unb:
    def __repr__(self):
        return '<unbound>'


UNB = _Unb()


class Poison:
    """value of a loop-carried variable the loop rule did not summarise"""
    def __init__(self, name, peel=True):
        object.__setattr__(self, '_n', name)
        object.__setattr__(self, '_peel', peel)

    def _hit(self):
        if object.__getattribute__(self, '_peel'):
            raise NeedPeel(object.__getattribute__(self, '_n'))
        raise Unsupported('use of unsummarised loop variable %s'
                          % object.__getattribute__(self, '_n'))

    def __getattribute__(self, a):
        if a in ('_hit', '__class__'):
            return object.__getattribute__(self, a)
        object.__getattribute__(self, '_hit')()


def _pm(n):
    def f(self, *a, **k):
        object.__getattribute__(self, '_hit')()
    return f


for _n in ('add radd sub rsub mul rmul truediv rtruediv and rand or ror xor lt le gt '
           'ge eq ne neg invert bool call getitem setitem iter len iadd imul ior iand '
           'isub contains pow rpow mod rmod float int index').split():
    setattr(Poison, '__%s__' % _n, _pm(_n))
Poison.__hash__ = None


class GUnion:
    """one of several values, by condition; resolved by forking when used"""
    __array_priority__ = 3000
    __hash__ = None

    def __init__(self, cond, a, b):
        self.__dict__['_c'] = cond
        self.__dict__['_a'] = a
        self.__dict__['_b'] = b

    def _res(self):
        r = self.__dict__['_a'] if CTX.decide(self.__dict__['_c']) \
            else self.__dict__['_b']
        if isinstance(r, GUnion):
            return r._res()
        return r

    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__dict__',):
            raise AttributeError(n)
        return getattr(self._res(), n)

    def __setattr__(self, n, v):
        setattr(self._res(), n, v)

    def __repr__(self):
        return '<union>'


def _gu(n):
    import operator

    def f(self, *a, **k):
        v = self._res()
        a = [resolve(x) for x in a]
        if n in ('add', 'sub', 'mul', 'truediv', 'lt', 'le', 'gt', 'ge', 'eq', 'ne',
                 'floordiv', 'mod', 'pow'):
            return getattr(operator, n)(v, *a)
        if n in ('and', 'or', 'xor'):
            return getattr(operator, n + '_')(v, *a)
        if n in ('radd', 'rsub', 'rmul', 'rtruediv', 'rpow', 'rfloordiv', 'rmod'):
            return getattr(operator, n[1:])(*a, v)
        if n in ('rand', 'ror', 'rxor'):
            return getattr(operator, n[1:] + '_')(*a, v)
        if n == 'getitem':
            return v[a[0]]
        if n == 'setitem':
            v[a[0]] = a[1]
            return None
        if n == 'call':
            return v(*a, **k)
        if n == 'bool':
            return bool(v)
        if n == 'neg':
            return -v
        if n == 'invert':
            return ~v
        if n == 'abs':
            return abs(v)
        if n == 'iter':
            return iter(v)
        if n == 'contains':
            return a[0] in v
        raise Unsupported(n)
    return f


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod '
           'pow rpow and rand or ror xor rxor lt le gt ge eq ne neg invert bool call '
           'getitem setitem iter abs contains').split():
    setattr(GUnion, '__%s__' % _n, _gu(_n))


def resolve(x):
    if isinstance(x, GUnion):
        return x._res()
    return x


def union_is_none(x):
    """z3 condition that x is None"""
    if x is None:
        return z3.BoolVal(True)
    if isinstance(x, GUnion):
        return If(x.__dict__['_c'], union_is_none(x.__dict__['_a']),
                  union_is_none(x.__dict__['_b']))
    if hasattr(x, '__sym_none__'):
        return x.__sym_none__()
    return z3.BoolVal(False)


def merge(ce, a, b):
    """if ce then a else b, for arbitrary values"""
    if is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        try:
            return site(mkb(ce), a, b)
        except (Unsupported, TypeError):
            return GUnion(ce, a, b)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim:
        if all((isinstance(p, int) and isinstance(q, int) and p == q) or
               (not (isinstance(p, int) and isinstance(q, int)) and
                ix(p).eq(ix(q))) for p, q in zip(a.shape, b.shape)):
            if a.buf is b.buf and a.fwd is b.fwd:
                return a
            sa, sb = a.snap(), b.snap()
            kind = a.kind
            if kind != b.kind and kind in 'bif' and b.kind in 'bif':
                kind = 'bif'[max('bif'.index(kind), 'bif'.index(b.kind))]
            return SArr.make(a.shape, lambda v: gsite(ce, sa(v), sb(v)), kind)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(ce, x, y) for x, y in zip(a, b))
    if type(a) is dict and type(b) is dict and list(a) == list(b):
        return {k: merge(ce, a[k], b[k]) for k in a}
    if isinstance(a, SDict) and isinstance(b, SDict) and list(a) == list(b):
        return SDict({k: merge(ce, a[k], b[k]) for k in a})
    if isinstance(a, SRec) and isinstance(b, SRec) and list(a.fields) == list(b.fields):
        return SRec(a.shape, {n: merge(ce, a.fields[n], b.fields[n])
                              for n in a.fields}, a.descr)
    if isinstance(a, SList) and isinstance(b, SList) and not a.is_symbolic() and \
            not b.is_symbolic() and len(a) == len(b):
        return SList([merge(ce, x, y) for x, y in zip(a, b)])
    return GUnion(ce, a, b)


class SDict(dict):
    """dict display of transformed code (plain dict; kept apart for the heap walk)"""
    __hash__ = None


# ---------------------------------------------------------------------------
# deep substitution

def vmap(x, f, fargs=None):
    """apply the expression map f to every term of a value; f(expr)->expr"""
    if hasattr(type(x), '__sym_vmap__') and isinstance(x, str):
        return x.__sym_vmap__(f)
    if isinstance(x, NUMS) or x is None or isinstance(x, (str, bytes, type)):
        return x
    if isinstance(x, SReal):
        return unwrap_const(SReal(f(x.e), None if x.k is None else f(x.k)))
    if isinstance(x, Sym):
        return unwrap_const(type(x)(f(x.e)))
    if isinstance(x, SArr):
        s = x.snap()
        ps = tuple(CTX.index('p') for _ in x.shape)
        kind = x.kind
        cell = []

        def fn(v):
            if not cell:
                cell.append(vmap(s(ps), f))
            cm = {p.get_id(): i for p, i in zip(ps, v)}
            return vmap(cell[0], lambda e: rewrite(e, cm))
        return SArr.make(tuple(vmap(d, f) for d in x.shape), fn, kind, x.buf.name)
    if isinstance(x, SRec):
        return SRec(tuple(vmap(d, f) for d in x.shape),
                    {n: vmap(a, f) for n, a in x.fields.items()}, x.descr)
    if isinstance(x, SDict):
        return SDict({k: vmap(v, f) for k, v in x.items()})
    if type(x) is dict:
        return {k: vmap(v, f) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(vmap(v, f) for v in x)
    if isinstance(x, list):
        return [vmap(v, f) for v in x]
    if isinstance(x, (SList, FlatSeq)):
        return x.vmap(f)
    if isinstance(x, GUnion):
        d = x.__dict__
        c = f(d['_c'])
        if is_true(c):
            return vmap(d['_a'], f)
        if z3.is_false(c):
            return vmap(d['_b'], f)
        return merge(c, vmap(d['_a'], f), vmap(d['_b'], f))
    if isinstance(x, (Poison, _Unb)):
        return x
    if hasattr(x, '__sym_vmap__'):
        return x.__sym_vmap__(f)
    if isinstance(x, (types.FunctionType, types.MethodType, types.ModuleType,
                      types.BuiltinFunctionType)):
        return x
    if is_heap_obj(x):
        y = _copy.copy(x)
        for k, v in list(vars(x).items()):
            y.__dict__[k] = vmap(v, f)
        if isinstance(x, dict):
            for k, v in list(x.items()):
                dict.__setitem__(y, k, vmap(v, f))
        return y
    return x


HEAP_MODULES = set()


def is_heap_obj(x):
    c = type(x)
    return hasattr(x, '__dict__') and (
        getattr(c, '__sym_heap__', False) or c.__module__ in HEAP_MODULES)


# ---------------------------------------------------------------------------
# sequences

class SList:
    """
    python list of transformed code. segs: tuple of
      ('c', tuple(items))           concrete part
      ('s', n, fn)                  n items, fn(k expr) -> item
      ('f', n, guard, fn)           the items fn(k) for which guard(k), in order
      ('h', key)                    havocked prefix inside the loop rule
    """
    __hash__ = None

    def __init__(self, items=(), segs=None):
        if segs is None:
            items = tuple(items)
            segs = (('c', items),) if items else ()
        self.segs = segs

    @staticmethod
    def sym(n, fn):
        return SList(segs=(('s', ix(n), fn),))

    def is_symbolic(self):
        return any(s[0] != 'c' for s in self.segs)

    def items(self):
        if self.is_symbolic():
            raise Unsupported('symbolic list used as a concrete one')
        out = []
        for s in self.segs:
            out.extend(s[1])
        return out

    def vmap(self, f):
        segs = []
        for s in self.segs:
            if s[0] == 'c':
                segs.append(('c', tuple(vmap(x, f) for x in s[1])))
            elif s[0] == 's':
                segs.append(('s', f(s[1]), lambda k, fn=s[2]: vmap_at(fn, k, f)))
            elif s[0] == 'f':
                g0 = s[2]
                segs.append(('f', f(s[1]),
                             lambda k, g0=g0: vmap_at(lambda q: SBool(g0(q)), k, f,
                                                      raw=True),
                             lambda k, fn=s[3]: vmap_at(fn, k, f)))
            else:
                segs.append(s)
        return SList(segs=tuple(segs))

    def sym_len(self):
        n = 0
        for s in self.segs:
            if s[0] == 'c':
                n = arith('+', n, len(s[1]))
            elif s[0] == 's':
                n = arith('+', n, wrap(s[1]))
            elif s[0] == 'f':
                k = CTX.index('k')
                e = mk_fold1('sum', k, z3.IntVal(0), s[1],
                             If(s[2](k), z3.IntVal(1), z3.IntVal(0)))
                n = arith('+', n, wrap(e))
            else:
                raise NeedPeel('list length')
        return n

    def __sym_len__(self):
        return self.sym_len()

    def __len__(self):
        return len(self.items())

    def __iter__(self):
        return iter(self.items())

    def __bool__(self):
        n = self.sym_len()
        return bool(n != 0)

    def __repr__(self):
        return '<SList %s>' % (self.segs,)

    def append(self, x):
        if self.segs and self.segs[-1][0] == 'c':
            self.segs = self.segs[:-1] + (('c', self.segs[-1][1] + (x,)),)
        else:
            self.segs = self.segs + (('c', (x,)),)

    def extend(self, it):
        it = resolve(it)
        if isinstance(it, SList):
            self.segs = self.segs + it.segs
            self._norm()
            return
        kind, a, b = iterate(it)
        if kind == 'c':
            for x in a:
                self.append(x)
        else:
            self.segs = self.segs + (('s', a, b),)

    def _norm(self):
        out = []
        for s in self.segs:
            if s[0] == 'c' and out and out[-1][0] == 'c':
                out[-1] = ('c', out[-1][1] + s[1])
            else:
                out.append(s)
        self.segs = tuple(out)

    def insert(self, i, x):
        items = self.items()
        items.insert(i, x)
        self.segs = (('c', tuple(items)),)

    def pop(self, i=-1):
        items = self.items()
        r = items.pop(i)
        self.segs = (('c', tuple(items)),) if items else ()
        return r

    def remove(self, x):
        items = self.items()
        items.remove(x)
        self.segs = (('c', tuple(items)),) if items else ()

    def index(self, x):
        return self.items().index(x)

    def sort(self, **k):
        self.segs = (('c', tuple(sorted_(self, **k).items())),)

    def reverse(self):
        self.segs = (('c', tuple(self.items()[::-1])),)

    def copy(self):
        return SList(segs=self.segs)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SList([_copy.deepcopy(x, memo) for x in self.items()])

    def __add__(self, o):
        if not isinstance(o, (SList, list)):
            return NotImplemented
        r = SList(segs=self.segs + (o.segs if isinstance(o, SList)
                                    else SList(o).segs))
        r._norm()
        return r

    def __radd__(self, o):
        return SList(o) + self

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        if isinstance(n, int):
            return SList(self.items() * n)
        if len(self.segs) == 1 and self.segs[0][0] == 'c' and \
                len(self.segs[0][1]) == 1:
            x = self.segs[0][1][0]
            if isinstance(x, (SArr, SList, dict)):
                raise Unsupported('replicated mutable')
            m = If(ix(n) < 0, z3.IntVal(0), ix(n))
            if isinstance(x, (bool, float)):
                return AList(SArr.full((SInt(z3.simplify(m)),), x, 'b' if isinstance(
                    x, bool) else 'f'))
            return SList.sym(m, lambda k: x)
        raise Unsupported('list * symbolic')

    __rmul__ = __mul__

    def __eq__(self, o):
        o = resolve(o)
        if not isinstance(o, (SList, list)):
            return False
        if isinstance(o, list):
            o = SList(o)
        n1, n2 = self.sym_len(), o.sym_len()
        if not self.is_symbolic() and not o.is_symbolic():
            if len(self) != len(o):
                return False
            r = z3.BoolVal(True)
            for a, b in zip(self, o):
                r = And(r, truth_of(eq_(a, b)))
            return mkb(r)
        s1, s2 = self.single(), o.single()
        if s1 is None or s2 is None:
            raise Unsupported('list comparison')
        k = CTX.index('k')
        ne = Not(truth_of(eq_(s1[1](k), s2[1](k))))
        return mkb(And(s1[0] == s2[0],
                       Not(mk_fold1('any', k, z3.IntVal(0), s1[0], ne))))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def single(self):
        """(n, fn) for a list without filtered parts"""
        if len(self.segs) == 1 and self.segs[0][0] == 's':
            return self.segs[0][1], self.segs[0][2]
        if any(s[0] not in 'cs' for s in self.segs):
            return None
        offs = [z3.IntVal(0)]
        for s in self.segs:
            offs.append(nary_add([offs[-1], z3.IntVal(len(s[1])) if s[0] == 'c'
                                  else s[1]]))
        segs = self.segs

        def fn(k):
            r = None
            for s, o in list(zip(segs, offs))[::-1]:
                if s[0] == 's':
                    x = s[2](z3.simplify(k - o))
                    r = x if r is None else merge(k < o + s[1], x, r)
                else:
                    for j in range(len(s[1]) - 1, -1, -1):
                        x = s[1][j]
                        r = x if r is None else merge(k <= o + j, x, r)
            return r
        return offs[-1], fn

    def __getitem__(self, i):
        i = resolve(i)
        if isinstance(i, slice):
            if not self.is_symbolic() and all(
                    x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return SList(self.items()[i])
            sg = self.single()
            if sg is None:
                raise Unsupported('slice of filtered list')
            from .arr import norm_slice
            lo, ln = norm_slice(i, wrap(sg[0]))
            fn = sg[1]
            return SList.sym(ln, lambda k: fn(z3.simplify(lo + k)))
        if not self.is_symbolic() and isinstance(i, (int, _np.integer)):
            return self.items()[i]
        from .arr import norm_index
        if self.segs and self.segs[0][0] == 'c' and isinstance(i, int) and \
                0 <= i < len(self.segs[0][1]):
            return self.segs[0][1][i]
        if isinstance(i, int) and i < 0 and self.segs and self.segs[-1][0] == 'c' \
                and -i <= len(self.segs[-1][1]):
            return self.segs[-1][1][i]
        sg = self.single()
        if sg is None:
            raise Unsupported('index into filtered list')
        if not isinstance(i, (int, _np.integer, SInt)):
            raise TypeError('list indices must be integers')
        e = norm_index(i, wrap(sg[0]))
        return sg[1](e)

    def __setitem__(self, i, v):
        if self.is_symbolic() or isinstance(i, Sym):
            sg = self.single()
            if sg is None:
                raise Unsupported('symbolic list store')
            from .arr import norm_index
            e = norm_index(i, wrap(sg[0]))
            fn = sg[1]
            self.segs = (('s', sg[0], lambda k: merge(k == e, v, fn(k))),)
            return
        items = self.items()
        items[i] = v
        self.segs = (('c', tuple(items)),)

    def __contains__(self, x):
        return bool(contains(self, x))

    def to_array(self, dtype=None):
        sg = self.single()
        if sg is None:
            raise Unsupported('array of filtered list')
        n, fn = sg
        probe = fn(CTX.index('q'))
        if isinstance(probe, GUnion):
            raise Unsupported('array of mixed list')
        if is_scalar(probe):
            from .arr import kind_of
            k = kind_of(probe) if dtype is None else dkind(dtype)
            if isinstance(probe, (float,)) or dtype is not None:
                pass
            return SArr.make((wrap(n),), lambda v: cast(fn(v[0]), k), k)
        if isinstance(probe, SArr):
            return SArr.make((wrap(n),) + probe.shape,
                             lambda v: fn(v[0]).elem(tuple(v[1:])), probe.kind)
        raise Unsupported('array of symbolic list')


def vmap_at(fn, k, f, raw=False):
    q = CTX.index('k')
    v = vmap(fn(q), f)
    r = vmap(v, lambda e: rewrite(e, {q.get_id(): k}))
    if raw:
        return truth_of(r)
    return r


class AList(SList):
    """[x]*n with symbolic n: a list kept in an array, so that stores at symbolic
    places work like those into an array"""
    __hash__ = None

    def __init__(self, a):
        self.a = a

    segs = property(lambda s: (('s', ix(s.a.shape[0]), lambda k: s.a.elem((k,))),),
                    lambda s, v: s._no())

    def _no(self, *a, **k):
        raise Unsupported('replicated list changes its length')

    append = extend = insert = pop = remove = sort = reverse = __iadd__ = _no

    def vmap(self, f):
        return AList(vmap(self.a, f))

    def copy(self):
        return SList.sym(self.a.shape[0], lambda k, e=self.a.snap(): e((k,)))

    __copy__ = copy

    def __setitem__(self, i, v):
        if not isinstance(v, (bool, SBool) if self.a.kind == 'b' else (float, SReal)):
            raise Unsupported('replicated list changes its type')
        self.a[resolve(i)] = v


class SymSeq:
    """input sequence of symbolic length; fn(k expr) -> item; roots: heap"""
    __hash__ = None

    def __init__(self, n, fn, roots=(), name='seq'):
        self.n = ix(n)
        self.fn = fn
        self.roots = list(roots)
        self.name = name

    def __sym_len__(self):
        return wrap(self.n)

    def __getitem__(self, i):
        i = resolve(i)
        if isinstance(i, slice):
            from .arr import norm_slice
            lo, ln = norm_slice(i, wrap(self.n))
            return SymSeq(ln, lambda k: self.fn(z3.simplify(lo + k)), self.roots)
        from .arr import norm_index
        if not isinstance(i, (int, _np.integer, SInt)):
            raise TypeError('list indices must be integers')
        return self.fn(norm_index(i, wrap(self.n)))

    def __bool__(self):
        return bool(wrap(self.n) != 0)


class RangeSym:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def __sym_len__(self):
        d = arith('-', self.hi, self.lo) if self.step == 1 else \
            arith('-', self.lo, self.hi)
        return smax(d, 0)


class ZipSym:
    def __init__(self, its):
        self.its = its


class EnumSym:
    def __init__(self, it, start=0):
        self.it = it
        self.start = start


def iterate(it):
    """('c', iterator, None) or ('s', n expr, fn)"""
    it = resolve(it)
    if hasattr(it, '__sym_iter__'):
        it = resolve(it.__sym_iter__())
    if isinstance(it, SList):
        if not it.is_symbolic():
            return 'c', iter(it.items()), None
        sg = it.single()
        if sg is None:
            if len(it.segs) == 1 and it.segs[0][0] == 'f':
                s = it.segs[0]
                return 'f', s[1], (s[2], s[3])
            raise Unsupported('iteration over filtered list')
        return 's', sg[0], sg[1]
    if isinstance(it, SymSeq):
        if z3.is_int_value(it.n):
            return 'c', iter([it.fn(z3.IntVal(i)) for i in range(it.n.as_long())]), None
        return 's', it.n, it.fn
    if isinstance(it, RangeSym):
        lo = ix(it.lo)
        n = ix(it.__sym_len__())
        if it.step == 1:
            return 's', n, lambda k: mki(nary_add([lo, k]))
        return 's', n, lambda k: mki(lo - k)
    if isinstance(it, EnumSym):
        t, n, fn = iterate(it.it)
        st = it.start
        if t == 'c':
            return 'c', iter([(arith('+', i, st), x) for i, x in _bi.enumerate(n)]), None
        if t == 'f':
            raise Unsupported('enumerate of filtered list')
        return 's', n, lambda k: (arith('+', mki(k), st), fn(k))
    if isinstance(it, ZipSym):
        ps = [iterate(x) for x in it.its]
        if all(p[0] == 'c' for p in ps):
            return 'c', iter(list(_bi.zip(*[p[1] for p in ps]))), None
        lens = []
        fns = []
        for p in ps:
            if p[0] == 'c':
                items = list(p[1])
                sl = SList(items).single()
                lens.append(sl[0] if items else z3.IntVal(0))
                fns.append(sl[1])
            elif p[0] == 's':
                lens.append(p[1])
                fns.append(p[2])
            else:
                raise Unsupported('zip of filtered list')
        n = lens[0]
        for m in lens[1:]:
            if not n.eq(m) and not CTX.entailed(n == m):
                if CTX.decide(m < n):
                    n = m
        if z3.is_int_value(n):
            return 'c', iter([tuple(f(z3.IntVal(i)) for f in fns)
                              for i in range(n.as_long())]), None
        return 's', n, lambda k: tuple(f(k) for f in fns)
    if isinstance(it, (SArr, SRec)):
        if not it.shape:
            raise TypeError('iteration over a 0-d array')
        n = it.shape[0]
        if isinstance(n, int):
            return 'c', iter([it[i] for i in range(n)]), None
        if isinstance(it, SArr) and it.ndim == 1:
            s = it.snap()
            return 's', ix(n), lambda k: unwrap_const(s((k,))) if isinstance(
                s((k,)), Sym) else s((k,))
        return 's', ix(n), lambda k: it[SInt(k)]
    if hasattr(it, '__sym_iter__'):
        return it.__sym_iter__()
    if isinstance(it, (SSel, WhereTok)):
        raise Unsupported('iteration over a selection')
    if not hasattr(type(it), '__iter__'):
        raise Unsupported('iteration over %s' % type(it).__name__)
    return 'c', iter(it), None


def native_iter(it):
    t, a, b = iterate(it)
    if t != 'c':
        raise Unsupported('generator over symbolic sequence')
    return a


# ---------------------------------------------------------------------------
# operators introduced by the transform

def truth_of(x):
    """z3 truth of any value (no forking for scalars)"""
    x = resolve(x) if isinstance(x, GUnion) else x
    if is_scalar(x):
        return truth(x)
    if isinstance(x, SArr) and x.ndim == 0:
        return truth(x.elem(()))
    return z3.BoolVal(bool(x))


def is_(a, b):
    if isinstance(a, Poison):
        a._hit()
    if isinstance(b, Poison):
        b._hit()
    if b is None:
        e = z3.simplify(union_is_none(a))
        return mkb(e)
    if a is None:
        return is_(b, None)
    if isinstance(a, GUnion) or isinstance(b, GUnion):
        return is_(resolve(a), resolve(b))
    if isinstance(b, bool) or isinstance(a, bool):
        if isinstance(a, SBool) or isinstance(b, SBool):
            return compare('==', a, b)
    if hasattr(a, '__sym_is__'):
        return a.__sym_is__(b)
    if hasattr(b, '__sym_is__'):
        return b.__sym_is__(a)
    return a is b


def isnot_(a, b):
    return not_(is_(a, b))


def not_(x):
    x = resolve(x) if isinstance(x, GUnion) else x
    if isinstance(x, Sym):
        return mkb(Not(truth(x)))
    return not x


def eq_(a, b):
    a, b = resolve(a), resolve(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return mkb(And(*[truth_of(eq_(x, y)) for x, y in zip(a, b)]))
    if isinstance(a, list):
        a = SList(a)
    return a == b


def ne_(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return not_(eq_(a, b))
    a, b = resolve(a), resolve(b)
    return a != b


def contains(c, x):
    c, x = resolve(c), resolve(x)
    if hasattr(c, '__sym_contains__'):
        return c.__sym_contains__(x)
    if isinstance(c, (SList, list, tuple)):
        t, a, b = iterate(c)
        if t == 'c':
            r = z3.BoolVal(False)
            for y in a:
                if y is x:
                    return True
                r = Or(r, truth_of(eq_(y, x)))
            return mkb(r)
        if t == 'f':
            k = CTX.index('k')
            return mkb(mk_fold1('any', k, z3.IntVal(0), a,
                                And(b[0](k), truth_of(eq_(b[1](k), x)))))
        k = CTX.index('k')
        return mkb(mk_fold1('any', k, z3.IntVal(0), a, truth_of(eq_(b(k), x))))
    if isinstance(c, SymSeq):
        k = CTX.index('k')
        return mkb(mk_fold1('any', k, z3.IntVal(0), c.n, truth_of(eq_(c.fn(k), x))))
    if isinstance(c, RangeSym):
        return mkb(And(ix(c.lo) <= ix(x), ix(x) < ix(c.hi)))
    if isinstance(x, Sym) and isinstance(c, (set, frozenset, dict, range)):
        return mkb(Or(*[truth_of(eq_(y, x)) for y in c]))
    return x in c


def in_(x, c):
    return contains(c, x)


def notin_(x, c):
    return not_(contains(c, x))


def mklist(items):
    return SList(items)


def is_ret(x):
    return isinstance(x, Ret)


class FlatSeq:
    """the elements of the elements of a symbolic list, in order"""
    __hash__ = None

    def __init__(self, outer):
        self.outer = outer

    def map(self, elt, conds=()):
        return FlatSeq(comp('list', self.outer,
                            lambda x: comp('list', x, elt, list(conds)), []))

    def each(self, f):
        return comp('list', self.outer, f, [])

    def vmap(self, f):
        return FlatSeq(vmap(self.outer, f))

    def __sym_len__(self):
        return sum_(self.each(len_))

    def __iter__(self):
        raise Unsupported('symbolic list used as a concrete one')

    def __getitem__(self, i):
        raise Unsupported('symbolic list used as a concrete one')

    def __bool__(self):
        return bool(arith_gt(self.__sym_len__(), 0))


def arith_gt(a, b):
    return compare('>', a, b)


def flat(kind, lst):
    lst = resolve(lst)
    if kind in ('list', 'gen') and isinstance(lst, SList) and lst.is_symbolic():
        return FlatSeq(lst)
    out = SList()
    for x in lst.items() if isinstance(lst, SList) else lst:
        if kind == 'set':
            out.extend(SList(list(x)))
        elif kind == 'dict':
            out.extend(SList(list(x.items())))
        else:
            out.extend(x)
    if kind == 'set':
        return set(out.items())
    if kind == 'dict':
        return SDict(out.items())
    return out


def getitem_(o, i):
    o = resolve(o)
    i = resolve(i)
    if isinstance(i, Sym):
        if isinstance(o, (list, tuple)):
            return SList(o)[i]
        if isinstance(o, _np.ndarray):
            from .arr import from_np
            return from_np(o)[i]
        if isinstance(o, dict) and not hasattr(type(o), '__sym_getitem__'):
            for k, v in o.items():
                if CTX.decide(truth_of(eq_(k, i))):
                    return v
            raise KeyError(str(i))
    return o[i]


def fv(v, conv, spec):
    if has_sym(v) or isinstance(v, Poison):
        return v
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


def strmod(a, b):
    if isinstance(a, str):
        if has_sym(b):
            return SymStr(a, b)
        return a % b
    return a % b


class SymStr(str):
    """string formatted from symbolic values: opaque, identified by its parts"""
    def __new__(cls, fmt, args):
        s = str.__new__(cls, fmt)
        s.args = args if isinstance(args, tuple) else (args,)
        return s


def fstr(parts):
    if any(has_sym(p) for p in parts):
        return SymStr('|'.join(p if isinstance(p, str) else '?' for p in parts),
                      tuple(p for p in parts if not isinstance(p, str)))
    return ''.join(str(p) for p in parts)


def has_sym(x):
    if isinstance(x, (Sym, SArr, SRec, SSel, GUnion, SymStr, SymSeq)):
        return True
    if isinstance(x, (tuple, list, SList)):
        if isinstance(x, SList) and x.is_symbolic():
            return True
        return any(has_sym(i) for i in x)
    return False


def ld(x, name):
    if x is UNB:
        raise UnboundLocalError(
            "cannot access local variable '%s' where it is not associated with a "
            "value" % name)
    if isinstance(x, Poison):
        x._hit()
    return x


# ---------------------------------------------------------------------------
# loop rule

class Ret:
    def __init__(self, value):
        self.value = value


class _Sig:
    def __init__(self, n):
        self.n = n


BRK = _Sig('break')
CNT = _Sig('continue')


def collect_heap(roots):
    """mutable containers reachable from roots"""
    seen = {}
    keep = []
    stack = list(roots)
    while stack:
        x = stack.pop()
        if x is None or isinstance(x, (str, bytes, type, types.ModuleType, Sym)) or \
                isinstance(x, NUMS):
            continue
        i = id(x)
        if i in seen:
            continue
        if isinstance(x, SArr):
            seen[i] = None
            keep.append(x)
            stack.append(x.buf)
        elif isinstance(x, Buf):
            seen[i] = x
        elif isinstance(x, SRec):
            seen[i] = None
            stack.extend(x.fields.values())
        elif isinstance(x, SSel):
            seen[i] = None
        elif isinstance(x, AList):
            seen[i] = None
            stack.append(x.a)
        elif isinstance(x, SList):
            seen[i] = x
            for s in x.segs:
                if s[0] == 'c':
                    stack.extend(s[1])
                elif s[0] in 'sf':
                    # what an arbitrary element reaches
                    q = CTX.index('k')
                    with Scope(z3.IntVal(0) <= q, q < s[1]):
                        e = resolve(s[-1](q))
                    keep.append(e)
                    stack.append(e)
        elif isinstance(x, FlatSeq):
            seen[i] = None
            stack.append(x.outer)
        elif isinstance(x, SymSeq):
            seen[i] = None
            stack.extend(x.roots)
        elif isinstance(x, (ZipSym,)):
            stack.extend(x.its)
        elif isinstance(x, (EnumSym,)):
            stack.append(x.it)
        elif isinstance(x, GUnion):
            seen[i] = None
            stack.append(x.__dict__['_a'])
            stack.append(x.__dict__['_b'])
        elif isinstance(x, (tuple, list, set)):
            seen[i] = None
            stack.extend(x)
        elif isinstance(x, dict):
            seen[i] = x
            stack.extend(dict.values(x))
            if is_heap_obj(x):
                seen[id(x.__dict__)] = x.__dict__
                stack.extend(x.__dict__.values())
                keep.append(x.__dict__)
        elif isinstance(x, types.FunctionType):
            seen[i] = None
            for c in (x.__closure__ or ()):
                try:
                    stack.append(c.cell_contents)
                except ValueError:
                    pass
        elif isinstance(x, types.MethodType):
            seen[i] = None
            stack.append(x.__self__)
        elif isinstance(x, Poison):
            pass
        elif is_heap_obj(x):
            seen[i] = None
            d = x.__dict__
            seen[id(d)] = d
            keep.append(d)
            stack.extend(d.values())
        keep.append(x)
    return [v for v in seen.values() if v is not None], keep


def snap_of(c):
    if isinstance(c, Buf):
        return c.ver
    if isinstance(c, SList):
        return c.segs
    return dict(c)


def restore(c, s):
    if isinstance(c, Buf):
        c.ver = s
    elif isinstance(c, SList):
        c.segs = s
    else:
        dict.clear(c)
        dict.update(c, s)


class Scope:
    """assume conditions for the duration of a with block"""
    def __init__(self, *conds):
        self.conds = conds

    def __enter__(self):
        f = Frame([])
        f.scope = True
        CTX.frames.append(f)
        CTX.solver.push()
        self.lv = list(CTX.loopvars)
        for c in self.conds:
            f.pc.append(c)
            CTX.solver.add(c)

    def __exit__(self, *a):
        CTX.solver.pop()
        CTX.frames.pop()
        CTX.loopvars = self.lv


def loop(it, body, get, set_, where):
    it = resolve(it)
    if isinstance(it, FlatSeq):
        def outer_body(x):
            return loop(x, body, get, set_, where)
        return loop(it.outer, outer_body, get, set_, where)
    held = [it]
    while hasattr(it, '__sym_iter__'):
        it = resolve(it.__sym_iter__())
        held.append(it)
    t, n, fn = iterate(it)
    if t == 'c':
        for item in n:
            r = body(item)
            if r is None or r is CNT:
                continue
            return r
        return None
    if t == 'f':
        guard, efn = fn

        def body2(item):
            g, x = item
            if not g:
                return CNT
            return body(efn_at(efn, x))
        # iterate over the unfiltered index space
        return sym_loop(z3.IntVal(0), n,
                        lambda k: (mkb(guard(k)), k), body2, get, set_, where,
                        roots=held + [body])
    return sym_loop(z3.IntVal(0), n, fn, body, get, set_, where, roots=held + [body])


def efn_at(efn, k):
    return efn(k)


def while_guard(where, count):
    if count > 64:
        raise Unsupported('while loop not bounded at %s' % (where,))


def sym_loop(lo, n, elem, body, get, set_, where, roots):
    peeled = False
    bits = set()
    heap, keep = collect_heap(list(roots) + list(get().values()) +
                              [c.cell_contents for c in (body.__closure__ or ())
                               if _has(c)])
    while True:
        h0 = [(c, snap_of(c)) for c in heap]
        st0 = get()
        try:
            return sym_loop1(lo, n, elem, body, get, set_, where, heap, bits)
        except NeedPeel as e:
            for c, s in h0:
                restore(c, s)
            set_(st0)
            if peeled:
                raise Unsupported('loop at %s carries %s' % (where, e.name))
            peeled = True
            if not CTX.decide(lo < n):
                return None
            r = body(elem(lo))
            if r is not None and r is not CNT:
                return r
            lo = z3.simplify(lo + 1)
            heap, keep = collect_heap(
                list(roots) + list(get().values()) +
                [c.cell_contents for c in (body.__closure__ or ()) if _has(c)])
        except NeedBits as e:
            for c, s in h0:
                restore(c, s)
            set_(st0)
            if e.what in bits:
                raise Unsupported('bits inference at %s' % (where,))
            nm = e.what.split('!')[0]
            if nm in bits:
                raise
            bits.add(nm)


def _has(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


class Loc:
    """a mutable location changed by the loop body"""
    def __init__(self, kind, key, pre):
        self.kind = kind        # 'name' 'item' 'buf' 'list'
        self.key = key
        self.pre = pre          # value before the loop
        self.samples = []
        self.h = None           # havocked value
        self.sym = None         # state constant or UF name
        self.mode = None


def sname(base):
    return ''.join(ch if ch.isalnum() else '_' for ch in str(base))


def sym_loop1(lo, n, elem, body, get, set_, where, heap, bits):
    h0 = [(c, snap_of(c)) for c in heap]
    st0 = get()
    hid = {id(c): (c, s) for c, s in h0}
    locs = {}
    k = CTX.index('k')
    rng = And(lo <= k, k < n)

    def mk_havoc(loc):
        v0 = loc.pre
        nm = '%s' % sname(loc.key if loc.kind == 'name' else
                          (loc.key[1] if loc.kind == 'item' else loc.kind))
        if loc.kind == 'buf':
            b = loc.key
            kind = b.kind
            if kind not in 'fib':
                raise Unsupported('loop modifies a %s array' % kind)
            base = 'hb%d_%s' % (id(loc) % 1, sname(b.name))
            base = 'hb_' + sname(b.name)
            sort = {'f': R, 'i': I, 'b': B}[kind]
            if base in bits:
                sort = BVS
            f = z3.Function(CTX.fresh_name(base), *([I] * b.ndim + [sort]))
            loc.sym = f.name()
            loc.f = f
            loc.sort = sort
            loc.h = Ver(lambda i: wrap(f(*i)))
            loc.fk = None
            if sort == R and 'hk_' + sname(b.name) in bits:
                # values of this buffer may be non-finite: the kind is state as well
                fk = z3.Function(CTX.fresh_name('hk_' + sname(b.name)),
                                 *([I] * b.ndim + [I]))
                loc.fk = fk
                loc.h = Ver(lambda i: SReal(f(*i), fk(*i)))
            loc.mode = 'buf'
            return
        if loc.kind == 'list':
            loc.mode = 'list'
            loc.h = (('h', id(loc)),)
            return
        vals = [v0] + loc.samples
        if is_scalar(v0):
            sc = [v for v in vals if is_scalar(v)]
            if len(sc) == len(vals):
                t = 'b'
                base = 's_' + nm
                for v in sc:
                    l = lift(v)
                    q = {'SBool': 'b', 'SInt': 'i', 'SReal': 'f', 'SBits': 'x'}[
                        type(l).__name__]
                    if q == 'x' or t == 'x':
                        t = 'x'
                    else:
                        t = 'bif'[max('bif'.index(t), 'bif'.index(q))]
                if base in bits:
                    t = 'x'
                sort = {'b': B, 'i': I, 'f': R, 'x': BVS}[t]
                c = CTX.state(base, sort)
                loc.sym = c
                loc.sort = sort
                loc.h = wrap(c)
                loc.mode = 'scalar'
                return
        if isinstance(v0, SArr) and all(
                isinstance(v, SArr) and v.ndim == v0.ndim for v in vals) and \
                v0.kind in 'fib' and any(v is not v0 for v in vals):
            base = 'ha_' + nm
            kinds = 'bif'[max('bif'.index(v.kind) for v in vals)]
            sort = {'f': R, 'i': I, 'b': B}[kinds]
            if base in bits:
                sort = BVS
            f = z3.Function(CTX.fresh_name(base), *([I] * v0.ndim + [sort]))
            loc.sym = f.name()
            loc.f = f
            loc.sort = sort
            loc.akind = kinds
            loc.h = SArr.make(v0.shape, lambda i: wrap(f(*i)), kinds, base)
            loc.mode = 'array'
            return
        loc.mode = 'poison'
        loc.h = Poison(nm)

    def put(loc, val):
        if loc.kind == 'name':
            pass
        elif loc.kind == 'item':
            d, key = loc.key
            if val is UNB:
                dict.pop(d, key, None)
            else:
                dict.__setitem__(d, key, val)
        elif loc.kind == 'buf':
            loc.key.ver = val
        else:
            loc.key.segs = val

    def baseline():
        for c, s in h0:
            restore(c, s)
        st = dict(st0)
        for loc in locs.values():
            if loc.kind == 'name':
                st[loc.key] = loc.h
            elif loc.kind == 'item' and loc.h is not None:
                put(loc, loc.h)
            else:
                put(loc, loc.h)
        set_(st)
        return st, [(c, snap_of(c)) for c in heap]

    def diff(st, base):
        out = {}
        cur = get()
        for nme, v in cur.items():
            if v is not st.get(nme, UNB):
                out[('name', nme)] = v
        for c, s in base:
            if isinstance(c, Buf):
                if c.ver is not s:
                    out[('buf', id(c))] = (c, c.ver)
            elif isinstance(c, SList):
                if c.segs is not s:
                    out[('list', id(c))] = (c, c.segs)
            else:
                for q, v in dict.items(c):
                    if q not in s or s[q] is not v:
                        out[('item', id(c), q)] = (c, v)
                for q in s:
                    if q not in c:
                        out[('item', id(c), q)] = (c, UNB)
        return out

    results = None
    for rnd in range(6):
        def run():
            st, base = baseline()
            CTX.loopvars = CTX.loopvars + [k]
            item = elem(k)
            r = body(item)
            return r, diff(st, base)

        with Scope(rng):
            results = CTX.explore(run)
        new = False
        for pc, kind, v in results:
            if kind != 'ok' or not (v[0] is None or v[0] is CNT):
                continue        # only iterations that go on carry state
            for key, val in v[1].items():
                if key not in locs:
                    new = True
                    if key[0] == 'name':
                        locs[key] = Loc('name', key[1], st0.get(key[1], UNB))
                    elif key[0] == 'buf':
                        locs[key] = Loc('buf', val[0], hid[key[1]][1])
                    elif key[0] == 'list':
                        locs[key] = Loc('list', val[0], hid[key[1]][1])
                    else:
                        locs[key] = Loc('item', (val[0], key[2]),
                                        hid[key[1]][1].get(key[2], UNB))
                if key[0] in ('name', 'item'):
                    x = val if key[0] == 'name' else val[1]
                    locs[key].samples.append(x)
        if new:
            for loc in locs.values():
                mk_havoc(loc)
            continue
        # sorts may have widened
        redo = False
        for loc in locs.values():
            if loc.mode == 'scalar':
                old = loc.sort
                mk = loc.h
                q = [lift(v) for v in loc.samples if is_scalar(v)]
                if len(q) != len(loc.samples):
                    mk_havoc(loc)
                    redo = True
                    continue
                rank = {B: 0, I: 1, R: 2}
                for l in q:
                    s = l.e.sort()
                    if s == old:
                        continue
                    if s == BVS or old == BVS:
                        if old != BVS:
                            redo = True
                    elif rank[s] > rank[old]:
                        redo = True
                if redo:
                    mk_havoc(loc)
        if not redo:
            break
    else:
        raise Unsupported('loop state does not stabilise at %s' % (where,))

    for c, s in h0:
        restore(c, s)
    set_(st0)

    ok = [(And(*pc), v[1]) for pc, kind, v in results
          if kind == 'ok' and (v[0] is None or v[0] is CNT)]
    exits = [And(*pc) for pc, kind, v in results
             if kind != 'ok' or not (v[0] is None or v[0] is CNT)]

    # merged update per location
    upd = {}
    for key, loc in locs.items():
        if loc.mode == 'poison':
            continue
        vals = []
        for c, d in ok:
            if key in d:
                v = d[key] if key[0] == 'name' else d[key][1]
            else:
                v = loc.h
            vals.append((c, v))
        if not vals:
            continue
        upd[key] = vals

    closer = Closer(lo, n, k, where)
    if exits:
        closer.cont = Or(*[c for c, _ in ok])
    for key, vals in upd.items():
        loc = locs[key]
        if loc.mode == 'scalar':
            r = vals[-1][1]
            for c, v in vals[-2::-1]:
                r = site(mkb(c), v, r)
            l = lift(r)
            if loc.sort == BVS:
                l = SBits(bits_of(l))
            elif loc.sort == R:
                l = to_real(l)
            elif loc.sort == I:
                l = SInt(to_int_e(l))
            closer.add_scalar(key, loc, l)
        elif loc.mode in ('buf', 'array'):
            closer.add_buf(key, loc, vals)
        elif loc.mode == 'list':
            closer.add_list(key, loc, vals)
    closer.solve()
    for key, loc in locs.items():
        # immutable values given by the iteration index alone
        if loc.mode == 'poison' and loc.kind == 'name':
            vs = [d[key] for c, d in ok if key in d]
            if vs and len(vs) == len(ok) and all(
                    getattr(type(v), '__sym_last__', False) and v.ix.eq(vs[0].ix)
                    for v in vs):
                def last(at, v=vs[0], key=loc.key):
                    if CTX.decide(at > lo):
                        return vmap(v, lambda e: rewrite(
                            e, {k.get_id(): z3.simplify(at - 1)}))
                    return st0[key]
                if not closer.deps(vs[0].ix):
                    closer.note(sname(loc.key), 'last value')
                    closer.closed[key] = last

    if exits:
        ecl = [closer.close_expr(e) for e in exits]
        E = Or(*ecl)
        if CTX.loopvars:
            pass
        kk = CTX.index('k')
        Ek = rewrite(E, {k.get_id(): kk})
        anyE = mk_fold1('any', kk, lo, n, Ek)
        if CTX.decide(anyE):
            k0 = CTX.fresh('k0', I) if CTX.loopvars else CTX.index('k0')
            CTX.exits.append(k0)
            E0 = rewrite(E, {k.get_id(): k0})
            CTX.assume(And(lo <= k0, k0 < n))
            CTX.assume(E0)
            CTX.assume(Not(mk_fold1('any', kk, lo, k0, Ek)))
            install(closer, locs, st0, get, set_, k0, n, lo, put)
            r = body(elem(k0))
            if r is None or r is CNT:
                raise Prune()
            return r
    install(closer, locs, st0, get, set_, None, n, lo, put)
    return None


def install(closer, locs, st0, get, set_, k0, n, lo, put):
    """set the state at the start of iteration k0 (or after the loop)"""
    at = k0 if k0 is not None else n
    st = dict(st0)
    for key, loc in locs.items():
        if key not in closer.closed:
            v = Poison(sname(loc.key if loc.kind == 'name' else loc.kind), peel=False)
            if k0 is None and loc.kind == 'name' and loc.mode == 'poison':
                v = Poison(sname(loc.key), peel=False)
        else:
            v = closer.closed[key](at)
        if loc.kind == 'name':
            st[loc.key] = v
        else:
            put(loc, v)
    set_(st)


class Closer:
    """closed forms of the loop-carried locations"""

    def __init__(self, lo, n, k, where):
        self.lo, self.n, self.k, self.where = lo, n, k, where
        self.cont = None      # condition under which an iteration goes on
        self.items = {}
        self.closed = {}      # key -> fn(at expr) -> value
        self.cm = {}          # state const id -> expr closed at k
        self.um = {}          # uf name -> fn(args) -> expr closed at k
        self.syms = {}        # state const id / uf name -> key

    def note(self, name, kind):
        CTX.obls.append(Obligation('loop invariant %s: %s [%s]'
                                   % (self.where, name, kind),
                                   'discharged', 'z3', 0.0))
        CTX.inferred.append((self.where, name, kind))

    def add_scalar(self, key, loc, l):
        self.items[key] = ('scalar', loc, l)
        self.syms[loc.sym.get_id()] = key

    def add_buf(self, key, loc, vals):
        nd = loc.key.ndim if loc.kind == 'buf' else loc.pre.ndim
        ps = tuple(CTX.index('p') for _ in range(nd))
        r = None
        for c, v in vals[::-1]:
            rd = v if isinstance(v, Ver) else v.snap()
            x = rd(ps)
            r = x if r is None else site(mkb(c), x, r)
        l = lift(r)
        if loc.sort == BVS:
            l = SBits(bits_of(l))
        elif loc.sort == R:
            l = to_real(l)
        elif loc.sort == B:
            l = SBool(truth(l))
        elif loc.sort == I and isinstance(l, SBits):
            raise NeedBits('hb_' + sname(loc.key.name) if loc.kind == 'buf' else
                           'ha_' + sname(loc.key if loc.kind == 'name'
                                         else loc.key[1]))
        self.items[key] = ('buf', loc, l, ps)
        self.syms[loc.sym] = key
        if getattr(loc, 'fk', None) is not None:
            self.syms[loc.fk.name()] = key

    def add_list(self, key, loc, vals):
        self.items[key] = ('list', loc, vals)

    # -- dependencies
    def deps(self, e):
        cs, ds = free_syms(e)
        out = set()
        for c in cs:
            if c in self.syms:
                out.add(self.syms[c])
        for d in ds:
            if d in self.syms:
                out.add(self.syms[d])
        return out

    def close_expr(self, e):
        d = self.deps(e)
        for key in d:
            if key not in self.closed:
                raise Unsupported('loop state %s not summarised at %s'
                                  % (key[-1], self.where))
        return rewrite(e, self.cm, self.um)

    def close_val(self, v):
        return vmap(v, self.close_expr)

    def at(self, e, at):
        return rewrite(e, {self.k.get_id(): at})

    def solve(self):
        pend = dict(self.items)
        for _ in range(len(pend) + 2):
            prog = False
            for key in list(pend):
                it = pend[key]
                if it[0] == 'list':
                    continue
                l = it[2]
                d = self.deps(l.e)
                if isinstance(l, SReal) and l.k is not None:
                    d |= self.deps(l.k)
                if d - {key} - set(self.closed):
                    continue
                f = self.template_scalar if it[0] == 'scalar' else self.template_buf
                if f(key, it):
                    del pend[key]
                    prog = True
            if not prog:
                break
        for key in list(pend):
            if pend[key][0] == 'list':
                self.template_list(key, pend[key])
                del pend[key]
        if pend:
            # left open: poison, reported only when used
            for key in pend:
                CTX.inferred.append((self.where, str(key[-1]), 'NOT SUMMARISED'))

    def sub(self, e):
        return rewrite(e, self.cm, self.um)

    def template_scalar(self, key, it):
        _, loc, l = it
        e = self.sub(l.e)
        kk = None if not isinstance(l, SReal) or l.k is None else self.sub(l.k)
        s = loc.sym
        v0 = loc.pre
        r = self.update(e, s, kk, lambda: self.pre_expr(v0, loc.sort),
                        str(key[-1]))
        if r is None:
            return False
        kind, fn, fnk = r

        def closed(at):
            x = fn(at)
            if loc.sort == R:
                kx = None
                v0l = to_real(v0)
                if fnk is not None:
                    kx = fnk(at)
                elif v0l.k is not None:
                    kx = v0l.k
                return unwrap_const(SReal(x, kx))
            return unwrap_const(wrap(x))
        self.closed[key] = closed
        self.cm[s.get_id()] = fn(self.k)
        self.note(key[-1], kind)
        return True

    def pre_expr(self, v0, sort):
        if sort == BVS:
            return bits_of(lift(v0))
        if sort == R:
            return to_real(v0).e
        if sort == I:
            return to_int_e(v0)
        return truth(v0)

    def update(self, e, s, kk, pre, name):
        """
        closed form of s' = e(s, k); returns (kind, fn(at) -> expr, fnk) or None
        """
        lo, k = self.lo, self.k
        sort = s.sort()
        rng = And(lo <= k, k < self.n)
        e = z3.simplify(e) if not has_fold_heavy(e) else e
        dep = s.get_id() in free_syms(e)[0]

        def V(x):
            return valid(Implies_(rng, x))
        if e.eq(s) or (dep and V(e == s)):
            return 'unchanged', (lambda at: pre()), None
        hyp = rng
        if self.cont is not None and not self.deps(self.cont) - set(self.closed):
            hyp = And(rng, self.sub(self.cont))
        if kk is not None and not valid(Implies_(rng, kk == FIN)):
            if not CTX_entails(hyp, kk == FIN) and not fold_entails(hyp, kk == FIN):
                if dep or s.get_id() in free_syms(kk)[0]:
                    return None
            else:
                kk = None
        else:
            kk = None
        if not dep:
            def fn(at):
                p = pre()
                c = z3.simplify(at > lo)
                if at.eq(self.n) and CTX.frames and CTX.entailed(self.n > lo):
                    c = z3.BoolVal(True)
                return If(c, rewrite(e, {k.get_id(): z3.simplify(at - 1)}), p)
            fnk = None
            if kk is not None:
                def fnk(at):
                    return If(z3.simplify(at > lo),
                              rewrite(kk, {k.get_id(): z3.simplify(at - 1)}),
                              z3.IntVal(FIN))
            return 'last value', fn, fnk
        if kk is not None:
            return None

        def sub(v):
            return z3.simplify(rewrite(e, {s.get_id(): v})) \
                if not has_fold_heavy(e) else rewrite(e, {s.get_id(): v})

        def folded(op, g):
            def fn(at):
                j = CTX.index('k')
                return combine(op, pre(), mk_fold1(
                    op, j, lo, at, rewrite(g, {k.get_id(): j})))
            return fn
        cands = []
        if sort in (R, I):
            cands = [('sum', mknum(0, sort), lambda g: s + g),
                     ('prod', mknum(1, sort), lambda g: s * g)]
        elif sort == B:
            cands = [('any', z3.BoolVal(False), lambda g: z3.Or(s, g))]
        elif sort == BVS:
            cands = [('bor', bvval(0), lambda g: s | g),
                     ('band', bvval(-1), lambda g: s & g)]
        for op, unit, rebuild in cands:
            g = factor(op, e, s)
            if g is not None:
                return op, folded(op, g), None
            g = rewrite(e, {s.get_id(): unit})
            if V(e == rebuild(g)):
                return op, folded(op, g), None
        if sort == B:
            g = rewrite(e, {s.get_id(): z3.BoolVal(True)})
            if V(e == z3.And(s, g)):
                def fn(at):
                    j = CTX.index('k')
                    return And(pre(), Not(mk_fold1(
                        'any', j, lo, at, Not(rewrite(g, {k.get_id(): j})))))
                return 'all', fn, None
        # max / min
        if sort in (R, I):
            for op, cmp in (('max', lambda a, b: a >= b), ('min', lambda a, b: a <= b)):
                g = extreme_arg(e, s)
                if g is not None and V(e == z3.If(cmp(s, g), s, g)):
                    def fn(at, op=op, cmp=cmp, g=g):
                        j = CTX.index('k')
                        p = pre()
                        m = raw_fold(op, [(j, lo, at)],
                                     [rewrite(g, {k.get_id(): j})], sort)
                        return If(z3.simplify(at > lo), If(cmp(p, m), p, m), p)
                    return op, fn, None
        # conditional constant: s' = ite(c, v, s)
        r = cond_const(e, s, k)
        if r is not None:
            c, v = r
            if V(e == z3.If(c, v, s)):
                def fn(at):
                    j = CTX.index('k')
                    return If(mk_fold1('any', j, lo, at,
                                       rewrite(c, {k.get_id(): j})), v, pre())
                return 'latch', fn, None
        # single support: s' == s except at one iteration
        cs = eq_candidates(e, k)
        for c in cs:
            if V(z3.Implies(k != c, e == s)):
                def fn(at, c=c):
                    inr = And(lo <= c, c < at)
                    p = pre()
                    v = rewrite(e, {k.get_id(): c, s.get_id(): p})
                    return If(z3.simplify(inr), v, p)
                return 'single write', fn, None
        # last conditional write: s' = ite(c(k), v(k), s) -> uninterpreted selection
        return None

    def need_kinds(self, loc):
        if loc.kind == 'buf' and loc.sort == R:
            raise NeedBits('hk_' + sname(loc.key.name))

    def framed(self, key, loc, e, ps, kk=None):
        """
        iteration k reads and writes the buffer only at points with p_j == k: the
        iterations do not see each other
        """
        prever = loc.pre if isinstance(loc.pre, Ver) else loc.pre.snap()
        k, lo = self.k, self.lo
        reads = uf_apps(e, loc.sym)
        fk = getattr(loc, 'fk', None)
        if fk is not None:
            kk = z3.IntVal(FIN) if kk is None else kk
            reads += uf_apps(kk, loc.sym) + uf_apps(e, fk.name()) + \
                uf_apps(kk, fk.name())
        rng = And(lo <= k, k < self.n)
        for j, p in enumerate(ps):
            if not all(a[j].eq(k) or a[j].eq(p) for a in reads):
                continue
            if not valid(Implies_(And(rng, p != k), e == loc.f(*ps))):
                continue

            if fk is not None:
                if not valid(Implies_(And(rng, p != k), kk == fk(*ps))):
                    continue
                return self.framed_kinds(key, loc, e, kk, ps, j, prever)

            def prefn(args):
                v = lift(prever(tuple(args)))
                if isinstance(v, SReal) and v.k is not None:
                    raise Unsupported('non-finite values in a framed loop')
                return self.pre_expr(v, loc.sort)
            pre = prefn(ps)
            body = rewrite(e, {k.get_id(): p}, {loc.sym: prefn})
            # reads at p_j were written as k or p_j: both are p_j now
            cache = {}

            def expr_at(at):
                i = at.get_id()
                if i not in cache:
                    cache[i] = (If(z3.simplify(And(lo <= p, p < at)), body, pre), at)
                return cache[i][0]

            def elemfn(at):
                def f(idx):
                    cm = {q.get_id(): i for q, i in zip(ps, idx)}
                    return unwrap_const(wrap(rewrite(expr_at(at), cm)))
                return f
            self.finish_buf(key, loc, elemfn)
            self.note(loc.key.name if loc.kind == 'buf' else key[-1],
                      'disjoint writes')
            return True
        return False

    def framed_kinds(self, key, loc, e, kk, ps, j, prever):
        k, lo, p = self.k, self.lo, ps[j]

        def pe(args):
            return to_real(lift(prever(tuple(args)))).e

        def pk(args):
            v = to_real(lift(prever(tuple(args))))
            return z3.IntVal(FIN) if v.k is None else v.k
        um = {loc.sym: pe, loc.fk.name(): pk}
        cm = {k.get_id(): p}
        be, bk = rewrite(e, cm, um), rewrite(kk, cm, um)
        cache = {}

        def expr_at(at):
            i = at.get_id()
            if i not in cache:
                c = z3.simplify(And(lo <= p, p < at))
                cache[i] = (If(c, be, pe(ps)), If(c, bk, pk(ps)), at)
            return cache[i]

        def elemfn(at):
            def f(idx):
                m = {q.get_id(): i for q, i in zip(ps, idx)}
                v, w, _ = expr_at(at)
                return SReal(rewrite(v, m), rewrite(w, m))
            return f
        self.finish_buf(key, loc, elemfn)
        kf = elemfn(self.k)
        self.um[loc.sym] = lambda args: kf(tuple(args)).e
        self.um[loc.fk.name()] = lambda args: kf(tuple(args)).k
        self.note(loc.key.name, 'disjoint writes')
        return True

    def template_buf(self, key, it):
        _, loc, l, ps = it
        e = self.sub(l.e)
        kk = None if not isinstance(l, SReal) or l.k is None else self.sub(l.k)
        x = CTX.state('x', loc.sort)
        e2 = localise(e, loc.sym, ps, x)
        if getattr(loc, 'fk', None) is not None:
            return self.framed(key, loc, e, ps, kk)
        if e2 is None:
            if kk is None:
                return self.framed(key, loc, e, ps)
            self.need_kinds(loc)
            return False
        if kk is not None:
            kk = localise(kk, loc.sym, ps, x)
            if kk is None:
                self.need_kinds(loc)
                return False
        prever = loc.pre if isinstance(loc.pre, Ver) else None
        if loc.mode == 'array':
            prever = loc.pre.snap()
        prek = []

        def pre():
            v = lift(prever(ps))
            if loc.sort == R:
                v = to_real(v)
                if v.k is not None:
                    prek.append(v.k)
            return self.pre_expr(v, loc.sort)
        pre()
        r = self.update(e2, x, kk, pre, str(key[-1]))
        if r is None:
            if kk is not None:
                self.need_kinds(loc)
            return False
        kind, fn, fnk = r
        cache = {}
        pk = prek[0] if prek else None

        def expr_at(at):
            i = at.get_id()
            if i not in cache:
                v = fn(at)
                kx = fnk(at) if fnk is not None else pk
                cache[i] = (v, kx, at)
            return cache[i]

        def elemfn(at):
            def f(idx):
                v, kx, _ = expr_at(at)
                cm = {p.get_id(): i for p, i in zip(ps, idx)}
                v2 = rewrite(v, cm)
                if loc.sort == R and kx is not None:
                    return SReal(v2, rewrite(kx, cm))
                return unwrap_const(wrap(v2))
            return f

        self.finish_buf(key, loc, elemfn)
        self.note(loc.key.name if loc.kind == 'buf' else key[-1], kind)
        return True

    def finish_buf(self, key, loc, elemfn):
        def closed(at):
            if loc.mode == 'array':
                return SArr.make(loc.pre.shape, elemfn(at), loc.akind)
            return Ver(elemfn(at))
        self.closed[key] = closed
        kf = elemfn(self.k)
        self.um[loc.sym] = lambda args: lift_as(kf(tuple(args)), loc.sort)

    def template_list(self, key, it):
        _, loc, vals = it
        lo, n, k = self.lo, self.n, self.k
        hk = id(loc)
        app = []
        for c, segs in vals:
            if not segs or segs[0] != ('h', hk):
                return
            rest = segs[1:]
            items = []
            for s in rest:
                if s[0] != 'c':
                    CTX.inferred.append((self.where, 'list', 'NOT SUMMARISED'))
                    return
                items.extend(s[1])
            app.append((c, items))
        pre = SList(segs=loc.pre)
        try:
            if all(len(a) == 1 for _, a in app):
                v = app[-1][1][0]
                for c, a in app[-2::-1]:
                    v = merge(c, a[0], v)
                v = self.close_val(v)
                kid = k

                def at_k(j):
                    return vmap(v, lambda e: rewrite(e, {kid.get_id(): j}))

                def closed(at):
                    ln = z3.simplify(If(at > lo, at - lo, z3.IntVal(0)))
                    seg = ('s', ln if not CTX.entailed(at >= lo)
                           else z3.simplify(at - lo),
                           lambda j: at_k(z3.simplify(lo + j)))
                    r = SList(segs=loc.pre + (seg,))
                    r._norm()
                    return r.segs
                self.closed[key] = closed
                self.note('list', 'map')
                return
            if all(len(a) <= 1 for _, a in app):
                g = self.close_expr(Or(*[c for c, a in app if len(a) == 1]))
                ones = [(c, a[0]) for c, a in app if a]
                v = ones[-1][1]
                for c, a in ones[-2::-1]:
                    v = merge(c, a, v)
                v = self.close_val(v)

                def closed(at):
                    seg = ('f', z3.simplify(at - lo),
                           lambda j: rewrite(g, {k.get_id(): z3.simplify(lo + j)}),
                           lambda j: vmap(v, lambda e: rewrite(
                               e, {k.get_id(): z3.simplify(lo + j)})))
                    return loc.pre + (seg,)
                self.closed[key] = closed
                self.note('list', 'filter')
                return
        except Unsupported:
            pass
        CTX.inferred.append((self.where, 'list', 'NOT SUMMARISED'))


def factor(op, e, s):
    """g free of s with e == s <op> g, found syntactically; None otherwise"""
    sid = s.get_id()
    memo = {}
    unit = {'sum': lambda: mknum(0, s.sort()), 'prod': lambda: mknum(1, s.sort()),
            'bor': lambda: bvval(0), 'band': lambda: bvval(-1),
            'any': lambda: z3.BoolVal(False)}[op]

    def dep(x):
        return sid in free_syms(x)[0]

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        r = go1(x)
        memo[i] = (x, r)
        return r

    def go1(x):
        if x.eq(s):
            return unit()
        if not z3.is_app(x):
            return None
        if not dep(x):
            # absorbing constants
            if op == 'prod' and core.is_num(x, 0):
                return mknum(0, s.sort())
            if op == 'any' and is_true(x):
                return x
            if op == 'bor' and z3.is_bv_value(x) and x.as_long() == 0xffffffff:
                return x
            if op == 'band' and z3.is_bv_value(x) and x.as_long() == 0:
                return x
            return None
        kd = x.decl().kind()
        ch = x.children()
        if kd == z3.Z3_OP_ITE:
            if dep(ch[0]):
                return None
            a, b = go(ch[1]), go(ch[2])
            return None if a is None or b is None else If(ch[0], a, b)
        want = {'sum': z3.Z3_OP_ADD, 'prod': z3.Z3_OP_MUL, 'bor': z3.Z3_OP_BOR,
                'band': z3.Z3_OP_BAND, 'any': z3.Z3_OP_OR}[op]
        if kd == want:
            ds = [c for c in ch if dep(c)]
            if len(ds) != 1:
                return None
            f = go(ds[0])
            if f is None:
                return None
            rest = [c for c in ch if not dep(c)]
            if op == 'sum':
                return nary_add(rest + [f])
            if op == 'prod':
                return core.nary_mul(rest + [f])
            if op == 'any':
                return Or(*(rest + [f]))
            r = f
            for c in rest:
                r = (r | c) if op == 'bor' else (r & c)
            return r
        if op == 'sum' and kd == z3.Z3_OP_SUB and len(ch) == 2 and not dep(ch[1]):
            f = go(ch[0])
            return None if f is None else nary_add([f, -ch[1]])
        if op == 'prod' and kd == z3.Z3_OP_DIV and not dep(ch[1]):
            f = go(ch[0])
            return None if f is None else f / ch[1]
        if op == 'prod' and kd == z3.Z3_OP_ADD and all(dep(c) for c in ch):
            fs = [go(c) for c in ch]
            if any(f is None for f in fs):
                return None
            return nary_add(fs)
        return None
    return go(e)


def lift_as(v, sort):
    l = lift(v)
    if sort == BVS:
        return bits_of(l)
    if sort == R:
        return to_real(l).e
    if sort == I:
        return to_int_e(l)
    return truth(l)


def Implies_(a, b):
    return Or(Not(a), b)


def CTX_entails(h, e):
    return not CTX.feasible(And(h, Not(e)))


def fold_entails(h, e):
    """with the lemmas on folds"""
    if not apps([e], lambda n: n in FOLDS):
        return False
    return prove_formula(CTX.pc() + [h], e, 3000)[0] is True


def has_fold_heavy(e):
    return False


def extreme_arg(e, s):
    """the g of ite(g > s, g, s) shaped terms"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        for x in (e.arg(1), e.arg(2)):
            if s.get_id() not in free_syms(x)[0]:
                return x
    return None


def cond_const(e, s, k):
    """e == ite(c, v, s) with c free of s, v free of s and k"""
    leaves = []

    def go(x, c):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            go(x.arg(1), And(c, x.arg(0)))
            go(x.arg(2), And(c, Not(x.arg(0))))
        else:
            leaves.append((c, x))
    go(e, z3.BoolVal(True))
    v = None
    cs = []
    for c, x in leaves:
        if x.eq(s):
            continue
        if s.get_id() in free_syms(x)[0] or has_const(x, k):
            return None
        if v is not None and not v.eq(x):
            return None
        v = x
        if s.get_id() in free_syms(c)[0]:
            return None
        cs.append(c)
    if v is None:
        return None
    return Or(*cs), v


def uf_apps(e, uf):
    """argument tuples of all applications of uf in e, fold bodies included"""
    out = []
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen or uf not in free_syms(t)[1]:
            continue
        seen.add(i)
        core._keep.append(t)
        n = t.decl().name()
        if n == uf:
            out.append(t.children())
        if n in FOLDS:
            vs, bodies = FOLDS[n].inst(t.children())
            for _, lo, hi in vs:
                stack += [lo, hi]
            stack += bodies
        stack += t.children()
    return out


def localise(e, uf, ps, x):
    """replace uf(p) by x in e; args must equal p under the enclosing conditions"""
    if uf not in free_syms(e)[1]:
        return e
    fail = []

    def go(t, ctx):
        if uf not in free_syms(t)[1]:
            return t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                t.decl().name() == uf:
            args = t.children()
            ok = True
            for a, p in zip(args, ps):
                if not a.eq(p):
                    ok = False
            if not ok:
                goal = And(*[a == p for a, p in zip(args, ps)])
                if not valid(Implies_(And(*ctx), goal), timeout=1000):
                    fail.append(t)
            return x
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            c2 = go(c, ctx)
            return If(c2, go(a, ctx + [c]), go(b, ctx + [Not(c)]))
        if z3.is_and(t) or z3.is_or(t):
            out = []
            acc = list(ctx)
            for c in t.children():
                out.append(go(c, acc))
                acc.append(c if z3.is_and(t) else Not(c))
            return And(*out) if z3.is_and(t) else Or(*out)
        nm = t.decl().name()
        if nm in FOLDS:
            fail.append(t)
            return t
        return core.rebuild(t, t.decl(), [go(c, ctx) for c in t.children()])
    r = go(e, [])
    if fail:
        return None
    return r


# ---------------------------------------------------------------------------
# comprehensions

def comp(kind, it, elt, conds, where=None):
    """list / generator / set / dict comprehension with one generator"""
    it = resolve(it)
    if isinstance(it, FlatSeq):
        if kind in ('set', 'dict'):
            raise Unsupported('%s comprehension over a symbolic sequence' % kind)
        return it.map(elt, conds)
    t, n, fn = iterate(it)
    if t == 'c':
        out = []
        for x in n:
            if all(_truthy(c(x)) for c in conds):
                out.append(elt(x))
        if kind == 'list':
            return SList(out)
        if kind == 'gen':
            return SList(out)
        if kind == 'set':
            return set(out)
        return dict(out)
    if kind in ('set', 'dict'):
        raise Unsupported('%s comprehension over a symbolic sequence' % kind)
    if t == 'f':
        guard, efn = fn
        c0 = conds
        conds = [lambda k: mkb(guard(k))] + [lambda k, c=c: c(efn(k)) for c in c0]
        elt0 = elt

        def elt(k):
            return elt0(efn(k))

        def fn(k):
            return k
    k = CTX.index('k')
    lo = z3.IntVal(0)
    rng = And(lo <= k, k < n)

    def run():
        CTX.loopvars = CTX.loopvars + [k]
        x = fn(k)
        for c in conds:
            if not _truthy(c(x)):
                return False, None
        return True, elt(x)
    with Scope(rng):
        res = CTX.explore(run)
    exc = [And(*pc) for pc, kd, v in res if kd != 'ok']
    if exc:
        E = Or(*exc)
        j = CTX.index('k')
        if CTX.decide(mk_fold1('any', j, lo, n, rewrite(E, {k.get_id(): j}))):
            k0 = CTX.fresh('k0', I) if CTX.loopvars else CTX.index('k0')
            CTX.assume(And(lo <= k0, k0 < n))
            CTX.assume(rewrite(E, {k.get_id(): k0}))
            x = fn(k0)
            for c in conds:
                if not _truthy(c(x)):
                    raise Prune()
            elt(x)
            raise Prune()
    yes = [(And(*pc), v[1]) for pc, kd, v in res if kd == 'ok' and v[0]]
    no = [And(*pc) for pc, kd, v in res if kd == 'ok' and not v[0]]
    if not yes:
        return SList()
    v = yes[-1][1]
    for c, x in yes[-2::-1]:
        v = merge(c, x, v)

    def at(j):
        return vmap(v, lambda e: rewrite(e, {k.get_id(): j}))
    if not no:
        return SList.sym(n, at)
    g = Or(*[c for c, _ in yes])
    return SList(segs=(('f', n, lambda j: rewrite(g, {k.get_id(): j}), at),))


def _truthy(x):
    return bool(x)


# ---------------------------------------------------------------------------
# builtins

def len_(x):
    x = resolve(x)
    if hasattr(x, '__sym_len__'):
        r = x.__sym_len__()
        return unwrap_const(r) if isinstance(r, Sym) else r
    return len(x)


class IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, SInt))


def int_(x=0, *a):
    x = resolve(x)
    if isinstance(x, SArr):
        x = x.__sym_scalar__()
    if isinstance(x, Sym):
        return trunc(x)
    if hasattr(x, '__sym_scalar__'):
        return trunc(x.__sym_scalar__())
    return int(x, *a)


def float_(x=0.0):
    x = resolve(x)
    if isinstance(x, SArr):
        x = x.__sym_scalar__()
    if isinstance(x, Sym):
        return to_real(x)
    return float(x)


def bool_(x=False):
    x = resolve(x)
    if isinstance(x, Sym):
        return mkb(truth(x))
    if isinstance(x, SArr):
        return mkb(truth(x.__sym_scalar__()))
    return bool(x)


def range_(*a):
    a = [resolve(x) for x in a]
    a = [trunc_idx(x) for x in a]
    if all(isinstance(x, (int, _np.integer)) for x in a):
        return range(*[int(x) for x in a])
    if len(a) == 1:
        return RangeSym(0, a[0])
    if len(a) == 2:
        return RangeSym(a[0], a[1])
    if isinstance(a[2], int) and a[2] in (1, -1):
        return RangeSym(a[0], a[1], a[2])
    raise Unsupported('range step')


def trunc_idx(x):
    if isinstance(x, SArr):
        return x.__sym_scalar__()
    if isinstance(x, (float, SReal)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return x


def min_(*a, **kw):
    return _mm(smin, 'min', a, kw, min)


def max_(*a, **kw):
    return _mm(smax, 'max', a, kw, max)


def _mm(f, op, a, kw, nat):
    a = tuple(resolve(x) for x in a)
    if len(a) == 1:
        t, n, fn = iterate(a[0])
        if t == 's':
            from .values import lift as L
            p = fn(CTX.index('q'))
            sort = L(p).e.sort()
            k = CTX.index('k')
            return wrap(raw_fold(op, [(k, z3.IntVal(0), n)], [L(fn(k)).e], sort))
        a = tuple(n)
    if not any(isinstance(x, (Sym, SArr)) for x in a) or kw:
        return nat(*a, **kw) if len(a) != 1 else (nat(a, **kw))
    r = a[0]
    for x in a[1:]:
        if isinstance(r, SArr):
            r = r.__sym_scalar__()
        if isinstance(x, SArr):
            x = x.__sym_scalar__()
        r = f(r, x)
    return r


def sum_(it, start=0):
    it = resolve(it)
    if isinstance(it, FlatSeq):
        return sum_(it.each(sum_), start)
    if isinstance(it, (SArr, SSel)) and it.ndim == 1:
        return arith('+', start, reduce_('sum', it))
    t, n, fn = iterate(it)
    if t == 'c':
        r = start
        for x in n:
            r = r + x
        return r
    if t == 'f':
        g, efn = fn
        k = CTX.index('k')
        x = lift(efn(k))
        if isinstance(x, SBool):
            x = SInt(to_int_e(x))
        z = mknum(0, x.e.sort())
        return arith('+', start, wrap(mk_fold1('sum', k, z3.IntVal(0), n,
                                               If(g(k), x.e, z))))
    k = CTX.index('k')
    x = lift(fn(k))
    if isinstance(x, SBool):
        x = SInt(to_int_e(x))
    if isinstance(x, SReal) and x.k is not None:
        raise Unsupported('sum of special reals')
    return arith('+', start, wrap(mk_fold1('sum', k, z3.IntVal(0), n, x.e)))


def any_(it):
    it = resolve(it)
    if isinstance(it, FlatSeq):
        return any_(it.each(any_))
    t, n, fn = iterate(it)
    if t == 'c':
        r = z3.BoolVal(False)
        for x in n:
            r = Or(r, truth_of(x))
        return mkb(r)
    k = CTX.index('k')
    if t == 'f':
        return mkb(mk_fold1('any', k, z3.IntVal(0), n,
                            And(fn[0](k), truth_of(fn[1](k)))))
    return mkb(mk_fold1('any', k, z3.IntVal(0), n, truth_of(fn(k))))


def all_(it):
    it = resolve(it)
    if isinstance(it, FlatSeq):
        return all_(it.each(all_))
    t, n, fn = iterate(it)
    if t == 'c':
        r = z3.BoolVal(True)
        for x in n:
            r = And(r, truth_of(x))
        return mkb(r)
    k = CTX.index('k')
    if t == 'f':
        return mkb(Not(mk_fold1('any', k, z3.IntVal(0), n,
                                And(fn[0](k), Not(truth_of(fn[1](k)))))))
    return mkb(Not(mk_fold1('any', k, z3.IntVal(0), n, Not(truth_of(fn(k))))))


def sorted_(it, **kw):
    it = resolve(it)
    t, n, fn = iterate(it)
    if t == 'c':
        items = list(n)
        if not any(isinstance(x, Sym) for x in items):
            return SList(sorted(items, **kw))
        if kw:
            raise Unsupported('sorted with key')
        # insertion sort network on scalars
        out = []
        for x in items:
            cur = x
            for j in range(len(out)):
                a = out[j]
                out[j] = smin(a, cur)
                cur = smax(a, cur)
            out.append(cur)
        return SList(out)
    return SortedTok(it, n, fn)


class SortedTok:
    """sorted() of a symbolic sequence: the multiset, canonical"""
    __hash__ = None

    def __init__(self, it, n, fn):
        self.it, self.n, self.fn = it, n, fn

    def __sym_iter__(self):
        # an arbitrary permutation would be needed here
        raise Unsupported('iteration over sorted symbolic sequence')

    def __sym_tuple__(self):
        return self


def abs_(x):
    x = resolve(x)
    return abs(x)


def round_(x, nd=None):
    if isinstance(x, Sym) and nd is None:
        return trunc(rint(x))
    if isinstance(x, Sym):
        raise Unsupported('round to digits')
    return round(x) if nd is None else round(x, nd)


def enumerate_(it, start=0):
    return EnumSym(it, start)


def zip_(*its):
    return ZipSym([resolve(i) for i in its])


def reversed_(it):
    t, n, fn = iterate(it)
    if t == 'c':
        return list(n)[::-1]
    if t == 's':
        return SymSeq(n, lambda k: fn(z3.simplify(n - 1 - k)),
                      [it] if isinstance(it, SymSeq) else [])
    raise Unsupported('reversed')


def list_(it=()):
    it = resolve(it)
    if isinstance(it, FlatSeq):
        return FlatSeq(it.outer.copy())
    if isinstance(it, SList):
        return it.copy()
    t, n, fn = iterate(it)
    if t == 'c':
        return SList(n)
    if t == 'f':
        return SList(segs=(('f', n, fn[0], fn[1]),))
    return SList.sym(n, fn)


def tuple_(it=()):
    it = resolve(it)
    if isinstance(it, SortedTok):
        return it
    t, n, fn = iterate(it)
    if t == 'c':
        return tuple(n)
    return list_(it)


def set_(it=()):
    t, n, fn = iterate(it)
    if t == 'c':
        return set(n)
    raise Unsupported('set of symbolic sequence')


def map_(f, *its):
    if len(its) == 1:
        return comp('list', its[0], f, [])
    return comp('list', ZipSym(its), lambda t: f(*t), [])


def filter_(f, it):
    return comp('list', it, lambda x: x, [f if f is not None else (lambda x: x)])


_ISMAP = {}


def isinstance_(x, t):
    x = resolve(x)
    if isinstance(t, tuple):
        return any(isinstance_(x, q) for q in t)
    if hasattr(x, '__sym_isinstance__'):
        return x.__sym_isinstance__(t)
    if t is int or t is int_:
        return isinstance(x, (int, SInt, SBits))
    if t is float or t is float_:
        return isinstance(x, (float, SReal))
    if t is bool or t is bool_:
        return isinstance(x, (bool, SBool))
    if t is list or t is list_:
        return isinstance(x, (list, SList, SymSeq))
    if t is tuple or t is tuple_:
        return isinstance(x, tuple)
    if t is dict or t is dict_:
        return isinstance(x, dict)
    if t is set or t is set_:
        return isinstance(x, set)
    if t is str or t is str_:
        return isinstance(x, str)
    if t is _np.ndarray or getattr(t, '__name__', '') == 'ndarray':
        return isinstance(x, (SArr, SRec, SSel, _np.ndarray))
    if isinstance(t, type):
        return isinstance(x, t)
    return False


def dict_(*a, **kw):
    return SDict(*a, **kw)


def mkdict(d):
    return SDict(d)


def str_(x=''):
    if isinstance(x, GUnion):
        x = resolve(x)
    if has_sym(x):
        return SymStr('%s', (x,))
    return str(x)


class ReprTok:
    """repr() of an object with symbolic content: equality means equal content"""
    __hash__ = None

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        if not isinstance(o, ReprTok):
            return False
        return self.x.__sym_repr_eq__(o.x)

    def __ne__(self, o):
        return not_(self.__eq__(o))


def repr_(x):
    x = resolve(x)
    if hasattr(x, '__sym_repr_eq__'):
        return ReprTok(x)
    if has_sym(x):
        return SymStr('%r', (x,))
    return repr(x)


def hasattr_(x, n):
    x = resolve(x)
    try:
        getattr(x, n)
        return True
    except AttributeError:
        return False


def getattr_(x, n, *d):
    x = resolve(x)
    return getattr(x, n, *d)


def print_(*a, **k):
    return None


def next_(it, *d):
    t, n, fn = iterate(it)
    if t == 'c':
        return next(n, *d)
    raise Unsupported('next of symbolic sequence')


class _TypeShim:
    """builtin type names used both as functions and in isinstance"""


BUILTINS = dict(
    len=len_, int=int_, float=float_, bool=bool_, range=range_, min=min_, max=max_,
    sum=sum_, any=any_, all=all_, sorted=sorted_, abs=abs_, round=round_,
    enumerate=enumerate_, zip=zip_, reversed=reversed_, list=list_, tuple=tuple_,
    set=set_, map=map_, filter=filter_, isinstance=isinstance_, str=str_,
    repr=repr_, hasattr=hasattr_, getattr=getattr_, print=print_, next=next_,
)

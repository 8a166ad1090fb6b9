"""symbolic scalars"""
import math
import numbers
from fractions import Fraction
import numpy as _np
import z3
from .core import (
    CTX, And, Or, Not, If, Unsupported, NeedBits, realval, bvval, bor, BV,
    is_true, is_false, is_num, lift_const, nary_add, nary_mul, EngineError,
)

I, R, B, BVS = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.BitVecSort(BV)

# classes of extended reals
FIN, NAN, PINF, NINF = 0, 1, 2, 3


class Sym:
    __slots__ = ('e', 'k', 'tag')
    __array_priority__ = 1000
    __hash__ = None

    # numpy-scalar-like attributes
    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, str(self.e)[:60])

    def __format__(self, spec):
        return '<sym>'

    def __add__(self, o):
        return arith('+', self, o)

    def __radd__(self, o):
        return arith('+', o, self)

    def __sub__(self, o):
        return arith('-', self, o)

    def __rsub__(self, o):
        return arith('-', o, self)

    def __mul__(self, o):
        return arith('*', self, o)

    def __rmul__(self, o):
        return arith('*', o, self)

    def __truediv__(self, o):
        return arith('/', self, o)

    def __rtruediv__(self, o):
        return arith('/', o, self)

    def __floordiv__(self, o):
        return arith('//', self, o)

    def __rfloordiv__(self, o):
        return arith('//', o, self)

    def __mod__(self, o):
        return arith('%', self, o)

    def __rmod__(self, o):
        return arith('%', o, self)

    def __pow__(self, o):
        return arith('**', self, o)

    def __rpow__(self, o):
        return arith('**', o, self)

    def __and__(self, o):
        return arith('&', self, o)

    def __rand__(self, o):
        return arith('&', o, self)

    def __or__(self, o):
        return arith('|', self, o)

    def __ror__(self, o):
        return arith('|', o, self)

    def __xor__(self, o):
        return arith('^', self, o)

    def __rxor__(self, o):
        return arith('^', o, self)

    def __lt__(self, o):
        return arith('<', self, o)

    def __le__(self, o):
        return arith('<=', self, o)

    def __gt__(self, o):
        return arith('>', self, o)

    def __ge__(self, o):
        return arith('>=', self, o)

    def __eq__(self, o):
        return arith('==', self, o)

    def __ne__(self, o):
        return arith('!=', self, o)

    def __neg__(self):
        return unary('-', self)

    def __pos__(self):
        return self

    def __abs__(self):
        return unary('abs', self)

    def __invert__(self):
        return unary('~', self)

    def __bool__(self):
        if isinstance(self, SBool):
            return CTX.decide(self.e)
        return CTX.decide(truth(self))

    def astype(self, dt):
        return cast(self, dt)

    def max(self):
        return self

    def min(self):
        return self

    def sum(self):
        return self


class SBool(Sym):
    __slots__ = ()

    def __init__(self, e):
        self.e = e


class SInt(Sym):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported('symbolic integer used as a concrete index')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())


class SBits(Sym):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        raise Unsupported('symbolic bits used as a concrete integer')


class SReal(Sym):
    """e: value when finite; k: None (finite) or Int expr class"""
    __slots__ = ()

    def __init__(self, e, k=None):
        self.e = e
        self.k = k if k is None or not (z3.is_int_value(k) and k.as_long() == 0) \
            else None

    def __float__(self):
        e = z3.simplify(self.e)
        if self.k is None and z3.is_rational_value(e):
            return float(e.as_fraction())
        raise Unsupported('symbolic real used as a concrete float')

    def is_integer(self):
        return SBool(z3.ToReal(z3.ToInt(self.e)) == self.e)


NUMS = (int, float, bool, _np.number, _np.bool_, Fraction)


def is_scalar(x):
    return isinstance(x, Sym) or isinstance(x, NUMS)


def lift(x):
    """python number -> Sym"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return SBool(z3.BoolVal(bool(x)))
    if isinstance(x, (int, _np.integer)):
        return SInt(z3.IntVal(int(x)))
    if isinstance(x, Fraction):
        return SReal(realval(x))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if math.isnan(x):
            return SReal(z3.RealVal(0), z3.IntVal(NAN))
        if math.isinf(x):
            return SReal(z3.RealVal(0), z3.IntVal(PINF if x > 0 else NINF))
        return SReal(realval(x))
    if hasattr(x, '__sym_scalar__'):
        return lift(x.__sym_scalar__())
    raise TypeError('not a scalar: %r' % (x,))


def wrap(e, k=None):
    s = e.sort()
    if s == B:
        return SBool(e)
    if s == I:
        return SInt(e)
    if s == R:
        return SReal(e, k)
    if s == BVS:
        return SBits(e)
    raise Unsupported('sort %s' % s)


def unwrap_const(x):
    """Sym with constant value -> python number (keeps other values)"""
    if isinstance(x, SInt) and z3.is_int_value(x.e):
        return x.e.as_long()
    if isinstance(x, SBool):
        if is_true(x.e):
            return True
        if is_false(x.e):
            return False
    if isinstance(x, SReal) and x.k is not None and z3.is_int_value(x.k):
        c = x.k.as_long()
        return {NAN: math.nan, PINF: math.inf, NINF: -math.inf}.get(c, x)
    return x


def bits_of(x):
    """Sym/number -> BV expr; integer ite-trees of constants are converted"""
    if isinstance(x, SBits):
        return x.e
    if isinstance(x, SBool):
        return If(x.e, bvval(1), bvval(0))
    if isinstance(x, NUMS) and not isinstance(x, (float, _np.floating)):
        return bvval(int(x))
    if isinstance(x, SInt):
        return int2bits(x.e)
    raise TypeError('bit operation on %r' % (x,))


def int2bits(e):
    if z3.is_int_value(e):
        return bvval(e.as_long())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        return If(c, int2bits(a), int2bits(b))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_BV2INT:
        return e.arg(0)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        raise NeedBits(e.decl().name())
    s = z3.simplify(e)
    if not s.eq(e):
        return int2bits(s)
    raise Unsupported('bit operation on a general integer expression %s' % e)


def to_int_e(x):
    x = lift(x)
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SBits):
        raise Unsupported('bits used as an arithmetic integer')
    raise TypeError('integer expected, got %r' % (x,))


def to_real(x):
    """-> SReal"""
    x = lift(x)
    if isinstance(x, SReal):
        return x
    if isinstance(x, SInt):
        if z3.is_int_value(x.e):
            return SReal(z3.RealVal(x.e.as_long()))
        return SReal(i2r(x.e))
    if isinstance(x, SBool):
        return SReal(If(x.e, z3.RealVal(1), z3.RealVal(0)))
    raise Unsupported('bits used as a real')


def i2r(e):
    """int expr -> real expr, pushing through ite"""
    if z3.is_int_value(e):
        return z3.RealVal(e.as_long())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return If(e.arg(0), i2r(e.arg(1)), i2r(e.arg(2)))
    return z3.ToReal(e)


def truth(x):
    x = lift(x)
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, SInt):
        return x.e != 0
    if isinstance(x, SBits):
        return x.e != bvval(0)
    if x.k is None:
        return x.e != 0
    return Or(x.k != FIN, x.e != 0)


def kof(x):
    return z3.IntVal(0) if x.k is None else x.k


class ZeroDiv(Exception):
    pass


PYDIV = [False]   # True: python semantics, ZeroDivisionError


def arith(op, a, b):
    if not is_scalar(a) or not is_scalar(b):
        if b is None or a is None or isinstance(a, str) or isinstance(b, str):
            if op == '==':
                return False
            if op == '!=':
                return True
        return NotImplemented
    if op in ('&', '|', '^'):
        return bitop(op, a, b)
    if op in ('<', '<=', '>', '>=', '==', '!='):
        return compare(op, a, b)
    la, lb = lift(a), lift(b)
    if op == '**':
        return power(la, lb)
    if op == '/':
        return rdiv(to_real(la), to_real(lb))
    if isinstance(la, SBits) or isinstance(lb, SBits):
        if isinstance(la, SBits) and isinstance(b, NUMS) and op == '*' and b == 0:
            return SBits(bvval(0))
        if op == '+' and isinstance(lb, SBits) and is_zero(a):
            return lb
        if op == '+' and isinstance(la, SBits) and is_zero(b):
            return la
        if op == '+':
            return SBits(bits_of(la) + bits_of(lb))
        if op == '-':
            return SBits(bits_of(la) - bits_of(lb))
        raise Unsupported('arithmetic on bits')
    if isinstance(la, SReal) or isinstance(lb, SReal):
        ra, rb = to_real(la), to_real(lb)
        if op == '+':
            return radd(ra, rb)
        if op == '-':
            return radd(ra, unary('-', rb))
        if op == '*':
            return rmul(ra, rb)
        if op == '//':
            q = rdiv(ra, rb)
            return SReal(z3.ToReal(z3.ToInt(q.e)), q.k)
        if op == '%':
            q = rdiv(ra, rb)
            return SReal(ra.e - rb.e * z3.ToReal(z3.ToInt(q.e)), q.k)
    ea, eb = to_int_e(la), to_int_e(lb)
    if op == '+':
        return mki(nary_add([ea, eb]))
    if op == '-':
        if z3.is_int_value(eb):
            return mki(nary_add([ea, z3.IntVal(-eb.as_long())]))
        if ea.eq(eb):
            return 0
        return mki(ea - eb)
    if op == '*':
        return mki(nary_mul([ea, eb]))
    if op in ('//', '%'):
        if CTX.frames and not (z3.is_int_value(eb)):
            if CTX.decide(eb == 0):
                raise ZeroDivisionError('integer division by zero')
        if z3.is_int_value(eb) and eb.as_long() > 0:
            q = ea / eb
        else:
            q = If(eb > 0, ea / eb, (-ea) / (-eb))
        if op == '//':
            return mki(q)
        return mki(ea - eb * q)
    raise Unsupported(op)


def is_zero(x):
    return isinstance(x, NUMS) and x == 0


def mki(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def radd(a, b):
    if a.k is None and b.k is None:
        return SReal(nary_add([a.e, b.e]))
    ka, kb = kof(a), kof(b)
    k = If(Or(ka == NAN, kb == NAN), z3.IntVal(NAN),
           If(ka == FIN, kb,
              If(kb == FIN, ka,
                 If(ka == kb, ka, z3.IntVal(NAN)))))
    return SReal(nary_add([a.e, b.e]), z3.simplify(k))


def sgn(x):
    """sign expr (-1, 0, 1) of an extended real"""
    s = If(x.e > 0, z3.IntVal(1), If(x.e < 0, z3.IntVal(-1), z3.IntVal(0)))
    if x.k is None:
        return s
    return If(x.k == PINF, z3.IntVal(1), If(x.k == NINF, z3.IntVal(-1), s))


def rmul(a, b):
    if a.k is None and b.k is None:
        return SReal(nary_mul([a.e, b.e]))
    ka, kb = kof(a), kof(b)
    s = sgn(a) * sgn(b)
    k = If(Or(ka == NAN, kb == NAN), z3.IntVal(NAN),
           If(And(ka == FIN, kb == FIN), z3.IntVal(FIN),
              If(s == 0, z3.IntVal(NAN),
                 If(s > 0, z3.IntVal(PINF), z3.IntVal(NINF)))))
    return SReal(nary_mul([a.e, b.e]), z3.simplify(k))


def nonzero_known(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return e.as_fraction() != 0
    if CTX.frames:
        if CTX.entailed(e != 0):
            return True
        return fold_nonzero(e)
    return False


_nz = {}


def fold_nonzero(e):
    """divisors that are a bare fold are worth a proof with fold lemmas"""
    from .core import FOLDS, prove_formula, _keep
    if not (z3.is_app(e) and e.decl().name() in FOLDS):
        return False
    pc = CTX.pc()
    key = (e.get_id(),) + tuple(p.get_id() for p in pc)
    if key not in _nz:
        _keep.extend(pc + [e])
        _nz[key] = bool(prove_formula(pc, e != 0, 1500, 1)[0])
    return _nz[key]


def rdiv(a, b):
    """numpy semantics; zero divisors give inf/nan (python scalars: see assumption)"""
    if b.k is None and nonzero_known(b.e):
        if z3.is_rational_value(b.e):
            v = nary_mul([realval(1 / b.e.as_fraction()), a.e])
        elif z3.is_rational_value(a.e) and a.e.as_fraction() == 0:
            v = z3.RealVal(0)
        else:
            v = a.e / b.e
        if a.k is None:
            return SReal(v)
        s = If(b.e > 0, a.k, If(a.k == PINF, z3.IntVal(NINF),
                                If(a.k == NINF, z3.IntVal(PINF), a.k)))
        return SReal(v, z3.simplify(s))
    ka, kb = kof(a), kof(b)
    if a.k is None and b.k is None and z3.is_rational_value(a.e) and \
            a.e.as_fraction() > 0:
        return SReal(If(b.e == 0, z3.RealVal(0), a.e / b.e),
                     If(b.e == 0, z3.IntVal(PINF), z3.IntVal(FIN)))
    bz = And(kb == FIN, b.e == 0)
    k = If(Or(ka == NAN, kb == NAN), z3.IntVal(NAN),
           If(Or(kb == PINF, kb == NINF),
              If(ka == FIN, z3.IntVal(FIN), z3.IntVal(NAN)),
              If(bz,
                 If(sgn(a) == 0, z3.IntVal(NAN),
                    If(sgn(a) > 0, z3.IntVal(PINF), z3.IntVal(NINF))),
                 If(ka == FIN, z3.IntVal(FIN),
                    If(sgn(a) * sgn(b) > 0, z3.IntVal(PINF),
                       z3.IntVal(NINF))))))
    v = If(Or(kb == PINF, kb == NINF), z3.RealVal(0),
           If(b.e == 0, z3.RealVal(0), a.e / b.e))
    return SReal(z3.simplify(v), z3.simplify(k))


SQRT = z3.Function('sqrt', R, R)


def _sqrt_ax(args):
    x = args[0]
    s = SQRT(x)
    return [s >= 0, z3.Implies(x >= 0, s * s == x), z3.Implies(x > 0, s > 0)]


_UF1 = {}


def uf1(name):
    if name not in _UF1:
        _UF1[name] = z3.Function(name, R, R)
    return _UF1[name]


def install_axioms():
    CTX.axiom_hooks['sqrt'] = _sqrt_ax


def sqrt(x):
    x = to_real(x)
    e = z3.simplify(x.e)
    if z3.is_rational_value(e) and x.k is None:
        v = e.as_fraction()
        if v >= 0:
            rn, rd = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if rn * rn == v.numerator and rd * rd == v.denominator:
                return SReal(realval(Fraction(rn, rd)))
    neg = x.e < 0
    k = None
    if not (CTX.frames and CTX.entailed(x.e >= 0)):
        k = If(neg, z3.IntVal(NAN), z3.IntVal(FIN))
    if x.k is not None:
        k2 = If(x.k == FIN, z3.IntVal(FIN) if k is None else k,
                If(x.k == PINF, z3.IntVal(PINF), z3.IntVal(NAN)))
        k = k2
    return SReal(SQRT(x.e), None if k is None else z3.simplify(k))


def power(a, b):
    if isinstance(b, SInt) and z3.is_int_value(b.e):
        n = b.e.as_long()
        if 0 <= n <= 12:
            if isinstance(a, SReal):
                r = SReal(z3.RealVal(1))
                if n == 0:
                    return r
                r = a
                for _ in range(n - 1):
                    r = rmul(r, a)
                return r
            if isinstance(a, SBits):
                raise Unsupported('bits power')
            r = to_int_e(a)
            if n == 0:
                return 1
            o = r
            for _ in range(n - 1):
                r = nary_mul([r, o])
            return mki(r)
        if n < 0:
            return rdiv(SReal(z3.RealVal(1)), to_real(power(a, SInt(z3.IntVal(-n)))))
    if isinstance(b, SReal) and b.k is None and z3.is_rational_value(b.e):
        f = b.e.as_fraction()
        if f == Fraction(1, 2):
            return sqrt(a)
        if f == Fraction(-1, 2):
            return rdiv(SReal(z3.RealVal(1)), sqrt(a))
        if f.denominator == 1:
            return power(to_real(a), SInt(z3.IntVal(f.numerator)))
    if isinstance(a, SInt) and z3.is_int_value(a.e) and a.e.as_long() == 2 \
            and isinstance(b, SInt):
        return SBits(z3.BitVecVal(1, BV) << z3.Int2BV(b.e, BV))
    if isinstance(a, (SReal, SInt)):
        f = z3.Function('pow', R, R, R)
        return SReal(f(to_real(a).e, to_real(b).e))
    raise Unsupported('power')


def bitop(op, a, b):
    la, lb = lift(a), lift(b)
    if isinstance(la, SBool) and isinstance(lb, SBool):
        if op == '&':
            return mkb(And(la.e, lb.e))
        if op == '|':
            return mkb(Or(la.e, lb.e))
        return mkb(z3.Xor(la.e, lb.e))
    if isinstance(la, SReal) or isinstance(lb, SReal):
        raise TypeError('ufunc bitwise not supported for float')
    ea, eb = bits_of(la), bits_of(lb)
    if op == '&':
        if z3.is_bv_value(ea) and z3.is_bv_value(eb):
            return SBits(z3.simplify(ea & eb))
        return SBits(ea & eb)
    if op == '|':
        if z3.is_bv_value(ea) and z3.is_bv_value(eb):
            return SBits(z3.simplify(ea | eb))
        return SBits(bor(ea, eb))
    return SBits(ea ^ eb)


def mkb(e):
    if is_true(e):
        return True
    if is_false(e):
        return False
    return SBool(e)


def compare(op, a, b):
    la, lb = lift(a), lift(b)
    if isinstance(la, SBits) or isinstance(lb, SBits):
        if isinstance(la, SReal) or isinstance(lb, SReal):
            raise Unsupported('bits compared to real')
        ea, eb = bits_of(la), bits_of(lb)
        r = {'==': lambda: ea == eb, '!=': lambda: ea != eb,
             '<': lambda: ea < eb, '<=': lambda: ea <= eb,
             '>': lambda: ea > eb, '>=': lambda: ea >= eb}[op]()
        return SBool(r)
    if isinstance(la, SBool) and isinstance(lb, SBool):
        if op == '==':
            return mkb(z3.simplify(la.e == lb.e))
        if op == '!=':
            return mkb(z3.simplify(la.e != lb.e))
    if isinstance(la, SReal) or isinstance(lb, SReal):
        ra, rb = to_real(la), to_real(lb)
        return rcompare(op, ra, rb)
    ea, eb = to_int_e(la), to_int_e(lb)
    if z3.is_int_value(ea) and z3.is_int_value(eb):
        x, y = ea.as_long(), eb.as_long()
        return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y,
                '>': x > y, '>=': x >= y}[op]
    if ea.eq(eb):
        return op in ('==', '<=', '>=')
    c = count_compare(op, ea, eb)
    if c is not None:
        return mkb(c)
    r = {'==': lambda: ea == eb, '!=': lambda: Not(ea == eb),
         '<': lambda: ea < eb, '<=': lambda: ea <= eb,
         '>': lambda: ea > eb, '>=': lambda: ea >= eb}[op]()
    return mkb(r)


def count_positive(e):
    """e is a count of a condition over a range: formula for e > 0, else None"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        if z3.is_int_value(e.arg(1)) and z3.is_int_value(e.arg(2)):
            x, y = e.arg(1).as_long(), e.arg(2).as_long()
            if x >= 0 and y >= 0:
                return If(e.arg(0), z3.BoolVal(x > 0), z3.BoolVal(y > 0))
        return None
    if not z3.is_app(e) or e.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return None
    from .core import FOLDS, mk_fold
    f = FOLDS.get(e.decl().name())
    if f is None or f.op != 'sum' or f.sort != I:
        return None
    vs, bodies = f.inst(e.children())
    g = count_positive(bodies[0])
    if g is None:
        return None
    return mk_fold('any', vs, [g], B)


def count_compare(op, ea, eb):
    if z3.is_int_value(ea) and not z3.is_int_value(eb):
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        ea, eb = eb, ea
    if not z3.is_int_value(eb):
        return None
    v = eb.as_long()
    if (op, v) in (('>', 0), ('>=', 1), ('!=', 0)):
        return count_positive(ea)
    if (op, v) in (('<=', 0), ('<', 1), ('==', 0)):
        r = count_positive(ea)
        return None if r is None else Not(r)
    return None


def rcompare(op, a, b):
    x, y = a.e, b.e
    r = {'==': lambda: x == y, '!=': lambda: Not(x == y),
         '<': lambda: x < y, '<=': lambda: x <= y,
         '>': lambda: x > y, '>=': lambda: x >= y}[op]()
    if a.k is None and b.k is None:
        return mkb(r)
    ka, kb = kof(a), kof(b)
    nan = Or(ka == NAN, kb == NAN)
    fin = And(ka == FIN, kb == FIN)

    def rank(k):
        return If(k == PINF, z3.IntVal(1), If(k == NINF, z3.IntVal(-1), z3.IntVal(0)))
    p, q = rank(ka), rank(kb)
    s = {'==': lambda: p == q, '!=': lambda: p != q,
         '<': lambda: p < q, '<=': lambda: p <= q,
         '>': lambda: p > q, '>=': lambda: p >= q}[op]()
    out = If(nan, z3.BoolVal(op == '!='), If(fin, r, s))
    return mkb(z3.simplify(out))


def unary(op, x):
    x = lift(x)
    if op == '-':
        if isinstance(x, SReal):
            v = nary_mul([z3.RealVal(-1), x.e])
            if x.k is None:
                return SReal(v)
            return SReal(v, If(x.k == PINF, z3.IntVal(NINF),
                               If(x.k == NINF, z3.IntVal(PINF), x.k)))
        return mki(nary_mul([z3.IntVal(-1), to_int_e(x)]))
    if op == 'abs':
        if isinstance(x, SReal):
            v = If(x.e >= 0, x.e, -x.e)
            if x.k is None:
                return SReal(v)
            return SReal(v, If(x.k == NINF, z3.IntVal(PINF), x.k))
        e = to_int_e(x)
        return mki(If(e >= 0, e, -e))
    if op == '~':
        if isinstance(x, SBool):
            return mkb(Not(x.e))
        if isinstance(x, SReal):
            raise TypeError('~ on float')
        return SBits(z3.simplify(~bits_of(x)))
    raise Unsupported(op)


def isnan(x):
    x = to_real_or(x)
    return False if x is None or x.k is None else mkb(z3.simplify(x.k == NAN))


def isfinite(x):
    x = to_real_or(x)
    return True if x is None or x.k is None else mkb(z3.simplify(x.k == FIN))


def isinf(x):
    x = to_real_or(x)
    return False if x is None or x.k is None else mkb(
        z3.simplify(Or(x.k == PINF, x.k == NINF)))


def to_real_or(x):
    x = lift(x)
    if isinstance(x, SBits):
        return None
    return to_real(x)


def trunc(x):
    x = lift(x)
    if isinstance(x, (SInt, SBits)):
        return x
    if isinstance(x, SBool):
        return mki(to_int_e(x))
    if x.k is not None:
        if not CTX.entailed(x.k == FIN):
            if CTX.decide(x.k != FIN):
                raise ValueError('cannot convert float NaN/inf to integer')
    return mki(z3.simplify(If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e))))


def floor(x):
    x = to_real(x)
    return SReal(z3.ToReal(z3.ToInt(x.e)), x.k)


def ceil(x):
    x = to_real(x)
    return SReal(-z3.ToReal(z3.ToInt(-x.e)), x.k)


def rint(x):
    x = to_real(x)
    h = z3.ToInt(x.e + z3.RealVal('1/2'))
    tie = And(z3.ToReal(h) == x.e + z3.RealVal('1/2'), h % 2 == 1)
    return SReal(z3.ToReal(If(tie, h - 1, h)), x.k)


def smax(a, b):
    return site(compare('>=', a, b), a, b)


def smin(a, b):
    return site(compare('<=', a, b), a, b)


def join_lift(a, b):
    """bring two scalars to a common class"""
    la, lb = lift(a), lift(b)
    if type(la) is type(lb):
        return la, lb
    if isinstance(la, SBits) or isinstance(lb, SBits):
        if isinstance(la, SReal) or isinstance(lb, SReal):
            raise Unsupported('merge of bits and reals')
        return SBits(bits_of(la)), SBits(bits_of(lb))
    if isinstance(la, SReal) or isinstance(lb, SReal):
        return to_real(la), to_real(lb)
    return SInt(to_int_e(la)), SInt(to_int_e(lb))


def site(c, a, b):
    """scalar if-then-else"""
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    ce = c.e if isinstance(c, SBool) else truth(c)
    if is_true(ce):
        return a
    if is_false(ce):
        return b
    if a is b:
        return a
    if isinstance(a, NUMS) and isinstance(b, NUMS) and type(a) is type(b):
        if a == b or (a != a and b != b):
            return a
    la, lb = join_lift(a, b)
    if isinstance(la, SReal):
        if la.k is None and lb.k is None:
            return SReal(If(ce, la.e, lb.e))
        return SReal(If(ce, la.e, lb.e), If(ce, kof(la), kof(lb)))
    return wrap(If(ce, la.e, lb.e))


def same_value(a, b):
    """z3 formula: scalars a and b are the same value (nan equals nan)"""
    if isinstance(a, NUMS) and isinstance(b, NUMS):
        return z3.BoolVal(a == b or (a != a and b != b))
    la, lb = join_lift(a, b)
    if isinstance(la, SReal):
        if la.k is None and lb.k is None:
            return la.e == lb.e
        ka, kb = kof(la), kof(lb)
        return And(ka == kb, z3.Implies(ka == FIN, la.e == lb.e))
    return la.e == lb.e


def dkind(dt):
    """dtype (string, numpy dtype, python type) -> 'f' 'i' 'b' 'O' 'U'"""
    if dt is None:
        return 'f'
    if isinstance(dt, str):
        if dt in ('bool', 'bool_', '?', 'b1'):
            return 'b'
        if dt == 'float':
            return 'f'
        if dt == 'int':
            return 'i'
        if dt in ('O', 'object'):
            return 'O'
        return _np.dtype(dt).kind.replace('u', 'i')
    if dt is float:
        return 'f'
    if dt is int:
        return 'i'
    if dt is bool:
        return 'b'
    if dt is object:
        return 'O'
    if hasattr(dt, '__symkind__'):
        return dt.__symkind__
    k = _np.dtype(dt).kind
    return {'u': 'i'}.get(k, k)


def cast(x, dt, unsafe=True):
    """element cast; kinds of the engine ('b' is bool) or numpy types"""
    k = 'b' if isinstance(dt, str) and dt == 'b' else dkind(dt)
    if k == 'f':
        if isinstance(x, NUMS) and not isinstance(x, bool):
            return x if isinstance(x, float) else float(x)
        return to_real(x)
    if k == 'i':
        if isinstance(x, (int, _np.integer)) and not isinstance(x, bool):
            return int(x)
        l = lift(x)
        if isinstance(l, (SInt, SBits)):
            return l
        if isinstance(l, SBool):
            return mki(to_int_e(l))
        if l.k is not None:
            # numpy: nan -> unspecified integer
            return mki(If(l.k == FIN, to_int_e(trunc(SReal(l.e))),
                          CTX.fresh('nan2int', I)))
        return trunc(l)
    if k == 'b':
        if isinstance(x, (bool, _np.bool_)):
            return bool(x)
        return mkb(z3.simplify(truth(x)))
    return x

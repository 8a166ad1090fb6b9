"""
Symbolic survey exposures: the contract of lsst.afw.image exposures and of
lsst.geom the checked code relies on.  Exposures of several bands are views into
one family of arrays indexed by (band, row, col).
"""
import types
import z3
from .core import CTX, And, Or, Not, If, Unsupported
from .values import (
    SBool, SInt, SReal, SBits, lift, to_int_e, to_real, wrap, I, R, B, BVS)
from .arr import SArr, ix, assign
from . import rt, obsmodel as om
from .obsmodel import sub
from .rt import SList

PLANES = ('image', 'variance', 'mask')


class Band:
    """a band label: equal exactly when its number is"""
    __sym_heap__ = True
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return SBool(self.e == o.e) if isinstance(o, Band) else False

    def __ne__(self, o):
        return SBool(self.e != o.e) if isinstance(o, Band) else True

    def __sym_vmap__(self, f):
        return Band(f(self.e))

    def __str__(self):
        return 'band'


class Fam:
    """the pixel planes behind the exposures of one MultibandExposure"""
    __sym_heap__ = True

    def __init__(self, name, data, npre, geo, local=False):
        self.name, self.data, self.npre, self.geo = name, data, npre, geo
        self.local = local

    def roots(self):
        return list(self.data.values()) + [self]

    def __sym_vmap__(self, f):
        if not self.local:
            return self
        return Fam(self.name, {k: rt.vmap(v, f) for k, v in self.data.items()},
                   self.npre, self.geo, True)

    def shape(self):
        return self.data['image'].shape[self.npre:]


class Geo:
    """what exposures share besides their pixels"""

    def __init__(self, wcs=None, xy0=None, psf=None, filt=None):
        self.wcs, self.xy0, self.psf, self.filt = wcs, xy0, psf, filt


class Plane:
    __sym_heap__ = True
    __hash__ = None

    def __init__(self, fam, n, pre):
        self.fam, self.n, self.pre = fam, n, tuple(pre)

    def __sym_vmap__(self, f):
        return Plane(rt.vmap(self.fam, f), self.n, tuple(f(p) for p in self.pre))

    @property
    def array(self):
        return sub(self.fam.data[self.n], self.pre)

    @array.setter
    def array(self, v):
        a = self.array
        if isinstance(v, SArr) and v.buf is a.buf:
            return
        assign(a, v)


class Exp:
    __sym_heap__ = True
    __hash__ = None

    def __init__(self, fam, pre=()):
        self.fam, self.pre = fam, tuple(pre)
        self.over = {}

    def __sym_vmap__(self, f):
        e = type(self)(rt.vmap(self.fam, f), tuple(f(p) for p in self.pre))
        e.over = {k: rt.vmap(v, f) for k, v in self.over.items()}
        return e

    image = property(lambda s: Plane(s.fam, 'image', s.pre))
    variance = property(lambda s: Plane(s.fam, 'variance', s.pre))
    mask = property(lambda s: Plane(s.fam, 'mask', s.pre))

    def _geo(self, n):
        if n in self.over:
            return self.over[n]
        g = getattr(self.fam.geo, n)
        return g(*self.pre) if callable(g) else g

    def getWcs(self):
        return self._geo('wcs')

    def getXY0(self):
        return self._geo('xy0')

    def getPsf(self):
        return self._geo('psf')

    def getFilter(self):
        return self._geo('filt')

    def getBBox(self):
        y, x = self.fam.shape()
        xy = self.getXY0()
        return Box(xy.x, xy.y, SInt(ix(x)), SInt(ix(y)))

    def setWcs(self, v):
        self.over['wcs'] = v

    def setPsf(self, v):
        self.over['psf'] = v

    def setFilter(self, v):
        self.over['filt'] = v

    def __getitem__(self, box):
        """the part of the exposure inside a box: a view"""
        if not isinstance(box, Box):
            raise Unsupported('part of an exposure by %r' % (box,))
        if not self.getBBox().contains(box):
            raise om.EXC['LengthError']('box')
        xy = self.getXY0()
        y, x = box.y0 - xy.y, box.x0 - xy.x
        data = {n: sub(a, self.pre)[slice(y, y + box.h, None),
                                    slice(x, x + box.w, None)]
                for n, a in self.fam.data.items()}
        g = Geo(self.getWcs(), Pt(box.x0, box.y0), self.getPsf(), self.getFilter())
        return type(self)(Fam(self.fam.name + '.part', data, 0, g, local=True))

    def deep(self, cls=None):
        data = {n: sub(a, self.pre).copy() for n, a in self.fam.data.items()}
        g = Geo(self.getWcs(), self.getXY0(), self.getPsf(), self.getFilter())
        return (cls or Exp)(Fam(self.fam.name + '.copy', data, 0, g, local=True))


class MBExp:
    """MultibandExposure"""
    __sym_heap__ = True
    __hash__ = None

    def __init__(self, fam, nb):
        self.fam, self.nb = fam, nb
        self.bands = SList.sym(nb.e, lambda k: Band(k))

    def __getitem__(self, b):
        if isinstance(b, Band):
            return Exp(self.fam, (b.e,))
        raise Unsupported('exposure of %r' % (b,))

    @property
    def singles(self):
        return om.MetaSeq(self.nb.e, lambda k: Exp(self.fam, (k,)), self.fam.roots(),
                          'mbexp')

    def __sym_iter__(self):
        return self.singles

    def __sym_len__(self):
        return self.nb

    def getBBox(self):
        return Exp(self.fam, (z3.IntVal(0),)).getBBox()


class Pt:
    """Point2I, Point2D, Extent2I, Extent2D"""
    __sym_heap__ = True
    __hash__ = None

    def __init__(self, x, y):
        self.x, self.y = x, y

    def getX(self):
        return self.x

    def getY(self):
        return self.y

    def __sub__(self, o):
        return Pt(self.x - o.x, self.y - o.y)

    def __add__(self, o):
        return Pt(self.x + o.x, self.y + o.y)

    def __sym_vmap__(self, f):
        return Pt(rt.vmap(self.x, f), rt.vmap(self.y, f))


def _point(i):
    def make(x=None, y=None):
        if isinstance(x, Pt):
            x, y = x.x, x.y
        if i:
            x, y = [_lround(v) for v in (x, y)]
        else:
            x, y = [v if isinstance(lift(v), SReal) else to_real(lift(v)) for v in (x, y)]
        return Pt(x, y)
    return make


def _lround(v):
    v = lift(v)
    if isinstance(v, SInt):
        return v
    if isinstance(v, SReal):
        # halves are rounded away from zero
        e = v.e
        return SInt(If(e >= 0, z3.ToInt(e + z3.RealVal('1/2')),
                       -z3.ToInt(-e + z3.RealVal('1/2'))))
    raise Unsupported('point of %s' % type(v).__name__)


class Box:
    """Box2I by corner and size"""
    __sym_heap__ = True
    __hash__ = None

    def __init__(self, x0, y0, w, h):
        self.x0, self.y0, self.w, self.h = x0, y0, w, h

    def getBeginX(self):
        return self.x0

    def getBeginY(self):
        return self.y0

    getMinX, getMinY = getBeginX, getBeginY

    def getMin(self):
        return Pt(self.x0, self.y0)

    def getCenter(self):
        return Pt(to_real(lift(self.x0)) + (to_real(lift(self.w)) - 1)/2,
                  to_real(lift(self.y0)) + (to_real(lift(self.h)) - 1)/2)

    def grow(self, n):
        self.x0, self.y0 = self.x0 - n, self.y0 - n
        self.w, self.h = self.w + 2*n, self.h + 2*n

    def ends(self):
        return [to_int_e(lift(v)) for v in (self.x0, self.y0, self.x0 + self.w,
                                            self.y0 + self.h)]

    def contains(self, o):
        a, b, c, d = self.ends()
        e, f, g, h = o.ends()
        empty = Or(g <= e, h <= f)
        return SBool(Or(empty, And(a <= e, b <= f, g <= c, h <= d)))

    def clip(self, o):
        a, b, c, d = self.ends()
        e, f, g, h = o.ends()

        def mx(p, q):
            return If(p >= q, p, q)

        def mn(p, q):
            return If(p <= q, p, q)
        x0, y0, x1, y1 = mx(a, e), mx(b, f), mn(c, g), mn(d, h)
        self.x0, self.y0 = SInt(x0), SInt(y0)
        self.w, self.h = SInt(If(x1 > x0, x1 - x0, 0)), SInt(If(y1 > y0, y1 - y0, 0))


BITS = ('BAD', 'EDGE', 'DETECTED', 'NO_DATA', 'BRIGHT', 'BRIGHT_EXPANDED',
        'APODIZED_EDGE')


def mk_mbexp(name, nb, ny, nx, geo=None):
    from .lib import inp
    sh = (nb, ny, nx)
    data = {n: inp('%s_%s' % (name, n), sh, 'bits' if n == 'mask' else 'f')
            for n in PLANES}
    return MBExp(Fam(name, data, 1, geo or Geo()), nb)


class MaskCls:
    """lsst.afw.image.Mask: named planes, each with a bit of its own"""

    def __init__(self):
        self.bits = {}
        self.known = {'BAD', 'EDGE', 'DETECTED', 'DETECTED_NEGATIVE', 'NO_DATA', 'SAT'}

    def addMaskPlane(self, n):
        self.known.add(n)

    def bit(self, n):
        if n not in self.bits:
            self.bits[n] = SBits(z3.Const('BIT_' + n, BVS))
        return self.bits[n]

    def getPlaneBitMask(self, n):
        if n not in self.known:
            raise KeyError(n)
        return self.bit(n)


class FieldDecl:
    """declaration of a configuration option"""

    def __init__(self, *a, **k):
        pass

    def __class_getitem__(cls, t):
        return cls


def ext(mask=None, **more):
    """contract modules for lsst.*"""
    from .loader import Auto
    e = {}

    def mod(n, **kw):
        m = e.get(n)
        if m is None:
            m = e[n] = Auto(n)
            p, _, c = n.rpartition('.')
            if p:
                setattr(mod(p), c, m)
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    mod('lsst.afw.image', Mask=mask or MaskCls())
    P, Q = _point(True), _point(False)

    def box(p, q):
        return Box(p.x, p.y, q.x, q.y)
    mod('lsst.geom', Point2I=P, Point2D=Q, Extent2I=P, Extent2D=Q, Box2I=box,
        arcseconds='arcseconds', degrees='degrees')
    X = types.ModuleType('lsst.pex.exceptions')
    for n in ('InvalidParameterError', 'LengthError', 'RuntimeError'):
        setattr(X, n, om.EXC.setdefault(n, type(n, (Exception,), {})))
    mod('lsst.pex')
    mod('lsst.pex.config', **{n: type(n, (FieldDecl,), {}) for n in (
        'Field', 'ListField', 'ChoiceField', 'ConfigField', 'ConfigurableField')})
    e['lsst.pex.config'].Config = type('Config', (), {})
    e['lsst.pex.config'].FieldValidationError = om.EXC.setdefault(
        'FieldValidationError', type('FieldValidationError', (Exception,), {}))
    mod('lsst.pipe.base', Task=type('Task', (), {}))
    e['lsst.pex.exceptions'] = X
    e['lsst.pex'].exceptions = X
    for n, kw in more.items():
        mod(n.replace('__', '.'), **kw)
    r = om.ngmix_ext()
    r.update(e)
    return r

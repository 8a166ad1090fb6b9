"""
Stand-in for the parts of the LSST stack the checked code uses: images and
exposures with shared pixel memory, integer boxes in parent coordinates, mask
planes, multi-band containers, configuration objects and heavy footprints.
Written from the public documentation of those classes; an external contract.
"""
import sys
import types
import numpy as np


def mod(name, **kw):
    m = sys.modules.get(name)
    if m is None:
        m = types.ModuleType(name)
        m.__path__ = []
        sys.modules[name] = m
        p, _, c = name.rpartition('.')
        if p:
            if p not in sys.modules:
                mod(p)
            setattr(sys.modules[p], c, m)
    m.__dict__.update(kw)
    return m


# ---------------------------------------------------------------- exceptions
class InvalidParameterError(Exception):
    pass


class LengthError(Exception):
    pass


# ---------------------------------------------------------------- geometry
def _lround(v):
    return int(np.floor(v + 0.5)) if v >= 0 else -int(np.floor(-v + 0.5))


class _Pair:
    def __init__(self, x=0, y=0):
        if isinstance(x, _Pair):
            x, y = x.x, x.y
        self.x, self.y = self._cv(x), self._cv(y)

    def getX(self):
        return self.x

    def getY(self):
        return self.y

    def __iter__(self):
        return iter((self.x, self.y))

    def __getitem__(self, i):
        return (self.x, self.y)[i]

    def __eq__(self, o):
        return isinstance(o, _Pair) and (self.x, self.y) == (o.x, o.y)

    __hash__ = None

    def __repr__(self):
        return '%s(%r, %r)' % (type(self).__name__, self.x, self.y)


class _Int:
    @staticmethod
    def _cv(v):
        if isinstance(v, (float, np.floating)):
            return _lround(v)
        return int(v)


class _Dbl:
    @staticmethod
    def _cv(v):
        return float(v)


class Extent2I(_Int, _Pair):
    pass


class Extent2D(_Dbl, _Pair):
    pass


class Point2I(_Int, _Pair):
    def __sub__(self, o):
        if isinstance(o, (Point2I,)):
            return Extent2I(self.x - o.x, self.y - o.y)
        return type(self)(self.x - o.x, self.y - o.y)

    def __add__(self, o):
        return type(self)(self.x + o.x, self.y + o.y)


class Point2D(_Dbl, _Pair):
    def __sub__(self, o):
        if isinstance(o, Point2D):
            return Extent2D(self.x - o.x, self.y - o.y)
        return Point2D(self.x - o.x, self.y - o.y)

    def __add__(self, o):
        return Point2D(self.x + o.x, self.y + o.y)


class Box2I:
    def __init__(self, a=None, b=None):
        if a is None:
            self.x0 = self.y0 = self.w = self.h = 0
        elif isinstance(a, Box2I):
            self.x0, self.y0, self.w, self.h = a.x0, a.y0, a.w, a.h
        elif isinstance(b, Extent2I):
            self.x0, self.y0, self.w, self.h = a.x, a.y, b.x, b.y
        else:
            self.x0, self.y0 = a.x, a.y
            self.w, self.h = b.x - a.x + 1, b.y - a.y + 1

    def getBeginX(self):
        return self.x0

    def getBeginY(self):
        return self.y0

    getMinX, getMinY = getBeginX, getBeginY

    def getEndX(self):
        return self.x0 + self.w

    def getEndY(self):
        return self.y0 + self.h

    def getMaxX(self):
        return self.x0 + self.w - 1

    def getMaxY(self):
        return self.y0 + self.h - 1

    def getWidth(self):
        return self.w

    def getHeight(self):
        return self.h

    def getMin(self):
        return Point2I(self.x0, self.y0)

    def getDimensions(self):
        return Extent2I(self.w, self.h)

    def getCenter(self):
        return Point2D(self.x0 + (self.w - 1)/2, self.y0 + (self.h - 1)/2)

    def isEmpty(self):
        return self.w <= 0 or self.h <= 0

    def grow(self, n):
        self.x0 -= n
        self.y0 -= n
        self.w += 2*n
        self.h += 2*n

    def contains(self, o):
        if isinstance(o, _Pair):
            return (self.x0 <= o.x < self.x0 + self.w
                    and self.y0 <= o.y < self.y0 + self.h)
        return o.isEmpty() or (
            self.x0 <= o.x0 and self.y0 <= o.y0
            and o.x0 + o.w <= self.x0 + self.w and o.y0 + o.h <= self.y0 + self.h)

    def clip(self, o):
        x0, y0 = max(self.x0, o.x0), max(self.y0, o.y0)
        x1 = min(self.x0 + self.w, o.x0 + o.w)
        y1 = min(self.y0 + self.h, o.y0 + o.h)
        self.x0, self.y0 = x0, y0
        self.w, self.h = max(0, x1 - x0), max(0, y1 - y0)

    def __eq__(self, o):
        return (self.x0, self.y0, self.w, self.h) == (o.x0, o.y0, o.w, o.h)

    __hash__ = None

    def __repr__(self):
        return 'Box2I(%d, %d, %d, %d)' % (self.x0, self.y0, self.w, self.h)


class Angle:
    def __init__(self, deg):
        self.deg = deg

    def asDegrees(self):
        return self.deg


class SpherePoint:
    def __init__(self, ra, dec):
        self.ra, self.dec = ra, dec

    def getRa(self):
        return Angle(self.ra)

    def getDec(self):
        return Angle(self.dec)


# ---------------------------------------------------------------- images
class _Plane:
    DT = None

    def __init__(self, array, xy0=None, dtype=None):
        a = np.asarray(array)
        self._a = a if dtype is None else a.astype(dtype)
        self.xy0 = Point2I(0, 0) if xy0 is None else Point2I(xy0)

    @property
    def array(self):
        return self._a

    @array.setter
    def array(self, v):
        self._a[:] = v

    def getXY0(self):
        return self.xy0

    def getBBox(self):
        h, w = self._a.shape[-2:]
        return Box2I(self.xy0, Extent2I(w, h))

    def _sub(self, b):
        if not self.getBBox().contains(b):
            raise LengthError('box does not fit')
        y, x = b.y0 - self.xy0.y, b.x0 - self.xy0.x
        r = type(self).__new__(type(self))
        r._a = self._a[..., y:y + b.h, x:x + b.w]
        r.xy0 = b.getMin()
        return r

    def __getitem__(self, k):
        if isinstance(k, Box2I):
            return self._sub(k)
        if isinstance(k, Point2I):
            return self._a[k.y - self.xy0.y, k.x - self.xy0.x]
        raise TypeError(k)

    def clone(self):
        r = type(self).__new__(type(self))
        r._a = self._a.copy()
        r.xy0 = Point2I(self.xy0)
        return r


class Image(_Plane):
    pass


def ImageD(array):
    return Image(np.array(array, dtype='f8'))


class Mask(_Plane):
    planes = {n: i for i, n in enumerate((
        'BAD', 'SAT', 'INTRP', 'CR', 'EDGE', 'DETECTED', 'DETECTED_NEGATIVE',
        'SUSPECT', 'NO_DATA'))}

    @classmethod
    def addMaskPlane(cls, n):
        if n not in cls.planes:
            cls.planes[n] = len(cls.planes)
        return cls.planes[n]

    @classmethod
    def getPlaneBitMask(cls, n):
        if isinstance(n, (list, tuple)):
            r = 0
            for x in n:
                r |= cls.getPlaneBitMask(x)
            return r
        if n not in cls.planes:
            raise InvalidParameterError(n)
        return 1 << cls.planes[n]


class MaskedImage:
    def __init__(self, image, mask=None, variance=None, dtype=None):
        if mask is None:
            mask = Mask(np.zeros(image.array.shape, 'i4'), image.xy0)
        if variance is None:
            variance = Image(np.zeros(image.array.shape, 'f4'), image.xy0)
        self.image, self.mask, self.variance = image, mask, variance

    def getBBox(self):
        return self.image.getBBox()


MaskedImageF = MaskedImage


class FilterLabel:
    def __init__(self, band):
        self.bandLabel = band

    def __eq__(self, o):
        return isinstance(o, FilterLabel) and self.bandLabel == o.bandLabel

    __hash__ = None


class Exposure:
    DT = 'f4'

    def __init__(self, a=None, b=None, deep=False):
        self.wcs = self.psf = self.filt = None
        if isinstance(a, Exposure):
            self.filt, self.wcs, self.psf = a.filt, a.wcs, a.psf
            src = a
            if deep:
                self.image = Image(src.image.array.astype(self.DT), src.image.xy0)
                self.mask = src.mask.clone()
                self.variance = src.variance.clone()
            else:
                self.image, self.mask, self.variance = src.image, src.mask, src.variance
        elif isinstance(a, MaskedImage):
            self.image, self.mask, self.variance = a.image, a.mask, a.variance
        elif isinstance(a, Box2I):
            self._alloc((a.h, a.w), a.getMin())
        else:
            self._alloc((b, a), Point2I(0, 0))

    def _alloc(self, sh, xy0):
        self.image = Image(np.zeros(sh, self.DT), xy0)
        self.mask = Mask(np.zeros(sh, 'i4'), xy0)
        self.variance = Image(np.zeros(sh, 'f4'), xy0)

    @property
    def maskedImage(self):
        return MaskedImage(self.image, self.mask, self.variance)

    def getMaskedImage(self):
        return self.maskedImage

    def __getitem__(self, box):
        r = type(self).__new__(type(self))
        r.filt, r.wcs, r.psf = self.filt, self.wcs, self.psf
        r.image, r.mask, r.variance = self.image[box], self.mask[box], self.variance[box]
        return r

    def getBBox(self):
        return self.image.getBBox()

    def getXY0(self):
        return self.image.getXY0()

    def getWcs(self):
        return self.wcs

    def setWcs(self, w):
        self.wcs = w

    def getPsf(self):
        return self.psf

    def setPsf(self, p):
        self.psf = p

    def getFilter(self):
        return self.filt

    def setFilter(self, f):
        self.filt = f


class ExposureF(Exposure):
    pass


class ExposureD(Exposure):
    DT = 'f8'


class MultibandExposure:
    """bands share one cube per plane; the singles are views into it"""

    def __init__(self, bands, image, mask, variance, xy0, cls, infos):
        self.bands = tuple(bands)
        self._cube = (image, mask, variance)
        self.image = Image(image, xy0)
        self.mask = Mask(mask, xy0)
        self.variance = Image(variance, xy0)
        self.singles = []
        for i, b in enumerate(self.bands):
            e = cls.__new__(cls)
            e.image, e.mask = Image(image[i], xy0), Mask(mask[i], xy0)
            e.variance = Image(variance[i], xy0)
            e.wcs, e.psf, e.filt = infos[i]
            self.singles.append(e)

    @classmethod
    def fromExposures(cls, bands, exps):
        exps = list(exps)
        return cls(bands, np.array([e.image.array for e in exps]),
                   np.array([e.mask.array for e in exps]),
                   np.array([e.variance.array for e in exps]), exps[0].getXY0(),
                   type(exps[0]), [(None, e.psf, None) for e in exps])

    def clone(self):
        i, m, v = self._cube
        return MultibandExposure(self.bands, i.copy(), m.copy(), v.copy(),
                                 self.image.xy0, type(self.singles[0]),
                                 [(None, None, None)]*len(self.bands))

    def __getitem__(self, b):
        return self.singles[self.bands.index(b)]

    def __iter__(self):
        return iter(self.singles)

    def __len__(self):
        return len(self.bands)

    def getBBox(self):
        return self.image.getBBox()


# ---------------------------------------------------------------- footprints
class SpanSet:
    def __init__(self, mask):
        self.mask = mask

    @classmethod
    def fromMask(cls, m):
        return cls(m)

    def getBBox(self):
        a = self.mask.array
        ys, xs = np.where(a)
        if ys.size == 0:
            return Box2I()
        x0, y0 = self.mask.xy0.x + xs.min(), self.mask.xy0.y + ys.min()
        return Box2I(Point2I(x0, y0), Extent2I(np.ptp(xs) + 1, np.ptp(ys) + 1))


class Peak:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def getIx(self):
        return _lround(self.x)

    def getIy(self):
        return _lround(self.y)

    def getI(self):
        return Point2I(self.getIx(), self.getIy())

    def getCentroid(self):
        return Point2D(self.x, self.y)


class Footprint:
    def __init__(self, spans):
        self.spans = spans
        self.peaks = []

    def addPeak(self, x, y, v):
        self.peaks.append(Peak(x, y))

    def getPeaks(self):
        return self.peaks

    def getBBox(self):
        return self.spans.getBBox()


class Heavy:
    """pixels of one band; adds them to an image where the two overlap"""

    def __init__(self, values, box):
        self.values, self.box = values, box

    def _do(self, image, sign):
        b = Box2I(self.box)
        b.clip(image.getBBox())
        if b.isEmpty():
            return
        t = image[b]
        y, x = b.y0 - self.box.y0, b.x0 - self.box.x0
        v = self.values[y:y + b.h, x:x + b.w]
        if sign > 0:
            t.array[:, :] += v
        else:
            t.array[:, :] -= v

    def addTo(self, image):
        self._do(image, 1)

    def subtractFrom(self, image):
        self._do(image, -1)

    def extractImage(self):
        return Image(np.array(self.values), self.box.getMin())


class HeavyFootprintF(Heavy):
    pass


def makeHeavyFootprint(foot, mi):
    b = foot.getBBox()
    return {None: Heavy(mi.image[b].array.copy(), b)}


class MultibandFootprint(dict):
    @classmethod
    def fromImages(cls, bands, images, footprint=None):
        b = footprint.getBBox()
        r = cls()
        for i, n in enumerate(bands):
            im = Image(images.array[i], images.box.getMin())
            r[n] = Heavy(im[b].array.copy(), b)
        return r


class MultibandImage:
    def __init__(self, bands, array, box):
        self.bands, self.array, self.box = bands, array, box


# ---------------------------------------------------------------- tables
class SourceCatalog(list):
    def find(self, sid):
        for s in self:
            if s.getId() == sid:
                return s
        return None


class SourceTable:
    @staticmethod
    def makeMinimalSchema():
        return object()

    @staticmethod
    def make(schema):
        return schema


# ---------------------------------------------------------------- configuration
class FieldValidationError(ValueError):
    def __init__(self, field, config, msg):
        super().__init__(msg)


class Field:
    def __init__(self, doc='', dtype=None, default=None, optional=False, allowed=None,
                 target=None, **kw):
        self.default, self.allowed, self.target = default, allowed, target

    def __class_getitem__(cls, t):
        class F(cls):
            dtype = t
        F.__name__ = cls.__name__
        return F

    def __set_name__(self, o, n):
        self.name = n

    def initial(self):
        return self.default

    def __get__(self, o, t=None):
        if o is None:
            return self
        return o._values[self.name]

    def __set__(self, o, v):
        if o._frozen:
            raise FieldValidationError(self, o, 'cannot modify a frozen Config')
        if self.allowed is not None and v not in self.allowed:
            raise FieldValidationError(self, o, 'not allowed')
        o._values[self.name] = v


class ChoiceField(Field):
    pass


class ListField(Field):
    def initial(self):
        return None if self.default is None else list(self.default)


class ConfigField(Field):
    def initial(self):
        return self.dtype()


class ConfigurableField(Field):
    def initial(self):
        return self.target.ConfigClass()


class Config:
    def __init__(self):
        d = self.__dict__
        d['_values'] = {}
        d['_frozen'] = False
        for c in type(self).__mro__[::-1]:
            for n, f in vars(c).items():
                if isinstance(f, Field):
                    self._values[n] = f.initial()
        self.setDefaults()

    def __setattr__(self, n, v):
        if isinstance(getattr(type(self), n, None), (Field, property)):
            object.__setattr__(self, n, v)
        else:
            raise AttributeError('%s has no attribute %s' % (type(self).__name__, n))

    def setDefaults(self):
        pass

    def validate(self):
        pass

    def freeze(self):
        self.__dict__['_frozen'] = True
        for v in self._values.values():
            if isinstance(v, Config):
                v.freeze()

    def toDict(self):
        return {n: v.toDict() if isinstance(v, Config)
                else list(v) if isinstance(v, list) else v
                for n, v in self._values.items()}


class Task:
    ConfigClass = Config

    def __init__(self, config=None, **kw):
        self.config = config if config is not None else type(self).ConfigClass()

    def makeSubtask(self, name, **kw):
        f = getattr(type(self.config), name)
        setattr(self, name, f.target(config=getattr(self.config, name)))


class SourceDetectionConfig(Config):
    thresholdValue = Field[float](default=5.0)


class SourceDetectionTask(Task):
    ConfigClass = SourceDetectionConfig


class KernelPsf:
    def __init__(self, kernel):
        self.kernel = kernel

    def computeKernelImage(self, cen):
        return Image(self.kernel.image.array.copy())

    def clone(self):
        return KernelPsf(self.kernel)


class FixedKernel:
    def __init__(self, image):
        self.image = image


class _Dummy:
    ConfigClass = Config

    def __init__(self, *a, **k):
        pass

    def __class_getitem__(cls, t):
        return cls


def _dummy(n):
    return type(n, (_Dummy,), {})


mod('lsst.geom', Point2I=Point2I, Point2D=Point2D, Extent2I=Extent2I,
    Extent2D=Extent2D, Box2I=Box2I, arcseconds='arcseconds', degrees='degrees',
    SpherePoint=SpherePoint, Angle=Angle)
mod('lsst.pex.exceptions', InvalidParameterError=InvalidParameterError,
    LengthError=LengthError, RuntimeError=type('RuntimeError', (RuntimeError,), {}))
mod('lsst.pex.config', Config=Config, Field=Field, ChoiceField=ChoiceField,
    ListField=ListField, ConfigField=ConfigField, ConfigurableField=ConfigurableField,
    FieldValidationError=FieldValidationError)
mod('lsst.pipe.base', Task=Task, TaskError=type('TaskError', (Exception,), {}))
mod('lsst.afw.image', Image=Image, ImageD=ImageD, Mask=Mask, MaskedImage=MaskedImage,
    MaskedImageF=MaskedImageF, Exposure=Exposure, ExposureF=ExposureF,
    ExposureD=ExposureD, MultibandExposure=MultibandExposure, FilterLabel=FilterLabel,
    MultibandImage=MultibandImage)
mod('lsst.afw.table', SourceCatalog=SourceCatalog, SourceTable=SourceTable)
mod('lsst.afw.geom', SpanSet=SpanSet)
mod('lsst.afw.detection', HeavyFootprintF=HeavyFootprintF, Footprint=Footprint,
    makeHeavyFootprint=makeHeavyFootprint)
mod('lsst.afw.detection.multiband', MultibandFootprint=MultibandFootprint)
mod('lsst.afw.math', FixedKernel=FixedKernel)
mod('lsst.meas.algorithms', SourceDetectionTask=SourceDetectionTask,
    SourceDetectionConfig=SourceDetectionConfig, KernelPsf=KernelPsf,
    SubtractBackgroundTask=_dummy('SubtractBackgroundTask'),
    SubtractBackgroundConfig=_dummy('SubtractBackgroundConfig'))
mod('lsst.meas.deblender', SourceDeblendTask=_dummy('SourceDeblendTask'))
mod('lsst.meas.extensions.scarlet', ScarletDeblendTask=_dummy('ScarletDeblendTask'),
    DeconvolveExposureTask=_dummy('DeconvolveExposureTask'))
mod('lsst.meas.extensions.scarlet.io.utils', updateCatalogFootprints=lambda **k: None)
mod('lsst.meas.base', SingleFrameMeasurementConfig=_dummy('SingleFrameMeasurementConfig'),
    SingleFrameMeasurementTask=_dummy('SingleFrameMeasurementTask'),
    NoiseReplacerConfig=_dummy('NoiseReplacerConfig'),
    NoiseReplacer=_dummy('NoiseReplacer'))
mod('lsst.scarlet.lite', Source=_dummy('Source'), Blend=_dummy('Blend'))

"""random survey exposures from a description (stubs/lsst)"""
import numpy as np
import lsst.geom as geom
import lsst.afw.image as ai
import lsst.afw.math as am
import lsst.meas.algorithms as ma
BANDS = 'grizy'


class Wcs:
    """affine: sky (ra, dec in degrees) = D (pixel - 3.25) in arcseconds / 3600"""

    def __init__(self, m):
        self.m = np.array(m, dtype='f8')

    def skyToPixelArray(self, ra, dec, degrees=False):
        v = np.array([ra, dec], dtype='f8')*(3600 if degrees else 206264.80624709636)
        p = np.linalg.solve(self.m, v.reshape(2, -1)) + 3.25
        return p[0].copy(), p[1].copy()

    def skyToPixel(self, s):
        x, y = self.skyToPixelArray([s.ra], [s.dec], degrees=True)
        return geom.Point2D(x[0], y[0])

    def pixelToSky(self, p):
        s = self.m @ np.array([p.x - 3.25, p.y - 3.25])/3600
        return geom.SpherePoint(s[0], s[1])

    def linearizePixelToSky(self, p, unit):
        assert unit == 'arcseconds'
        # a slight distortion: the derivative depends on the position
        m = self.m*(1 + 1e-4*p.x + 2e-4*p.y)

        class L:
            def getLinear(self):
                return self

            def getMatrix(self):
                return m
        return L()


def gen(rng, nb=None, lo=1, hi=16, square=False):
    ny = int(rng.randint(lo, hi))
    nx = ny if square else int(rng.randint(lo, hi))
    return dict(seed=int(rng.randint(1 << 30)), dims=[ny, nx],
                nb=int(rng.randint(1, 4)) if nb is None else nb,
                xy0=[int(v) for v in rng.randint(-20, 200, 2)],
                wcs=(rng.normal(size=(2, 2))*0.05 + np.array([[0, .2], [.2, 0]])).tolist())


def one(rng, d, b, cls=None, variance=None, mask=True, const=False):
    ny, nx = d['dims']
    box = geom.Box2I(geom.Point2I(*d['xy0']), geom.Extent2I(nx, ny))
    e = (cls or ai.ExposureF)(box)
    e.image.array[:] = rng.normal(size=(ny, nx))*5
    e.variance.array[:] = (rng.uniform(0.5, 3, (ny, nx)) if variance is None
                           else variance)*10.0**rng.randint(-1, 2)
    if mask:
        e.mask.array[:] = rng.choice([0, 0, 1, 2, 5, 2**20], size=(ny, nx))
    e.setFilter(ai.FilterLabel(BANDS[b]))
    e.setWcs(Wcs(d['wcs']))
    n = d.get('psf', 9)
    y, x = np.mgrid[:n, :n] - (n - 1)/2
    im = np.exp(-0.5*(x**2*(1 + .1*b) + y**2)/1.3**2) + 0.01*rng.uniform(size=(n, n))
    e.setPsf(ma.KernelPsf(am.FixedKernel(ai.ImageD(im/im.sum()))))
    return e


def mbexp(exps):
    m = ai.MultibandExposure.fromExposures([e.getFilter().bandLabel for e in exps], exps)
    for s, e in zip(m.singles, exps):
        s.setFilter(e.getFilter())
        s.setWcs(e.getWcs())
    return m


def build(d, **kw):
    rng = np.random.RandomState(d['seed'])
    return mbexp([one(rng, d, b, **kw) for b in range(d['nb'])])


def snap(m):
    return [tuple(p.array.copy() for p in (e.image, e.variance, e.mask))
            for e in m.singles]


def same(a, b, what):
    for i, (x, y) in enumerate(zip(a, b)):
        for n, p, q in zip(('image', 'variance', 'mask'), x, y):
            if not np.array_equal(p, q, equal_nan=n != 'mask'):
                return '%s of band %d of %s changed' % (n, i, what)

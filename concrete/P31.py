import numpy as np
import lsst.geom as geom
import lsst.afw.image as ai
from lsst.afw.detection import Footprint
from lsst.pex.exceptions import LengthError
from ngmix.gexceptions import GMixFatalError
from metadetect.lsst import util
from concrete import survey
RULE = ('random exposures with unusable variances, a distorted WCS and a PSF that varies '
        'with position; random sources, also without sky position, and stamp sizes')
N_QUICK, N_DEEP = 400, 6000


class Psf:
    def __init__(self, n, b):
        self.n, self.b = n, b

    def computeKernelImage(self, cen):
        y, x = np.mgrid[:self.n, :self.n] - (self.n - 1)/2
        im = np.exp(-0.5*(x**2 + y**2)/(2 + self.b)) + 1e-3*np.sin(
            cen.getX()*x + cen.getY()*y)**2 + 1e-4*(x + self.n)
        return ai.ImageD(im/im.sum())

    def clone(self):
        return Psf(self.n, self.b)


class Source:
    def __init__(self, d):
        self.d = d

    def getCoord(self):
        return self.d['coord']

    def getId(self):
        return 3

    def getCentroid(self):
        return geom.Point2D(*self.d['cen'])

    def getFootprint(self):
        class F:
            peaks = [self.peak(), 'other']

            def getPeaks(s):
                return s.peaks
        return F()

    def peak(self):
        x, y = self.d['peak']
        fp = Footprint.__new__(Footprint)
        fp.peaks = []
        fp.addPeak(x, y, 1.)
        return fp.peaks[0]


class Wcs(survey.Wcs):
    def skyToPixel(self, s):
        if s == 'nan':
            return geom.Point2D(np.nan, np.nan)
        return geom.Point2D(*s)


def cases(rng, deep):
    while True:
        d = survey.gen(rng, nb=int(rng.randint(1, 4)), lo=1, hi=20)
        d['bad'] = float(rng.choice([0, 0, .2, .7, 1]))
        d['psfn'] = int(rng.choice([3, 5, 9]))
        ny, nx = d['dims']
        x0, y0 = d['xy0']
        d['peak'] = [int(x0 + rng.randint(nx)), int(y0 + rng.randint(ny))]
        d['coord'] = 'nan' if rng.randint(3) == 0 else [
            float(x0 + rng.uniform(0, nx)), float(y0 + rng.uniform(0, ny))]
        d['cen'] = [float(x0 + rng.uniform(0, nx)), float(y0 + rng.uniform(0, ny))]
        d['size'] = int(rng.randint(1, 14))
        d['to'] = ['ormask', 'bmask', 'mask'][rng.choice(3, p=[.45, .45, .1])]
        d['keep'] = bool(rng.randint(2))
        yield d


def lround(v):
    return np.floor(v + .5) if v >= 0 else -np.floor(-v + .5)


def jac(j, wcs, x, y, xy0, cen=None):
    m = wcs.linearizePixelToSky(geom.Point2D(x, y), 'arcseconds').getLinear().getMatrix()
    row, col = (y - xy0[1], x - xy0[0]) if cen is None else (cen, cen)
    want = [row, col, -m[0, 0], m[0, 1], -m[1, 0], m[1, 1]]
    got = [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol]
    return np.allclose(want, got, rtol=1e-9, atol=1e-9)


def psf(o, k, wcs, x, y):
    if o.image.shape != k.shape or not np.allclose(o.image, k, rtol=1e-5, atol=1e-9):
        return 'PSF image'
    if not (o.weight > 0).all() or np.ptp(o.weight) != 0 or not np.isfinite(
            o.weight).all():
        return 'PSF weight'
    if not jac(o.jacobian, wcs, x, y, None, (k.shape[0] - 1)/2):
        return 'PSF Jacobian'


def check(d):
    rng = np.random.RandomState(d['seed'] + 1)
    m = survey.build(d)
    (ny, nx), (x0, y0) = d['dims'], d['xy0']
    for b, e in enumerate(m.singles):
        bad = rng.uniform(size=e.variance.array.shape) < d['bad']
        e.variance.array[bad] = rng.choice([0, -1])
        e.setWcs(Wcs(d['wcs']))
        e.setPsf(Psf(d['psfn'], b))
    old = survey.snap(m)
    e = m.singles[0]
    im, va, ma = old[0]
    wcs = e.getWcs()
    # exposure to observation
    o = None
    try:
        with np.errstate(divide='ignore'):
            o = util.exp2obs(e, copy_mask_to=d['to'], store_exp=d['keep'])
    except RuntimeError:
        if d['to'] != 'mask':
            raise
    except GMixFatalError:
        if (va > 0).any():
            return 'an exposure with positive variances is refused'
    if d['to'] == 'mask':
        if o is not None:
            return 'an unknown mask name is accepted'
    elif o is not None:
        if not np.array_equal(o.image, im):
            return 'image of the observation'
        wt = np.where(va > 0, 1/np.where(va > 0, va, 1).astype('f8'), 0)
        if not np.allclose(o.weight, wt, rtol=1e-6, atol=0):
            return 'weight of the observation'
        other = 'bmask' if d['to'] == 'ormask' else 'ormask'
        if not np.array_equal(getattr(o, d['to']), ma) or getattr(o, other).any():
            return 'masks of the observation'
        x, y = lround(x0 + (nx - 1)/2), lround(y0 + (ny - 1)/2)
        if not jac(o.jacobian, wcs, x, y, (x0, y0)):
            return 'Jacobian of the observation'
        k = e.getPsf().computeKernelImage(geom.Point2D(x, y)).array
        s = psf(o.psf, k, wcs, x, y)
        if s:
            return s
        if (o.meta.get('exposure') is e) != d['keep']:
            return 'exposure in the metadata'
        # and back
        n = None if d['keep'] else survey.build(d).singles[-1]
        keep = n and (n.getPsf(), n.getWcs())
        r = util.obs2exp(o, exp=n, copy_mask_from=d['to'], copy_psf=d['keep'])
        if n is not None and (r is not n or (n.getPsf(), n.getWcs()) != keep):
            return 'given exposure'
        if d['keep'] and not np.allclose(r.getPsf().computeKernelImage(
                geom.Point2D(0, 0)).array, o.psf.image):
            return 'PSF of the exposure'
        if not np.array_equal(r.image.array, im) or not np.array_equal(
                r.mask.array, ma):
            return 'pixels of the exposure'
        v = np.where(va > 0, va, np.inf)
        if not np.allclose(r.variance.array, v, rtol=1e-5, atol=0):
            return 'variance of the exposure'
    # stamps
    s = Source(d)
    h = d['size']//2
    px, py = d['peak']
    box = [px - h, py - h, px + h + 1, py + h + 1]
    fits = box[0] >= x0 and box[1] >= y0 and box[2] <= x0 + nx and box[3] <= y0 + ny
    try:
        bb = util.get_bbox(m, s, d['size'])
    except LengthError:
        if fits:
            return 'a stamp that fits is refused'
    else:
        if not fits:
            return 'a stamp that does not fit is accepted'
        if [bb.getBeginX(), bb.getBeginY(), bb.getEndX(), bb.getEndY()] != box:
            return 'box of the source'
    bb = util.get_bbox(m, s, d['size'], clip=True)
    box = [max(box[0], x0), max(box[1], y0), min(box[2], x0 + nx), min(box[3], y0 + ny)]
    if [bb.getBeginX(), bb.getBeginY(), bb.getEndX(), bb.getEndY()] != box:
        return 'clipped box of the source'
    sl = (slice(box[1] - y0, box[3] - y0), slice(box[0] - x0, box[2] - x0))
    usable = all((v[sl] > 0).any() for _, v, _ in old)
    try:
        mb = util.get_stamp_mbobs(m, s, d['size'], clip=True)
    except util.AllZeroWeightError:
        return 'usable stamps are refused' if usable else survey.same(
            old, survey.snap(m), 'data')
    if not usable:
        return 'a stamp without positive variance is accepted'
    if len(mb) != d['nb']:
        return 'number of bands of the stamp'
    x, y = d['peak'] if d['coord'] == 'nan' else d['coord']
    for b, ol in enumerate(mb):
        if len(ol) != 1 or ol.meta['band'] != survey.BANDS[b]:
            return 'band of the stamp'
        o = ol[0]
        im, va, ma = [a[sl] for a in old[b]]
        if not np.array_equal(o.image, im) or not np.array_equal(o.bmask, ma):
            return 'pixels of the stamp'
        if not np.allclose(o.weight, 1/np.median(va[va > 0].astype('f8')), rtol=1e-5):
            return 'weight of the stamp'
        if not jac(o.jacobian, wcs, x, y, box[:2]):
            return 'Jacobian of the stamp'
        k = m.singles[b].getPsf().computeKernelImage(s.getCentroid()).array
        r = psf(o.psf, k, wcs, x, y)
        if r:
            return r
        c = o.meta['orig_cen']
        if [c.getX(), c.getY()] != d['cen']:
            return 'centroid of the stamp'
    return survey.same(old, survey.snap(m), 'data')

import types
import numpy as np
import lsst.geom as geom
import lsst.afw.image as ai
from lsst.afw.table import SourceCatalog
from lsst.pex.exceptions import LengthError
from metadetect import fitting, procflags
from metadetect.lsst import measure, mbobs_extractor, util
from concrete import survey
RULE = ('random exposures of one to three bands with dead patches and up to eight sources, '
        'parents and children, some near the edge or without centroid; detections that find '
        'nothing and bands without usable data')
N_QUICK, N_DEEP = 120, 1500
SIZE = 9


class Source:
    def __init__(self, sid, nchild, peak, cen):
        self.sid, self.nchild, self.pk, self.cen = sid, nchild, peak, cen
        self.measured = []

    def __getitem__(self, c):
        assert c == 'deblend_nChild'
        return self.nchild

    get = __getitem__

    def getId(self):
        return self.sid

    def getCentroid(self):
        return geom.Point2D(*self.cen)

    def getCoord(self):
        return geom.SpherePoint(np.nan, np.nan)

    def getFootprint(self):
        x, y = self.pk

        def peak(x, y):
            return types.SimpleNamespace(
                getI=lambda: geom.Point2I(x, y), getIx=lambda: x, getIy=lambda: y,
                getCentroid=lambda: geom.Point2D(x + .25, y - .125))
        return types.SimpleNamespace(getPeaks=lambda: [peak(x, y), peak(x + 1, y)])


class Task:
    def callMeasure(self, source, exp):
        source.measured.append(exp)


class Detect:
    def __init__(self, found):
        self.found, self.exps = found, []

    def run(self, table, exp):
        self.exps.append(exp)
        return None if self.found is None else types.SimpleNamespace(sources=self.found)


class Deblend:
    schema = objectSchema = None

    def __init__(self):
        self.calls = []

    def run(self, *a, **k):
        self.calls.append((a, k))


def cases(rng, deep):
    while True:
        d = survey.gen(rng, nb=int(rng.randint(1, 4)), lo=SIZE + 3, hi=30)
        d['ns'] = int(rng.choice([0, 1, 2, 3, 5, 8]))
        d['mode'] = ['measure', 'measure', 'measure', 'detect'][rng.randint(4)]
        d['dead'] = int(rng.choice([0, 0, 1, 2]))
        d['double'] = bool(rng.randint(2))
        yield d


def config(nb, rng):
    bands = list(survey.BANDS[:nb])
    sb = [None, bands, [bands[rng.randint(nb)]]][rng.randint(3)]
    return {'pgauss': {'fwhm': 1.2}, 'stamp_size': SIZE, 'shear_bands': sb}


def eq(a, b):
    return a.dtype == b.dtype and all(
        np.array_equal(a[n], b[n], equal_nan=a[n].dtype.kind == 'f') for n in a.dtype.names)


def check(d):
    rng = np.random.RandomState(d['seed'] + 5)
    m = survey.build(d)
    (ny, nx), (x0, y0), nb = d['dims'], d['xy0'], d['nb']
    for e in m.singles:
        e.mask.array[:] |= rng.choice([0, ai.Mask.getPlaneBitMask('DETECTED')], size=(
            ny, nx)).astype(e.mask.array.dtype)
    if d['dead']:
        # nothing usable around there
        for e in [m.singles[rng.randint(nb)]] if d['dead'] == 1 else m.singles:
            e.variance.array[:, :nx//2 + 2] = rng.choice([0, -1])
    cat = SourceCatalog()
    ids = [int(v) for v in 50 + rng.permutation(40)[:d['ns']]]
    for s in ids:
        p = [int(x0 + rng.randint(nx)), int(y0 + rng.randint(ny))]
        if rng.randint(3):
            p = [min(max(p[0], x0 + SIZE//2), x0 + nx - 1 - SIZE//2),
                 min(max(p[1], y0 + SIZE//2), y0 + ny - 1 - SIZE//2)]
        c = [float(p[0] + rng.uniform(-1, 1)), float(p[1] + rng.uniform(-1, 1))]
        if rng.randint(4) == 0:
            c = [np.nan, np.nan]
        cat.append(Source(s, int(rng.choice([0, 0, 0, 2])), p, c))
    old = survey.snap(m)
    if d['mode'] == 'detect':
        return detect(d, m, cat, old, rng)
    conf = config(nb, rng)
    det = survey.one(rng, d, 0)
    det.mask.array[:] |= ai.Mask.getPlaneBitMask('DETECTED')*rng.randint(
        2, size=(ny, nx)).astype(det.mask.array.dtype)
    res = measure.measure(m, det, cat, None, Task(), conf, np.random.RandomState(8))
    if survey.same(survey.snap(m), old, 'x'):
        return 'the data changed'
    kids = [s for s in cat if s.nchild == 0]
    for s in cat:
        if [e is det for e in s.measured] != [True]*(s.nchild == 0):
            return 'objects without children are measured once'
    if not kids:
        return None if res is None else 'objects out of nothing'
    if res is None or len(res) != len(kids):
        return 'one row per object'
    # the order of the extractor
    order = list(mbobs_extractor.MBObsExtractor(m, cat).child_ids())
    if sorted(order) != sorted(s.sid for s in kids):
        return 'children'
    wcs, h = m.singles[0].getWcs(), SIZE//2
    bands = list(m.bands)
    sb = [i for i, b in enumerate(bands) if conf['shear_bands'] is None
          or b in conf['shear_bands']]
    for i, sid in enumerate(order):
        s, r = cat.find(sid), res[i]
        px, py = s.pk
        want = det.mask.array[py - y0, px - x0] & ~ai.Mask.getPlaneBitMask('DETECTED')
        if r['bmask'] != want:
            return 'bmask of row %d' % i
        bad = np.isnan(s.cen[1])
        cx, cy = (px + .25, py - .125) if bad else s.cen
        if not np.allclose([r['row'], r['col']], [cy, cx], rtol=1e-6):
            return 'position of row %d' % i
        o = [np.nan]*2 if bad else [cy - py, cx - px]
        if not np.allclose([r['row_diff'], r['col_diff']], o, atol=1e-4, equal_nan=True):
            return 'offset of row %d' % i
        if (r['row0'], r['col0'], r['stamp_size']) != (y0, x0, SIZE):
            return 'image of row %d' % i
        p = wcs.pixelToSky(geom.Point2D(*s.cen))
        if not np.allclose([r['ra'], r['dec']], [p.getRa().asDegrees(),
                                                p.getDec().asDegrees()], equal_nan=True):
            return 'sky position of row %d' % i
        edge = not (x0 <= px - h and px + h < x0 + nx and y0 <= py - h
                    and py + h < y0 + ny)
        sl = (slice(py - h - y0, py + h + 1 - y0), slice(px - h - x0, px + h + 1 - x0))
        zero = not edge and any((e.variance.array[sl] <= 0).all() for e in m.singles)
        flag = procflags.EDGE_HIT if edge else procflags.ZERO_WEIGHTS if zero else 0
        if r['stamp_flags'] != flag:
            return 'stamp flags of row %d: %s, not %s' % (i, r['stamp_flags'], flag)
        if flag:
            g = fitting.get_wavg_output_struct(nband=nb, model='gauss', shear_bands=sb)
            q = fitting.get_wavg_output_struct(nband=nb, model='pgauss')
        else:
            mb = mbobs_extractor.MBObsExtractor(m, cat).get_mbobs(sid, SIZE)
            import ngmix
            rg = np.random.RandomState(8)
            runner = ngmix.runners.PSFRunner(
                fitter=ngmix.admom.AdmomFitter(rng=rg), ntry=4,
                guesser=ngmix.guessers.GMixPSFGuesser(
                    rng=rg, ngauss=1, guess_from_moms=True))
            g = fitting.fit_mbobs_gauss(mbobs=mb, bmask_flags=0, psf_runner=runner,
                                        rng=rg, shear_bands=sb)
            q = fitting.fit_mbobs_wavg(mbobs=mb, bmask_flags=0,
                                       fitter=ngmix.prepsfmom.PGaussMom(fwhm=1.2))
        for t in (g, q):
            for n in t.dtype.names:
                if t is q and ('psf' in n or n in ('pgauss_g', 'pgauss_g_cov',
                                                   'shear_bands')):
                    continue
                a, b = t[n][0], r[n]
                if not (a == b if t[n].dtype.kind in 'US' else np.allclose(
                        a, b, rtol=1e-6, equal_nan=True)):
                    return '%s of row %d' % (n, i)
    if list(measure.get_bmasks(cat, det)) != [
            det.mask.array[s.pk[1] - y0, s.pk[0] - x0] for s in cat]:
        return 'list of mask values'
    x = mbobs_extractor.MBObsExtractor(m, cat)
    for s in list(cat) + [Source(7, 0, [x0, y0], [0, 0])]:
        ok = s in kids
        for f in (lambda: x.get_mbobs(s.sid, SIZE), lambda: x.get_stamp(s.sid, SIZE)):
            try:
                with x.add_source(s.sid):
                    f()
            except ValueError:
                if ok:
                    return 'object refused'
            except (LengthError, util.AllZeroWeightError):
                pass
            else:
                if not ok:
                    return 'unknown object accepted'


def detect(d, m, cat, old, rng):
    t = object.__new__(measure.DetectAndDeblendTask)
    found = None if rng.randint(3) == 0 else cat
    t.detect, t.deblend = Detect(found), Deblend()
    if d['double']:
        m = survey.mbexp([survey.one(rng, d, b, cls=ai.ExposureD) for b in range(d['nb'])])
        old = survey.snap(m)
    none = rng.randint(4) == 0
    if none:
        for e in m.singles:
            e.variance.array[:] = 0
        old = survey.snap(m)
    s, e, md = t.run(m)
    if survey.same(survey.snap(m), old, 'x'):
        return 'the data changed'
    if md is not None:
        return 'models without scarlet'
    if none and d['nb'] > 1:
        return None if len(s) == 0 and e is None and not t.detect.exps else (
            'detection without data')
    if not isinstance(e, ai.ExposureF) or [q is e for q in t.detect.exps] != [True]:
        return 'detection in one float exposure'
    if found is None:
        return None if len(s) == 0 and not t.deblend.calls else 'objects out of nothing'
    if s is not cat or len(t.deblend.calls) != 1 or t.deblend.calls[0][0][0] is not e:
        return 'deblending of the detections'
    w = m.singles[0] if d['nb'] == 1 else util.coadd_exposures(m.singles)
    for n in ('image', 'variance', 'mask'):
        if not np.allclose(getattr(e, n).array, getattr(w, n).array, equal_nan=True):
            return 'detection exposure: ' + n

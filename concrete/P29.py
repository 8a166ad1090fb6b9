import numpy as np
import ngmix
from ngmix.gexceptions import BootPSFFailure, GMixRangeError
from metadetect import procflags
from metadetect.lsst import metadetect as lm, util
from concrete import survey
RULE = ('random exposures of one to four bands, any list of shear bands and weights; the '
        'PSF fit of a band returns random shapes, flags a failure or raises')
N_QUICK, N_DEEP = 300, 5000


def cases(rng, deep):
    while True:
        nb = int(rng.randint(1, 5))
        d = survey.gen(rng, nb=nb)
        k = int(rng.randint(3))
        d['shear'] = None if k == 0 else [survey.BANDS[i] for i in rng.permutation(nb)[
            :rng.randint(1, nb + 1)]]
        if rng.randint(12) == 0:
            d['shear'] = ['y']
        d['out'] = [int(v) if rng.randint(3) == 0 else 0 for v in rng.randint(1, 4, nb)]
        d['wide'] = bool(rng.randint(8) == 0)
        yield d


def check(d):
    m = survey.build(d)
    nb = d['nb']
    rng = np.random.RandomState(d['seed'])
    conf = {'shear_bands': d['shear'], 'other': 1}
    wgts = list(rng.uniform(0.1, 5, nb))
    fits = [dict(flags=4 if o == 1 else 0, e=rng.uniform(-1, 1, 2)*(
        1.2 if d['wide'] else .6), T=rng.uniform(.1, 3)) for o in d['out']]
    bands = [survey.BANDS[i] for i in range(nb)]
    names = d['shear'] or bands
    old = survey.snap(m)
    seen = []
    e = m.singles[0]
    bb = e.getBBox()
    kern = []
    for b, x in enumerate(m.singles):
        cen, _ = util.get_integer_center(wcs=x.getWcs(), bbox=bb, as_double=True)
        kern.append((x.getPsf().computeKernelImage(cen).array.astype('f4'),
                     util.get_jacobian(exp=x, cen=cen)))
    bad = []

    def go(self, obs, *a, **k):
        for b, (im, j) in enumerate(kern):
            if im.shape == obs.image.shape and np.allclose(im, obs.image, atol=1e-9):
                break
        else:
            bad.append('fit of an image that is no PSF at the centre')
            b = 0
        c = (np.array(obs.image.shape) - 1)/2
        o = obs.jacobian
        if not np.allclose([o.row0, o.col0], c) or not np.allclose(
                [getattr(o, n) for n in ('dvdrow', 'dvdcol', 'dudrow', 'dudcol')],
                [getattr(j, n) for n in ('dvdrow', 'dvdcol', 'dudrow', 'dudcol')]):
            bad.append('jacobian of the PSF of band %d' % b)
        seen.append(b)
        if d['out'][b] == 2:
            raise BootPSFFailure('x')
        if d['out'][b] == 3:
            raise GMixRangeError('x')
        return dict(fits[b], e=fits[b]['e'].copy())
    keep = ngmix.runners.PSFRunner.go
    ngmix.runners.PSFRunner.go = go
    try:
        try:
            r = lm.fit_original_psfs_mbexp(mbexp=m, rng=rng, wgts=wgts, config=conf)
        except RuntimeError as err:
            if all(n in bands for n in names):
                return 'raised %r' % err
            return None
    finally:
        ngmix.runners.PSFRunner.go = keep
    if not all(n in bands for n in names):
        return 'unknown shear bands are accepted'
    if bad:
        return bad[0]
    sh = [b for b in range(nb) if bands[b] in names]
    fail = any(d['out'])
    w = np.array(wgts)[sh]
    mean = {n: np.sum(w*[fits[b]['e'][i] if n != 'T' else fits[b]['T'] for b in sh])/w.sum()
            for i, n in enumerate(('e1', 'e2', 'T'))}
    if not fail:
        try:
            g = ngmix.shape.e1e2_to_g1g2(e1=mean['e1'], e2=mean['e2'])
        except GMixRangeError:
            fail = True
    if fail:
        if r['flags'] != procflags.PSF_FAILURE:
            return 'flags %s after a failed fit' % r['flags']
        if any(r[n] != -9999 for n in ('e1', 'e2', 'g1', 'g2', 'T')) or \
                r['perband'] is not None:
            return 'values %s after a failed fit' % r
    else:
        if r['flags'] != 0 or r['navg'] != len(sh):
            return 'flags %s navg %s' % (r['flags'], r['navg'])
        mean.update(g1=g[0], g2=g[1])
        for n, v in mean.items():
            if not np.isclose(r[n], v, rtol=1e-9, atol=1e-12, equal_nan=True):
                return '%s is %s, expected %s' % (n, r[n], v)
        p = r['perband']
        if len(p) != nb:
            return 'number of bands'
        for b in range(nb):
            if not np.allclose([p['e1'][b], p['e2'][b], p['T'][b], p['wgt'][b]], [
                    *fits[b]['e'], fits[b]['T'], wgts[b]]) or \
                    bool(p['is_shear_band'][b]) != (b in sh):
                return 'entry of band %d' % b
    n = 3
    res = np.zeros(n, dtype=[('psfrec_flags', 'i4'), ('psfrec_navg', 'i4'), (
        'psfrec_g', 'f8', 2), ('psfrec_T', 'f8'), ('o', 'f8')])
    lm.add_original_psf(r, res)
    for i in range(n):
        if res['psfrec_flags'][i] != r['flags'] or res['psfrec_navg'][i] != r['navg'] or \
                not np.array_equal([*res['psfrec_g'][i], res['psfrec_T'][i]], [
                    r['g1'], r['g2'], r['T']], equal_nan=True) or res['o'][i] != 0:
            return 'row of the catalogue'
    return survey.same(old, survey.snap(m), 'data')

import numpy as np
import ngmix
from metadetect.lsst import util
from concrete import survey
RULE = ('random exposures of one to four bands with unusable (non-positive) variances, also' 
        'throughout a band, and '
        'random stamps with zero weights')
N_QUICK, N_DEEP = 400, 6000


def cases(rng, deep):
    while True:
        d = survey.gen(rng, nb=int(rng.randint(1, 5)))
        d['bad'] = float(rng.choice([0, 0, .2, .6, .9]))
        d['badv'] = float(rng.choice([0, -1]))
        d['psf'] = int(rng.choice([5, 9]))
        yield d


def close(a, b, tol=2e-5):
    a, b = np.asarray(a, 'f8'), np.asarray(b, 'f8')
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol*max(
        np.abs(b[np.isfinite(b)]).max(initial=0), 1e-30))


def check(d):
    rng = np.random.RandomState(d['seed'] + 1)
    m = survey.build(d)
    for e in m.singles:
        bad = rng.uniform(size=e.variance.array.shape) < d['bad']
        if rng.randint(8) == 0:
            bad[:] = True
        e.variance.array[bad] = d['badv']
    old = survey.snap(m)
    n = len(m.singles)
    r = util.coadd_exposures(m.singles)
    w = np.array([1/np.median(v[v > 0].astype('f8')) if (v > 0).any() else 0.
                  for _, v, _ in old])
    if not w.any():
        return None if r is None else 'coadd without usable data'
    if r is None:
        return 'no coadd of usable data'
    im = sum(w[b]*np.where(old[b][1] > 0, old[b][0].astype('f8'), 0)
             for b in range(n))/w.sum()
    if not close(r.image.array, im):
        return 'coadded image'
    with np.errstate(divide='ignore'):
        ws = sum(np.where(v > 0, 1/np.where(v > 0, v, 1).astype('f8'), 0)
                 for _, v, _ in old)
        va = np.where(ws > 0, 1/np.where(ws > 0, ws, 1), np.inf)
    if not close(1/r.variance.array, 1/va) or not np.array_equal(
            np.isinf(r.variance.array), np.isinf(va)):
        return 'coadded variance'
    mask = old[0][2].copy()
    for b in range(1, n):
        mask |= old[b][2]
    if not np.array_equal(mask, r.mask.array):
        return 'coadded mask'
    k = sum(w[b]*m.singles[b].getPsf().computeKernelImage(None).array.astype('f8')
            for b in range(n))
    if not close(r.getPsf().computeKernelImage(None).array, k/k.sum(), 1e-6):
        return 'coadded PSF'
    if not np.array_equal(r.getWcs().m, m.singles[0].getWcs().m):
        return 'WCS'
    s = survey.same(old, survey.snap(m), 'data')
    if s:
        return s
    # stamps
    if not w.all():
        return
    mb = ngmix.MultiBandObsList()
    jac = []
    for b in range(n):
        j = ngmix.DiagonalJacobian(row=b + 1., col=3., scale=.2)
        jac.append(j)
        wt = np.where(old[b][1] > 0, 1/np.where(old[b][1] > 0, old[b][1], 1), 0)
        p = m.singles[b].getPsf().computeKernelImage(None).array.astype('f8')
        ol = ngmix.ObsList()
        ol.append(ngmix.Observation(
            image=old[b][0].copy(), weight=wt, jacobian=j, meta={'band%d' % b: b},
            psf=ngmix.Observation(image=p.copy(), jacobian=j)))
        mb.append(ol)
    o = util.coadd_mbobs(mb)
    wts = [ol[0].weight.astype('f8') for ol in mb]
    w = np.array([np.median(v[v > 0]) for v in wts])
    if not close(o.image, sum(w[b]*old[b][0].astype('f8') for b in range(n))/w.sum()):
        return 'coadded stamp'
    if not close(o.weight, sum(wts)):
        return 'summed weights'
    k = sum(w[b]*mb[b][0].psf.image.astype('f8') for b in range(n))
    if not close(o.psf.image, k/k.sum(), 1e-6):
        return 'PSF of the coadded stamp'
    if o.jacobian.row0 not in [j.row0 for j in jac]:
        return 'Jacobian of the coadded stamp'
    if not (o.psf.weight > 0).all():
        return 'PSF weight'
    for b, ol in enumerate(mb):
        if not np.array_equal(ol[0].image, old[b][0]) or not np.array_equal(
                ol[0].weight, wts[b]):
            return 'stamps changed'

import numpy as np
import ngmix
from metadetect import procflags
from metadetect.fitting import make_coadd_obs
from concrete import obs
RULE = 'random objects of 1 to 4 bands, all band choices, missing or partial optional ' \
       'data, empty bands, disagreeing shapes, WCS and PSFs; every pixel compared'
N_QUICK = 900
MAPS = ('bmask', 'ormask', 'noise', 'mfrac')


def cases(rng, deep):
    while True:
        nb = int(rng.choice([1, 2, 2, 3, 3, 4]))
        sb = None
        if rng.randint(3):
            n = int(rng.randint(1, nb + 1))
            sb = [int(x) for x in rng.permutation(nb)[:n]]
            if not rng.randint(8):
                sb[rng.randint(n)] = nb + int(rng.randint(2))
        have = {k: [bool(rng.randint(2))]*nb for k in MAPS}
        if not rng.randint(3):
            k = MAPS[rng.randint(4)]
            have[k] = [bool(rng.randint(2)) for _ in range(nb)]
        yield dict(nb=nb, sb=sb, have=have, seed=int(rng.randint(1 << 30)),
                   empty=[not rng.randint(25) for _ in range(nb)],
                   disjoint=not rng.randint(15), dims=[int(rng.randint(1, 9)), int(
                       rng.randint(1, 9))],
                   odd=[str(rng.choice(['', '']*16 + [
                       'dims', 'jac', 'psf', 'pdims', 'pjac'])) for _ in
                       range(nb)])


def make(c):
    rng = np.random.RandomState(c['seed'])
    mb = ngmix.MultiBandObsList(meta={'mb': 1, 'z': 'mb'})
    for b in range(c['nb']):
        odd = c['odd'][b]
        ny, nx = c['dims']
        if odd == 'dims':
            ny += 1
        wt = rng.uniform(0.5, 3, (ny, nx))*10.0**rng.randint(-2, 3)
        wt[rng.uniform(size=wt.shape) < rng.choice([0, 0.2, 0.6])] = 0
        if not np.any(wt > 0):
            wt[rng.randint(ny), rng.randint(nx)] = 2.0
        if c['disjoint']:
            wt[:] = 0
            wt.ravel()[b % wt.size] = 0.5
        if c['empty'][b]:
            wt[:] = 0
        kw = {}
        v = dict(bmask=rng.choice([0, 0, 1, 2, 5, 2**30], size=(ny, nx)).astype('i4'),
                 ormask=rng.choice([0, 0, 1, 8, -2**31], size=(ny, nx)).astype('i4'),
                 noise=rng.normal(size=(ny, nx)),
                 mfrac=rng.uniform(0, 1, (ny, nx)))
        for k in MAPS:
            if c['have'][k][b]:
                kw[k] = v[k]
        p = rng.uniform(-0.1, 1, (5, 7 if odd != 'pdims' else 6))
        psf = ngmix.Observation(p, meta={'psf%d' % b: b, 'p': b}, jacobian=jac(
            2 + (odd == 'pjac'), 3))
        im = rng.normal(size=(ny, nx))*5
        meta = {'o%d' % b: b, 'x': ('obs', b), 'y': ('obs', b), 'z': 0}
        o = ngmix.Observation(
            im, weight=wt, psf=None if odd == 'psf' else psf,
            ignore_zero_weight=False, jacobian=jac(
                (ny - 1)/2 + (0.01 if odd == 'jac' else 0), (nx - 1)/2), meta=meta, **kw)
        ol = ngmix.ObsList(meta={'l%d' % b: b, 'y': ('list', b), 'z': 1})
        ol.append(o)
        mb.append(ol)
    return mb


def jac(row, col):
    return ngmix.Jacobian(row=row, col=col, dvdrow=0.26, dvdcol=0.01, dudrow=-0.02,
                          dudcol=0.27)


def jv(j):
    return [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol]


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-10, atol=1e-12)


def check(c):
    mb = make(c)
    old = obs.snap_all(mb)
    metas = [(dict(l[0].meta), dict(l.meta)) for l in mb]
    pm = [dict(l[0].psf.meta) if l[0].has_psf() else None for l in mb]
    sb = None if c['sb'] is None else list(c['sb'])
    r, fl = make_coadd_obs(mb) if sb is None else make_coadd_obs(mb, shear_bands=sb)
    for x, y in zip(obs.snap_all(mb), old):
        d = obs.differs(x[0], y[0])
        if d:
            return ('input', 'the input was modified: %s' % d)
    if [(dict(l[0].meta), dict(l.meta)) for l in mb] != metas or \
            dict(mb.meta) != {'mb': 1, 'z': 'mb'} or sb != c['sb'] or \
            [dict(l[0].psf.meta) if l[0].has_psf() else None for l in mb] != pm:
        return ('meta', 'metadata or band list of the input was modified')
    use = list(range(c['nb'])) if sb is None else sb
    bad = procflags.INCONSISTENT_BANDS

    def fail(f, why):
        if r is not None:
            return 'a coadd was made although ' + why
        if fl != f:
            return 'flags %s, expected %s: %s' % (fl, f, why)
    if any(b >= c['nb'] for b in use):
        return fail(bad, 'a band does not exist')
    if len(use) == 1:
        if r is not mb[use[0]][0] or fl != 0:
            return 'the one band was not returned as it is'
        return
    O = [old[b][0] for b in use]
    obl = [mb[b][0] for b in use]
    psfs = [o.psf if o.has_psf() else None for o in obl]
    if any(p is None for p in psfs):
        return fail(bad, 'a PSF is missing')
    if any(o['image'].shape != O[0]['image'].shape for o in O):
        return fail(bad, 'shapes differ')
    if any(p.image.shape != psfs[0].image.shape for p in psfs):
        return fail(bad, 'PSF shapes differ')
    if any(jv(o.jacobian) != jv(obl[0].jacobian) for o in obl):
        return fail(bad, 'WCS differ')
    if any(jv(o.jacobian) != jv(psfs[0].jacobian) for o in psfs):
        return fail(bad, 'PSF WCS differ')
    if any(not np.any(o['weight'] > 0) for o in O):
        return fail(procflags.ZERO_WEIGHTS, 'a band has no weight')
    m = np.array([np.median(o['weight'][o['weight'] > 0]) for o in O])
    m = m/m.sum()
    part = any(len(set(o[k] is not None for o in O)) > 1 for k in MAPS)
    dead = np.zeros(O[0]['image'].shape, bool)
    for o in O:
        dead |= o['weight'] == 0
    if np.all(dead):
        return fail(procflags.ZERO_WEIGHTS, 'no pixel has weight in all bands')
    if part:
        return fail(bad, 'only some of the bands have a map')
    if r is None or fl != 0:
        return 'no coadd (flags %s) for consistent bands' % fl
    if any(r is o for o in obl):
        return 'one band returned instead of a coadd'
    if not near(r.image, sum(w*o['image'] for w, o in zip(m, O))):
        return 'image is not the weighted mean'
    with np.errstate(all='ignore'):
        wt = 1/sum(w**2/o['weight'] for w, o in zip(m, O))
    wt[dead] = 0
    if not np.allclose(r.weight, wt, rtol=1e-9, atol=0):
        return 'weight is not that of the weighted mean'
    for k in MAPS:
        have = O[0][k] is not None
        if bool(getattr(r, 'has_' + k)()) != have:
            return '%s of the coadd: %s' % (k, 'missing' if have else 'made up')
        if not have:
            continue
        if k in ('bmask', 'ormask'):
            e = np.zeros(dead.shape, 'i4')
            for o in O:
                e |= o[k]
            if not np.array_equal(getattr(r, k), e):
                return '%s is not the OR of the bands' % k
        elif not near(getattr(r, k), sum(w*o[k] for w, o in zip(m, O))):
            return '%s is not the weighted mean' % k
    if jv(r.jacobian) != jv(obl[0].jacobian):
        return 'WCS of the coadd'
    if not r.has_psf():
        return 'the coadd has no PSF'
    pi = sum(w*p.image for w, p in zip(m, psfs))
    if not near(r.psf.image, pi):
        return 'PSF is not the weighted mean'
    if jv(r.psf.jacobian) != jv(psfs[0].jacobian):
        return 'WCS of the PSF'
    if not np.all(np.isfinite(r.psf.weight)) or not np.all(r.psf.weight > 0):
        return 'PSF weight is not positive'
    e, pe = {}, {}
    for b in use:
        e.update(metas[b][0])
        e.update(metas[b][1])
        pe.update(pm[b])
    e.update(mb.meta)
    if dict(r.meta) != e or dict(r.psf.meta) != pe:
        return ('meta', 'metadata of the coadd')

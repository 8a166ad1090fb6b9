import numpy as np
import ngmix
from metadetect.lsst import metadetect as lm
from concrete import survey
from concrete.run import Skip
RULE = ('random exposures of one to three bands with and without masked fraction and '
        'OR-masks; object positions on, near and far off images of any shape')
N_QUICK, N_DEEP = 150, 3000


def cases(rng, deep):
    while True:
        d = survey.gen(rng, hi=40 if rng.uniform() < 0.5 else 9)
        d['kind'] = str(rng.choice(['or', 'mfrac', 'weighted', 'weighted', 'add']))
        d['have'] = bool(rng.randint(2))
        d['fwhm'] = [None, 0.5, 1.0, 2.0][rng.randint(4)]
        d['nobj'] = int(rng.randint(0, 7))
        d['zero'] = bool(rng.randint(6) == 0)
        d['bad'] = bool(rng.randint(5) == 0)
        yield d


def direct(mf, x, y, jac, fwhm):
    """Gaussian-weighted average within five sigma of the position, by definition"""
    f = 1.2 if fwhm is None else fwhm
    T = ngmix.moments.fwhm_to_T(f)
    r = int(round(ngmix.moments.fwhm_to_sigma(f)*5))
    ny, nx = mf.shape
    num = den = 0.0
    iy, ix = int(np.floor(y + .5)), int(np.floor(x + .5))
    any_ = False
    for i in range(max(iy - r, 0), min(iy + r + 1, ny)):
        for j in range(max(ix - r, 0), min(ix + r + 1, nx)):
            any_ = True
            dr, dc = i - y, j - x
            v = jac.dvdrow*dr + jac.dvdcol*dc
            u = jac.dudrow*dr + jac.dudcol*dc
            if u*u + v*v >= r*r:
                continue
            w = np.exp(-0.5*(u*u + v*v)/(T/2))
            num += w*mf[i, j]
            den += w
    return num/den if any_ and den > 0 else (None if any_ else 1.0)


def check(d):
    rng = np.random.RandomState(d['seed'] ^ 3)
    ny, nx = d['dims']
    m = survey.build(d)
    old = survey.snap(m)
    if d['kind'] == 'or':
        om = [rng.choice([0, 1, 6, 2**20], size=(ny, nx)).astype('i4')
              for _ in range(d['nb'])] if d['have'] else None
        keep = None if om is None else [o.copy() for o in om]
        r = lm.combine_ormasks(m, om)
        want = np.zeros((ny, nx), 'i4')
        for o in keep or []:
            want |= o
        if not np.array_equal(r, want):
            return 'combined OR-mask'
        if om is not None:
            r[:] = -1
            if not all(np.array_equal(a, b) for a, b in zip(om, keep)):
                return 'the OR-masks given are changed'
        return survey.same(old, survey.snap(m), 'data')
    if d['kind'] == 'mfrac':
        for e in m.singles:
            if rng.randint(3) == 0:
                v = e.variance.array
                v[rng.uniform(size=v.shape) < 0.3] = rng.choice([0, -1, np.inf, np.nan])
        if d['bad']:
            m.singles[rng.randint(d['nb'])].variance.array[:] = rng.choice([0, np.inf])
        old = survey.snap(m)
        mm = survey.build(dict(d, seed=d['seed'] ^ 2)) if d['have'] else None
        if mm:
            for e in mm.singles:
                e.image.array[:] = rng.uniform(size=(ny, nx))
        oldm = survey.snap(mm) if mm else []
        w = []
        for o in old:
            g = np.isfinite(o[1]) & (o[1] > 0)
            w.append(1/np.median(o[1][g]) if g.any() else None)
        try:
            r, wg = lm.get_mfrac_mbexp(m, mm)
        except ValueError:
            return None if None in w else 'refused'
        if None in w:
            return 'not refused'
        if len(wg) != len(w) or not np.allclose(wg, w, rtol=1e-5):
            return 'weights %s, expected %s' % (wg, w)
        want = sum(a*o[0] for a, o in zip(w, oldm))/sum(w) if mm else np.zeros((ny, nx))
        if r.shape != (ny, nx) or not np.allclose(r, want, rtol=1e-4, atol=1e-6):
            return 'combined masked fraction'
        return survey.same(old, survey.snap(m), 'data') or (survey.same(
            oldm, survey.snap(mm), 'masked fraction') if mm else None)
    mf = rng.uniform(size=(ny, nx))*(0 if d['zero'] else 1)
    n = d['nobj']
    far = 200 if d['have'] else 12
    if d['kind'] == 'add':
        far = 0
    x, y = rng.uniform(-far - .49, nx + far - .51, n), rng.uniform(
        -far - .49, ny + far - .51, n)
    from metadetect.lsst import util
    if d['kind'] == 'weighted':
        jac = ngmix.Jacobian(row=3., col=4., dvdrow=.19, dvdcol=.03, dudrow=-.02,
                             dudcol=.21)
        keep = [v.copy() for v in (mf, x, y)]
        got = lm.measure_weighted_mfrac(mfrac=mf, x=x, y=y, jac=jac, fwhm=d['fwhm'])
        if not all(np.array_equal(a, b) for a, b in zip(keep, (mf, x, y))) or (
                jac.row0, jac.col0) != (3., 4.):
            return 'inputs are changed'
        tol = 1e-6
    else:
        e = m.singles[0]
        res = np.zeros(n, dtype=[('row', 'f8'), ('col', 'f8'), ('row0', 'i4'),
                                 ('col0', 'i4'), ('mfrac', 'f4'), ('ormask', 'i4'),
                                 ('other', 'i4')])
        res['row0'], res['col0'] = d['xy0'][1], d['xy0'][0]
        res['row'], res['col'], res['other'] = y + res['row0'], x + res['col0'], 5
        x, y = res['col'] - res['col0'], res['row'] - res['row0']
        om = rng.choice([0, 1, 6, 2**20], size=(ny, nx)).astype('i4')
        keep = res.copy(), om.copy(), mf.copy()
        if any(not (0 <= np.floor(a + .5) < k) for v, k in ((x, nx), (y, ny)) for a in v):
            raise Skip()
        lm.add_ormask(om, res)
        c = {} if d['fwhm'] is None else {'mfrac_fwhm': d['fwhm']}
        lm.add_mfrac(config=c, mfrac=mf, res=res, exp=e)
        for f in ('row', 'col', 'row0', 'col0', 'other'):
            if not np.array_equal(res[f], keep[0][f]):
                return '%s is changed' % f
        if not (np.array_equal(om, keep[1]) and np.array_equal(mf, keep[2])):
            return 'inputs are changed'
        for i in range(n):
            if res['ormask'][i] != om[int(np.floor(y[i] + .5)), int(np.floor(x[i] + .5))]:
                return 'OR-mask value of object %d at row %s column %s' % (i, y[i], x[i])
        got = res['mfrac']
        cen, _ = util.get_integer_center(wcs=e.getWcs(), bbox=e.getBBox(), as_double=True)
        jac = util.get_jacobian(exp=e, cen=cen)
        tol = 1e-5
        if not mf.any():
            return None if not got.any() else 'masked fraction without masked pixels'
    if len(got) != n:
        return 'number of values'
    for i in range(n):
        w = direct(mf, x[i], y[i], jac, d['fwhm'])
        if w is not None and not abs(got[i] - w) <= tol:
            return 'object at row %s column %s: %s, expected %s' % (y[i], x[i], got[i], w)
    return None

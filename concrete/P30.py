import galsim
import numpy as np
from ngmix.metacal.metacal import _get_gauss_target_psf, _get_ellip_dilation
from metadetect.lsst import metacal_exposures as mx, util
from concrete import survey
RULE = ('random small exposures of one to three bands with random noise, all lists of '
        'metacal types, with and without PSF statistics; compared with the images drawn '
        'directly with galsim')
N_QUICK, N_DEEP = 25, 400
MIN = 5
TYPES = ['noshear', '1p', '1m', '2p', '2m']


def cases(rng, deep):
    while True:
        d = survey.gen(rng, nb=int(rng.randint(1, 4)), lo=8, hi=18)
        d['wcs'] = (np.array([[0, .2], [.2, 0]]) + rng.normal(size=(2, 2))*.01).tolist()
        d['psf'] = int(rng.choice([9, 11]))
        d['types'] = None if rng.randint(4) == 0 else [
            TYPES[i] for i in rng.permutation(5)[:rng.randint(1, 6)]]
        d['stats'] = int(rng.randint(3))
        yield d


def draw(e, t, rot, st):
    cen, _ = util.get_integer_center(e.getWcs(), e.getBBox(), as_double=True)
    w = util.get_jacobian(exp=e, cen=cen).get_galsim_wcs()
    p = galsim.ImageD(e.getPsf().computeKernelImage(cen).array.astype('f8'), wcs=w)
    a = e.image.array.astype('f8')
    if rot:
        a = a.T[::-1, :].copy()     # a quarter turn
    psf = galsim.InterpolatedImage(p, x_interpolant='lanczos15')
    o = galsim.Convolve(galsim.InterpolatedImage(galsim.ImageD(a, wcs=w),
                                                 x_interpolant='lanczos15'),
                        galsim.Deconvolve(psf))
    s = {'noshear': {}, '1p': dict(g1=.01), '1m': dict(g1=-.01), '2p': dict(g2=.01),
         '2m': dict(g2=-.01)}[t]
    if s:
        o = o.shear(**s)
    if st is None:
        g = _get_gauss_target_psf(psf, flux=p.array.sum())
    else:
        T = st['T']*_get_ellip_dilation(st['e1'], st['e2'], st['T'])
        g = galsim.Gaussian(sigma=np.sqrt(T/2), flux=p.array.sum())
    g = g.dilate(1.02)
    out = galsim.Convolve(o, g).drawImage(image=galsim.ImageD(a.shape[1], a.shape[0]),
                                          wcs=w, method='no_pixel').array
    if rot:
        out = out[::-1, :].T        # and back
    return out, g.drawImage(image=p.copy(), method='no_pixel').array


def close(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-5*np.abs(b).max())


def check(d):
    rng = np.random.RandomState(d['seed'] + 1)
    m = survey.build(d)
    n = survey.build(dict(d, seed=d['seed'] + 5))
    for e, x in zip(n.singles, m.singles):
        e.image.array[:] = rng.normal(size=e.image.array.shape)
        e.setPsf(x.getPsf())
    nb = d['nb']
    st = None
    if d['stats']:
        st = np.zeros(nb, dtype=[(q, 'f8') for q in ('e1', 'e2', 'T')])
        st['e1'], st['e2'] = rng.uniform(-.1, .1, (2, nb))
        st['T'] = rng.uniform(.1, .3, nb)
    if d['stats'] == 2 and rng.randint(3) == 0:
        try:
            mx.get_metacal_mbexps_fixnoise(m, n, types=d['types'], psf_stats=np.append(
                st, st[:1]))
        except AssertionError:
            pass
        else:
            return 'PSF statistics of another number of bands are accepted'
    old, oldn = survey.snap(m), survey.snap(n)
    types = d['types'] or ['noshear', '1p', '1m']
    r, nr = mx.get_metacal_mbexps_fixnoise(m, n, types=d['types'], psf_stats=st)
    if list(r) != types or list(nr) != types:
        return 'types %s' % list(r)
    for t in types:
        if tuple(r[t].bands) != tuple(m.bands):
            return 'bands'
        for b in range(nb):
            s = None if st is None else st[b]
            a, p = draw(m.singles[b], t, False, s)
            c, q = draw(n.singles[b], t, True, s)
            x, y = r[t].singles[b], nr[t].singles[b]
            if not close(y.image.array, c):
                return 'noise image of %s' % t
            if not close(x.image.array, a + c):
                return 'image of %s' % t
            if not np.allclose(x.variance.array, 2*old[b][1].astype('f8'), rtol=1e-6):
                return 'variance of %s' % t
            if not np.array_equal(x.mask.array, old[b][2]):
                return 'mask of %s' % t
            if not close(x.getPsf().computeKernelImage(None).array, p):
                return 'PSF of %s' % t
            if x.getFilter().bandLabel != survey.BANDS[b] or \
                    not np.array_equal(x.getWcs().m, m.singles[b].getWcs().m) or \
                    x.getXY0() != m.singles[b].getXY0():
                return 'WCS, filter or corner of %s' % t
    if st is None and nb:
        # one band at a time
        x, y = mx.get_metacal_exps_fixnoise(m.singles[0], n.singles[0], types=d['types'])
        for t in types:
            if not close(x[t].image.array, r[t].singles[0].image.array) or not close(
                    x[t].variance.array, r[t].singles[0].variance.array):
                return 'exposure of %s' % t
    try:
        mx.get_metacal_mbexps_fixnoise(m, n, types=['noshear', '3p'])
        return 'an unknown type is accepted'
    except ValueError:
        pass
    return survey.same(old, survey.snap(m), 'data') or survey.same(
        oldn, survey.snap(n), 'noise')

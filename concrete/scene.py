"""random scenes and a metacal stand-in for runs of the whole pipeline"""
import numpy as np
import ngmix
from ngmix.gexceptions import BootPSFFailure
TYPES = ['noshear', '1p', '1m', '2p', '2m']


def gen(rng, nb=None, epochs=1):
    nb = int(rng.randint(1, 4)) if nb is None else nb
    return dict(seed=int(rng.randint(1 << 30)), nb=nb,
                dims=[int(rng.randint(28, 44)), int(rng.randint(28, 44))],
                nobj=int(rng.choice([0, 1, 2, 3, 4])),
                mfrac=[int(rng.choice([0, 1])) for _ in range(nb)],
                bits=float(rng.choice([0, 0.01, 0.05])))


def build(d, meta=None):
    rng = np.random.RandomState(d['seed'])
    ny, nx = d['dims']
    jac = ngmix.Jacobian(row=(ny-1)/2, col=(nx-1)/2, dvdrow=0.25, dvdcol=0.01,
                         dudrow=-0.02, dudcol=0.26)
    y, x = np.mgrid[0:ny, 0:nx]
    truth = np.zeros((ny, nx))
    for _ in range(d['nobj']):
        r, c = rng.uniform(6, ny-7), rng.uniform(6, nx-7)
        truth += rng.uniform(20, 60)*np.exp(-0.5*((y-r)**2 + (x-c)**2)/1.7**2)
    mb = ngmix.MultiBandObsList(meta=meta)
    for b in range(d['nb']):
        sig = rng.uniform(0.3, 1.0)
        wt = np.full((ny, nx), 1/sig**2)*rng.uniform(0.9, 1.1, (ny, nx))
        if d['bits']:
            wt[rng.uniform(size=wt.shape) < d['bits']] = 0
        kw = {}
        if d['mfrac'][b]:
            kw['mfrac'] = np.where(rng.uniform(size=wt.shape) < 0.1, rng.uniform(
                0, 1, wt.shape), 0)
        bm = np.zeros((ny, nx), dtype='i4')
        om = np.zeros((ny, nx), dtype='i4')
        for a, n in ((bm, 4), (om, 6)):
            for k in range(n):
                a[rng.uniform(size=a.shape) < d['bits']] |= 1 << (k + 1 + 8*(a is om))
        p = ngmix.Observation(
            np.exp(-0.5*((np.mgrid[0:11, 0:11] - 5)**2).sum(axis=0)/1.5**2)/14.,
            jacobian=jac, meta={'psf': b})
        ol = ngmix.ObsList()
        ol.append(ngmix.Observation(
            truth*rng.uniform(0.5, 1.5) + rng.normal(scale=sig, size=(ny, nx)), weight=wt,
            bmask=bm, ormask=om, noise=rng.normal(scale=sig, size=(ny, nx)), psf=p,
            jacobian=jac, ignore_zero_weight=False, meta={'band': b}, **kw))
        mb.append(ol)
    return mb


class Metacal:
    """deterministic sheared versions; the types in `blank` show nothing"""

    def __init__(self, fails=False, blank=(), drop=()):
        self.fails, self.blank, self.drop = fails, blank, drop
        self.calls = []

    def __call__(self, obs, rng=None, types=None, **kw):
        self.calls.append((obs, types, kw))
        if self.fails is True or (self.fails and self.fails(obs)):
            raise BootPSFFailure('planned')
        out = {}
        for t in TYPES if types is None else types:
            m = obs.copy()
            i = (TYPES + [t]).index(t)
            for b, ol in enumerate(m):
                for o in ol:
                    im = np.roll(o.image, (i % 3, -(i // 2)), axis=(0, 1))*(1 + 0.02*i)
                    if t in self.blank:
                        im = im*1e-3
                    o.set_image(im)
                    o.set_weight(o.weight*0.5)
                    o.meta['type'] = t
            out[t] = m
        return out

    def __enter__(self):
        self.old = ngmix.metacal.get_all_metacal
        ngmix.metacal.get_all_metacal = self
        return self

    def __exit__(self, *a):
        ngmix.metacal.get_all_metacal = self.old


def config(rng, fitters=True):
    c = dict(metacal={'psf': 'fitgauss', 'types': list(TYPES)},
             sx={'detect_thresh': 5.0, 'deblend_cont': 0.001, 'minarea': 4,
                 'filter_type': 'conv', 'filter_kernel': [[1., 2., 1.], [2., 4., 2.],
                                                          [1., 2., 1.]]},
             meds={'min_box_size': 16, 'max_box_size': 32, 'box_type': 'iso_radius',
                   'rad_min': 4, 'rad_fac': 2, 'box_padding': 2},
             bmask_flags=int(rng.choice([0, 2, 2**30])))
    if rng.randint(2):
        c['nodet_flags'] = int(rng.choice([0, 2, 4]))
    if rng.randint(2):
        c['meds']['weight_type'] = str(rng.choice(['weight', 'uberseg']))
    if not rng.randint(4):
        del c['metacal']['types']
    elif rng.randint(2):
        k = rng.randint(1, 5)
        c['metacal']['types'] = [str(t) for t in rng.permutation(TYPES)[:k]]
    if rng.randint(2):
        c['metacal']['step'] = float(rng.choice([0.005, 0.02]))
    if fitters and rng.randint(2):
        c['fitters'] = [fitter(rng) for _ in range(rng.randint(1, 4))]
        ms = [f['model'] for f in c['fitters']]
        c['fitters'] = [f for i, f in enumerate(c['fitters']) if f['model'] not in ms[:i]
                        and not (f['model'] == 'admom' and 'am' in ms)]
    else:
        c.update(fitter(rng, fitters))
    return c


def fitter(rng, any_=True):
    m = str(rng.choice(['wmom', 'pgauss', 'ksigma', 'am', 'admom', 'gauss'])) \
        if any_ else 'wmom'
    c = dict(model=m)
    if m in ('wmom', 'pgauss', 'ksigma') or rng.randint(2):
        c['weight'] = {'fwhm': float(rng.choice([1.2, 2.0]))}
        if m in ('pgauss', 'ksigma') and rng.randint(2):
            c['weight']['fwhm_smooth'] = float(rng.choice([0.0, 0.5]))
        if m in ('wmom', 'pgauss', 'ksigma') and rng.randint(3) == 0:
            c['weight']['fwhm_reg'] = float(rng.choice([0.0, 0.8]))
    if rng.randint(2):
        c['symmetrize'] = bool(rng.randint(2))
    if m == 'gauss' and rng.randint(2):
        c['coadd'] = bool(rng.randint(2))
    return c


def combos(rng, nb):
    """shear and detection combinations to pass, and what they mean"""
    al = list(range(nb))

    def some():
        return [int(b) for b in rng.permutation(nb)[:rng.randint(1, nb + 1)]]
    k = rng.randint(4)
    if k == 0:
        return None, None, [(al, al)]
    sb = [some() for _ in range(rng.randint(1, 4))]
    if k == 1:
        return sb, None, [(s, al) for s in sb]
    if k == 2:
        return sb, 'shear_bands', [(s, s) for s in sb]
    db = [some() for _ in sb]
    return sb, db, list(zip(sb, db))


def wavg(c):
    return c.get('model', 'wmom') in ('wmom', 'pgauss', 'ksigma')


def run_fitters(conf, mbobs_list, sb):
    """the measured columns, from the fit functions directly"""
    from metadetect import fitting as m
    res = []
    for f in conf.get('fitters', [conf]):
        kw = dict(mbobs_list=mbobs_list, shear_bands=sb, symmetrize=f.get(
            'symmetrize', True), bmask_flags=conf.get('bmask_flags', 0))
        if wavg(f):
            w = f['weight']
            a = {'fwhm_smooth': w['fwhm_smooth']} if 'fwhm_smooth' in w else {}
            mod = f.get('model', 'wmom')
            o = ngmix.gaussmom.GaussMom(fwhm=w['fwhm']) if mod == 'wmom' else \
                getattr(ngmix.prepsfmom, dict(
                    ksigma='KSigmaMom', pgauss='PGaussMom')[mod])(fwhm=w['fwhm'], **a)
            if 'fwhm_reg' in w:
                o.kind = o.kind + '_reg%0.2f' % w['fwhm_reg']
            res.append(m.fit_mbobs_list_wavg(fitter=o, fwhm_reg=w.get('fwhm_reg', 0),
                                             **kw))
        else:
            res.append(m.fit_mbobs_list_joint(
                fitter_name=f['model'], rng=np.random.RandomState(8),
                coadd=f.get('coadd', False), **kw))
    return m.combine_fit_res(res)


def measure(conf, mb, sb, db):
    """catalogue, stamps and measured columns of one sheared image"""
    from metadetect import detect
    det = ngmix.MultiBandObsList()
    for b in db:
        det.append(mb[b])
    d = detect.MEDSifier(det, conf.get('sx'), conf['meds'],
                         nodet_flags=conf.get('nodet_flags', 0))
    c = detect.CatalogMEDSifier(mb, d.cat['x'], d.cat['y'], d.cat['box_size'], seg=d.seg,
                                number=d.cat['number'])
    lst = c.get_multiband_meds().get_mbobs_list(
        weight_type=conf['meds'].get('weight_type', 'weight'))
    return d.cat, lst, run_fitters(conf, lst, sb)


def differ(a, b, names=None):
    """name of a column that differs"""
    for n in names or b.dtype.names:
        if n not in a.dtype.names:
            return 'column %s is missing' % n
        x, y = a[n], b[n]
        if x.shape != y.shape:
            return 'column %s has shape %s, expected %s' % (n, x.shape, y.shape)
        if x.dtype.kind == 'f':
            if not np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True):
                return 'column %s: %s, expected %s' % (n, x[:4], y[:4])
        elif not np.array_equal(x, y):
            return 'column %s: %s, expected %s' % (n, x[:4], y[:4])
    return None

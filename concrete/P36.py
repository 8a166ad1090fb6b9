import copy
import numpy as np
import ngmix
from concrete import scene
RULE = 'random fitter settings (single and lists); the measurements of the real object ' \
       'compared with calls of the fit functions built from the settings; refused ' \
       'settings and default band combinations tried'
N_QUICK = 150
MIN = 20


def cases(rng, deep):
    while True:
        yield dict(d=dict(scene.gen(rng), nobj=int(rng.randint(1, 4)),
                          bits=float(rng.choice([0, 0.05, 0.1]))),
                   seed=int(rng.randint(1 << 30)), mode=int(rng.randint(8)))


def refused(c, rng, mm, mb):
    w = {'fwhm': 1.2}
    base = dict(metacal={'psf': 'fitgauss'}, meds={})
    k = rng.randint(3)
    if k == 0:
        x = str(rng.choice(['model', 'weight', 'symmetrize', 'coadd']))
        v = {'model': 'wmom', 'weight': w, 'symmetrize': True, 'coadd': False}
        conf, exc = dict(base, fitters=[dict(model='wmom', weight=w)], **{x: v[x]}), \
            RuntimeError
    elif k == 1:
        bad = dict(model=str(rng.choice(['moments', 'Wmom', '', 'gaus'])), weight=w)
        good = dict(model='wmom', weight=w)
        conf, exc = dict(base, **bad) if rng.randint(2) else dict(base, fitters=[
            [bad], [good, bad], [bad, good]][rng.randint(3)]), ValueError
    else:
        del base[str(rng.choice(['metacal', 'meds']))]
        conf, exc = dict(base, model='wmom', weight=w), AssertionError
    try:
        mm.Metadetect(conf, mb, rng)
    except exc:
        return None
    return 'settings %s are accepted' % conf


def check(c):
    from metadetect import metadetect as mm
    rng = np.random.RandomState(c['seed'])
    mb = scene.build(c['d'])
    nb = len(mb)
    if c['mode'] < 2:
        return refused(c, rng, mm, mb)
    conf = scene.config(rng)
    for f in conf.get('fitters', [conf]):
        if rng.randint(2):
            f['coadd'] = bool(rng.randint(2))
    fits = conf.get('fitters', [conf])
    for f in fits:      # models without settings
        if f.get('model') == 'wmom' and not rng.randint(3):
            del f['model']
        if not scene.wavg(f) and rng.randint(2):
            f.pop('weight', None)
    sb, db, combs = scene.combos(rng, nb)
    given = copy.deepcopy(conf)
    md = mm.Metadetect(conf, mb, np.random.RandomState(8), shear_band_combs=sb,
                       det_band_combs=db)
    if [(list(a), list(b)) for a, b in zip(md._shear_band_combs, md._det_band_combs)] != \
            combs:
        return 'band combinations %s, %s; expected %s' % (
            md._shear_band_combs, md._det_band_combs, combs)
    if md['nodet_flags'] != given.get('nodet_flags', 0):
        return 'detection flags'
    with scene.Metacal():
        mcal = md._get_mbobs_data(None, list(range(nb)))['mcal_res']
        t = sorted(mcal)[rng.randint(len(mcal))]
        s, d = combs[rng.randint(len(combs))]
        kd = md._get_mbobs_data(None, s)
    cat, lst, want = scene.measure(copy.deepcopy(given), mcal[t], s, d)
    c2, l2 = md._do_detect(mcal[t], d)
    md.rng = np.random.RandomState(8)
    got = md._measure(mbobs_list=l2, shear_bands=s, det_bands=d, cat=c2, shear_str=t,
                      **{k: kd[k] for k in ('mfrac', 'bmask', 'ormask', 'psf_stats')})
    if (got is None) != (want is None):
        return 'rows %s, expected %s' % (got, want)
    if got is None:
        return None
    if len(got) != len(cat):
        return '%d rows for %d objects' % (len(got), len(cat))
    m = scene.differ(got, want)
    if m:
        return m
    models = [f.get('model', 'wmom') for f in given.get('fitters', [given])]
    n = [x for x in got.dtype.names if x.endswith('_flags') and x in want.dtype.names and
         not any(q in x for q in ('psf', 'obj', 'T_flags', 'band'))]
    w = []
    for f, x in zip(given.get('fitters', [given]), models):
        k = {'admom': 'am'}.get(x, x)
        if 'fwhm_reg' in f.get('weight', {}):
            k += '_reg%0.2f' % f['weight']['fwhm_reg']
        w.append(k + '_flags')
    if n != w:
        return 'fitters %s, expected %s' % (n, w)
    # the aperture of the masked fraction is that of the first fitter
    fw = given.get('fitters', [given])[0].get('weight', {}).get('fwhm', 1.2)
    if np.any(kd['mfrac'] > 0):
        from metadetect.mfrac import measure_mfrac
        v = measure_mfrac(mfrac=kd['mfrac'], x=got['sx_col'], y=got['sx_row'],
                          box_sizes=cat['box_size'], obs=mb[0][0], fwhm=fw)
        if not np.allclose(got['mfrac'], v, rtol=1e-4, atol=1e-6):
            return 'masked fraction aperture'
    return None

import copy
import numpy as np
import ngmix
from concrete import scene
RULE = 'colour-dependent runs on random scenes with differently rendered colour data, ' \
       'some of which cannot be prepared, random colour functions, fitters and band ' \
       'combinations; every row recomputed; refused modes tried'
N_QUICK = 120
MIN = 10


def cases(rng, deep):
    while True:
        d = scene.gen(rng)
        if rng.randint(4):
            d['nobj'] = max(2, d['nobj'])
        yield dict(d=d, seed=int(rng.randint(1 << 30)), nkey=int(rng.randint(1, 4)),
                   fails=[int(k) for k in range(3) if not rng.randint(4)],
                   same=bool(rng.randint(3) == 0), mode=int(rng.randint(8)))


def colour(c):
    def f(fluxes):
        v = np.nan_to_num(np.asarray(fluxes), posinf=0, neginf=0)
        return 'k%d' % (int(abs(v).sum()*7.3) % c['nkey'])
    return f


def check(c):
    from metadetect import metadetect as mm, detect, fitting
    rng = np.random.RandomState(c['seed'])
    conf = scene.config(rng)
    first = conf.get('fitters', [conf])[0]
    mb = scene.build(c['d'])
    dep = {}
    for k in range(c['nkey']):
        o = mb.copy()
        for ol in o:
            ol[0].set_image(ol[0].image*(1.5 + 0.3*k))
            ol[0].set_bmask(np.roll(ol[0].bmask, 3*k + 1))
            ol[0].set_ormask(ol[0].ormask | (1 << (20 + k)))
            ol[0].set_psf(ngmix.Observation(np.roll(ol[0].psf.image, k + 1, axis=0)*1.,
                                            jacobian=ol[0].psf.jacobian, meta={'k': k}))
        dep['k%d' % k] = o
    if c['same']:
        dep['k0'] = mb
    sb, db, combs = scene.combos(rng, len(mb))
    kw = dict(shear_band_combs=copy.deepcopy(sb), det_band_combs=copy.deepcopy(db))
    fk = colour(c)
    if c['mode'] < 2:
        try:
            mm.Metadetect(copy.deepcopy(conf), mb, np.random.RandomState(1), **kw,
                          **({'color_key_func': fk} if c['mode'] else
                             {'color_dep_mbobs': dep}))
            return 'one colour input alone is accepted'
        except RuntimeError:
            return None

    if c['mode'] == 2:      # both are given, although there are no data yet
        mm.Metadetect(copy.deepcopy(conf), mb, np.random.RandomState(1), **kw,
                      color_key_func=fk, color_dep_mbobs={})

    def fails(obs):
        return any(obs is dep['k%d' % k] and obs is not mb for k in c['fails']
                   if k < c['nkey'])
    types = conf['metacal'].get('types', scene.TYPES)
    args = dict(color_key_func=fk, color_dep_mbobs=dep)
    with scene.Metacal(fails) as mc:
        md = mm.Metadetect(copy.deepcopy(conf), mb, np.random.RandomState(1), **kw, **args)
        if not scene.wavg(first):
            try:
                md.go()
            except RuntimeError:
                return None
            return None if not mc.calls else 'accepted without an averaging first fitter'
        md.go()
        got = md.result
    if got is None:
        return None
    sh = {k: None if fails(dep[k]) else scene.Metacal()(dep[k], types=types) for k in dep}
    main = scene.Metacal()(mb, types=types)
    for t in types:
        rows = []
        for s, d in combs:
            cat, lst, _ = scene.measure(conf, main[t], s, d)
            if not len(cat):
                continue
            o = md._fitters[0]
            nc = fitting.fit_mbobs_list_wavg(
                mbobs_list=lst, fitter=o, shear_bands=s,
                bmask_flags=conf.get('bmask_flags', 0))
            for i in range(len(cat)):
                k = fk(nc[o.kind + '_band_flux'][i])
                if sh[k] is None:
                    continue
                m = detect.CatalogMEDSifier(
                    sh[k][t], cat['x'][i:i+1], cat['y'][i:i+1], cat['box_size'][i:i+1])
                l = m.get_multiband_meds().get_mbobs_list(
                    weight_type=conf['meds'].get('weight_type', 'weight'))
                r = scene.run_fitters(conf, l, s)
                q = dep[k]
                om = np.bitwise_or.reduce([q[b][0].ormask for b in s])
                bm = np.bitwise_or.reduce([q[b][0].bmask for b in s])
                pos = [int(np.clip(np.rint(np.float32(cat[a][i])), 0, n - 1))
                       for a, n in zip('yx', om.shape)]
                w = [q[b][0].weight.max() for b in s]
                ps = [q[b][0].psf.meta['result'] for b in s]
                T = sum(a*x['T'] for a, x in zip(w, ps))/sum(w)
                half = any(abs(abs(cat[a][i] % 1) - 0.5) < 1e-4 for a in 'xy')
                rows.append((r, cat['y'][i], cat['x'][i], om[pos[0], pos[1]],
                             bm[pos[0], pos[1]], T, half))
        n = 0 if got[t] is None else len(got[t])
        if n != len(rows):
            return '%d rows of %s, expected %d' % (n, t, len(rows))
        if not n:
            continue
        m = scene.differ(got[t], np.hstack([r[0] for r in rows]))
        if m:
            return '%s: %s' % (t, m)
        for i, r in enumerate(rows):
            g = got[t][i]
            if not np.allclose([g['sx_row'], g['sx_col']], r[1:3], rtol=1e-6):
                return '%s: position of row %d' % (t, i)
            if not r[6] and (g['ormask'], g['bmask']) != (r[3], r[4]):
                return '%s: masks of row %d: %s, expected %s' % (
                    t, i, (g['ormask'], g['bmask']), r[3:5])
            if g['psfrec_flags'] == 0 and not np.isclose(g['psfrec_T'], r[5], rtol=1e-6):
                return '%s: PSF size of row %d: %s, expected %s' % (
                    t, i, g['psfrec_T'], r[5])
    return None

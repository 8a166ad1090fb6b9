import copy
import numpy as np
from concrete import scene, P12
RULE = 'random tables, catalogues, masks, WCS, shear types, steps and region settings; ' \
       'every added column recomputed independently'
N_QUICK = 400
MIN = 60
SHEARS = {'noshear': (0, 0), '1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}


def cases(rng, deep):
    while True:
        n = int(rng.choice([0, 1, 2, 6]))
        conf = {}
        for k in ('mask_region', 'ormask_region'):
            if rng.randint(2):
                conf[k] = int(rng.choice([0, 1, 2, 3, 50]))
        if rng.randint(2):
            conf['mfrac_fwhm'] = float(rng.choice([0.9, 2.0]))
        nb = int(rng.randint(1, 5))
        yield dict(seed=int(rng.randint(1 << 30)), nb=nb, n=n, conf=conf,
                   dims=[int(v) for v in rng.randint(12, 40, 2)],
                   shear=str(rng.choice(list(SHEARS))), psfrec=bool(rng.randint(3) == 0),
                   step=None if rng.randint(2) else float(rng.choice([0.003, 0.03])),
                   mfrac=int(rng.randint(3)), off=bool(rng.randint(3) == 0),
                   det=[int(b) for b in rng.permutation(nb)[:rng.randint(1, nb + 1)]])


def unshear(rows, cols, sh, step, jac, dims):
    g1, g2 = [v*step for v in SHEARS[sh]]
    A = np.array([[1 + g1, g2], [g2, 1 - g1]])/np.sqrt(1 - g1**2 - g2**2)
    J = np.array([[jac.dudcol, jac.dudrow], [jac.dvdcol, jac.dvdrow]])
    p = np.array([cols, rows], dtype='f8')
    c = (np.array([dims[1], dims[0]])[:, None] - 1)/2
    q = np.linalg.solve(J, np.linalg.solve(A, J @ (p - c))) + c
    return q[1], q[0]


def check(c):
    from metadetect import metadetect as mm
    from metadetect.mfrac import measure_mfrac
    rng = np.random.RandomState(c['seed'])
    mb = scene.build(dict(seed=c['seed'], nb=c['nb'], dims=c['dims'], nobj=1,
                          mfrac=[0]*c['nb'], bits=0.))
    conf = dict(metacal={'psf': 'fitgauss'}, sx={}, meds={}, nodet_flags=0,
                model='wmom', weight={'fwhm': 1.2}, **c['conf'])
    if c['step']:
        conf['metacal']['step'] = c['step']
    md = mm.Metadetect(copy.deepcopy(conf), mb, np.random.RandomState(1))
    ny, nx = c['dims']
    n = c['n']
    dt = [('flags', 'i4'), ('shear_bands', 'U7'), ('wmom_g', 'f8', 2), ('wmom_T', 'f8')]
    if c['psfrec']:
        dt += [('psfrec_flags', 'i4'), ('psfrec_g', 'f8', 2), ('psfrec_T', 'f8')]
    res = np.zeros(n, dtype=dt)
    res['flags'] = rng.randint(0, 1000, n)
    res['shear_bands'] = '01'
    res['wmom_g'] = rng.normal(size=(n, 2))
    res['wmom_T'] = rng.normal(size=n)
    cat = np.zeros(n, dtype=[('x', 'f8'), ('y', 'f8'), ('box_size', 'i8'),
                             ('number', 'i4')])
    m = 0.4 if c['off'] else -3
    cat['x'] = np.float32(rng.uniform(-m, nx - 1 + m, n))
    cat['y'] = np.float32(rng.uniform(-m, ny - 1 + m, n))
    cat['box_size'] = rng.choice([16, 24, 32], n)
    msk = [((rng.uniform(size=(ny, nx)) < 0.1)*(
        1 << rng.randint(0, 29, (ny, nx)))).astype('i4') for _ in 'ab']
    mf = np.zeros((ny, nx))
    if c['mfrac']:
        s = rng.uniform(size=mf.shape) < (0.3 if c['mfrac'] == 1 else 0.01)
        mf[s] = rng.uniform(0, 1, s.sum())
    st = dict(flags=int(rng.choice([0, 32])), g1=rng.normal(), g2=rng.normal(),
              T=rng.normal())
    res0, cat0, mf0, m0 = res.copy(), cat.copy(), mf.copy(), [x.copy() for x in msk]
    o = md._add_positions_and_psf(
        cat=cat, res=res, shear_str=c['shear'], mfrac=mf, bmask=msk[0], ormask=msk[1],
        psf_stats=dict(st), det_bands=c['det'])
    for a, b in ((res, res0), (cat, cat0), (mf, mf0), (msk[0], m0[0]), (msk[1], m0[1])):
        if a.tobytes() != b.tobytes():
            return 'inputs changed'
    if len(o) != n:
        return 'number of rows'
    for k in res.dtype.names:
        if not k.startswith('psfrec') and not np.array_equal(o[k], res0[k]):
            return 'measured column %s changed' % k
    if np.any(o['det_bands'] != ''.join(str(b) for b in sorted(c['det']))):
        return 'detection bands %s of %s' % (o['det_bands'][0], c['det'])
    if np.any(o['psfrec_flags'] != st['flags']) or np.any(
            o['psfrec_g'] != [st['g1'], st['g2']]) or np.any(o['psfrec_T'] != st['T']):
        return 'PSF statistics'
    if not np.allclose(o['mfrac_img'], np.mean(mf0), rtol=1e-5):
        return 'mean masked fraction'
    if np.any(o['sx_row'] != cat0['y']) or np.any(o['sx_col'] != cat0['x']):
        return 'detected positions'
    r, q = unshear(cat0['y'], cat0['x'], c['shear'], c['step'] or 0.01,
                   mb[0][0].jacobian, c['dims'])
    d = max([0.] + list(np.abs(o['sx_row_noshear'] - r)) + list(
        np.abs(o['sx_col_noshear'] - q)))
    if d > 1e-4:
        return 'positions without shear off by %s' % d
    reg = {'bmask': max(1, c['conf'].get('mask_region', 1))}
    reg['ormask'] = c['conf'].get('ormask_region', 1)
    if reg['ormask'] <= 1:
        reg['ormask'] = reg['bmask']
    fw = c['conf'].get('mfrac_fwhm', 1.2)
    for sfx in ('', '_noshear'):
        rows, cols = o['sx_row' + sfx], o['sx_col' + sfx]
        for nm, a in zip(('bmask', 'ormask'), m0):
            for i in range(n):
                ok = []
                for y in P12.near(float(rows[i]), ny):
                    for x in P12.near(float(cols[i]), nx):
                        g = reg[nm] if reg[nm] > 1 else 0
                        ok.append(int(np.bitwise_or.reduce(a[
                            max(0, y - g):y + g + 1, max(0, x - g):x + g + 1], axis=None)))
                if int(o[nm + sfx][i]) not in ok:
                    return '%s of row %d: %s, expected %s' % (
                        nm + sfx, i, o[nm + sfx][i], ok)
        w = measure_mfrac(mfrac=mf0, x=cols, y=rows, box_sizes=cat0['box_size'],
                          obs=mb[0][0], fwhm=fw) if n and np.any(mf0 > 0) else np.zeros(n)
        if not np.allclose(o['mfrac' + sfx], w, rtol=1e-4, atol=1e-6, equal_nan=True):
            return 'mfrac%s: %s, expected %s' % (sfx, o['mfrac' + sfx], w)
    return None

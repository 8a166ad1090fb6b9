import numpy as np
import lsst.afw.image as ai
from metadetect.lsst import masking
from concrete import survey, P02, P03
from concrete.P04 import edge_want
RULE = ('random exposures of one to three bands with any corner, with and without '
        'noise, masked fraction and OR-masks; random bright objects on and off the image')
N_QUICK, N_DEEP = 150, 3000


def cases(rng, deep):
    while True:
        d = survey.gen(rng, hi=60 if rng.uniform() < 0.4 else 14)
        d['noise'], d['mfrac'], d['orm'] = [bool(rng.randint(2)) for _ in range(3)]
        d['norm'] = int(rng.randint(0, 4))
        d['kind'] = str(rng.choice(['edge', 'bright']))
        n = int(rng.choice([0, 1, 1, 2, 3]))
        d['x'] = rng.uniform(-8, d['dims'][1] + 8, n).tolist()
        d['y'] = rng.uniform(-8, d['dims'][0] + 8, n).tolist()
        d['r'] = (rng.uniform(0.5, 6, n)*10**rng.uniform(-.5, .5)).tolist()
        yield d


def check(d):
    m = survey.build(d)
    ny, nx = d['dims']
    opt, fams = {}, [('data', m)]
    if d['noise']:
        opt['noise_mbexp'] = survey.build(dict(d, seed=d['seed'] ^ 1))
        fams.append(('noise', opt['noise_mbexp']))
    if d['mfrac']:
        opt['mfrac_mbexp'] = survey.build(dict(d, seed=d['seed'] ^ 2))
        fams.append(('mfrac', opt['mfrac_mbexp']))
    rng = np.random.RandomState(d['seed'])
    if d['orm']:
        opt['ormasks'] = [rng.choice([0, 1, 4, 2**21], size=(ny, nx)).astype('i4')
                          for _ in range(d['norm'])]
        oldor = [o.copy() for o in opt['ormasks']]
    old = {n: survey.snap(f) for n, f in fams}
    wide = np.zeros((ny, nx), 'i4')
    iy, ix = np.mgrid[:ny, :nx]
    skip = np.zeros((ny, nx), bool)
    if d['kind'] == 'edge':
        masking.apply_apodized_edge_masks_mbexp(m, **opt)
        t = edge_want((ny, nx), 1.5)
        bit = ai.Mask.getPlaneBitMask('APODIZED_EDGE')
    else:
        x0, y0 = d['xy0']
        w = m.singles[0].getWcs()
        s = w.m @ (np.array([d['x'], d['y']]).reshape(2, -1) + np.array(
            [[x0], [y0]]) - 3.25)/3600
        info = np.zeros(len(d['x']), dtype=[('ra', 'f8'), ('dec', 'f8'), (
            'radius_pixels', 'f8')])
        info['ra'], info['dec'], info['radius_pixels'] = s[0], s[1], d['r']
        old_info = info.copy()
        masking.apply_apodized_bright_masks_mbexp(m, info, **opt)
        if not np.array_equal(info, old_info):
            return 'the object list was changed'
        bit = ai.Mask.getPlaneBitMask('BRIGHT')
        wb = ai.Mask.getPlaneBitMask('BRIGHT_EXPANDED')
        c = dict(d=(ny, nx), x=d['x'], y=d['y'], r=d['r'], h=1.5)
        t = P03.want(c, False)
        wide = np.where(P02.cover(dict(c, s=False, r=[r + 16 for r in d['r']])), wb, 0)
        for x, y, r in zip(d['x'], d['y'], d['r']):
            skip |= np.abs(np.hypot(ix - x, iy - y) - r - 16) < 1e-5
            skip |= np.abs(np.hypot(ix - x, iy - y) - r) < 1e-5
    # values that are one up to rounding may count as one
    skip |= (t < 1) & (t > 1 - 1e-6)
    low = t < 1
    for n, f in fams:
        for b, (o, s) in enumerate(zip(old[n], survey.snap(f))):
            for nm, x, y, exp in (
                    ('image', o[0], s[0], np.where(low, 1.0 if n == 'mfrac'
                                                   else o[0]*t, o[0])),
                    ('variance', o[1], s[1], o[1] if n == 'mfrac' else np.where(
                        low, np.inf, o[1])),
                    ('mask', o[2], s[2], o[2] if n == 'mfrac' else np.where(
                        low, o[2] | bit, o[2]) | wide)):
                ok = (y == exp) | (nm == 'image') & (
                    np.abs(y - exp) <= 1e-5*(1e-3 + np.abs(exp))) | skip
                ok &= low | skip | (nm == 'mask') | (y == x)
                if not ok.all():
                    q = tuple(int(v[0]) for v in np.where(~ok))
                    return ('%s %s' % (n, nm), 'band %d %s: %s, expected %s (taper %s)'
                            % (b, q, y[q], exp[q], t[q]))
    if d['orm']:
        for o, s in zip(oldor, opt['ormasks']):
            exp = np.where(low, o | bit, o) | wide
            if not ((s == exp) | skip).all():
                return 'OR-mask bits'

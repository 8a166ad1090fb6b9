import numpy as np
import ngmix
from metadetect import shearpos
RULE = 'random positions, WCS, shapes, steps and shear types against the explicit ' \
       'matrices'
SIGN = {'1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}
SKIP = ('noshear', '1p_psf', '1m_psf', '2p_psf', '2m_psf')


def cases(rng, deep):
    for t in SKIP + ('3p', 'p1', ''):
        yield dict(t=t, n=3, step=0.01, dims=[5, 9], jac=[2, 1, .2, .1, 0, .3], seed=1)
    while True:
        d = rng.normal(size=4)*10.0**rng.randint(-2, 2)
        if abs(d[0]*d[3] - d[1]*d[2]) < 0.05*np.abs(d).max()**2:
            continue
        yield dict(t=str(rng.choice(list(SIGN))), n=int(rng.randint(0, 6)),
                   step=float(rng.choice([0.01, 0.02, 0.5, -0.3, 0.001])),
                   dims=[int(v) for v in rng.randint(1, 60, 2)],
                   jac=[float(v) for v in np.append(rng.uniform(-20, 20, 2), d)],
                   seed=int(rng.randint(1 << 30)))


def close(a, b):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) < 1e-7*(1 + np.abs(b)))


def check(c):
    rng = np.random.RandomState(c['seed'])
    n = c['n']
    r, q = rng.uniform(-10, 70, n), rng.uniform(-10, 70, n)
    r0, q0 = r.copy(), q.copy()
    a = c['jac']
    j = ngmix.Jacobian(row=a[0], col=a[1], dvdrow=a[2], dvdcol=a[3], dudrow=a[4],
                       dudcol=a[5])
    ny, nx = c['dims']
    ob = ngmix.Observation(np.ones((ny, nx)), jacobian=j)
    kw = dict(rows=r, cols=q, shear_str=c['t'], step=c['step'])
    t = c['t']
    if t not in SIGN and t not in SKIP:
        for f in (shearpos.shear_positions, shearpos.unshear_positions):
            try:
                f(jac=j, dims=(ny, nx), **kw)
            except ValueError:
                continue
            return 'type %r accepted' % t
        return
    res = {}
    for w in ('shear', 'unshear'):
        o = getattr(shearpos, w + '_positions')(jac=j, dims=(ny, nx), **kw)
        o2 = getattr(shearpos, w + '_positions_obs')(obs=ob, **kw)
        if not all(np.array_equal(u, v) for u, v in zip(o, o2)):
            return '%s: observation form differs' % w
        if any(len(u) != n for u in o):
            return '%s: lengths' % w
        if not (np.array_equal(r, r0) and np.array_equal(q, q0)):
            return '%s: inputs modified' % w
        res[w] = o
        if t in SKIP:
            if not (np.array_equal(o[0], r0) and np.array_equal(o[1], q0)):
                return '%s of %s moves positions' % (w, t)
            continue
        g1, g2 = [v*c['step'] for v in SIGN[t]]
        m = np.array([[1 + g1, g2], [g2, 1 - g1]])/np.sqrt(1 - g1**2 - g2**2)
        if w == 'unshear':
            m = np.linalg.inv(m)
        D = np.array([[a[4], a[5]], [a[2], a[3]]])
        p = D.dot([r0 - (ny - 1)/2, q0 - (nx - 1)/2])
        e = np.linalg.solve(D, m.dot(p))
        if not (close(o[0], e[0] + (ny - 1)/2) and close(o[1], e[1] + (nx - 1)/2)):
            return '%s %s: positions differ from the matrix' % (w, t)
    for x, y in (('shear', 'unshear'), ('unshear', 'shear')):
        o = getattr(shearpos, y + '_positions')(
            rows=res[x][0], cols=res[x][1], shear_str=t, jac=j, dims=(ny, nx),
            step=c['step'])
        if not (close(o[0], r0) and close(o[1], q0)):
            return '%s then %s is not the identity' % (x, y)

"""random observations from a description"""
import numpy as np
import ngmix
OPT = ('bmask', 'ormask', 'noise', 'mfrac')


def gen(rng, nb=None, ny=None, nx=None, square=False, multi=True, noise=True,
        bmask=True, ormask=None, zeros=None, maxdim=14):
    ny = int(rng.randint(1, maxdim)) if ny is None else ny
    nx = ny if square else (int(rng.randint(1, maxdim)) if nx is None else nx)
    nb = int(rng.randint(1, 4)) if nb is None else nb
    return dict(
        seed=int(rng.randint(1 << 30)), dims=[ny, nx],
        epochs=[int(rng.randint(1, 4)) if multi else 1 for _ in range(nb)],
        mfrac=[int(rng.choice([0, 1, 2])) for _ in range(nb)],
        noise=noise, bmask=bmask, ormask=True if ormask is None else ormask,
        zeros=float(rng.choice([0, 0, 0.3, 0.9])) if zeros is None else zeros)


def build(d):
    rng = np.random.RandomState(d['seed'])
    ny, nx = d['dims']
    mb = ngmix.MultiBandObsList(meta={'mb': 1})
    for b, ne in enumerate(d['epochs']):
        ol = ngmix.ObsList(meta={'band': b})
        for e in range(ne):
            ol.append(one(rng, ny, nx, d, b, e))
        mb.append(ol)
    return mb


def one(rng, ny, nx, d, b, e):
    wt = rng.uniform(0.5, 3, (ny, nx))*(10.0**rng.randint(-1, 2))
    wt[rng.uniform(size=wt.shape) < d['zeros']] = 0
    if not np.any(wt > 0):
        wt[rng.randint(ny), rng.randint(nx)] = 1.5
    kw = dict(weight=wt, jacobian=jac(d.get('jac'), rng, ny, nx))
    if d['bmask']:
        kw['bmask'] = rng.choice([0, 0, 1, 2, 5, 2**20], size=(ny, nx)).astype('i4')
    if d['ormask']:
        kw['ormask'] = rng.choice([0, 0, 1, 8, 2**21], size=(ny, nx)).astype('i4')
    if d['noise']:
        kw['noise'] = rng.normal(size=(ny, nx))
    m = d['mfrac'][b]
    if m == 1 or (m == 2 and e == 0):
        kw['mfrac'] = rng.uniform(0, 1, (ny, nx))
    psf = ngmix.Observation(rng.uniform(0.1, 1, (5, 7)),
                            jacobian=ngmix.DiagonalJacobian(row=2, col=3))
    return ngmix.Observation(rng.normal(size=(ny, nx))*5, psf=psf,
                             meta={'id': (b, e)}, **kw)


def jac(j, rng, ny, nx):
    if j is None:
        return ngmix.DiagonalJacobian(row=(ny-1)/2, col=(nx-1)/2, scale=0.263)
    return ngmix.Jacobian(row=j[0], col=j[1], dvdrow=j[2], dvdcol=j[3], dudrow=j[4],
                          dudcol=j[5])


def snap(o):
    r = {n: getattr(o, n).copy() for n in ('image', 'weight')}
    for n in OPT:
        r[n] = getattr(o, n).copy() if getattr(o, 'has_' + n)() else None
    r['psf'] = o.psf.image.copy() if o.has_psf() else None
    j = o.jacobian
    r['jac'] = [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol]
    return r


def snap_all(mb):
    return [[snap(o) for o in ol] for ol in mb]


def eqv(a, b, tol=0):
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'f' and tol:
        return bool(np.all((np.abs(a - b) <= tol*(1 + np.abs(b))) |
                           (np.isnan(a) & np.isnan(b)) | (a == b)))
    if a.dtype.kind == 'f':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def differs(got, want, tol=0):
    """first difference of two snapshots"""
    for n in want:
        if not eqv(got[n], want[n], tol):
            return n
    return None


def differs_all(mb, want, tol=0):
    got = snap_all(mb)
    for b, (g, w) in enumerate(zip(got, want)):
        if len(g) != len(w):
            return 'number of epochs of band %d' % b
        for e, (x, y) in enumerate(zip(g, w)):
            n = differs(x, y, tol)
            if n:
                return '%s of band %d epoch %d' % (n, b, e)
    if len(got) != len(want):
        return 'number of bands'
    return None


def settle(mb, yes, no, amb):
    """
    yes, no: expected snapshots when the pixels of amb (which are on the edge of a
    condition up to rounding) meet the condition or not; the observed one is taken
    """
    out = []
    for g, y, n in zip(snap_all(mb), yes, no):
        r = []
        for a, b, c in zip(g, y, n):
            ok = np.ones(amb.shape, dtype=bool)
            for k in ('weight', 'bmask', 'mfrac'):
                if b[k] is not None and a[k] is not None and a[k].shape == amb.shape:
                    ok &= a[k] == b[k]
            d = dict(b)
            for k in ('weight', 'bmask', 'mfrac'):
                if b[k] is not None:
                    d[k] = np.where(amb & ~ok, c[k], b[k])
            r.append(d)
        out.append(r)
    return out

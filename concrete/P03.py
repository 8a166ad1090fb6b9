import numpy as np
from metadetect import masking as mk
RULE = 'random hole lists, kernel scales and image shapes against a per-pixel product'


def K(x, m, h):
    y = (x - m)/h + 3
    if y <= -3:
        return 0.0
    if y >= 3:
        return 1.0
    t = y/3
    # integral of 35/32 (1-t^2)^3
    return 0.5 + 35/32*(t - t**3 + 3*t**5/5 - t**7/7)


def cases(rng, deep):
    yield dict(d=[5, 7], x=[3.0], y=[2.0], r=[2.0], h=0.2, s=False)
    yield dict(d=[9, 9], x=[4.0, 4.0], y=[4.0, 2.0], r=[30.0, 3.0], h=1.0, s=True)
    yield dict(d=[4, 9], x=[9.4, -1.2], y=[1.0, 4.4], r=[2.5, 2.0], h=3.0, s=False)
    yield dict(d=[4, 4], x=[], y=[], r=[], h=1.0, s=True)
    yield dict(d=[30, 20], x=[10.0], y=[15.0], r=[14.0], h=1.7, s=False)
    while True:
        s = bool(rng.randint(2))
        ny = int(rng.randint(1, 16))
        nx = ny if s else int(rng.randint(1, 16))
        n = int(rng.randint(0, 5))
        y = np.round(rng.uniform(-6, ny + 6, n), int(rng.randint(3)))
        x = np.round(rng.uniform(-6, nx + 6, n), int(rng.randint(3)))
        r = np.round(rng.uniform(0, 12, n), int(rng.randint(3)))
        yield dict(d=[ny, nx], x=[float(v) for v in x], y=[float(v) for v in y],
                   r=[float(v) for v in r], h=float(np.round(rng.choice(
                       [0.05, 0.3, 1, 2, 5])*rng.uniform(0.5, 1.5), 3)), s=s)


def want(c, sym):
    ny, nx = c['d']
    m = np.ones((ny, nx))
    for y in range(ny):
        for x in range(nx):
            for cx, cy, r in zip(c['x'], c['y'], c['r']):
                d2 = (y - cy)**2 + (x - cx)**2
                if d2 < r*r:
                    m[y, x] *= K(np.sqrt(d2), r, c['h'])
    if sym:
        q = m.copy()
        for y in range(ny):
            for x in range(nx):
                q[y, x] *= m[x, ny - 1 - y]
        m = q
    return m


def bad(got, w):
    if got.shape != w.shape:
        return 'shape %s' % (got.shape,)
    e = ~(np.abs(got - w) < 1e-9)
    if e.any():
        p = tuple(np.argwhere(e)[0])
        return 'pixel %s is %r, expected %r' % (p, got[p], w[p])
    if got.min() < -1e-12 or got.max() > 1 + 1e-9:
        return 'values outside [0,1]'


def check(c):
    a = [np.array(c[k], dtype='f8') for k in 'xyr']
    b = [v.copy() for v in a]
    got = mk.make_foreground_apodization_mask(
        xm=a[0], ym=a[1], rm=a[2], dims=tuple(c['d']), symmetrize=c['s'],
        ap_rad=c['h'])
    msg = bad(got, want(c, c['s']))
    if msg:
        return msg
    for u, v in zip(a, b):
        if not np.array_equal(u, v):
            return 'hole list modified'
    base = 0.25 + (np.arange(got.size).reshape(got.shape) % 7)/10
    m = base.copy()
    mk._do_apodization_mask(rows=a[1], cols=a[0], radius_pixels=a[2], ap_mask=m,
                            ap_rad=c['h'])
    msg = bad(m, base*want(c, False))
    if msg:
        return 'existing mask: ' + msg
    # profile
    h = c['h']
    m0 = 4.0
    xs = np.linspace(m0 - 8*h, m0 + 2*h, 60)
    v = np.array([mk._ap_kern_kern(x, m0, h) for x in xs])
    if np.any(np.diff(v) < -1e-9) or np.any(np.abs(v - [K(x, m0, h) for x in xs]) > 1e-9):
        return 'profile is not the monotone cumulative triweight'

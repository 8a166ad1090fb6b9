import numpy as np
from metadetect import masking as mk
RULE = 'random hole lists (on, off and across the borders, tangent, overlapping), ' \
       'non-square and tiny images, compared with a per-pixel distance test'


def cases(rng, deep):
    fixed = [
        dict(d=[5, 7], x=[3.0], y=[2.0], r=[2.0], f=4, s=False),
        dict(d=[5, 7], x=[6.5], y=[-1.0], r=[1.5], f=2, s=False),
        dict(d=[4, 9], x=[9.4, -1.2], y=[1.0, 4.4], r=[1.5, 2.0], f=1 << 30, s=False),
        dict(d=[1, 1], x=[0.0], y=[0.0], r=[0.1], f=1, s=True),
        dict(d=[6, 6], x=[1.0, 1.0], y=[4.0, 4.0], r=[0.0, 1.0], f=3, s=True),
        dict(d=[3, 4], x=[], y=[], r=[], f=8, s=False),
        dict(d=[8, 8], x=[-2.0, 30.0, 3.0], y=[3.0, 30.0, -2.5], r=[5.0, 40.0, 3.0],
             f=5, s=True),
    ]
    for c in fixed:
        yield c
    while True:
        s = bool(rng.randint(2))
        ny = int(rng.randint(1, 14))
        nx = ny if s else int(rng.randint(1, 14))
        n = int(rng.randint(0, 5))
        if rng.rand() < 0.4:
            y = rng.randint(-8, ny + 8, n)
            x = rng.randint(-8, nx + 8, n)
            r = rng.randint(0, 9, n)
        else:
            y = np.round(rng.uniform(-8, ny + 8, n), 2)
            x = np.round(rng.uniform(-8, nx + 8, n), 2)
            r = np.round(rng.uniform(0, 9, n), 2)
        yield dict(d=[ny, nx], x=[float(v) for v in x], y=[float(v) for v in y],
                   r=[float(v) for v in r], f=int(2**rng.randint(0, 31)) | int(
                       rng.randint(0, 2)), s=s)


def cover(c):
    ny, nx = c['d']
    m = np.zeros((ny, nx), dtype=bool)
    for y in range(ny):
        for x in range(nx):
            for cx, cy, r in zip(c['x'], c['y'], c['r']):
                m[y, x] |= (y - cy)**2 + (x - cx)**2 < r*r
    if c['s']:
        q = m.copy()
        for y in range(ny):
            for x in range(nx):
                q[y, x] |= m[x, ny - 1 - y]
        m = q
    return m


def check(c):
    a = [np.array(c[k], dtype='f8') for k in 'xyr']
    b = [v.copy() for v in a]
    got = mk.make_foreground_bmask(xm=a[0], ym=a[1], rm=a[2], dims=tuple(c['d']),
                                   symmetrize=c['s'], mask_bit_val=c['f'])
    want = np.where(cover(c), c['f'], 0)
    if got.shape != want.shape:
        return 'shape %s' % (got.shape,)
    if not np.array_equal(got, want):
        w = np.argwhere(got != want)[0]
        return 'pixel %s is %s, expected %s' % (w, got[tuple(w)], want[tuple(w)])
    for u, v in zip(a, b):
        if not np.array_equal(u, v):
            return 'hole list modified'
    # adding to a mask in use
    base = (np.arange(got.size).reshape(got.shape) % 7).astype('i4')
    m = base.copy()
    mk._do_mask_foreground(rows=a[1], cols=a[0], radius_pixels=a[2], bmask=m,
                           flag=c['f'])
    c2 = dict(c, s=False)
    if not np.array_equal(m, np.where(cover(c2), base | c['f'], base)):
        return 'existing bits are not kept'

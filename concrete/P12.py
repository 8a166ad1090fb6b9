import numpy as np
from metadetect.metadetect import _fill_in_mask_col
RULE = 'random non-square masks, positions inside, on half pixels, outside and far off ' \
       'the image; regions 1 to larger than the image; every value recomputed by loops'


def cases(rng, deep):
    while True:
        ny, nx = [int(v) for v in rng.randint(1, 16, 2)]
        n = int(rng.choice([0, 1, 4, 10]))
        f = rng.choice([0.5, 0.01])
        yield dict(ny=ny, nx=nx, seed=int(rng.randint(1 << 30)),
                   r=[float(v) for v in np.round(rng.uniform(-4, ny + 4, n)/f)*f],
                   c=[float(v) for v in np.round(rng.uniform(-4, nx + 4, n)/f)*f],
                   reg=int(rng.choice([1, 1, 2, 3, 5, 30])), f4=bool(rng.randint(2)))


def near(x, n):
    """candidates for the nearest pixel"""
    lo = int(np.floor(x))
    c = [lo] if x - lo < 0.5 else ([lo, lo + 1] if x - lo == 0.5 else [lo + 1])
    return sorted({min(max(v, 0), n - 1) for v in c})


def check(c):
    rng = np.random.RandomState(c['seed'])
    m = (rng.choice([0, 0, 0, 1], size=(c['ny'], c['nx'])) <<
         rng.randint(0, 30, (c['ny'], c['nx']))).astype('i4')
    dt = 'f4' if c['f4'] else 'f8'
    r, q = np.array(c['r'], dtype=dt), np.array(c['c'], dtype=dt)
    m0, r0, q0 = m.copy(), r.copy(), q.copy()
    out = _fill_in_mask_col(mask_region=c['reg'], rows=r, cols=q, mask=m)
    if not (np.array_equal(m, m0) and np.array_equal(r, r0) and np.array_equal(q, q0)):
        return 'input changed'
    if len(out) != len(r):
        return 'number of values'
    for i in range(len(r)):
        ok = []
        for y in near(float(r0[i]), c['ny']):
            for x in near(float(q0[i]), c['nx']):
                if c['reg'] <= 1:
                    v = int(m0[y, x])
                else:
                    v = 0
                    for a in range(c['ny']):
                        for b in range(c['nx']):
                            if abs(a - y) <= c['reg'] and abs(b - x) <= c['reg']:
                                v |= int(m0[a, b])
                ok.append(v)
        if int(out[i]) not in ok:
            return 'object %d at %s: %s, expected %s' % (i, (r0[i], q0[i]), out[i], ok)

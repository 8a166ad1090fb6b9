import numpy as np
from metadetect.fitting import combine_fit_res
RULE = 'random sets of 1 to 5 fitter results (missing, empty, different lengths, ' \
       'different labels, scalar and vector columns); every column compared'
N_QUICK = 2000


def cases(rng, deep):
    while True:
        m = int(rng.randint(1, 6))
        n = int(rng.choice([0, 0, 1, 2, 7]))
        odd = int(rng.randint(6))
        yield dict(
            n=[int(rng.choice([n, 0, 1, n + 1])) if odd == 0 and rng.randint(2) else n
               for i in range(m)],
            have=[bool(rng.randint(4)) for _ in range(m)] if odd < 4 else [True]*m,
            lab=int(rng.choice([0, 0, 0, 1, 2, 3])), seed=int(rng.randint(1 << 30)))


def make(rng, i, n, lab):
    dt = [('shear_bands', 'U7'), ('f%d_flags' % i, 'i4'), ('f%d_g' % i, 'f8', (2,)),
          ('f%d_T' % i, 'f8')]
    if rng.randint(2):
        dt.append(('f%d_band_flux' % i, 'f8', (int(rng.randint(1, 4)),)))
    dt = [dt[j] for j in rng.permutation(len(dt))]
    r = np.zeros(n, dtype=dt)
    for c in r.dtype.names:
        if c == 'shear_bands':
            r[c] = '012'
            if lab and n and i == lab:
                r[c][rng.randint(n)] = '01'
        elif c.endswith('flags'):
            r[c] = rng.randint(0, 2**20, n)
        else:
            r[c] = rng.normal(size=r[c].shape)
    return r


def check(c):
    rng = np.random.RandomState(c['seed'])
    rs = [make(rng, i, n, c['lab']) if h else None
          for i, (n, h) in enumerate(zip(c['n'], c['have']))]
    old = [None if r is None else r.copy() for r in rs]
    lens = [r.shape[0] if r is not None else 0 for r in rs]
    have = [r for r in rs if r is not None]
    try:
        r = combine_fit_res(rs)
    except RuntimeError:
        r = 'refused'
    for a, b in zip(rs, old):
        if a is not None and (a.dtype != b.dtype or not np.array_equal(a, b)):
            return ('input', 'a fitter result was modified')
    if len(rs) > 1 and have:
        labs = [h['shear_bands'] for h in have]
        bad = len(set(lens)) > 1 or any(
            not np.array_equal(x, labs[0]) for x in labs[1:])
    else:
        bad = False
    if bad:
        return None if isinstance(r, str) else 'inconsistent results were combined'
    if isinstance(r, str):
        return 'consistent results were refused'
    if not have:
        return None if r is None else 'a result although no fitter has one'
    if r is None:
        return 'no result'
    if r.shape != (have[0].shape[0],):
        return 'number of rows %s' % (r.shape,)
    want = set()
    for h in have:
        want |= set(h.dtype.names)
    if set(r.dtype.names) != want:
        return 'columns %s, expected %s' % (r.dtype.names, sorted(want))
    for h in [o for o in old if o is not None]:
        for col in h.dtype.names:
            if r.dtype[col] != h.dtype[col]:
                return 'type of column %s' % col
            if not np.array_equal(r[col], h[col]):
                return 'values of column %s' % col

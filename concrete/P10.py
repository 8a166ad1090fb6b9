import math
import numpy as np
from metadetect import detect, defaults
RULE = 'random detection catalogues, both box types, limits on, between and off the ' \
       'allowed sizes; every size compared with a linear search over the allowed sizes'
FW = 2*math.sqrt(2*math.log(2))


def cases(rng, deep):
    while True:
        k = rng.randint(4)
        A = [2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128, 192, 256, 384, 512]
        if k == 0:
            lo, hi = sorted(int(v) for v in rng.choice(A, 2))
        elif k == 1:
            lo = int(rng.randint(1, 40))
            hi = lo + int(rng.randint(0, 3))
        else:
            lo, hi = sorted(int(v) for v in rng.randint(1, 600, 2))
        n = int(rng.choice([0, 1, 3, 8]))
        yield dict(lo=lo, hi=hi, n=n, seed=int(rng.randint(1 << 30)), type=str(rng.choice(
            ['iso_radius', 'sigma_size', 'bad'], p=[0.47, 0.47, 0.06])),
            rad_min=float(rng.choice([0, 4, 7.5])), rad_fac=float(rng.choice([2, 1.5, 0.7])),
            pad=float(rng.choice([2, 0, 3.3])), sf=float(rng.choice([5, 3.1, 0.3])),
            scale=float(rng.choice([1, 5, 40, 200])))


def check(c):
    rng = np.random.RandomState(c['seed'])
    n = c['n']
    cat = np.zeros(n, dtype=[(x, 'f8') for x in ('iso_radius', 'flux_radius', 'a', 'b')] + [
        (x, 'i8') for x in ('xmin', 'xmax', 'ymin', 'ymax')])
    cat['iso_radius'] = rng.uniform(0, c['scale'], n)
    cat['flux_radius'] = rng.uniform(0, c['scale']/3, n)
    cat['a'] = rng.uniform(0.5, 4, n)
    cat['b'] = cat['a']*rng.uniform(0.1, 1, n)
    for x in 'xy':
        cat[x + 'min'] = rng.randint(0, 500, n)
        cat[x + 'max'] = cat[x + 'min'] + rng.randint(0, max(2, int(c['scale'])), n)
    m = detect.MEDSifier.__new__(detect.MEDSifier)
    m.meds_config = dict(box_type=c['type'], min_box_size=c['lo'], max_box_size=c['hi'],
                         rad_min=c['rad_min'], rad_fac=c['rad_fac'],
                         box_padding=c['pad'], sigma_fac=c['sf'])
    conf = dict(m.meds_config)
    cat0 = cat.copy()
    try:
        out = m._get_box_sizes(cat)
    except ValueError:
        return None if c['type'] == 'bad' and n else 'ValueError'
    if c['type'] == 'bad' and n:
        return 'box type accepted'
    if len(out) != n:
        return 'number of sizes'
    if not np.array_equal(cat, cat0) or m.meds_config != conf:
        return 'input changed'
    ok = [s for s in defaults.ALLOWED_BOX_SIZES if c['lo'] <= s <= c['hi']] + [c['hi']]
    for i in range(n):
        r = cat[i]
        if c['type'] == 'iso_radius':
            v = 2*(c['rad_fac']*max(r['iso_radius'], c['rad_min'])) + c['pad']
            if abs(v - round(v)) < 1e-9:
                continue
            w = int(v)
        else:
            v = r['flux_radius']*2/FW*c['sf']*(2 - r['b']/r['a'])
            if abs(v - round(v)) < 1e-9:
                continue
            w = max(2*math.ceil(v), r['xmax'] - r['xmin'] + 1, r['ymax'] - r['ymin'] + 1)
        w = min(max(w, c['lo']), c['hi'])
        want = min(s for s in ok if s >= w)
        if out[i] != want:
            return 'object %d: size %s, expected %s (wanted %s)' % (i, out[i], want, w)

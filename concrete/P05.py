import numpy as np
from metadetect import masking as mk
from concrete import obs
from concrete.P04 import edge_want
RULE = 'random multi-band multi-epoch observations and taper scales; every array of ' \
       'every epoch is compared with the per-pixel specification'


def cases(rng, deep):
    while True:
        o = obs.gen(rng, maxdim=int(rng.choice([4, 14, 20])))
        h = float(np.round(rng.choice([0.05, 0.3, 1.0])*rng.uniform(0.5, 1.5), 3))
        yield dict(o=o, h=h, bit=int(rng.choice([1, 64, 2**20])))


def edged(s, t, bit, lim=1.0):
    """specification of the edge correction of one snapshot"""
    s = dict(s)
    m = t < lim
    s['image'] = np.where(m, s['image']*t, s['image'])
    s['noise'] = np.where(m, s['noise']*t, s['noise'])
    s['weight'] = np.where(m, 0.0, s['weight'])
    s['bmask'] = np.where(m, s['bmask'] | bit, s['bmask'])
    if s['mfrac'] is not None:
        s['mfrac'] = np.where(m, 1.0, s['mfrac'])
    return s


def check(c):
    mb = obs.build(c['o'])
    old = obs.snap_all(mb)
    t = edge_want(c['o']['dims'], c['h'])
    yes, no = [[[edged(s, t, c['bit'], lim) for s in ol] for ol in old]
               for lim in (1.0, 1 - 1e-9)]
    mk.apply_apodization_corrections(mbobs=mb, ap_rad=c['h'], mask_bit_val=c['bit'])
    # kernel values that are one up to rounding may count as one
    want = obs.settle(mb, yes, no, (t < 1) != (t < 1 - 1e-9))
    d = obs.differs_all(mb, want, 1e-9)
    if d:
        return '%s differs from the specification' % d
    for ol in mb:
        for o in ol:
            if o.ignore_zero_weight and not np.any(o.weight > 0):
                return 'zero-weight observation that does not accept zero weight'
            if o.meta['id'] is None:
                return 'meta'

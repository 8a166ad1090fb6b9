import numpy as np
from metadetect import procflags
from metadetect.metadetect import _get_psf_stats
from concrete import obs, P13
RULE = 'random PSF fit results over bands and epochs (with e or g), zero-weight epochs ' \
       'and given flags; values compared with the weighted means'


def cases(rng, deep):
    while True:
        o = obs.gen(rng, nb=int(rng.randint(1, 5)), maxdim=6)
        o['zb'] = [bool(rng.randint(4) == 0) for _ in o['epochs']]
        if rng.randint(8) == 0:
            o['zb'] = [True for _ in o['epochs']]
        yield dict(o=o, fl=int(rng.choice([0, 0, 0, 1, 2**21, 2**21 | 5])))


def check(c):
    mb = P13.build(c)
    rng = np.random.RandomState(c['o']['seed'] + 1)
    s = np.zeros(4)
    for ol in mb:
        for ob in ol:
            e, T = rng.uniform(-0.3, 0.3, 2), rng.uniform(0.1, 2)
            k = rng.randint(3)
            ob.psf.meta['result'] = dict(T=T, flags=0, **(
                {'e': e} if k == 0 else {'g': e} if k == 1 else {'e': e, 'g': e + 9}))
            w = ob.weight.max()
            s += w*np.array([1, e[0], e[1], T])
    old = obs.snap_all(mb)
    r = _get_psf_stats(mb, c['fl'])
    if c['fl'] or s[0] <= 0:
        if r['flags'] != procflags.PSF_FAILURE | c['fl']:
            return 'flags %s' % r['flags']
        if not all(np.isnan(r[k]) for k in ('g1', 'g2', 'T')):
            return 'values are not NaN: %s' % r
    else:
        if r['flags'] != 0:
            return 'flags %s' % r['flags']
        for k, v in zip(('g1', 'g2', 'T'), s[1:]/s[0]):
            if not abs(r[k] - v) <= 1e-10*(1 + abs(v)):
                return '%s is %s, expected %s' % (k, r[k], v)
    return obs.differs_all(mb, old)

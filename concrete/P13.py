import numpy as np
import ngmix
from metadetect.metadetect import Metadetect
from concrete import obs
RULE = 'random band subsets with zero-weight bands, bands without masked fraction and ' \
       'several epochs; masks and masked fractions compared pixel by pixel'


def cases(rng, deep):
    while True:
        o = obs.gen(rng, nb=int(rng.randint(1, 6)), multi=bool(rng.randint(6) == 0),
                    maxdim=10)
        o['zb'] = [bool(rng.randint(4) == 0) for _ in o['epochs']]
        if rng.randint(8) == 0:
            o['zb'] = [True for _ in o['epochs']]
        o['mfrac'] = [int(v) for v in rng.randint(0, 2, len(o['epochs']))]
        yield dict(o=o)


def build(c):
    mb = obs.build(c['o'])
    for ol, z in zip(mb, c['o']['zb']):
        if z:
            for ob in ol:
                ob.ignore_zero_weight = False
                ob.weight = np.zeros_like(ob.weight)
    return mb


def check(c):
    mb = build(c)
    old = obs.snap_all(mb)
    md = Metadetect.__new__(Metadetect)
    multi = any(len(ol) != 1 for ol in mb)
    r = []
    for f in (md._get_ormask_and_bmask, md._get_mfrac):
        try:
            r.append(f(mb))
            if multi:
                return 'more than one epoch accepted'
        except AssertionError:
            if not multi:
                raise
    d = obs.differs_all(mb, old)
    if d:
        return 'input changed: ' + d
    if multi:
        return None
    (orm, bm), mf = r
    for nm, got in (('ormask', orm), ('bmask', bm)):
        w = np.zeros_like(old[0][0][nm])
        for ol in old:
            w = w | ol[0][nm]
        if not np.array_equal(got, w):
            return nm
    num, den = np.zeros(mf.shape), 0.0
    for ol in old:
        wt = ol[0]['weight']
        w = np.median(wt[wt > 0]) if np.any(wt > 0) else 0.0
        den += w
        if ol[0]['mfrac'] is not None:
            num += w*ol[0]['mfrac']
    want = num/den if den > 0 else np.ones(mf.shape)
    if not np.allclose(mf, want, rtol=1e-10, atol=1e-12):
        return 'masked fraction'
    for a in (orm, bm, mf):
        a[...] = 3
    d = obs.differs_all(mb, old)
    if d:
        return 'result shares memory with an input: ' + d

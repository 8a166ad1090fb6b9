import numpy as np
from metadetect import detect
from concrete import obs
RULE = 'random multi-band observations with zero weights and with or without bit masks; ' \
       'detection image, noise and excluded pixels compared pixel by pixel'


def cases(rng, deep):
    while True:
        o = obs.gen(rng, nb=int(rng.randint(1, 6)), multi=False, maxdim=16)
        o['nobm'] = [bool(rng.randint(3) == 0) for _ in o['epochs']]
        yield dict(o=o, nodet=int(rng.choice([0, 1, 2, 4, 3, 2**20, 2**20 | 1, 7])))


def check(c):
    import ngmix
    mb = obs.build(c['o'])
    mb2 = ngmix.MultiBandObsList()
    for ol, no in zip(mb, c['o']['nobm']):
        ob = ol[0]
        if no:
            ob = ngmix.Observation(ob.image, weight=ob.weight, jacobian=ob.jacobian,
                                   psf=ob.psf, noise=ob.noise)
        l = ngmix.ObsList()
        l.append(ob)
        mb2.append(l)
    old = obs.snap_all(mb2)
    seen = []

    class M(detect.MEDSifier):
        def _run_sep(self):
            seen.append(1)
    m = M(mb2, dict(filter_kernel=[[1.0]], detect_thresh=1.0), {}, nodet_flags=c['nodet'])
    m._set_detim()
    w = np.array([np.median(ol[0]['weight'][ol[0]['weight'] > 0]) for ol in old])
    im = sum(wi*ol[0]['image'] for wi, ol in zip(w, old))/w.sum()
    if m.detim.shape != im.shape or not np.allclose(m.detim, im, rtol=1e-9, atol=1e-9):
        return 'detection image'
    if abs(m.detnoise - w.sum()**-0.5) > 1e-9*m.detnoise:
        return 'detection noise'
    bad = np.zeros(im.shape, dtype=bool)
    for ol in old:
        if ol[0]['bmask'] is not None:
            bad |= (ol[0]['bmask'] & c['nodet']) != 0
    if not np.array_equal(np.asarray(m.detmask) != 0, bad):
        return 'excluded pixels'
    d = obs.differs_all(mb2, old)
    if d:
        return 'input changed: ' + d
    if not seen:
        return 'detection was not run'

import numpy as np
from metadetect.fitting import symmetrize_obs_weights
from concrete import obs
RULE = 'random square observations with isolated, many and opposite zero weights; every ' \
       'pixel compared with its three rotated counterparts'
N_QUICK = 600


def cases(rng, deep):
    while True:
        o = obs.gen(rng, nb=1, multi=False, square=True, bmask=bool(rng.randint(2)),
                    ormask=bool(rng.randint(2)), noise=bool(rng.randint(2)))
        yield dict(o=o, k=int(rng.randint(4)))


def check(c):
    ob = obs.build(c['o'])[0][0]
    rng = np.random.RandomState(c['o']['seed'] + 3)
    n = ob.image.shape[0]
    if c['k']:
        w = ob.weight.copy()
        if c['k'] == 1:
            w[:] = 1.5
            w[rng.randint(n), rng.randint(n)] = 0
        elif c['k'] == 2:       # one half-turn away from killing everything
            w[:, :] = 0
            w[rng.randint(n), rng.randint(n)] = 2
        else:
            w[:] = rng.choice([1e-300, 1e-20, 2.0, 0.0], size=w.shape)
            w[0, 0] = 1e-9
        if not np.any(w > 0):
            return None
        ob.set_weight(w)
    old = obs.snap(ob)
    oi = ob.ignore_zero_weight
    r = symmetrize_obs_weights(ob)
    d = obs.differs(obs.snap(ob), old)
    if d or ob.ignore_zero_weight != oi:
        return ('input', 'the input observation was modified: %s' % d)
    if r is ob or np.shares_memory(r.weight, ob.weight):
        return ('alias', 'the result shares the weight of the input')
    exp = dict(old)
    w = old['weight'].copy()
    for y in range(n):
        for x in range(n):
            p, q = y, x
            for _ in range(4):
                if old['weight'][p, q] <= 0:
                    w[y, x] = 0
                p, q = q, n - 1 - p
    exp['weight'] = w
    d = obs.differs(obs.snap(r), exp)
    if d:
        return ('result ' + d, '%s of the result differs' % d)
    if not np.any(w > 0) and r.ignore_zero_weight:
        return 'observation without usable pixels does not accept zero weight'

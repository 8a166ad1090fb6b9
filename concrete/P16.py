import copy
import numpy as np
import ngmix
from ngmix.gexceptions import BootPSFFailure
from concrete import scene
RULE = 'random request sequences over colour keys and band combinations with counted PSF ' \
       'fits and metacal runs that may fail per key; masks, masked fraction and PSF ' \
       'statistics compared with direct formulas'
N_QUICK = 400
MIN = 60


def cases(rng, deep):
    while True:
        nb = int(rng.choice([1, 2, 3, 3, 4, 4, 5]))
        keys = [None, 'blue', 'red', 'same', 'alias'][:rng.randint(1, 6)]
        reqs = [[keys[rng.randint(len(keys))], [int(b) for b in rng.permutation(nb)[
            :rng.randint(1, nb + 1)]]] for _ in range(rng.randint(1, 13))]
        yield dict(seed=int(rng.randint(1 << 30)), nb=nb, reqs=reqs,
                   psf=[n for n in ('main', 'blue', 'red') if not rng.randint(4)],
                   metacal=[n for n in ('main', 'blue', 'red') if not rng.randint(4)],
                   nowt=int(rng.randint(6)))


def want(mb, bands, failed, flag):
    """masks, masked fraction and PSF statistics of some bands"""
    obs = [mb[b][0] for b in bands]
    om = np.bitwise_or.reduce([o.ormask for o in obs])
    bm = np.bitwise_or.reduce([o.bmask for o in obs])
    w = [np.median(o.weight[o.weight > 0]) if np.any(o.weight > 0) else 0. for o in obs]
    mf = [o.mfrac if o.has_mfrac() else np.zeros_like(o.image) for o in obs]
    mf = sum(x*m for x, m in zip(w, mf))/sum(w) if sum(w) > 0 else np.ones_like(mf[0])
    w = [o.weight.max() for o in obs]
    if failed or not sum(w) > 0:
        st = dict(flags=flag, g1=np.nan, g2=np.nan, T=np.nan)
    else:
        r = [o.psf.meta['result'] for o in obs]
        g = [x['e'] if 'e' in x else x['g'] for x in r]
        st = dict(flags=0, g1=sum(a*x[0] for a, x in zip(w, g))/sum(w),
                  g2=sum(a*x[1] for a, x in zip(w, g))/sum(w),
                  T=sum(a*x['T'] for a, x in zip(w, r))/sum(w))
    return om, bm, mf, st


def check(c):
    from metadetect import metadetect as mm, procflags
    rng = np.random.RandomState(c['seed'])
    conf = scene.config(rng, False)
    obs = {n: scene.build(dict(seed=c['seed'] + i, nb=c['nb'], dims=[12, 13], nobj=1,
                               mfrac=[int(rng.randint(2)) for _ in range(c['nb'])],
                               bits=float(rng.choice([0, 0.3]))))
           for i, n in enumerate(('main', 'blue', 'red'))}
    for n in obs:
        for ol in obs[n]:
            if not c['nowt']:
                ol[0].set_weight(np.zeros_like(ol[0].weight))
            r = dict(flags=0, T=rng.uniform(1, 2))
            r[str(rng.choice(['e', 'g']))] = rng.uniform(-0.1, 0.1, 2)
            if rng.randint(2) and 'e' in r:
                r['g'] = rng.uniform(-0.1, 0.1, 2)
            ol[0].psf.meta['plan'] = r
    of = {None: 'main', 'blue': 'blue', 'red': 'red', 'same': 'main', 'alias': 'blue'}
    dep = {k: obs[of[k]] for k in ('blue', 'red', 'same')}
    dep['alias'] = obs['blue'].copy()
    of['alias'] = 'alias'
    obs['alias'] = dep['alias']
    log = []

    def which(x):
        for n in obs:
            if x is obs[n] or (len(x) == c['nb'] and all(
                    a[0] is b[0] for a, b in zip(x, obs[n]))):
                return n
        return 'other observations'

    def plan(n):
        return 'blue' if n == 'alias' else n

    def fit(mbobs, rng):
        n = which(mbobs)
        log.append(('PSF fits', n))
        for ol in mbobs:
            ol[0].psf.meta['result'] = ol[0].psf.meta['plan']
        if plan(n) in c['psf']:
            raise BootPSFFailure('planned')

    class Mcal(scene.Metacal):
        def __call__(self, obs, rng=None, types=None, **kw):
            n = which(obs)
            log.append(('metacal', n))
            if plan(n) in c['metacal']:
                raise BootPSFFailure('planned')
            return {'noshear': obs.copy(), 'of': n}
    old = mm.fitting.fit_all_psfs
    try:
        mm.fitting.fit_all_psfs = fit
        with Mcal():
            md = mm.Metadetect(
                copy.deepcopy(conf), obs['main'], np.random.RandomState(1),
                color_key_func=lambda f: 'blue', color_dep_mbobs=dep)
            log.clear()
            done = set()
            for k, bands in c['reqs']:
                n = of[k]
                asked = list(bands)
                got = md._get_mbobs_data(k, bands)
                if bands != asked:
                    return 'the request is changed'
                done |= {('PSF fits', n), ('metacal', n)}
                if sorted(log) != sorted(done):
                    return 'work %s after requests of %s' % (log, sorted(done))
                r = got['mcal_res']
                if plan(n) in c['metacal']:
                    if r is not None:
                        return 'metacal data of %s although it fails' % n
                elif r is None or r['of'] != n:
                    return 'metacal data of key %s are %s' % (k, r and r['of'])
                om, bm, mf, st = want(obs[n], asked, plan(n) in c['psf'],
                                      procflags.PSF_FAILURE)
                if not np.array_equal(got['ormask'], om) or not np.array_equal(
                        got['bmask'], bm):
                    return 'masks of key %s bands %s' % (k, asked)
                if not np.allclose(got['mfrac'], mf, rtol=1e-6, atol=1e-9):
                    return 'masked fraction of key %s bands %s' % (k, asked)
                ps = got['psf_stats']
                for x in st:
                    if not np.allclose(ps[x], st[x], rtol=1e-8, atol=1e-12,
                                       equal_nan=True):
                        return 'PSF statistics of key %s bands %s: %s, expected %s' % (
                            k, asked, ps, st)
    finally:
        mm.fitting.fit_all_psfs = old
    return None

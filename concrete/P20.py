import numpy as np
import ngmix
import ngmix.flags
from metadetect import procflags as pf
from metadetect import fitting as m
RULE = 'objects of 1 to 4 bands with bad data, missing bands, repeated epochs, foreign ' \
       'shear bands, failed or flagged PSF and object fits, with and without coadding; ' \
       'flags, values and the observations that are fit compared with an independent ' \
       'account; lists of objects; names of the flags'
N_QUICK = 1200
NAMES = ['SHEAR_RANGE_ERROR', 'EDGE_HIT', 'PSF_FAILURE', 'OBJ_FAILURE',
         'NOMOMENTS_FAILURE', 'BAD_BBOX', 'ZERO_WEIGHTS', 'NO_DATA', 'MISSING_BAND',
         'INCONSISTENT_BANDS', 'CENTROID_FAILURE', 'DEBLEND_FAILURE']


def cases(rng, deep):
    yield dict(kind='names')
    while True:
        if not rng.randint(25):
            yield dict(kind='str', v=int(rng.randint(1 << 31)) & int(rng.randint(1 << 31)))
            continue
        nb = int(rng.choice([1, 1, 2, 2, 3, 3, 4]))
        sb = None
        if rng.randint(3) and nb:
            sb = [int(x) for x in rng.permutation(nb)[:rng.randint(1, nb + 1)]]
            if not rng.randint(8):
                sb = sb + [nb + int(rng.randint(2))]
        yield dict(kind=str(rng.choice(['admom', 'gauss', 'gauss', 'gauss'])), nb=nb, sb=sb,
                   seed=int(rng.randint(1 << 30)), hard=int(rng.choice([0, 0, 1, 2])),
                   sym=bool(rng.randint(2)), coadd=bool(rng.randint(2)),
                   flags=int(rng.choice([0, 1, 6])), n=int(rng.choice([1, 1, 1, 2, 3, 0])))


def build(rng, c, i):
    mb = ngmix.MultiBandObsList()
    hard = c['hard'] and (c['n'] == 1 or rng.randint(2))
    n = int(rng.randint(3, 7))
    jac = ngmix.DiagonalJacobian(row=1, col=1, scale=0.2)
    for b in range(c['nb']):
        ol = ngmix.ObsList()
        nn = n + (c['hard'] and not rng.randint(12))
        for e in range(1 + (hard and not rng.randint(8))):
            wt = rng.uniform(0.5, 3, (nn, nn))*10.0**rng.randint(-1, 2)
            wt[rng.uniform(size=wt.shape) < rng.choice([0, 0.1])] = 0
            bm = rng.choice([0, 8, 16], size=(nn, nn)).astype('i4')
            if hard:
                k = rng.randint(16)
                if k == 0:
                    wt[:] = 0
                elif k == 1:
                    bm[rng.randint(nn), rng.randint(nn)] |= int(rng.choice([1, 2, 4]))
                elif k == 2 and e == 0:
                    break
            ol.append(ngmix.Observation(
                rng.normal(size=(nn, nn)), weight=wt, bmask=bm, meta={'b': b, 'i': i},
                ignore_zero_weight=False, jacobian=jac, psf=ngmix.Observation(
                    rng.uniform(size=(5, 5)), meta={'psf': b})))
        mb.append(ol)
    return mb


class Failure(Exception):
    pass


def res(rng, c, keys, n=1):
    d = {'flags': 0, 'T_flags': 0}
    if c['hard'] and not rng.randint(3):
        d['flags'] = int(rng.choice([2, 8, 64, 96]))
        d['T_flags'] = int(rng.choice([0, d['flags'], 8]))
    for k in keys:
        d[k] = rng.uniform(-0.4, 0.4, 2) if k in 'eg' else rng.normal(size=(2, 2)) \
            if k.endswith('_cov') else rng.uniform(0.1, 5)
        if k.startswith('flux') and n > 1:
            d[k] = rng.normal(size=n)
    return d


class Admom:
    def __init__(self, rng, c):
        self.rng, self.c, self.log = rng, c, []

    def go(self, o):
        r = None
        if not (self.c['hard'] and not self.rng.randint(5)):
            r = res(self.rng, self.c, ('T', 'T_err', 's2n', 'e', 'e_cov'))
        self.log.append((o, o.image.copy(), o.weight.copy(), r))
        if r is None:
            raise Failure('planned') if self.rng.randint(2) else ngmix.GMixRangeError('x')
        return dict(r)


class Psf:
    """leaves a result in each PSF"""

    def __init__(self, rng, c):
        self.rng, self.c, self.log = rng, c, []

    def go(self, mb):
        got = []
        self.log.append((mb, got))
        k = self.rng.randint(8) if self.c['hard'] else 0
        if k == 1:
            got.append('PSF')
            raise ngmix.gexceptions.PSFFluxFailure('planned')
        if k == 2:
            got.append('ANY')
            raise Failure('planned')
        if k == 3:
            got.append('PSF')
            raise ngmix.gexceptions.BootPSFFailure('planned')
        for ol in mb:
            for o in ol:
                r = res(self.rng, self.c, ('T',))
                del r['T_flags']
                k = 'ge'[self.rng.randint(2)]
                r[k] = self.rng.uniform(-0.4, 0.4, 2)
                o.psf.meta['result'] = r
                got.append((o, r))


class Obj:
    def __init__(self, rng, c):
        self.rng, self.c, self.log = rng, c, []

    def go(self, mb):
        r = None
        if not (self.c['hard'] and not self.rng.randint(6)):
            r = res(self.rng, self.c, ('T', 'T_err', 's2n', 'g', 'g_cov', 'flux',
                                       'flux_err'), len(mb))
            del r['T_flags']
        self.log.append(([[(o, o.image.copy(), o.weight.copy()) for o in ol]
                          for ol in mb], r))
        if r is None:
            raise Failure('planned')
        return dict(r)


def data_flags(mb, c):
    f = 0
    for ol in mb:
        if len(ol) == 0:
            f |= pf.MISSING_BAND
        elif len(ol) > 1:
            f |= pf.INCONSISTENT_BANDS
        else:
            if not (ol[0].weight > 0).any():
                f |= pf.ZERO_WEIGHTS
            if (ol[0].bmask & c['flags']).any():
                f |= pf.EDGE_HIT
    return f


def coadd(mb, sb):
    """image, weight or None, flags; assumes good data"""
    if len(mb) == 1 and sb[0] == 0:
        sb = [0]
    if len(sb) == 0 or max(sb) >= len(mb):
        return None, pf.INCONSISTENT_BANDS
    os = [mb[s][0] for s in sb]
    if len(os) == 1:
        return (os[0].image, os[0].weight, os[0].psf.image), 0
    if len(set(o.image.shape for o in os)) > 1:
        return None, pf.INCONSISTENT_BANDS
    w = np.array([np.median(o.weight[o.weight > 0]) for o in os])
    w /= w.sum()
    allw = np.logical_and.reduce([o.weight > 0 for o in os])
    if not allw.any():
        return None, pf.ZERO_WEIGHTS
    with np.errstate(all='ignore'):
        wt = np.where(allw, 1/sum(x**2/o.weight for x, o in zip(w, os)), 0)
    return (sum(x*o.image for x, o in zip(w, os)), wt,
            sum(x*o.psf.image for x, o in zip(w, os))), 0


def symm(w):
    r = w.copy()
    for k in (1, 2, 3):
        r[np.rot90(w, k) <= 0] = 0
    return r


def close(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-10, atol=1e-300,
                                                      equal_nan=True)


NO = 1


def expect_admom(c, mb, sb, log):
    nb = len(mb)
    E = dict(flags=NO, obj_flags=NO, psf_flags=NO, T_flags=NO)
    f = data_flags(mb, c)
    co = None
    if f == 0:
        co, f = coadd(mb, sb)
    if f:
        if log:
            return 'bad data are fit'
        E['flags'] |= f
        return E
    if not log:
        return 'good data are not fit'
    if not close(log[0][1], co[2]):
        return 'the first fit is not the PSF of the coadd'
    p = log[0][3]
    if p is None:
        if len(log) > 1:
            return 'fit after a PSF failure'
        E['flags'] |= pf.PSF_FAILURE
        return E
    E['psf_flags'] = p['flags']
    if p['flags'] == 0:
        E.update(psf_g=p['e'], psf_T=p['T'])
    if len(log) != 2:
        return '%d fits' % len(log)
    wt = symm(co[1]) if c['sym'] else co[1]
    if not close(log[1][1], co[0]) or not close(log[1][2], wt):
        return 'the object fit is not of the coadd'
    r = log[1][3]
    if r is None:
        E['flags'] = pf.OBJ_FAILURE
        E['any_noattempt'] = 1
        return E
    E.update(T_flags=r['T_flags'], obj_flags=r['flags'], flags=r['flags'] | p['flags'])
    if r['T_flags'] == 0:
        E.update(T=r['T'], T_err=r['T_err'])
        if p['flags'] == 0:
            E['T_ratio'] = r['T']/p['T']
    if r['flags'] == 0:
        E.update(s2n=r['s2n'], g=r['e'], g_cov=r['e_cov'])
    return E


def e2g(e):
    s = np.hypot(*e)
    return e*np.tanh(0.5*np.arctanh(s))/s


def expect_gauss(c, mb, sb, plog, olog):
    nb = len(mb)
    E = dict(flags=NO, obj_flags=NO, psf_flags=NO, T_flags=NO,
             band_flux_flags=np.full(nb, NO))
    f = data_flags(mb, c)
    if any(s >= nb for s in sb):
        f |= pf.INCONSISTENT_BANDS
    co = None
    if f == 0 and c['coadd']:
        co, f = coadd(mb, sb)
    if f == 0 and not sb:
        return 'skip'       # no bands: nothing is promised
    if f:
        if plog or olog:
            return 'bad data are fit'
        E['flags'] |= f
        return E
    if len(plog) != 1:
        return '%d PSF fits of good data' % len(plog)
    got = plog[0][1]
    if got and got[0] in ('PSF', 'ANY'):
        E['flags'] |= pf.PSF_FAILURE | (pf.OBJ_FAILURE if got[0] == 'ANY' else 0)
        return E
    if all(r['flags'] for _, r in got):
        if olog:
            return 'object fit without any PSF'
        E['flags'] |= pf.PSF_FAILURE
        return E
    if len(olog) != 1:
        return '%d object fits of good data' % len(olog)
    fit, r = olog[0]
    if [len(x) for x in fit] != [1]*(1 if c['coadd'] else len(sb)):
        return 'wrong number of bands fit'
    for i, ol in enumerate(fit):
        o, im, wt = ol[0]
        want = co[:2] if c['coadd'] else (mb[sb[i]][0].image, mb[sb[i]][0].weight)
        if not close(im, want[0]) or not close(wt, want[1]):
            return 'the fit is not of the shear bands'
    if r is None:
        E['flags'] |= pf.PSF_FAILURE | pf.OBJ_FAILURE
        return E
    fl = r['flags']
    pfl = 0
    for _, p in got:
        pfl |= p['flags']
    E.update(flags=fl | pfl, obj_flags=fl, T_flags=fl, psf_flags=pfl,
             band_flux=np.full(nb, np.nan), band_flux_err=np.full(nb, np.nan))
    E['band_flux_flags'][sb] = fl
    if fl == 0:
        E.update({k: r[k] for k in ('s2n', 'g', 'g_cov', 'T', 'T_err')})
        E['band_flux'][sb] = r['flux']
        E['band_flux_err'][sb] = r['flux_err']
    if pfl == 0:
        w = [1.0] if c['coadd'] else [
            np.median(o.weight[o.weight > 0]) for o, _ in got]
        T = [p['T'] for _, p in got]
        g = [p['g'] if 'g' in p else e2g(p['e']) for _, p in got]
        wT = sum(x*y for x, y in zip(w, T))
        E.update(psf_T=wT/sum(w), psf_g=sum(x*y*z for x, y, z in zip(w, T, g))/wT)
        if fl == 0:
            E['T_ratio'] = r['T']/E['psf_T']
    return E


def compare(front, d, E, nb, sb):
    if d.shape != (1,):
        return 'shape', d.shape
    E = dict(E)
    if str(d['shear_bands'][0]) != ''.join(str(s) for s in sorted(sb)):
        return 'shear_bands', d['shear_bands'][0]
    anyno = E.pop('any_noattempt', 0)
    none = dict(psf_g=[np.nan]*2, psf_T=np.nan, s2n=np.nan, g=[np.nan]*2,
                g_cov=[[np.nan]*2]*2, T=np.nan, T_err=np.nan, T_ratio=np.nan,
                band_flux=np.full(nb, np.nan), band_flux_err=np.full(nb, np.nan),
                band_flux_flags=np.full(nb, NO))
    none.update(E)
    for k, v in none.items():
        if nb <= 1 and k.startswith('band'):
            v = v[0] if nb else (NO if k.endswith('flags') else np.nan)
        x = d['%s_%s' % (front, k)][0]
        if k.endswith('flags'):
            if k == 'flags' and anyno:
                x = x & ~NO
            if not np.array_equal(x, v):
                return k, '%s: %s, expected %s' % (k, x, v)
        elif not close(x, np.asarray(v)):
            return k, '%s: %s, expected %s' % (k, x, v)
    return None


def names():
    vals = [getattr(pf, n) for n in NAMES]
    own = [v for k, v in vars(ngmix.flags).items() if k.isupper() and type(v) is int]
    for n, v in zip(NAMES, vals):
        if v <= 0 or v & (v - 1) or v >= 2**31:
            return '%s is not a single usable bit' % n
        if v in own:
            return '%s is also an ngmix flag' % n
        s = pf.NAME_MAP[v]
        if pf.NAME_MAP[s] != v:
            return 'the name of %s belongs to another flag' % n
    if len(set(vals)) != len(vals):
        return 'two flags share a bit'
    if pf.NO_ATTEMPT != ngmix.flags.NO_ATTEMPT:
        return 'NO_ATTEMPT'
    for k, s in ngmix.flags.NAME_MAP.items():
        if isinstance(k, int) and pf.NAME_MAP.get(k) != s:
            return 'ngmix flag %d lost its name' % k
    for k, v in pf.NAME_MAP.items():
        if pf.NAME_MAP.get(v) != k:
            return 'the name map is not two-way at %r' % (k,)
    return None


def check(c):
    if c['kind'] == 'names':
        return names()
    if c['kind'] == 'str':
        want = '|'.join(pf.NAME_MAP.get(1 << i, 'bit 2**%d' % i) for i in range(32)
                        if c['v'] >> i & 1)
        for v in (c['v'], np.int32(c['v']), np.int64(c['v'])):
            got = pf.get_procflags_str(v)
            if got != want:
                return 'description %r of %d, expected %r' % (got, c['v'], want)
        return None
    rng = np.random.RandomState(c['seed'])
    old = {k: getattr(m, k) for k in ('get_admom_runner', 'get_gauss_obj_runner',
                                      'get_gauss_psf_runner')}
    A, P, O = Admom(rng, c), Psf(rng, c), Obj(rng, c)
    asked = []
    m.get_admom_runner = lambda rng: A
    m.get_gauss_psf_runner = lambda rng: P
    m.get_gauss_obj_runner = lambda rng, nband, scale: asked.append(nband) or O
    try:
        mbs = [build(rng, c, i) for i in range(c['n'])]
        front = 'am' if c['kind'] == 'admom' else 'gauss'
        sb = list(range(c['nb'])) if c['sb'] is None else c['sb']
        single = c['n'] == 1 and c['seed'] % 2
        kw = dict(bmask_flags=c['flags'], rng=rng)
        if c['sb'] is not None:
            kw['shear_bands'] = list(c['sb'])
        if single:
            if front == 'am':
                if c['seed'] % 4 == 1:
                    kw['runner'] = A
                out = m.fit_mbobs_admom(mbobs=mbs[0], symmetrize=c['sym'], **kw)
            else:
                if c['seed'] % 4 == 1:
                    kw.update(obj_runner=O, psf_runner=P)
                out = m.fit_mbobs_gauss(mbobs=mbs[0], coadd=c['coadd'], **kw)
        else:
            out = m.fit_mbobs_list_joint(
                mbobs_list=mbs, fitter_name=front if c['seed'] % 3 or front != 'am'
                else 'admom', symmetrize=c['sym'], coadd=c['coadd'], **kw)
    finally:
        for k, v in old.items():
            setattr(m, k, v)
    if c['n'] == 0:
        return None if out is None else 'a table without objects'
    if len(out) != c['n']:
        return '%d rows for %d objects' % (len(out), c['n'])
    if not single and front == 'gauss' and asked and asked[0] != (
            1 if c['coadd'] else len(sb)):
        return 'the fitter was set up for %s bands' % asked[0]
    al, pl, ol = list(A.log), list(P.log), list(O.log)
    for i, mb in enumerate(mbs):
        mine = [x for x in al if x[0].meta.get('i', i) == i]
        if front == 'am':
            # the fits of one object: PSF, then object if the PSF did not fail
            n = 0
            if data_flags(mb, c) == 0 and coadd(mb, sb)[1] == 0:
                n = 1 if not al or al[0][3] is None else 2
            mine, al = al[:n], al[n:]
            E = expect_admom(c, mb, sb, mine)
        else:
            ok = data_flags(mb, c) == 0 and not any(s >= len(mb) for s in sb) and (
                not c['coadd'] or coadd(mb, sb)[1] == 0)
            p, pl = (pl[:1], pl[1:]) if ok else ([], pl)
            fails = not p or (p[0][1] and p[0][1][0] in ('PSF', 'ANY')) or all(
                r['flags'] for _, r in p[0][1])
            o, ol = ([], ol) if fails else (ol[:1], ol[1:])
            E = expect_gauss(c, mb, sb, p, o)
        if E == 'skip':
            continue
        if isinstance(E, str):
            return E
        x = compare(front, out[i:i+1], E, c['nb'], sb)
        if x:
            return front + ' ' + x[0], 'object %d of %d: %s' % (i, c['n'], x[1])
    if al or pl or ol:
        if not (front == 'gauss' and not sb):
            return 'bad data are fit'
    return None

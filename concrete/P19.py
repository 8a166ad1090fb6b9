import numpy as np
import ngmix
from ngmix.moments import make_mom_result, fwhm_to_T
from metadetect import procflags as pf
from metadetect.fitting import fit_mbobs_wavg, fit_mbobs_list_wavg
from concrete import obs
RULE = 'random objects of 0 to 4 bands with a fitter returning random moments, ' \
       'normalisations, flags, missing moments and missing fluxes; every column compared ' \
       'with an independent average; lists of objects stacked'
N_QUICK = 800


def cases(rng, deep):
    while True:
        nb = int(rng.choice([0, 1, 1, 2, 2, 3, 4]))
        sb = None
        if rng.randint(3):
            sb = [int(x) for x in rng.permutation(max(nb, 1))[:rng.randint(1, nb + 2)]]
            if not rng.randint(6):
                sb = sb + [nb + 1]
            if not rng.randint(15):
                sb = []
        hard = int(rng.choice([0, 0, 0, 1, 1, 2]))
        yield dict(nb=nb, sb=sb, seed=int(rng.randint(1 << 30)), hard=hard,
                   reg=float(rng.choice([0, 0, 0.8, 1.2])), sym=bool(rng.randint(2)),
                   flags=int(rng.choice([0, 1, 6])), n=int(rng.choice([1, 1, 1, 2, 0])))


def result(rng, hard, psf):
    s = rng.uniform(-1, 1, 7)
    s[5] = rng.uniform(2, 60) if not psf else rng.uniform(0.5, 2)
    s[4] = s[5]*rng.uniform(0.1, 3)
    s[2:4] = s[4]*rng.uniform(-0.3, 0.3, 2)
    a = rng.normal(size=(7, 7))
    c = a.dot(a.T) + np.eye(7)*0.1
    r = dict(flags=int(rng.choice([0, 0, 0, 4])), flagstr='x', sums=s, sums_cov=c,
             flux=s[5]*1.5, flux_err=rng.uniform(0.1, 2),
             flux_flags=int(rng.choice([0, 0, 0, 2, 8])))
    k = rng.randint(4)
    if k:
        r['sums_norm'] = rng.uniform(0.5, 5) if k > 1 else np.nan
    if hard:
        k = rng.randint(12)
        if k < 4:
            del r[('sums', 'sums_cov', 'flux', 'flux_flags')[k]]
        elif k == 4:
            s[5] = 0
        elif k == 5:
            s[4] = -s[4]
        elif k == 6:
            c *= -1
        elif k == 7:
            s[:2] = np.nan
        elif k == 8 and not psf:
            r['sums_norm'] = 0.0
    return r


class Fitter:
    kind = 'wmom'

    def __init__(self, rng, hard, log):
        self.rng, self.hard, self.log = rng, hard, log

    def go(self, o, **kw):
        psf = 'psf' in o.meta
        r = result(self.rng, self.hard and not self.rng.randint(
            3 if self.hard == 2 else 8), psf)
        if psf:
            r['flux_flags'] = 0
        self.log.append((o, kw, r, {k: v.copy() if hasattr(v, 'copy') else v
                                    for k, v in r.items()}))
        return r


class PFitter(Fitter, ngmix.prepsfmom.PrePSFMom):
    pass


def build(rng, c, i):
    mb = ngmix.MultiBandObsList()
    for b in range(c['nb']):
        n = int(rng.randint(3, 7))
        ol = ngmix.ObsList()
        for e in range(1 + (not rng.randint(8))):
            wt = rng.uniform(0.5, 3, (n, n))*10.0**rng.randint(-1, 2)
            wt[rng.uniform(size=wt.shape) < rng.choice([0, 0.15])] = 0
            bm = rng.choice([0, 8, 16], size=(n, n)).astype('i4')
            if c['hard']:
                k = rng.randint(16)
                if k == 0:
                    wt[:] = 0
                elif k == 1:
                    bm[rng.randint(n), rng.randint(n)] |= int(rng.choice([1, 2, 4]))
                elif k == 2 and e == 0:
                    break
                elif k == 3:      # symmetrization kills all
                    wt[:, :(n+1)//2] = 0
            ol.append(ngmix.Observation(
                rng.normal(size=(n, n)), weight=wt, bmask=bm, meta={'b': b, 'i': i},
                ignore_zero_weight=False, psf=ngmix.Observation(
                    rng.uniform(size=(5, 5)), meta={'psf': b})))
        mb.append(ol)
    return mb


def symm(w):
    r = w.copy()
    for k in (1, 2, 3):
        r[np.rot90(w, k) <= 0] = 0
    return r


def average(rs, wgts, use, ratio):
    m, cv, ws, fx, fv = np.zeros(6), np.zeros((6, 6)), 0.0, 0.0, 0.0
    for b in use:
        r, w = rs[b], wgts[b]
        nrm = r.get('sums_norm', 1.0)
        nrm = nrm if np.isfinite(nrm) else 1.0
        f = w*ratio.get(b, 1.0)/nrm
        m += f*r['sums'][:6]
        cv += f**2*r['sums_cov'][:6, :6]
        fx += w*r['sums'][5]
        fv += w**2*r['sums_cov'][5, 5]
        ws += w
    return m/ws, cv/ws**2, fx/ws, fv/ws**2


def moments(m, cv, fx, fv, reg):
    t = make_mom_result(m.copy(), cv.copy())
    r = t
    if reg > 0:
        T = fwhm_to_T(reg)
        a = np.eye(6)
        a[4, 5] = T
        m2 = m.copy()
        m2[4] = m[4] + T*m[5]
        r = make_mom_result(m2, a.dot(cv).dot(a.T))
        for k in ('T', 'T_err', 'T_flags'):
            r[k] = t[k]
        r['flags'] |= t['flags']
    r['flux'] = fx
    if fx <= 0:
        r['flags'] |= ngmix.flags.NONPOS_FLUX
    if fv > 0:
        r['s2n'] = fx/np.sqrt(fv)
    else:
        r['s2n'] = np.nan
        r['flags'] |= ngmix.flags.NONPOS_VAR
    return r


def expected(c, mb, log, prepsf):
    """log: what the fitter returned, in order"""
    nb = c['nb']
    sb = list(range(nb)) if c['sb'] is None else c['sb']
    res, psf, wg, fl = [], [], [], []
    log = list(log)
    for b in range(nb):
        f, w, r, p = 0, 0.0, None, None
        if len(mb[b]) == 0:
            f = pf.MISSING_BAND
        else:
            o = mb[b][0]
            wt = symm(o.weight) if c['sym'] else o.weight
            if not np.any(wt > 0):
                f |= pf.ZERO_WEIGHTS
            if np.any(o.bmask & c['flags']):
                f |= pf.EDGE_HIT
            if f == 0:
                w = np.median(wt[wt > 0])
                if len(log) < 2:
                    return 'band %d was not fit' % b
                (o1, k1, _, r), (o2, k2, _, p) = log[:2]
                log = log[2:]
                if o1.meta.get('b') != b or not np.array_equal(o1.weight, wt) or k1 \
                        or not np.array_equal(o1.image, o.image):
                    return 'object fit of band %d is not on its observation' % b
                if o2.meta.get('psf') != b or k2 != (
                        {'no_psf': True} if prepsf else {}):
                    return 'PSF fit of band %d is not on its PSF' % b
        res.append(r)
        psf.append(p)
        wg.append(w)
        fl.append(f)
    if log:
        return 'an unusable band was fit'
    E = dict(psf_g=[np.nan]*2, psf_T=np.nan, s2n=np.nan, g=[np.nan]*2,
             g_cov=[[np.nan]*2]*2, T=np.nan, T_err=np.nan, T_ratio=np.nan,
             T_flags=pf.NO_ATTEMPT)
    sh = [b for b in range(nb) if b in sb]
    flux, ferr, ff = [], [], []
    for b in range(nb):
        f = fl[b]
        r = res[b]
        if not sh:
            f, r = pf.MISSING_BAND, {}
        elif r is None:
            f |= pf.MISSING_BAND
        elif any(k not in r for k in ('flux', 'flux_err', 'flux_flags')):
            f |= pf.NOMOMENTS_FAILURE
            r = {}
        else:
            f |= r['flux_flags']
        r = r or {}
        flux.append(r.get('flux', np.nan))
        ferr.append(r.get('flux_err', np.nan))
        ff.append(f)
    if not sh:
        E.update(psf_flags=pf.MISSING_BAND, obj_flags=pf.MISSING_BAND | pf.PSF_FAILURE)
    else:
        def isok(r):
            return r is not None and 'sums' in r and 'sums_cov' in r
        of = pfl = 0
        for b in sh:
            of |= fl[b]
            pfl |= fl[b]
            if res[b] is None:
                of |= pf.MISSING_BAND
                pfl |= pf.MISSING_BAND
            else:
                if not isok(res[b]):
                    of |= pf.NOMOMENTS_FAILURE
                if not (isok(res[b]) and isok(psf[b])):
                    pfl |= pf.NOMOMENTS_FAILURE
            if wg[b] <= 0:
                of |= pf.ZERO_WEIGHTS
                pfl |= pf.ZERO_WEIGHTS
        ratio = {}
        for b in sh:
            if res[b] is not None and 'sums' in res[b] and 'sums' in psf[b]:
                n1, n2 = (x.get('sums_norm', np.nan) for x in (res[b], psf[b]))
                if psf[b]['sums'][5] == 0:
                    pfl |= pf.ZERO_WEIGHTS
                elif np.isfinite(n1) and np.isfinite(n2):
                    if n1 == 0:
                        pfl |= pf.ZERO_WEIGHTS
                    else:
                        ratio[b] = res[b]['sums'][5]/n1/(psf[b]['sums'][5]/n2)
                else:
                    ratio[b] = res[b]['sums'][5]/psf[b]['sums'][5]
        # bands used by one average but not the other
        if of == 0 and pfl == 0 and [isok(res[b]) for b in sh] != [
                isok(psf[b]) for b in sh]:
            of |= pf.INCONSISTENT_BANDS
            pfl |= pf.INCONSISTENT_BANDS
        if of == 0 and any(res[b].get('sums_norm', 1) == 0 for b in sh):
            return None
        if pfl == 0:
            r = moments(*average(psf, wg, sh, ratio), 0)
            pfl |= r['flags']
            E.update(psf_g=r['e'], psf_T=r['T'])
        if of == 0:
            r = moments(*average(res, wg, sh, {}), c['reg'])
            of |= r['flags']
            E.update(s2n=r['s2n'], T=r['T'], T_err=r['T_err'], T_flags=r['T_flags'],
                     g=r['e'], g_cov=r['e_cov'])
            if pfl == 0:
                E['T_ratio'] = r['T']/E['psf_T']
        if pfl:
            of |= pf.PSF_FAILURE
        E.update(psf_flags=pfl, obj_flags=of)
    if nb == 0:
        ff, flux, ferr = [pf.MISSING_BAND], [np.nan], [np.nan]
    E['flags'] = E['obj_flags'] | int(np.bitwise_or.reduce(ff)) if nb else E['obj_flags']
    one = nb < 2
    E['band_flux'] = flux[0] if one else flux
    E['band_flux_err'] = ferr[0] if one else ferr
    E['band_flux_flags'] = ff[0] if one else ff
    E['shear_bands'] = ''.join('%d' % b for b in sorted(sb))
    return E


def check(c):
    rng = np.random.RandomState(c['seed'])
    prepsf = bool(rng.randint(2))
    log = []
    fit = (PFitter if prepsf else Fitter)(rng, c['hard'], log)
    if prepsf:
        fit.kind = 'pgauss'
    mbs, exp = [], []
    for i in range(max(c['n'], 1)):
        mbs.append(build(rng, c, i))
    old = [obs.snap_all(mb) for mb in mbs]
    st = rng.get_state()
    kw = dict(fitter=fit, bmask_flags=c['flags'], shear_bands=c['sb'],
              fwhm_reg=c['reg'], symmetrize=c['sym'])
    rows = []
    with np.errstate(all='ignore'):
        for mb in mbs:
            a = len(log)
            rows.append(fit_mbobs_wavg(mbobs=mb, **kw))
            E = expected(c, mb, log[a:], prepsf)
            if isinstance(E, str):
                return E
            exp.append(E)
    for mb, o in zip(mbs, old):
        for x, y in zip(obs.snap_all(mb), o):
            for p, q in zip(x, y):
                d = obs.differs(p, q)
                if d:
                    return ('input', 'an observation was modified: %s' % d)
    for d, E in zip(rows, exp):
        if E is None:
            continue
        m = comp(d, E, fit.kind)
        if m:
            return m
    # the list of all objects: the same rows in order
    rng.set_state(st)
    del log[:]
    with np.errstate(all='ignore'):
        r = fit_mbobs_list_wavg(mbobs_list=mbs if c['n'] else [], **kw)
    if c['n'] == 0:
        return None if r is None else ('list', 'a result for no objects')
    if r is None or r.dtype != rows[0].dtype or len(r) != len(rows):
        return ('list', 'list of objects: rows')
    for k in r.dtype.names:
        w = np.concatenate([x[k] for x in rows])
        if not (np.array_equal(r[k], w) or (w.dtype.kind == 'f' and np.allclose(
                r[k], w, equal_nan=True, rtol=1e-12))):
            return ('list', 'list of objects: column %s' % k)


def comp(d, E, kind):
    if d.shape != (1,):
        return 'not one row'
    want = set(kind + '_' + k for k in E if k != 'shear_bands') | {'shear_bands'}
    if set(d.dtype.names) != want:
        return ('columns', 'columns %s' % sorted(set(d.dtype.names) ^ want))
    for k, v in E.items():
        x = d[k if k == 'shear_bands' else kind + '_' + k][0]
        if k == 'shear_bands':
            ok = str(x) == v
        elif 'flags' in k:
            ok = np.array_equal(x, v)
        else:
            v = np.asarray(v, dtype=float)
            ok = np.shape(x) == v.shape and np.allclose(
                x, v, rtol=1e-8, atol=1e-11, equal_nan=True)
        if not ok:
            return (k, 'column %s: %s, expected %s' % (k, x, v))

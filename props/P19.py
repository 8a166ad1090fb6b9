"""weighted average of the bands"""
import types
from engine.lib import *
from engine import obsmodel as om
from engine.rt import SList

META = dict(
    assumptions=['moments normalisations of the averaged results are not zero'])
Z = z3.IntVal(0)


class Res:
    """result of a per-band fit: may be missing, may lack moments"""
    __sym_heap__ = True

    def __init__(self, t, k):
        self.t, self.k = t, k

    def __sym_none__(self):
        return truth(self.t['none'].elem((self.k,)))

    def __sym_vmap__(self, f):
        return Res(self.t, f(self.k))

    def __sym_contains__(self, key):
        if key in self.t['keys']:
            return self.t['has_' + key].elem((self.k,))
        return False

    def __getitem__(self, key):
        if key == 'sums_norm':
            return norm(self.t, self.k)
        return om.sub(self.t[key], (self.k,))


def norm(t, k):
    v = to_real(lift(t['sums_norm'].elem((k,)))).e
    return SReal(v, If(truth(t['nan'].elem((k,))), z3.IntVal(NAN), z3.IntVal(FIN)))


def table(name, n, zero=False):
    keys = ('sums', 'sums_cov', 'sums_norm')
    t = dict(keys=keys, none=inp(name + '_none', (n,), 'b'),
             sums=inp(name + '_sums', (n, 7), 'f'),
             sums_cov=inp(name + '_cov', (n, 7, 7), 'f'),
             sums_norm=inp(name + '_norm', (n,), 'f', None if zero else (
                 lambda v: v != 0)),
             nan=inp(name + '_nan', (n,), 'b'))
    for k in keys:
        t['has_' + k] = inp('%s_has_%s' % (name, k), (n,), 'b')
    return t


def has(t, k, *keys):
    return And(Not(truth(t['none'].elem((k,)))), *[
        truth(t['has_' + x].elem((k,))) for x in keys])


def val(a, *ix):
    return to_real(lift(a.elem(tuple(
        z3.IntVal(i) if isinstance(i, int) else i for i in ix)))).e


def sums(weighted):
    def go(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.fitting', '_sum_bands_wavg')
        pf = S.w.load('metadetect.procflags')

        def run():
            n = nat('n')
            res = table('r', n)
            wres = table('w', n, True) if weighted else None
            sb = inp('issb', (n,), 'b')
            wg = inp('wgt', (n,), 'f')
            fl = inp('flags', (n,), 'bits')

            def lst(fn):
                return SList.sym(n.e, fn)
            r = f(all_res=lst(lambda k: Res(res, k)), all_is_shear_band=lst(
                lambda k: sb.elem((k,))), all_wgts=lst(lambda k: wg.elem((k,))),
                all_flags=lst(lambda k: fl.elem((k,))),
                all_wgt_res=lst(lambda k: Res(wres, k)) if weighted else None)

            def used(k):
                return And(truth(sb.elem((k,))), has(res, k, 'sums', 'sums_cov'))

            def fin(t, k):
                return And(has(t, k, 'sums_norm'), Not(truth(t['nan'].elem((k,)))))

            def both(k):
                return And(has(res, k, 'sums'), has(wres, k, 'sums'))

            def term(k, fn):
                """fn(factor of band k)"""
                nb, w = val(res['sums_norm'], k), val(wg, k)
                plain = If(fin(res, k), fn(w/nb), fn(w))
                if not weighted:
                    return plain
                a, b = val(wres['sums'], k, 5), val(res['sums'], k, 5)
                na = val(wres['sums_norm'], k)
                return If(And(both(k), b != 0), If(
                    fin(res, k), If(fin(wres, k), If(na == 0, fn(w/nb), fn(
                        w*(a/na/b*nb)/nb)), fn(w*(a/b)/nb)), fn(w*(a/b))), plain)

            def tot(fn):
                k = CTX.index('k')
                return mk_fold1('sum', k, Z, n.e, If(used(k), fn(k), z3.RealVal(0)))
            c, d = idx('c', 6), idx('d', 6)

            def out(key, *ix):
                return to_real(lift(r[key].elem(ix) if ix else r[key])).e
            prove('weights summed over the shear bands', out('wgt_sum') == tot(
                lambda k: val(wg, k)))
            prove('moments summed over the shear bands with their weights', out(
                'raw_mom', c) == tot(lambda k: term(k, lambda x: x*val(res['sums'], k, c))))
            prove('covariances summed with squared weights', out('raw_mom_cov', c, d)
                  == tot(lambda k: term(k, lambda x: x*x*val(res['sums_cov'], k, c, d))))
            prove('flux summed over the shear bands', out('flux') == tot(
                lambda k: val(wg, k)*val(res['sums'], k, 5)))
            prove('flux variance summed over the shear bands', out('flux_var') == tot(
                lambda k: val(wg, k)*val(wg, k)*val(res['sums_cov'], k, 5, 5)))
            ff = bits_of(lift(r['final_flags']))

            def bit(cond, b):
                return If(cond, bvval(b), bvval(0))

            def fk(k):
                miss = truth(res['none'].elem((k,)))
                nomom = Not(has(res, k, 'sums', 'sums_cov'))
                zero = val(wg, k) <= 0
                if weighted:
                    miss = Or(miss, truth(wres['none'].elem((k,))))
                    nomom = Or(nomom, Not(has(wres, k, 'sums', 'sums_cov')))
                    zero = Or(zero, And(both(k), Or(val(res['sums'], k, 5) == 0, And(
                        fin(res, k), fin(wres, k), val(wres['sums_norm'], k) == 0))))
                return If(truth(sb.elem((k,))), bits_of(lift(fl.elem((k,)))) | bit(
                    miss, pf.MISSING_BAND) | bit(And(Not(miss), nomom),
                                                 pf.NOMOMENTS_FAILURE)
                    | bit(zero, pf.ZERO_WEIGHTS), bvval(0))
            k = CTX.index('k')
            anyused = mk_fold1('any', k, Z, n.e, used(k))
            prove('flags of all shear bands, and nothing else', ff == mk_fold1(
                'bor', k, Z, n.e, fk(k)) | bit(And(anyused, out('wgt_sum') <= 0),
                                                pf.ZERO_WEIGHTS))
            k = CTX.index('k')
            anysb = mk_fold1('any', k, Z, n.e, truth(sb.elem((k,))))
            prove('without flags there is weight', Implies(And(anysb, ff == bvval(
                0)), out('wgt_sum') > 0))
            j = idx('j', n)
            prove('which bands were used', truth(lift(r['used_shear_bands'][
                SInt(j)])) == used(j))
        S.explore(run)
    return go


class Flux:
    """result of a per-band fit, as far as the flux columns are concerned"""
    __sym_heap__ = True
    KEYS = ('flux', 'flux_err', 'flux_flags')

    def __init__(self, t, k):
        self.t, self.k = t, k

    def __sym_none__(self):
        return truth(self.t['none'].elem((self.k,)))

    def __sym_vmap__(self, f):
        return Flux(self.t, f(self.k))

    def __sym_contains__(self, key):
        if key in self.KEYS:
            return self.t['has_' + key].elem((self.k,))
        return False

    def __getitem__(self, key):
        return self.t[key].elem((self.k,))


def combine(nb):
    """nb: number of bands, None: any number above one"""
    def go(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.fitting', '_combine_fit_results_wavg')
        m = S.w.load('metadetect.fitting')
        pf = S.w.load('metadetect.procflags')

        def run():
            n = nat('n', 2) if nb is None else SInt(z3.IntVal(nb))
            N = n.e

            def lst(fn):
                if nb is None:
                    return SList.sym(N, fn)
                return SList([fn(z3.IntVal(i)) for i in range(nb)])
            t = dict(none=inp('none', (n,), 'b'), flux=inp('flux', (n,), 'f'),
                     flux_err=inp('flux_err', (n,), 'f'),
                     flux_flags=inp('flux_flags', (n,), 'bits'))
            for k in Flux.KEYS:
                t['has_' + k] = inp('has_' + k, (n,), 'b')
            sb = inp('issb', (n,), 'b')
            fl = inp('flags', (n,), 'bits')
            args = dict(all_res=lst(lambda k: Flux(t, k)), all_psf_res=object(),
                        all_is_shear_band=lst(lambda k: sb.elem((k,))),
                        all_wgts=object(), all_flags=lst(lambda k: fl.elem((k,))))
            args['all_psf_res'] = lst(lambda k: SReal(z3.RealVal(1)))
            args['all_wgts'] = lst(lambda k: SReal(z3.RealVal(1)))
            sums, momr = [], []

            def sumsb(**kw):
                r = dict(raw_mom=inp('raw', (6,), 'f'), raw_mom_cov=inp(
                    'rawc', (6, 6), 'f'), wgt_sum=real('ws'), final_flags=flag(),
                    flux=real('fl'), flux_var=real('fv'),
                    used_shear_bands=SInt(CTX.fresh('used', I)))
                CTX.assume(Implies(r['final_flags'].e == 0, r['wgt_sum'].e > 0))
                sums.append((kw, dict(r)))
                return r

            def mom(**kw):
                r = dict(flags=flag(), e=inp('e', (2,), 'f'), e_cov=inp(
                    'ec', (2, 2), 'f'), T=real('T'), T_err=real('Te'), T_flags=flag(),
                    s2n=real('s2n'))
                CTX.assume(Implies(r['flags'].e == 0, r['T'].e > 0))
                momr.append((kw, r))
                return r
            m._sum_bands_wavg = sumsb
            m._make_mom_res = mom
            pf.get_procflags_str = lambda v: ''
            reg = real('fwhm_reg')
            shb = SList([0])
            d = f(model='x', shear_bands=shb, fwhm_reg=reg, **args)
            k = CTX.index('k')
            nosb = Not(mk_fold1('any', k, Z, N, truth(sb.elem((k,)))))

            def col(c, *ix):
                return lift(d['x_' + c if c != 'shear_bands' else c].elem((Z,) + ix))

            def nan(c, *ix):
                v = to_real(col(c, *ix))
                return v.k == NAN if v.k is not None else z3.BoolVal(False)

            def eq(c, v, *ix):
                x, v = to_real(col(c, *ix)), to_real(lift(v))
                f = x.e == v.e
                return f if x.k is None else And(x.k == FIN, f)

            def bits(c, *ix):
                return bits_of(col(c, *ix))
            b = idx('b', n)
            bx = () if nb is not None and nb < 2 else (b,)
            none = truth(t['none'].elem((b,)))
            full = And(Not(none), *[truth(t['has_' + q].elem((b,))) for q in Flux.KEYS])
            fb = bits_of(lift(fl.elem((b,))))
            if is_true(z3.simplify(N == 0)):
                prove('no band: nothing measured', bits('band_flux_flags') == bvval(
                    pf.MISSING_BAND))
            elif SBool(nosb):
                prove('no shear band: no flux', And(nan('band_flux', *bx), nan(
                    'band_flux_err', *bx)))
                prove('no shear band: flagged', bits('band_flux_flags', *bx) == bvval(
                    pf.MISSING_BAND))
            else:
                prove('flux of the band', Implies(full, And(
                    eq('band_flux', t['flux'].elem((b,)), *bx),
                    eq('band_flux_err', t['flux_err'].elem((b,)), *bx))))
                prove('no flux without fit', Implies(Not(full), And(
                    nan('band_flux', *bx), nan('band_flux_err', *bx))))
                prove('flux flags of the band', bits('band_flux_flags', *bx) == fb | If(
                    none, bvval(pf.MISSING_BAND), If(full, bits_of(lift(t[
                        'flux_flags'].elem((b,)))), bvval(pf.NOMOMENTS_FAILURE))))
            if not sums:
                prove('averages are only left out without shear bands', Or(N == 0, nosb))
                pfl = ofl = bvval(pf.MISSING_BAND)
                prove('no averages', And(z3.BoolVal(not momr), nan('T'), nan('s2n'), nan(
                    'T_err'), nan('T_ratio'), nan('psf_T'), nan('psf_g', Z), nan('g', Z),
                    nan('psf_g', Z + 1), nan('g', Z + 1)))
                ofl = ofl | bvval(pf.PSF_FAILURE)
            else:
                prove('averages need shear bands', And(N > 0, Not(nosb)))
                prove('two averages', z3.BoolVal(len(sums) == 2))
                (k1, s1), (k2, s2) = sums
                for kk, res, w in ((k1, 'all_res', None), (k2, 'all_psf_res', 'all_res')):
                    prove('the average of %s is over the given bands' % res, z3.BoolVal(
                        kk['all_res'] is args[res] and kk['all_is_shear_band'] is args[
                            'all_is_shear_band'] and kk['all_wgts'] is args['all_wgts']
                        and kk['all_flags'] is args['all_flags']
                        and kk['all_wgt_res'] is (args[w] if w else None)))
                o1, p1 = bits_of(s1['final_flags']), bits_of(s2['final_flags'])
                diff = If(And(o1 == 0, p1 == 0, s1['used_shear_bands'].e != s2[
                    'used_shear_bands'].e), bvval(pf.INCONSISTENT_BANDS), bvval(0))
                rest = list(momr)

                def norm_of(kw, s, what):
                    q, r = idx('q', 6), idx('r', 6)
                    ws = s['wgt_sum'].e
                    prove('%s: sums divided by the weight' % what, And(
                        val(kw['raw_mom'], q)*ws == val(s['raw_mom'], q),
                        val(kw['raw_mom_cov'], q, r)*(ws*ws) == val(s[
                            'raw_mom_cov'], q, r),
                        to_real(lift(kw['raw_flux'])).e*ws == s['flux'].e,
                        to_real(lift(kw['raw_flux_var'])).e*(ws*ws) == s['flux_var'].e))
                pfl = p1 | diff
                psf_ok = SBool(pfl == 0)
                pm = om_ = None
                if psf_ok:
                    kw, pm = rest.pop(0)
                    norm_of(kw, s2, 'PSF')
                    prove('the PSF is not regularized', to_real(lift(kw[
                        'fwhm_reg'])).e == 0)
                    pfl = pfl | bits_of(pm['flags'])
                    prove('PSF shape and size', And(*[eq('psf_g', pm['e'].elem((Z + i,)),
                          Z + i) for i in (0, 1)], eq('psf_T', pm['T'])))
                else:
                    prove('no PSF average when flagged', And(nan('psf_T'), nan(
                        'psf_g', Z), nan('psf_g', Z + 1)))
                ofl = o1 | diff
                if SBool(ofl == 0):
                    kw, om_ = rest.pop(0)
                    norm_of(kw, s1, 'object')
                    prove('regularization', to_real(lift(kw['fwhm_reg'])).e == reg.e)
                    ofl = ofl | bits_of(om_['flags'])
                    prove('measured values', And(
                        *[eq('g', om_['e'].elem((Z + i,)), Z + i) for i in (0, 1)],
                        *[eq('g_cov', om_['e_cov'].elem((Z + i, Z + j)), Z + i, Z + j)
                          for i in (0, 1) for j in (0, 1)],
                        *[eq(c, om_[c]) for c in ('T', 's2n', 'T_err')]))
                    prove('T flags', bits('T_flags') == bits_of(om_['T_flags']))
                    if SBool(pfl == 0):
                        prove('T ratio', to_real(col('T_ratio')).e*pm['T'].e == om_['T'].e)
                    else:
                        prove('no T ratio', nan('T_ratio'))
                else:
                    prove('no average when flagged', And(
                        *[nan('g', Z + i) for i in (0, 1)], *[nan(
                            'g_cov', Z + i, Z + j) for i in (0, 1) for j in (0, 1)],
                        *[nan(c) for c in ('T', 's2n', 'T_err', 'T_ratio')]))
                prove('nothing else averaged', z3.BoolVal(not rest))
                ofl = ofl | If(pfl != 0, bvval(pf.PSF_FAILURE), bvval(0))
            prove('PSF flags', bits('psf_flags') == pfl)
            prove('object flags', bits('obj_flags') == ofl)
            k = CTX.index('k')
            if nb is None:
                orf = mk_fold1('bor', k, Z, N, bits('band_flux_flags', k))
            else:
                orf = bvval(0)
                for i in range(nb):
                    orf = orf | bits('band_flux_flags', *((z3.IntVal(i),) if nb > 1
                                                         else ()))
            prove('row flags: all of them', bits('flags') == ofl | orf)
        S.explore(run)
    return go


def momres(S):
    S.world(om.ngmix_ext())
    f = S.fn('metadetect.fitting', '_make_mom_res')
    m = S.w.load('metadetect.fitting')
    pf = S.w.load('metadetect.procflags')

    def run():
        pf.get_procflags_str = lambda v: ''
        mom, cov = inp('mom', (6,), 'f'), inp('cov', (6, 6), 'f')
        calls, bits = [], lambda v: bits_of(lift(v))
        old, oldc = mom.snap(), cov.snap()

        def mk(a, c, *r):
            if r:
                raise Unsupported('normalisation')
            d = dict(flags=flag(), T_flags=flag(), flux_flags=flag(), flagstr='',
                     T_flagstr='t%d' % len(calls), flux_flagstr='')
            for k in ('T', 'T_err', 's2n', 'flux', 'flux_err'):
                d[k] = real(k)
            for k in ('e', 'e_cov', 'e_err'):
                d[k] = inp(k, (2,), 'f')
            calls.append((a.copy(), c.copy(), dict(d)))
            return d
        m.make_mom_result = mk
        treg = real('treg')
        CTX.assume(treg.e > 0)
        m.fwhm_to_T = lambda x: treg if x is reg else None
        reg, flux, var = real('reg'), real('flux'), real('var')
        r = f(raw_mom=mom, raw_mom_cov=cov, raw_flux=flux, raw_flux_var=var,
              fwhm_reg=reg)
        c, d = idx('c', 6), idx('d', 6)

        def V(a, *ix):
            return to_real(lift(a(tuple(Z + i for i in ix)))).e
        if SBool(reg.e > 0):
            prove('two sets of moments', z3.BoolVal(len(calls) == 2))
            (a1, c1, d1), (a2, c2, d2) = calls
            prove('size from the moments as they are', And(
                val(a1, c) == V(old, c), val(c1, c, d) == V(oldc, c, d)))
            prove('only the size moment is regularized', val(a2, c) == V(old, c) + If(
                c == 4, treg.e*V(old, 5), z3.RealVal(0)))

            def row(i, j):
                return V(oldc, i, j) + If(i == 4, treg.e*V(oldc, Z + 5, j), z3.RealVal(0))
            prove('covariance of the regularized moments', val(c2, c, d) == row(
                c, d) + If(d == 4, treg.e*row(c, Z + 5), z3.RealVal(0)))
            fl = bits(d1['flags']) | bits(d2['flags'])
            own, T = d2, d1
        else:
            prove('one set of moments', z3.BoolVal(len(calls) == 1))
            (a1, c1, d1), = calls
            prove('moments as they are', And(
                val(a1, c) == V(old, c), val(c1, c, d) == V(oldc, c, d)))
            fl, own, T = bits(d1['flags']), d1, d1
        for k in ('T', 'T_err'):
            prove('size is not regularized', to_real(lift(r[k])).e == T[k].e)
        prove('flags of the size', bits(r['T_flags']) == bits(T['T_flags']))
        for k in ('e', 'e_cov'):
            prove('shape of the (regularized) moments', z3.BoolVal(r[k] is own[k]))
        prove('total flux', to_real(lift(r['flux'])).e == flux.e)
        N = S.w.ext['ngmix'].flags if isinstance(S.w.ext, dict) else None
        prove('flags', bits(r['flags']) == fl | If(flux.e <= 0, bvval(
            N.NONPOS_FLUX), bvval(0)) | If(var.e > 0, bvval(0), bvval(N.NONPOS_VAR)))
        s, e = to_real(lift(r['s2n'])), to_real(lift(r['flux_err']))
        if SBool(var.e > 0):
            prove('flux error', And(e.e*e.e == var.e, e.e > 0))
            prove('signal to noise', s.e*e.e == flux.e)
        else:
            prove('no flux error without positive variance', z3.BoolVal(
                s.k is not None and e.k is not None) if s.k is None or e.k is None
                else And(s.k == NAN, e.k == NAN))
    S.explore(run)


def _fam(optional):
    one = z3.IntVal(1)
    psf = om.mk_family('psf', one, one, nat('py', 1), nat('px', 1), meta=lambda b, e: {})
    n = nat('ny', 1)
    return om.mk_family('o', one, one, n, n, psf=psf, has=optional,
                        meta=lambda b, e: {})


def fitobs(prepsf):
    def go(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.fitting', '_fit_obs')
        m = S.w.load('metadetect.fitting')
        pf = S.w.load('metadetect.procflags')

        def run():
            fam = _fam(dict(noise=False, bmask=True, mfrac=False, ormask=False))
            o = om.Obs(fam, (Z, Z))
            symfam = _fam(dict(noise=False, bmask=True, mfrac=False, ormask=False))
            so = om.Obs(symfam, (Z, Z))
            calls = []

            def sym(x):
                calls.append(x)
                return so
            m.symmetrize_obs_weights = sym

            class Fitter:
                kind = 'pgauss'

                def go(self, obs, **kw):
                    r = {'flags': flag(), 'flagstr': ''}
                    calls.append((obs, kw, r))
                    return r
            P = S.w.ext['ngmix'].prepsfmom
            if prepsf:
                class PFitter(Fitter):
                    pass
                P.PrePSFMom = PFitter
                fit = PFitter()
            else:
                class Other:
                    pass
                P.PrePSFMom = Other
                fit = Fitter()
            symmetrize = SBool(CTX.fresh('symmetrize', B))
            bf = flag('bmask_flags')
            r = f(obs=o, fitter=fit, bmask_flags=bf, symmetrize=symmetrize)
            use = o
            if symmetrize:
                prove('the weight is symmetrized', z3.BoolVal(calls[0] is o))
                calls.pop(0)
                use = so
            w = om.sub(use.fam.data['weight'], (Z, Z))
            b = om.sub(use.fam.data['bmask'], (Z, Z))
            pos, edge = truth(lift((w > 0).any())), truth(lift(((b & bf) != 0).any()))
            fl = bits_of(lift(r['flags']))
            prove('flags of the band', fl == If(pos, bvval(0), bvval(
                pf.ZERO_WEIGHTS)) | If(edge, bvval(pf.EDGE_HIT), bvval(0)))
            if SBool(And(pos, Not(edge))):
                prove('object and PSF are fit', z3.BoolVal(len(calls) == 2))
                (o1, k1, r1), (o2, k2, r2) = calls
                prove('the object is fit', z3.BoolVal(
                    isinstance(o1, om.Obs) and o1.fam is use.fam and not k1
                    and r['obj_res'] is r1))
                prove('the PSF is fit', z3.BoolVal(
                    isinstance(o2, om.Obs) and o2.fam is use.fam.psf
                    and r['psf_res'] is r2 and k2 == (
                        {'no_psf': True} if prepsf else {})))
                prove('weight of the band: median of the positive weights', to_real(
                    lift(r['wgt'])).e == to_real(lift(S.w.np.median(w[w > 0]))).e)
            else:
                prove('unusable: not fit', z3.BoolVal(
                    not calls and r['obj_res'] is None and r['psf_res'] is None))
                prove('unusable: no weight', to_real(lift(r['wgt'])).e == 0)
        S.explore(run)
    return go


def whole(default):
    def go(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.fitting', 'fit_mbobs_wavg')
        m = S.w.load('metadetect.fitting')

        def run():
            nb = nat('nb')
            bf, reg = flag('bmask_flags'), real('reg')
            sy = SBool(CTX.fresh('symmetrize', B))
            t = {k: inp(k, (nb,), q) for k, q in (('wgt', 'f'), ('flags', 'bits'), (
                'obj', 'i'), ('psf', 'i'))}
            fit = types.SimpleNamespace(kind='wmom')

            def one(*, obslist, fitter, bmask_flags, symmetrize):
                ok = fitter is fit and bmask_flags is bf and symmetrize is sy
                prove('every band is fit with the settings given', z3.BoolVal(ok))
                b = (to_int_e(lift(obslist)),)
                return dict(wgt=t['wgt'].elem(b), flags=t['flags'].elem(b),
                            obj_res=t['obj'].elem(b), psf_res=t['psf'].elem(b))
            m._fit_obslist = one
            got = []
            m._combine_fit_results_wavg = lambda **k: got.append(k) or k
            mb = SList.sym(nb.e, lambda b: SInt(b))
            if default:
                sb = None
            else:
                ns = nat('ns')
                s = inp('sb', (ns,), 'i')
                sb = SList.sym(ns.e, lambda k: s.elem((k,)))
            r = f(mbobs=mb, fitter=fit, bmask_flags=bf, shear_bands=sb, fwhm_reg=reg,
                  symmetrize=sy)
            prove('the bands are combined', z3.BoolVal(len(got) == 1 and r is got[0]))
            for a, b in (('all_res', 'obj'), ('all_psf_res', 'psf'), ('all_wgts', 'wgt'),
                         ('all_flags', 'flags')):
                prove('%s: one per band' % a, to_int_e(rt.len_(r[a])) == nb.e)

                def same(q, a=a, b=b):
                    x, y = lift(r[a][SInt(q[0])]), t[b].elem(q)
                    return bits_of(x) == bits_of(y) if b == 'flags' else x.e == y.e
                prove_at('%s: those of the bands, in order' % a, (nb,), same)
            prove('one mark per band', to_int_e(rt.len_(r['all_is_shear_band'])) == nb.e)

            def marks(q):
                if default:
                    return truth(lift(r['all_is_shear_band'][SInt(q[0])]))
                k = CTX.index('k')
                return truth(lift(r['all_is_shear_band'][SInt(q[0])])) == mk_fold1(
                    'any', k, Z, ns.e, to_int_e(s.elem((k,))) == q[0])
            prove_at('shear bands are those asked for', (nb,), marks)
            prove('model, regularization', z3.BoolVal(
                r['model'] == 'wmom' and r['fwhm_reg'] is reg))
            if not default:
                prove('shear bands are recorded', z3.BoolVal(r['shear_bands'] is sb))
        S.explore(run)
    return go


def obslist(S):
    S.world(om.ngmix_ext())
    f = S.fn('metadetect.fitting', '_fit_obslist')
    m = S.w.load('metadetect.fitting')
    pf = S.w.load('metadetect.procflags')

    def run():
        n = nat('n')
        got = []
        m._fit_obs = lambda **k: got.append(k) or k
        a = inp('a', (n,), 'i')
        ol = SList.sym(n.e, lambda k: a.elem((k,)))
        ft, bf, sy = object(), flag(), SBool(CTX.fresh('s', B))
        r = f(obslist=ol, fitter=ft, bmask_flags=bf, symmetrize=sy)
        if SBool(n.e == 0):
            prove('no data: flagged', z3.BoolVal(
                not got and r['obj_res'] is None and r['psf_res'] is None))
            prove('no data: MISSING_BAND', bits_of(lift(r['flags'])) == bvval(
                pf.MISSING_BAND))
            prove('no data: no weight', to_real(lift(r['wgt'])).e == 0)
        else:
            prove('the epoch is fit', z3.BoolVal(
                len(got) == 1 and r is got[0] and r['fitter'] is ft
                and r['bmask_flags'] is bf and r['symmetrize'] is sy))
            prove('the first epoch is fit', r['obs'].e == a.elem((Z,)).e)
    S.explore(run)


def sessions():
    return [('sums', sums(False)), ('sums, flux weighted', sums(True)),
            ('row, any number of bands', combine(None)), ('row, one band', combine(1)),
            ('row, no band', combine(0)), ('moments of a row', momres),
            ('one band', fitobs(False)), ('one band, pre-PSF', fitobs(True)),
            ('one band, data', obslist), ('bands', whole(False)),
            ('bands, all for shear', whole(True))]

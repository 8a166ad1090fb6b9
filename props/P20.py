"""failure flags of the Gaussian and adaptive-moment fits"""
import types
from engine.lib import *
from engine import obsmodel as om
from engine.rt import SList

META = dict(
    assumptions=['fitters and bootstrap: any result or any exception (stand-in with the '
                 'documented keys); the flags of the weighted average are P19\'s'])
Z = z3.IntVal(0)


def scene(S, epochs='any', one=False):
    """epochs: any / one per band; one: a single band"""
    nb = SInt(z3.IntVal(1)) if one else nat('nb', 1)
    E = z3.IntVal(2 if epochs == 'any' else 1)
    if epochs == 'any':
        NE = z3.Function(str(CTX.fresh('ne', I)), I, I)
        CTX.input_facts[NE.name()] = lambda ch: [And(NE(ch[0]) >= 0, NE(ch[0]) <= E)]
    else:
        def NE(b):
            return E
    psf = om.mk_family('psf', nb, E, nat('py', 1), nat('px', 1), meta=lambda b, e: {})
    fam = om.mk_family('o', nb, E, nat('ny', 1), nat('nx', 1), psf=psf, has=dict(
        noise=False, bmask=True, mfrac=False, ormask=False), meta=lambda b, e: {})
    om.MetaSeq.meta = {}
    mb = om.mbobs_of(fam, nb, NE)
    if one:
        mb = SList([SList([om.Obs(fam, (Z, Z))])])
    elif epochs == 'one':
        mb = om.MetaSeq(nb, lambda b: SList([om.Obs(fam, (b, Z))]), fam.roots(), 'mbobs')
    return nb, NE, fam, mb


def input_flags(S, pf, nb, NE, fam, bf):
    """what is wrong with the data"""
    b, e = CTX.index('b'), CTX.index('e')
    w, m = om.sub(fam.data['weight'], (b, e)), om.sub(fam.data['bmask'], (b, e))

    def bit(c, v):
        return If(c, bvval(v), bvval(0))
    one = bit(Not(truth(lift((w > 0).any()))), pf.ZERO_WEIGHTS) | bit(truth(lift(
        ((m & bf) != 0).any())), pf.EDGE_HIT)
    one = mk_fold1('bor', e, Z, NE(b), one)
    return mk_fold1('bor', b, Z, nb.e, If(NE(b) == 0, bvval(pf.MISSING_BAND), If(
        NE(b) > 1, bvval(pf.INCONSISTENT_BANDS), one)))


def res_dict(keys):
    d = {}
    for k in keys:
        d[k] = flag(k) if k.endswith('flags') else inp(k, (2,), 'f') if k in (
            'e', 'g') else inp(k, (2, 2), 'f') if k.endswith('_cov') else real(k)
    return d


def cols(d, front):
    def col(c, *ix):
        return lift(d[front + '_' + c].elem((Z,) + ix))

    def nan(c, *ix):
        v = to_real(col(c, *ix))
        return v.k == NAN if v.k is not None else z3.BoolVal(False)

    def eq(c, v, *ix):
        x, v = to_real(col(c, *ix)), to_real(lift(v))
        f = x.e == v.e
        return f if x.k is None else And(x.k == FIN, f)

    def bits(c, *ix):
        return bits_of(col(c, *ix))
    return nan, eq, bits


VEC = [(i,) for i in (0, 1)]
MAT = [(i, j) for i in (0, 1) for j in (0, 1)]


def q(ix):
    return tuple(z3.IntVal(i) for i in ix)


def admom(S):
    S.world(om.ngmix_ext())
    f = S.fn('metadetect.fitting', 'fit_mbobs_admom')
    m = S.w.load('metadetect.fitting')
    pf = S.w.load('metadetect.procflags')

    def run():
        nb, NE, fam, mb = scene(S)
        bf = flag('bmask_flags')
        want = input_flags(S, pf, nb, NE, fam, bf)
        cob, cfl = om.Obs(fam, (Z, Z)), flag('coadd')
        sob = om.Obs(fam, (Z, Z))
        calls, co, sy = [], [], []

        def coadd(x, shear_bands=None):
            co.append((x, shear_bands))
            return (cob if cfl == 0 else None), cfl
        m.make_coadd_obs = coadd

        def sym(x):
            sy.append(x)
            return sob
        m.symmetrize_obs_weights = sym

        class Runner:
            def go(self, o):
                if SBool(CTX.fresh('fails', B)):
                    calls.append((o, None))
                    raise ValueError('x')
                r = res_dict(('flags', 'T_flags', 'T', 'T_err', 's2n', 'e', 'e_cov'))
                CTX.assume(Implies(r['flags'].e == 0, r['T'].e > 0))
                calls.append((o, r))
                return r
        symmetrize = SBool(CTX.fresh('symmetrize', B))
        d = f(mbobs=mb, bmask_flags=bf, rng=None, runner=Runner(), shear_bands=SList([0]),
              symmetrize=symmetrize)
        nan, eq, bits = cols(d, 'am')
        NO = bvval(pf.NO_ATTEMPT)
        NANS = [('s2n', ()), ('T', ()), ('T_err', ()), ('T_ratio', ())] + [
            ('g', x) for x in VEC] + [('g_cov', x) for x in MAT]
        PNANS = [('psf_T', ())] + [('psf_g', x) for x in VEC]

        def nans(l, what):
            prove(what, And(*[nan(c, *q(x)) for c, x in l]))

        if not co:
            prove('bad data: not fit', And(want != bvval(0), z3.BoolVal(not calls)))
            prove('bad data: flags', bits('flags') == want | NO)
            nans(NANS + PNANS, 'bad data: nothing measured')
        else:
            prove('good data only', want == bvval(0))
            prove('the shear bands are coadded', z3.BoolVal(
                len(co) == 1 and co[0][0] is mb))
            if SBool(cfl.e != 0):
                prove('no coadd: flags', bits('flags') == bits_of(cfl) | NO)
                prove('no coadd: not fit', z3.BoolVal(not calls))
                nans(NANS + PNANS, 'no coadd: nothing measured')
            else:
                prove('the PSF is fit first', z3.BoolVal(
                    bool(calls) and calls[0][0].fam is fam.psf))
                pr = calls[0][1]
                if pr is None:
                    prove('PSF failure: flags', bits('flags') == NO | bvval(
                        pf.PSF_FAILURE))
                    nans(NANS + PNANS, 'PSF failure: nothing measured')
                    prove('PSF failure: the object is not fit', z3.BoolVal(len(calls) == 1))
                else:
                    prove('the object is fit', z3.BoolVal(len(calls) == 2))
                    o = calls[1][0]
                    prove('symmetrized if asked', symmetrize.e == z3.BoolVal(
                        o is sob and sy == [cob]) if o is not cob else Not(symmetrize.e))
                    prove('PSF flags', bits('psf_flags') == bits_of(pr['flags']))
                    if SBool(pr['flags'].e == 0):
                        prove('PSF values', And(*[eq('psf_g', pr['e'].elem(q(x)), *q(x))
                                                  for x in VEC], eq('psf_T', pr['T'])))
                    else:
                        nans(PNANS, 'flagged PSF: no values')
                    r = calls[1][1]
                    if r is None:
                        prove('object failure: flags', bits('flags') == bvval(
                            pf.OBJ_FAILURE))
                        nans(NANS, 'object failure: nothing measured')
                    else:
                        prove('object flags', bits('obj_flags') == bits_of(r['flags']))
                        prove('flags: PSF and object', bits('flags') == bits_of(
                            r['flags']) | bits_of(pr['flags']))
                        prove('T flags', bits('T_flags') == bits_of(r['T_flags']))
                        if SBool(r['flags'].e == 0):
                            prove('values', And(
                                *[eq('g', r['e'].elem(q(x)), *q(x)) for x in VEC],
                                *[eq('g_cov', r['e_cov'].elem(q(x)), *q(x)) for x in MAT],
                                eq('s2n', r['s2n'])))
                        else:
                            nans([x for x in NANS if x[0][0] not in 'T'],
                                 'flagged: no values')
                        if SBool(r['T_flags'].e == 0):
                            prove('size', And(eq('T', r['T']), eq('T_err', r['T_err'])))
                        else:
                            nans(NANS[1:4], 'flagged size: no values')
        b = idx('b', nb)
        ix = (b,) if SBool(nb.e > 1) else ()
        prove('band fluxes are not measured', And(nan('band_flux', *ix), nan(
            'band_flux_err', *ix), bits('band_flux_flags', *ix) == NO))
    S.explore(run)


class PRes:
    """PSF fit result left in the metadata by the bootstrapper"""
    __sym_heap__ = True

    def __init__(self, t, pre):
        self.t, self.pre = t, pre

    def __sym_vmap__(self, f):
        return PRes(self.t, tuple(f(p) for p in self.pre))

    def __sym_contains__(self, k):
        e = truth(self.t['has_e'].elem(self.pre))
        return SBool(Not(e) if k == 'g' else e)

    def __getitem__(self, k):
        if k == 'g':
            return om.sub(self.t['g'], self.pre)
        return self.t[k].elem(self.pre)


def gauss(ns, coadd, within=True, epochs='one'):
    """ns: number of shear bands (None: all bands of a one-band object)"""
    def go(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.fitting', 'fit_mbobs_gauss')
        m = S.w.load('metadetect.fitting')
        pf = S.w.load('metadetect.procflags')
        ng = S.w.ext['ngmix']

        def run():
            nb, NE, fam, mb = scene(S, epochs, ns is None)
            sh = (nb.e, z3.IntVal(2))
            t = {k: inp('p' + k, sh, kd, c) for k, kd, c in (
                ('flags', 'bits', None), ('T', 'f', lambda v: v > 0),
                ('has_e', 'b', None))}
            sh2 = sh + (z3.IntVal(2),)
            t['g'] = inp('pg', sh2, 'f')
            fam.psf.meta = lambda b, e: {'result': PRes(t, (b, e))}
            CTX.assume(Not(truth(t['has_e'].elem((Z, Z)))))
            k = CTX.index('k')
            CTX.input_facts[t['has_e'].elem((Z, Z)).e.decl().name()] = lambda ch: [
                Not(truth(t['has_e'].elem(tuple(ch))))]
            bf = flag('bmask_flags')
            want = input_flags(S, pf, nb, NE, fam, bf)
            if ns is None:
                at, sb = [z3.IntVal(0)], None
            else:
                sb = [nat('s%d' % i) for i in range(ns)]
                at = [x.e for x in sb]
                inside = And(*[x < nb.e for x in at])
                if within:
                    CTX.assume(inside)
                    if ns > 1:
                        CTX.assume(z3.Distinct(*at))
                else:
                    want = want | If(inside, bvval(0), bvval(pf.INCONSISTENT_BANDS))
            cob, cfl = om.Obs(fam, (Z, Z)), flag('coadd')
            co, boots, meds = [], [], []

            def mkco(x, shear_bands=None):
                co.append((x, shear_bands))
                return (cob if cfl == 0 else None), cfl
            m.make_coadd_obs = mkco
            wr = []

            def one_obs(o):
                wr.append(o)
                return [[o]]
            ng.observation = types.SimpleNamespace(get_mb_obs=one_obs)
            oruns, pruns = object(), object()
            nsb = len(at)
            n1 = 1 if coadd else nsb

            def boot(o, runner, psf_runner=None):
                if runner is not oruns or psf_runner is not pruns:
                    raise Unsupported('runners')
                boots.append(o)
                ge = m
                for x in at if not coadd and epochs == 'one' else ():
                    w = om.sub(fam.data['weight'], (x, Z))
                    pos = truth(lift((w > 0).any()))
                    # instance of 'good data only' of the sessions with bad data
                    CTX.assume(pos)
                if epochs == 'any' or SBool(CTX.fresh('psf fails', B)):
                    raise ge.BootPSFFailure('x')
                if SBool(CTX.fresh('psf flux fails', B)):
                    raise ge.PSFFluxFailure('x')
                if SBool(CTX.fresh('fails', B)):
                    raise ValueError('x')
                r = res_dict(('flags', 'T', 'T_err', 's2n', 'g', 'g_cov'))
                for c in ('flux', 'flux_err'):
                    r[c] = inp(c, (n1,), 'f') if n1 > 1 else real(c)
                boots.append(r)
                return r
            m.bootstrap = boot
            om_ = S.w.np.median

            def med(a):
                v = to_real(lift(om_(a)))
                i = len(meds)
                w = om.sub(fam.data['weight'], (at[i], Z))
                good = SBool(And(*[bits_of(lift(PRes(t, (y, Z))['flags'])) == bvval(0)
                                   for y in at]))
                if good:        # the weights are not used otherwise
                    prove('weight of the band: median of its positive weights', v.e ==
                          to_real(lift(om_(w[w > 0]))).e)
                x = CTX.fresh('med', R)
                CTX.assume(x > 0)
                meds.append(x)
                return SReal(x)
            S.w.np.median = med
            try:
                d = f(mbobs=mb, bmask_flags=bf, rng=None, obj_runner=oruns,
                      psf_runner=pruns, shear_bands=list(sb) if sb else None, coadd=coadd)
            finally:
                S.w.np.median = om_
            nan, eq, bits = cols(d, 'gauss')
            NO = bvval(pf.NO_ATTEMPT)
            b = idx('b', nb)
            bx = (b,) if SBool(nb.e > 1) else ()
            NANS = [('s2n', ()), ('T', ()), ('T_err', ()), ('T_ratio', ())] + [
                ('g', x) for x in VEC] + [('g_cov', x) for x in MAT]
            PNANS = [('psf_T', ())] + [('psf_g', x) for x in VEC]

            def nans(l, what):
                prove(what, And(*[nan(c, *q(x)) for c, x in l]))

            def nothing(what):
                nans(NANS + PNANS, what)
                prove(what + ' (flux)', And(nan('band_flux', *bx), nan(
                    'band_flux_err', *bx)))

            if epochs == 'one':
                if not co and not boots:
                    nothing('bad data: nothing measured')
                    return
            elif not co and not boots:
                prove('bad data: not fit', want != bvval(0))
                prove('bad data: flags', bits('flags') == want | NO)
                nothing('bad data: nothing measured')
                return
            if epochs == 'any':
                prove('good data only', want == bvval(0))
                if boots:
                    prove('failed fit: flags', bits('flags') == NO | bvval(
                        pf.PSF_FAILURE))
                    nothing('failed fit: nothing measured')
                    return
            if coadd:
                prove('the shear bands are coadded', z3.BoolVal(
                    len(co) == 1 and co[0][0] is mb))
                if SBool(cfl.e != 0):
                    prove('no coadd: flags', bits('flags') == bits_of(cfl) | NO)
                    prove('no coadd: not fit', z3.BoolVal(not boots))
                    nothing('no coadd: nothing measured')
                    return
                prove('the coadd is fit', z3.BoolVal(
                    bool(boots) and boots[0][0][0] is cob and wr == [cob]))
            else:
                prove('no coadd unless asked', z3.BoolVal(not co))
                got = boots[0]
                prove('one entry per shear band', to_int_e(rt.len_(got)) == nsb)
                for i in range(nsb):
                    o = got[i][0]
                    prove('the shear bands are fit, in order', And(
                        o.pre[0] == at[i], o.pre[1] == 0))
            if len(boots) == 1:
                fl = bits('flags')
                prove('failed fit: flags', Or(fl == NO | bvval(pf.PSF_FAILURE), fl == NO
                      | bvval(pf.PSF_FAILURE | pf.OBJ_FAILURE)))
                nothing('failed fit: nothing measured')
                return
            r = boots[1]
            fl = bits_of(r['flags'])
            ok = SBool(fl == 0)
            prove('object flags', And(bits('obj_flags') == fl, bits('T_flags') == fl))
            if ok:
                prove('values', And(
                    *[eq('g', r['g'].elem(q(x)), *q(x)) for x in VEC],
                    *[eq('g_cov', r['g_cov'].elem(q(x)), *q(x)) for x in MAT],
                    *[eq(c, r[c]) for c in ('s2n', 'T', 'T_err')]))
            else:
                nans(NANS, 'flagged: no values')
            isb = Or(*[b == x for x in at])
            if n1 == nsb:
                prove('flux flags of the shear bands', Implies(isb, bits(
                    'band_flux_flags', *bx) == fl))
                for c in ('flux', 'flux_err'):
                    for i in range(nsb):
                        v = r[c].elem((z3.IntVal(i),)) if n1 > 1 else r[c]
                        prove('%s of a shear band' % c, Implies(b == at[i], eq(
                            'band_' + c, v, *bx) if ok else nan('band_' + c, *bx)))
            prove('bands not fit have no flux', Implies(Not(isb), And(
                nan('band_flux', *bx), nan('band_flux_err', *bx), bits(
                    'band_flux_flags', *bx) == NO)))
            ps = [PRes(t, (x, Z)) for x in ([Z] if coadd else at)]
            pfl = bvval(0)
            for p in ps:
                pfl = pfl | bits_of(lift(p['flags']))
            prove('PSF flags', bits('psf_flags') == pfl)
            prove('flags: object and PSF', bits('flags') == fl | pfl)
            if SBool(pfl == 0):
                T = [to_real(lift(p['T'])).e for p in ps]
                w = meds if not coadd else [z3.RealVal(1)]
                prove('one weight per band', z3.BoolVal(len(w) == len(ps)))
                sw = sum(w[1:], w[0])
                swt = sum([x*y for x, y in zip(w, T)][1:], w[0]*T[0])
                prove('PSF size: weighted mean', to_real(lift(d['gauss_psf_T'].elem((
                    Z,)))).e*sw == swt)
                for j in (0, 1):
                    g = [to_real(lift(p['g'].elem((z3.IntVal(j),)))).e for p in ps]
                    n = [x*y*z for x, y, z in zip(w, T, g)]
                    prove('PSF shape: mean weighted by weight and size', to_real(lift(d[
                        'gauss_psf_g'].elem((Z, z3.IntVal(j))))).e*swt == sum(n[1:], n[0]))
                if ok:
                    prove('size ratio', to_real(lift(d['gauss_T_ratio'].elem((
                        Z,)))).e*swt == r['T'].e*sw)
            else:
                nans(PNANS, 'flagged PSF: no values')
        S.explore(run)
    return go


def sessions():
    return [('adaptive moments', admom), ('Gaussian, one band', gauss(None, False)),
            ('Gaussian, one of the bands', gauss(1, False)),
            ('Gaussian, two of the bands', gauss(2, False)),
            ('Gaussian, coadd of one', gauss(1, True)),
            ('Gaussian, coadd of two', gauss(2, True)),
            ('Gaussian, three of the bands', gauss(3, False)),
            ('Gaussian, coadd of three', gauss(3, True)),
            ('Gaussian, bad data', gauss(2, False, False, 'any')),
            ('Gaussian, coadd, bad data', gauss(2, True, False, 'any'))]

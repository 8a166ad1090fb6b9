"""statistics of the original survey PSFs"""
import types
from engine.lib import *
from engine import obsmodel as om, lsstmodel as lm
from engine.rt import SList
from .P28 import Z, rv, fin, load

META = dict(
    assumptions=['the band weights are positive (they are inverse median variances, '
                 'P28); the PSF fitter (ngmix) either raises BootPSFFailure or '
                 'GMixRangeError or returns flags, e and T; e1e2_to_g1g2 of ngmix '
                 'returns a pair or raises GMixRangeError',
                 'PSF images are square with odd dimensions (checked by an assertion in '
                 'the code)'])
NAN_ = z3.RealVal(-9999)


def fit(S):
    f = load(S, 'fit_original_psfs_mbexp')
    m = S.w.load('metadetect.lsst.metadetect')
    ng = S.w.ext['ngmix']

    def run():
        nb, ny, nx = nat('nb', 1), nat('ny', 1), nat('nx', 1)
        h = nat('h')
        px = 2*h + 1
        mb = lm.mk_mbexp('d', nb, ny, nx, lm.Geo(wcs=lambda b: ('wcs', b), xy0=lm.Pt(
            SInt(Z), SInt(Z))))
        wt = inp('wgt', (nb,), 'f', lambda v: v > 0)
        wgts = om.MetaSeq(nb.e, lambda k: wt[SInt(k)], [wt], 'wgts')
        pim = inp('psf', (nb, px, px), 'f')
        jf = {n: inp('jac_' + n, (nb,), 'f') for n in om.Jac.NAMES}
        E1, E2, T = [z3.Function(n, I, R) for n in ('E1', 'E2', 'T')]
        FAIL, SH = z3.Function('FAIL', I, I), z3.Function('SH', I, B)
        k, l, o = CTX.index('k'), CTX.index('k'), CTX.index('k')
        NSH = mk_fold1('sum', k, Z, nb.e, If(SH(k), 1, Z))
        rng = object()
        conf = object()

        def cur(e):
            return e.pre[0]

        class Shear:
            __sym_heap__ = True

            def __sym_contains__(self, i):
                return SBool(SH(to_int_e(lift(i))))

            def __sym_len__(self):
                return SInt(NSH)

        def shear(*, mbexp, config):
            prove('the shear bands of the configuration', z3.BoolVal(
                mbexp is mb and config is conf))
            return Shear()

        def gic(wcs, bbox, as_double=False):
            prove('centre of the exposure', z3.BoolVal(
                wcs[0] == 'wcs' and isinstance(bbox, lm.Box) and as_double is True))
            return ('cen', wcs[1]), None

        def gj(exp, cen):
            prove('Jacobian at the centre of the band', And(
                z3.BoolVal(cen[0] == 'cen'), cur(exp) == cen[1]))
            return om.Jac([jf[n][SInt(cur(exp))] for n in om.Jac.NAMES])

        def psf(exp, cen):
            prove('PSF at the centre of the band', And(
                z3.BoolVal(cen[0] == 'cen'), cur(exp) == cen[1]))
            return om.sub(pim, (cur(exp),))

        class Runner:
            def __init__(self, fitter, guesser, ntry):
                prove('fitter and guesser use the given random state', z3.BoolVal(
                    fitter == ('admom', rng) and guesser == ('guess', rng)))

            def go(self, obs):
                b = (CTX.loopvars or CTX.exits or [Z])[-1]
                prove_at('the PSF image of the band is fit', obs.image.shape, lambda q: rv(
                    obs.image.elem(q)).e == rv(pim.elem((b,) + tuple(q))).e)
                prove('whole PSF image', And(ix(obs.image.shape[0]) == px.e, ix(
                    obs.image.shape[1]) == px.e))
                j = obs.jacobian
                prove('centred on the PSF image, with the derivatives of the band', And(
                    rv(j.vals['row0']).e == z3.ToReal(h.e),
                    rv(j.vals['col0']).e == z3.ToReal(h.e),
                    *[rv(j.vals[n]).e == rv(jf[n].elem((b,))).e
                      for n in om.Jac.NAMES[2:]]))
                c = FAIL(b)
                if SBool(c == 2):
                    raise om.EXC['BootPSFFailure']('psf')
                if SBool(c == 3):
                    raise om.EXC['GMixRangeError']('psf')
                return {'flags': SInt(If(c == 1, 4, Z)),
                        'e': (SReal(E1(b)), SReal(E2(b))), 'T': SReal(T(b))}
        m.util.extract_shear_band_indices = shear
        m.util.get_integer_center, m.util.get_jacobian = gic, gj
        m.util.extract_psf_image = psf
        ng.admom = types.SimpleNamespace(AdmomFitter=lambda rng: ('admom', rng))
        ng.guessers = types.SimpleNamespace(
            GMixPSFGuesser=lambda rng, ngauss, guess_from_moms: ('guess', rng))
        ng.runners = types.SimpleNamespace(PSFRunner=Runner)
        G1, G2 = z3.Function('G1', R, R, R), z3.Function('G2', R, R, R)
        GF = z3.Function('GF', R, R, B)

        def conv(e1, e2):
            if SBool(GF(rv(e1).e, rv(e2).e)):
                raise om.EXC['GMixRangeError']('shape')
            return SReal(G1(rv(e1).e, rv(e2).e)), SReal(G2(rv(e1).e, rv(e2).e))
        ng.shape = types.SimpleNamespace(e1e2_to_g1g2=conv)

        def bad(b):
            return Or(FAIL(b) == 1, FAIL(b) == 2, FAIL(b) == 3)

        def tot(F):
            k = CTX.index('k')
            return mk_fold1('sum', k, Z, nb.e, If(SH(k), F(k), z3.RealVal(0)))
        ws = tot(lambda k: rv(wt.elem((k,))).e)
        none_bad = Not(mk_fold1('any', l, Z, nb.e, bad(l)))
        no_shear = Not(mk_fold1('any', o, Z, nb.e, SH(o)))
        try:
            r = f(mbexp=mb, rng=rng, wgts=wgts, config=conf)
        except ValueError:
            prove('refused only without shear bands', ws <= 0)
            return
        except AssertionError:
            prove('every shear band is averaged (assertion)', z3.BoolVal(False))
            return
        pf = int(m.procflags.PSF_FAILURE)
        prove('entries', z3.BoolVal(set(r) == {
            'flags', 'navg', 'e1', 'e2', 'g1', 'g2', 'T', 'perband'}))
        flags = r['flags']
        if r['perband'] is None:
            prove('failure flag', z3.BoolVal(flags == pf and pf != 0))
            for n in ('e1', 'e2', 'g1', 'g2', 'T'):
                prove('sentinel on failure', rv(r[n]).e == NAN_)
            w = [And(0 <= b, b < nb.e, bad(b)) for b in [Z] + CTX.exits]
            e1 = tot(lambda k: E1(k)*rv(wt.elem((k,))).e)/ws
            e2 = tot(lambda k: E2(k)*rv(wt.elem((k,))).e)/ws
            prove('reported only when a fit or the mean shape fails', Or(
                GF(e1, e2), *w))
            return
        prove('no failed band is averaged', none_bad)
        prove('zero flags', z3.BoolVal(flags == 0))
        prove('number of shear bands', to_int_e(lift(r['navg'])) == NSH)
        for n, F in (('e1', E1), ('e2', E2), ('T', T)):
            prove('weighted mean of %s over the shear bands' % n, rv(r[n]).e*ws == tot(
                lambda k: F(k)*rv(wt.elem((k,))).e))
        for n, G in (('g1', G1), ('g2', G2)):
            prove('reduced shear of the mean', rv(r[n]).e == G(rv(r['e1']).e, rv(
                r['e2']).e))
        pb = r['perband']
        prove('one entry per band', ix(pb.shape[0]) == nb.e)
        for n, F in (('e1', E1), ('e2', E2), ('T', T),
                     ('wgt', lambda b: rv(wt.elem((b,))).e)):
            prove_at('fit of every band: ' + n, (nb,), lambda q: rv(
                pb[n].elem(q)).e == F(q[0]))
        prove_at('shear bands are marked', (nb,), lambda q: truth(lift(
            pb['is_shear_band'].elem(q))) == SH(q[0]))
    S.explore(run)


def indices(S):
    S.world(lm.ext())
    f = S.fn('metadetect.lsst.util', 'extract_shear_band_indices')

    def run():
        nb, n = nat('nb', 1), nat('n')
        mb = lm.mk_mbexp('d', nb, nat('ny', 1), nat('nx', 1))
        given = bool(SBool(CTX.fresh('given', B)))
        NM = inp('name', (n,), 'i')
        names = SList.sym(n.e, lambda k: lm.Band(to_int_e(NM.elem((k,))))) if given \
            else None

        def listed(b):
            k = CTX.index('k')
            return mk_fold1('any', k, Z, n.e, to_int_e(NM.elem((k,))) == b) if given \
                else z3.BoolVal(True)
        k = CTX.index('k')
        unknown = mk_fold1('any', k, Z, n.e, Or(
            to_int_e(NM.elem((k,))) < 0, to_int_e(NM.elem((k,))) >= nb.e))
        every = z3.BoolVal(not given) if not given else n.e == 0
        try:
            r = f(mb, {'shear_bands': names})
        except RuntimeError:
            prove('refused only for unknown bands', unknown if given
                  else z3.BoolVal(False))
            return
        if given:
            prove('unknown bands are refused', Not(unknown))
        b = idx('b', nb)
        prove('exactly the listed bands, all without a list', truth(lift(
            rt.contains(r, SInt(b)))) == Or(every, listed(b)))
    S.explore(run)


def image(S):
    S.world(lm.ext())
    f = S.fn('metadetect.lsst.util', 'extract_psf_image')
    m = S.w.load('metadetect.lsst.util')

    def run():
        ny, nx = nat('ny', 1), nat('nx', 1)
        a = inp('k', (ny, nx), 'f')
        C = object()

        class Psf:
            def computeKernelImage(self, cen):
                prove('at the position given', z3.BoolVal(cen is C))
                if SBool(CTX.fresh('missing', B)):
                    raise om.EXC['InvalidParameterError']('none')
                return types.SimpleNamespace(array=a)
        E = types.SimpleNamespace(getPsf=lambda: Psf())
        odd = And(ny.e == nx.e, ny.e % 2 == 1)
        try:
            r = f(E, C)
        except m.MissingDataError:
            return
        except AssertionError:
            prove('refused only when not square with odd size', Not(odd))
            return
        prove('square with odd size', odd)
        prove('shape', And(ix(r.shape[0]) == ny.e, ix(r.shape[1]) == nx.e))
        prove_at('the kernel image', (ny, nx), lambda q: rv(r.elem(q)).e == rv(
            a.elem(q)).e)
    S.explore(run)


def add(S):
    f = load(S, 'add_original_psf')

    def run():
        n = nat('n')
        F = {'psfrec_flags': inp('fl', (n,), 'i'), 'psfrec_navg': inp('na', (n,), 'i'),
             'psfrec_g': inp('g', (n, 2), 'f'), 'psfrec_T': inp('T', (n,), 'f'),
             'other': inp('other', (n,), 'f')}
        res = SRec((n,), dict(F), [('psfrec_flags', '<i4'), ('psfrec_navg', '<i4'), (
            'psfrec_g', '<f8', (2,)), ('psfrec_T', '<f8'), ('other', '<f8')])
        o = F['other'].snap()
        st = {k: real(k) for k in ('g1', 'g2', 'T', 'e1', 'e2')}
        st.update({k: SInt(CTX.fresh(k, I)) for k in ('flags', 'navg')})
        f(st, res)
        for c, k in (('flags', 'flags'), ('navg', 'navg'), ('T', 'T')):
            prove_at('every row gets ' + k, (n,), lambda q: rv(res.fields[
                'psfrec_' + c].elem(q)).e == rv(st[k]).e)
        prove_at('every row gets g', (n,), lambda q: And(*[rv(res.fields[
            'psfrec_g'].elem(q + (z3.IntVal(i),))).e == rv(st['g%d' % (i + 1)]).e
            for i in (0, 1)]))
        prove_at('other columns are not modified', (n,), lambda q: rv(res.fields[
            'other'].elem(q)).e == rv(o(q)).e)
    S.explore(run)


def sessions():
    return [('fit_original_psfs_mbexp', fit), ('extract_shear_band_indices', indices),
            ('extract_psf_image', image), ('add_original_psf', add)]

"""weighted mean PSF shape over bands and epochs"""
from engine.lib import *
from engine import obsmodel as om

META = dict(
    assumptions=['every PSF observation carries a fit result with T and a shape under '
                 '"e" or "g" (contract of the PSF fitter, whose failure is reported '
                 'through the flags given)'])


class Res:
    """a PSF fit result: dict with a symbolic choice of keys"""
    __sym_heap__ = True

    def __init__(self, data, pre):
        self.d, self.pre = data, pre

    def __sym_contains__(self, k):
        return self.d['has_e'].elem(self.pre)

    def __sym_vmap__(self, f):
        return Res(self.d, tuple(f(p) for p in self.pre))

    def __getitem__(self, k):
        if k == 'T':
            return self.d['T'].elem(self.pre)
        return tuple(self.d[k + n].elem(self.pre) for n in '12')


def stats(fl):
    def go(S):
        S.world(om.ngmix_ext())
        S.fn('metadetect.metadetect', '_get_psf_stats')
        m = S.w.load('metadetect.metadetect')

        def run():
            nb, E, ny, nx = (nat(n, 1) for n in ('nb', 'E', 'ny', 'nx'))
            d = {n: inp(n, (nb, E), 'b' if n == 'has_e' else 'f')
                 for n in ('has_e', 'T', 'e1', 'e2', 'g1', 'g2')}
            psf = om.mk_family('psf', nb, E, nat('py', 1), nat('px', 1), meta=lambda b, e: {
                'result': Res(d, (b, e))})
            fam = om.mk_family('o', nb, E, ny, nx, psf=psf)
            NE = z3.Function(str(CTX.fresh('ne', I)), I, I)
            CTX.input_facts[NE.name()] = lambda ch: [And(NE(ch[0]) >= 0, NE(ch[0]) <= E.e)]
            mb = om.mbobs_of(fam, nb, lambda b: NE(b))
            if fl == 'set':
                flags = flag()
                CTX.assume(flags.e != 0)
            else:
                flags = 0
            r = m._get_psf_stats(mb, flags)
            PF = S.w.load('metadetect.procflags').PSF_FAILURE

            def nan(tag):
                for k in ('g1', 'g2', 'T'):
                    v = to_real(lift(r[k]))
                    prove('%s: %s is NaN' % (tag, k),
                          v.k == NAN if v.k is not None else z3.BoolVal(False))
            if fl == 'set':
                prove('flags given: reported with PSF_FAILURE', bits_of(lift(
                    r['flags'])) == bits_of(lift(PF | flags)))
                nan('flags given')
                return
            W = fam.data['weight']

            def wt(b, e):
                return to_real(lift(om.sub(W, (b, e)).max()))

            def tot(f):
                b, e = CTX.index('b'), CTX.index('e')
                return mk_fold1('sum', b, z3.IntVal(0), nb.e, mk_fold1(
                    'sum', e, z3.IntVal(0), NE(b), f(b, e)))
            ws = tot(lambda b, e: wt(b, e).e)
            if SBool(ws > 0):
                prove('no flags', bits_of(lift(r['flags'])) == 0)

                def pick(j):
                    return lambda b, e: wt(b, e).e*If(
                        truth(d['has_e'].elem((b, e))),
                        to_real(d['e%d' % j].elem((b, e))).e,
                        to_real(d['g%d' % j].elem((b, e))).e)
                for k, f in (('g1', pick(1)), ('g2', pick(2)), (
                        'T', lambda b, e: wt(b, e).e*to_real(d['T'].elem((b, e))).e)):
                    v = to_real(lift(r[k]))
                    prove('%s is the weighted mean' % k, v.e*ws == tot(f))
                    if v.k is not None:
                        prove('%s is finite' % k, v.k == FIN)
            else:
                prove('no weight: PSF_FAILURE', bits_of(lift(r['flags'])) == bits_of(
                    lift(PF)))
                nan('no weight')
        S.explore(run)
    return go


def sessions():
    return [('no flags', stats('none')), ('flags given', stats('set'))]

"""masked fraction at object positions"""
import types
from engine.lib import *
from engine import obsmodel as om
from engine.loader import Auto
from props import P08

META = dict(
    assumptions=['stamps by the contracts of P08 and P09 (values of the image inside, '
                 'padding with the edge bit outside, centred on the position), or '
                 'GMixFatalError for a stamp without usable pixels',
                 'ngmix GMixModel.get_weighted_sums: Gaussian weighted sums over the '
                 'pixels with positive weight within the radius, or GMixFatalError when '
                 'there is none; the summed Gaussian is positive otherwise'])
EDGE = 2**30


def run_mfrac(fwhm_given):
    def go(S):
        P08.world(S)
        f = S.fn('metadetect.mfrac', 'measure_mfrac')
        m = S.w.load('metadetect.mfrac')
        ng = S.w.ext['ngmix']

        def run():
            ny, nx, n, nb = nat('ny', 1), nat('nx', 1), nat('n'), nat('nb', 1)
            fam = om.mk_family('o', nb, None, ny, nx, has=dict(bmask=True))
            b = idx('b', nb)
            ob = om.Obs(fam, (b,))
            old = {k: a.snap() for k, a in fam.data.items()}
            izw = truth(lift(fam.izw.elem((b,))))
            mf = inp('mf', (ny, nx), 'f')
            mf0 = mf.snap()
            x, y = inp('x', (n,), 'f'), inp('y', (n,), 'f')
            bs = inp('bs', (n,), 'i')
            x0, y0, b0 = x.snap(), y.snap(), bs.snap()
            fw = real('fwhm', lambda v: v > 0) if fwhm_given else None
            fwe = fw.e if fwhm_given else z3.RealVal('6/5')
            F = {k: z3.Function(k, I, *a) for k, a in dict(
                IMG=(I, I, R), BM=(I, I, BVS), WT=(I, I, R), FAIL=(B,), BAD=(B,), S5=(R,),
                WS=(R,)).items()}
            CTX.input_facts['WS'] = lambda ch: [F['WS'](*ch) > 0]
            TF = z3.Function('TF', R, R)
            ng.moments = types.SimpleNamespace(fwhm_to_T=lambda v: SReal(TF(to_real(lift(v)).e)))

            class Gauss:
                def __init__(self, pars, model):
                    p = [to_real(lift(v)).e for v in pars]
                    prove('round unit Gaussian of the given size at the centre', And(
                        z3.BoolVal(model == 'gauss' and len(p) == 6),
                        *[p[j] == 0 for j in range(4)], p[4] == TF(fwe), p[5] == 1))

                def get_weighted_sums(self, obs, maxrad, res=None):
                    i = obs.meta['i']
                    prove('within twice the size', to_real(lift(maxrad)).e == 2*fwe)
                    B_ = to_int_e(lift(b0((i,))))

                    def at(q):
                        p, r = q
                        w = to_real(lift(obs.weight.elem(q))).e
                        edge = F['BM'](i, p, r) & bvval(EDGE) != bvval(0)
                        return And(w == If(edge, z3.RealVal(0), z3.RealVal(1)),
                                   to_real(lift(obs.image.elem(q))).e == F['IMG'](
                                       i, p, r))
                    prove_at('unit weight inside the image, none in the padding, values '
                             'of the masked fraction', (SInt(B_), SInt(B_)), at)
                    if SBool(F['FAIL'](i)):
                        raise om.EXC['GMixFatalError']()
                    s5 = SReal(F['S5'](i))
                    return {'sums': [SReal(z3.RealVal(7))]*5 + [s5],
                            'wsum': SReal(F['WS'](i))}
            ng.GMixModel = Gauss
            ng.GMixFatalError = om.EXC['GMixFatalError']

            class Meds:
                def get_obs(self, i, c):
                    prove('the only stamp of the object', to_int_e(lift(c)) == 0)
                    i = to_int_e(lift(i))
                    if SBool(F['BAD'](i)):
                        raise om.EXC['GMixFatalError']()
                    k = SInt(to_int_e(lift(b0((i,)))))
                    a = {q: SArr.make((k, k), lambda v, q=q, t=t: t(F[q](i, *v)), kd)
                         for q, t, kd in (('IMG', SReal, 'f'), ('BM', SBits, 'bits'),
                                          ('WT', SReal, 'f'))}
                    return om.observation(a['IMG'], weight=a['WT'], bmask=a['BM'],
                                          meta={'i': i})

            class Sift:
                def __init__(self, mbobs, xx, yy, boxes):
                    prove('one band with one epoch', z3.BoolVal(
                        len(mbobs) == 1 and len(mbobs[0]) == 1))
                    o = mbobs[0][0]
                    prove_at('stamps of the masked fraction', (ny, nx), lambda q: And(
                        to_real(lift(o.image.elem(q))).e == to_real(lift(mf0(q))).e,
                        bits_of(lift(o.bmask.elem(q))) == bits_of(lift(old['bmask'](
                            (b,) + q)))))
                    for nm in om.Jac.NAMES:
                        prove('with the WCS of the observation', to_real(lift(
                            o.jacobian.vals[nm])).e == to_real(lift(
                                ob.jacobian.vals[nm])).e)
                    prove_at('at the given positions and sizes, in order', (n,), lambda q: And(
                        to_real(lift(xx.elem(q))).e == to_real(lift(x0(q))).e,
                        to_real(lift(yy.elem(q))).e == to_real(lift(y0(q))).e,
                        to_int_e(lift(boxes.elem(q))) == to_int_e(lift(b0(q)))))

                def get_meds(self, band):
                    prove('of that band', to_int_e(lift(band)) == 0)
                    return Meds()
            m.CatalogMEDSifier = Sift
            r = f(mfrac=mf, x=x, y=y, box_sizes=bs, obs=ob, fwhm=fw)
            prove('one entry per position', ix(r.shape[0]) == n.e)

            def entry(q):
                k = q[0]
                v = to_real(lift(r.elem(q)))
                use = And(to_int_e(lift(b0(q))) > 0, Not(F['FAIL'](k)),
                          Not(F['BAD'](k)))
                return And(v.k == FIN if v.k is not None else z3.BoolVal(True),
                           Implies(use, v.e*F['WS'](k) == F['S5'](k)),
                           Implies(Not(use), v.e == 1))
            prove_at('the weighted average, or one when there is none', (n,), entry)
            for k in old:
                def same(q, k=k):
                    u, o = lift(fam.data[k].elem((b,) + q)), lift(old[k]((b,) + q))
                    return bits_of(u) == bits_of(o) if k in ('bmask', 'ormask') \
                        else to_real(u).e == to_real(o).e
                prove_at('the observation is not modified', (ny, nx), same)
            prove('the observation keeps its settings', truth(lift(
                fam.izw.elem((b,)))) == izw)
            for u, o in ((x, x0), (y, y0), (bs, b0)):
                prove_at('the positions are not modified', (n,), lambda q: to_real(lift(
                    u.elem(q))).e == to_real(lift(o(q))).e)
        S.explore(run)
    return go


def sessions():
    return [('given size', run_mfrac(True)), ('default size', run_mfrac(False))]

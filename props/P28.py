"""masks and masked fractions of survey catalogues"""
import types
from engine.lib import *
from engine import obsmodel as om, lsstmodel as lm
from engine.values import PINF

META = dict(
    assumptions=['lsst exposures behave as engine/lsstmodel.py states; all bands have '
                 'one shape; detections lie inside the image (precondition)',
                 'ngmix GMixModel.get_weighted_sums: sums over the pixels of the '
                 'observation within the radius, positive normalization for a stamp '
                 'with pixels'])
Z = z3.IntVal(0)


def rv(x):
    return to_real(lift(x))


def fin(v):
    return z3.BoolVal(True) if v.k is None else v.k == FIN


def load(S, fn):
    S.world(lm.ext())
    return S.fn('metadetect.lsst.metadetect', fn)


def orm(given):
    def go(S):
        f = load(S, 'combine_ormasks')

        def run():
            nb, ny, nx, n = nat('nb', 1), nat('ny', 1), nat('nx', 1), nat('n', 1)
            mb = lm.mk_mbexp('d', nb, ny, nx)
            a = inp('or', (n, ny, nx), 'bits')
            s = a.snap()
            r = f(mb, om.MetaSeq(n.e, lambda k: om.sub(a, (k,)), [a], 'ormasks')
                  if given else None)
            prove('shape', And(ix(r.shape[0]) == ny.e, ix(r.shape[1]) == nx.e))
            p = (idx('y', ny), idx('x', nx))
            k = CTX.index('k')
            want = mk_fold1('bor', k, Z, n.e, bits_of(lift(s((k,) + p)))) if given \
                else bvval(0)
            prove('bitwise OR over the bands' if given else 'no bits without OR-masks',
                  bits_of(lift(r.elem(p))) == want)
            q = (idx('k', n),) + p
            prove('OR-masks are not modified', bits_of(lift(a.elem(q))) == bits_of(
                lift(s(q))))
            prove('the result is a new array', z3.BoolVal(r.buf is not a.buf))
        S.explore(run)
    return go


def mfrac(given):
    def go(S):
        f = load(S, 'get_mfrac_mbexp')
        np0 = S.w.np.median

        def run():
            nb, ny, nx = nat('nb', 1), nat('ny', 1), nat('nx', 1)
            mb = lm.mk_mbexp('d', nb, ny, nx)
            med0 = np0
            mm = lm.mk_mbexp('m', nb, ny, nx)
            V, M = mb.fam.data['variance'], mm.fam.data['image']
            old = {(w, n): a.snap() for w, g in (('d', mb), ('m', mm))
                   for n, a in g.fam.data.items()}

            def some(b):
                i, j = CTX.index('i'), CTX.index('j')
                return mk_fold1('any', i, Z, ny.e, mk_fold1(
                    'any', j, Z, nx.e, rv(V.elem((b, i, j))).e > 0))

            def w(b):
                return z3.RealVal(1)/MED(b)
            # the median over the usable pixels of a band, for bands that have some
            MED = z3.Function('MED', I, R)
            CTX.input_facts['MED'] = lambda ch: [MED(*ch) > 0]

            def median(a):
                b = (CTX.loopvars or CTX.exits or [Z])[-1]
                r = med0(a)
                u = om.sub(V, (b,))
                prove('median of the positive variances of the band', And(
                    fin(rv(r)), rv(r).e > 0, rv(r).e == rv(med0(u[u > 0])).e))
                return SReal(MED(b))
            S.w.np.median = median
            k = CTX.index('k')
            all_ok = Not(mk_fold1('any', k, Z, nb.e, Not(some(k))))
            try:
                r, wg = f(mb, mm if given else None)
            except ValueError:
                prove('refused only when a band has no usable variance', Or(*[
                    And(0 <= b, b < nb.e, Not(some(b))) for b in [Z] + CTX.exits]))
                return
            prove('refused when a band has no usable variance', all_ok)
            prove('one weight per band', to_int_e(
                rt.len_(wg)) == nb.e)
            b = idx('b', nb)
            if CTX.decide(b == 0):
                b = Z
            prove('weights are the inverse median variances',
                  rv(wg[SInt(b)]).e == w(b))
            prove('shape', And(ix(r.shape[0]) == ny.e, ix(r.shape[1]) == nx.e))
            p = (idx('y', ny), idx('x', nx))
            v = rv(r.elem(p))
            if given:
                k, l = CTX.index('k'), CTX.index('k')
                o = z3.IntVal(1)

                def t(b):
                    return w(b)*rv(old['m', 'image']((b,) + p)).e
                ws = w(Z) + mk_fold1('sum', k, o, nb.e, w(k))
                num = t(Z) + mk_fold1('sum', l, o, nb.e, t(l))
                prove('weighted mean over the bands', v.e*ws == num)
            else:
                prove('zero masked fraction without exposures', v.e == 0)
            q = (b,) + p
            for (g, n), s in old.items():
                a = (mb if g == 'd' else mm).fam.data[n]
                prove('inputs are not modified', bits_of(a.elem(q)) == bits_of(s(q))
                      if n == 'mask' else rv(a.elem(q)).e == rv(s(q)).e)
        S.explore(run)
    return go


def weighted(fwhm_given):
    def go(S):
        f = load(S, 'measure_weighted_mfrac')
        ng = S.w.ext['ngmix']

        def run():
            ny, nx, n = nat('ny', 1), nat('nx', 1), nat('n')
            mf = inp('mf', (ny, nx), 'f')
            mf0 = mf.snap()
            x, y = inp('x', (n,), 'f'), inp('y', (n,), 'f')
            x0, y0 = x.snap(), y.snap()
            fw = real('fwhm', lambda v: v > 0) if fwhm_given else None
            fwe = fw.e if fwhm_given else z3.RealVal('6/5')
            TF, SF = z3.Function('TF', R, R), z3.Function('SF', R, R)
            CTX.input_facts['SF'] = lambda ch: [Implies(ch[0] > 0, SF(*ch) > 0)]
            S5, WS = z3.Function('S5', I, R), z3.Function('WS', I, R)
            CTX.input_facts['WS'] = lambda ch: [WS(*ch) > 0]
            ng.moments = types.SimpleNamespace(
                fwhm_to_T=lambda v: SReal(TF(rv(v).e)),
                fwhm_to_sigma=lambda v: SReal(SF(rv(v).e)))
            jac = om.Jac.fresh('j')
            rad = to_int_e(lift(rt.round_(SReal(SF(fwe)*5))))

            def box(i):
                def lim(c, hi):
                    a = z3.ToInt(rv(c((i,))).e + z3.RealVal('1/2'))
                    s, e = a - rad, a + rad + 1
                    return If(s < 0, Z, s), If(e > hi, hi, e)
                ys, ye = lim(y0, ny.e)
                xs, xe = lim(x0, nx.e)
                return ys, ye, xs, xe, Or(ye <= ys, xe <= xs)

            class Gauss:
                def __init__(self, pars, model):
                    p = [rv(v).e for v in pars]
                    prove('round unit Gaussian of the given size at the centre', And(
                        z3.BoolVal(model == 'gauss' and len(p) == 6),
                        *[p[j] == 0 for j in range(4)], p[4] == TF(fwe), p[5] == 1))

                def get_weighted_sums(self, obs, maxrad, res=None):
                    i = CTX.loopvars[-1]
                    ys, ye, xs, xe, em = box(i)
                    prove('the radius is five sigma', rv(maxrad).e == z3.ToReal(rad))
                    prove('the stamp is the box clipped to the image', And(
                        ix(obs.image.shape[0]) == ye - ys,
                        ix(obs.image.shape[1]) == xe - xs))
                    prove_at('pixels of the stamp, rows and columns in their places',
                             obs.image.shape, lambda q: And(
                                 rv(obs.image.elem(q)).e == rv(mf0((
                                     q[0] + ys, q[1] + xs))).e,
                                 rv(obs.weight.elem(q)).e == 1))
                    j = obs.jacobian
                    prove('centred on the object', And(
                        rv(j.vals['row0']).e == rv(y0((i,))).e - z3.ToReal(ys),
                        rv(j.vals['col0']).e == rv(x0((i,))).e - z3.ToReal(xs)))
                    for nm in om.Jac.NAMES[2:]:
                        prove('with the derivatives given', rv(j.vals[nm]).e == rv(
                            jac.vals[nm]).e)
                    return {'sums': [SReal(z3.RealVal(7))]*5 + [SReal(S5(i))],
                            'wsum': SReal(WS(i))}
            ng.GMixModel = Gauss
            j0 = {k: v for k, v in jac.vals.items()}
            r = f(mfrac=mf, x=x, y=y, jac=jac, fwhm=fw)
            prove('one entry per position', ix(r.shape[0]) == n.e)

            def entry(q):
                em = box(q[0])[4]
                v = rv(r.elem(q))
                return And(fin(v), If(em, v.e == 1, v.e*WS(q[0]) == S5(q[0])))
            prove_at('the weighted average; one for a stamp without pixels', (n,), entry)
            prove('the Jacobian is not modified', And(*[rv(
                jac.vals[k]).e == rv(v).e for k, v in j0.items()]))
            for u, o in ((x, x0), (y, y0)):
                prove_at('the positions are not modified', (n,), lambda q: rv(
                    u.elem(q)).e == rv(o(q)).e)
            prove_at('the masked fraction is not modified', (ny, nx), lambda q: rv(
                mf.elem(q)).e == rv(mf0(q)).e)
        S.explore(run)
    return go


def table(n, ny, nx, inside=True):
    """detections, with their position in the image"""
    F = {k: inp(k, (n,), 'f') for k in ('row', 'col', 'mfrac')}
    G = {k: inp(k, (n,), t) for k, t in (('row0', 'i'), ('col0', 'i'), ('ormask', 'bits'),
                                         ('other', 'i'))}
    d = [('row', '<f4'), ('col', '<f4'), ('mfrac', '<f4'), ('row0', '<i4'),
         ('col0', '<i4'), ('ormask', '<i4'), ('other', '<i4')]
    return SRec((n,), {**F, **G}, d)


def local(s, i):
    return tuple(z3.ToInt(rv(s[a]((i,))).e - z3.ToReal(to_int_e(lift(s[a + '0'](
        (i,))))) + z3.RealVal('1/2')) for a in ('row', 'col'))


def untouched(res, s, n, but):
    for k, a in res.fields.items():
        if k in but:
            continue
        prove_at('%s is not modified' % k, (n,), lambda q: (
            bits_of(lift(a.elem(q))) == bits_of(lift(s[k](q))) if k == 'ormask'
            else rv(a.elem(q)).e == rv(s[k](q)).e))


def add_or(S):
    f = load(S, 'add_ormask')

    def run():
        ny, nx, n = nat('ny', 1), nat('nx', 1), nat('n')
        res = table(n, ny, nx)
        s = {k: a.snap() for k, a in res.fields.items()}
        def facts(ch):
            r, c = local(s, ch[0])
            return [And(0 <= r, r < ny.e, 0 <= c, c < nx.e)]
        for c in ('row', 'col'):
            nm = res.fields[c].elem((z3.Int('probe!0'),)).e.decl().name()
            CTX.input_facts[nm] = facts
        a = inp('or', (ny, nx), 'bits')
        a0 = a.snap()
        f(a, res)
        prove_at('value of the OR-mask at the pixel of the object', (n,), lambda q: bits_of(
            lift(res.fields['ormask'].elem(q))) == bits_of(lift(a0(local(s, q[0])))))
        untouched(res, s, n, ('ormask',))
        prove_at('OR-mask is not modified', (ny, nx), lambda q: bits_of(lift(
            a.elem(q))) == bits_of(lift(a0(q))))
    S.explore(run)


def add_mf(S):
    f = load(S, 'add_mfrac')
    m = S.w.load('metadetect.lsst.metadetect')

    def run():
        ny, nx, n = nat('ny', 1), nat('nx', 1), nat('n')
        res = table(n, ny, nx)
        s = {k: a.snap() for k, a in res.fields.items()}
        mf = inp('mf', (ny, nx), 'f', lambda v: v >= 0)
        exp = lm.mk_mbexp('d', nat('nb', 1), ny, nx, lm.Geo(wcs='wcs', xy0=lm.Pt(
            SInt(z3.IntVal(0)), SInt(z3.IntVal(0)))))[lm.Band(Z)]
        cen, jac = object(), om.Jac.fresh('j')
        out = inp('out', (n,), 'f')
        calls = []

        def gic(wcs, bbox, as_double=False):
            prove('centre of the exposure', z3.BoolVal(
                wcs == 'wcs' and isinstance(bbox, lm.Box) and as_double is True))
            return cen, None

        def gj(exp, cen):
            prove('Jacobian at the centre', z3.BoolVal(exp is E and cen is C))
            return jac

        def mwm(*, mfrac, x, y, jac, fwhm):
            calls.append(1)
            prove('of the combined masked fraction', z3.BoolVal(mfrac.buf is mf.buf))
            for a, v in (('col', x), ('row', y)):
                prove_at('local %s positions' % a, (n,), lambda q: rv(v.elem(q)).e == rv(
                    s[a](q)).e - z3.ToReal(to_int_e(lift(s[a + '0'](q)))))
                prove('every object', ix(v.shape[0]) == n.e)
            prove('with that Jacobian', z3.BoolVal(jac is J))
            prove('aperture of the configuration', z3.BoolVal(fwhm == FW))
            return out
        E, C, J = exp, cen, jac
        FW = 1.7 if SBool(CTX.fresh('conf', B)) else None
        m.util.get_integer_center, m.util.get_jacobian = gic, gj
        m.measure_weighted_mfrac = mwm
        f(config={} if FW is None else {'mfrac_fwhm': FW}, mfrac=mf, res=res, exp=exp)
        got = res.fields['mfrac']
        i, j = CTX.index('i'), CTX.index('j')
        some = mk_fold1('any', i, Z, ny.e, mk_fold1('any', j, Z, nx.e, rv(
            mf.elem((i, j))).e > 0))
        prove_at('the measured masked fraction, zero when nothing is masked', (n,),
                 lambda q: rv(got.elem(q)).e == If(some, rv(out.elem(q)).e, z3.RealVal(0)))
        untouched(res, s, n, ('mfrac',))
    S.explore(run)


def sessions():
    return [('combine_ormasks', orm(True)), ('combine_ormasks none', orm(False)),
            ('get_mfrac_mbexp', mfrac(True)), ('get_mfrac_mbexp none', mfrac(False)),
            ('measure_weighted_mfrac', weighted(True)),
            ('measure_weighted_mfrac default size', weighted(False)),
            ('add_ormask', add_or), ('add_mfrac', add_mf)]

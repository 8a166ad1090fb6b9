"""coadds of survey bands"""
import types
from engine.lib import *
from engine import obsmodel as om, lsstmodel as lm
from engine.values import PINF
from .P28 import Z, rv, fin

META = dict(
    assumptions=['all exposures have one shape and finite variances; observations have one '
                 'shape and each a pixel with positive weight (preconditions; extract_obs '
                 'refuses other stamps)',
                 'PSF kernel images have one shape and positive total',
                 'lsst exposures behave as engine/lsstmodel.py states'])
ONE = z3.RealVal(1)


def kd(v):
    return v.k if v.k is not None else z3.IntVal(FIN)


def positive(u, ny, nx):
    i, j = CTX.index('i'), CTX.index('j')
    return mk_fold1('any', i, Z, ny.e, mk_fold1(
        'any', j, Z, nx.e, rv(u.elem((i, j))).e > 0))


def counted(S, V, dims):
    """
    N(b): the number of positive pixels of band b, by definition; np.where in the loop
    over bands has that size.  Facts: N > 0 exactly if some pixel is positive ('number of
    positive pixels' proves that of a count).
    """
    nb, ny, nx = [n.e for n in dims]
    N, WY, WX = [z3.Function(n, I, I) for n in ('N', 'WY', 'WX')]
    where = S.w.np_where = getattr(S.w, 'np_where', S.w.np.where)

    def val(*t):
        return rv(V.elem(t)).e
    d = V.elem((Z, Z, Z)).e.decl()

    def facts(ch):
        b = ch[0]
        y, x = WY(b), WX(b)
        return [N(b) >= 0, Implies(And(N(b) > 0, b >= 0, b < nb), And(
            y >= 0, y < ny, x >= 0, x < nx, val(b, y, x) > 0))] + old([b, y, x])
    CTX.input_facts['N'] = facts
    old = CTX.input_facts.get(d.name(), lambda ch: [])
    CTX.input_facts[d.name()] = lambda ch: old(ch) + [Implies(And(
        ch[1] >= 0, ch[1] < ny, ch[2] >= 0, ch[2] < nx, d(*ch) > 0), N(ch[0]) > 0)]

    def positives(a, b):
        if not isinstance(a, SArr) or a.ndim != 2:
            return False
        i, j = CTX.index('i'), CTX.index('j')
        return CTX.entailed(Implies(And(0 <= i, i < ny, 0 <= j, j < nx), truth(
            lift(a.elem((i, j)))) == (val(b, i, j) > 0)))

    def band():
        return (CTX.loopvars or CTX.exits or [Z])[-1]

    def some(old):
        # some pixel is positive exactly if their number is not zero
        def go(a, axis=None, **kw):
            if axis is None and positives(a, band()):
                return SBool(Not(Z == N(band())))
            return old(a, axis=axis, **kw)
        return go

    def named(*a):
        r = where(*a)
        b = band()
        if len(a) > 1 or not positives(a[0], b):
            return r
        for t in r:
            t.named = SInt(N(b))
        return r
    S.w.np.where = named
    any0 = S.w.np_any = getattr(S.w, 'np_any', (S.w.np.any, SArr.any))
    S.w.np.any, SArr.any = some(any0[0]), some(any0[1])
    return N


def number(S):
    S.world(lm.ext())
    S.fn('metadetect.lsst.util', 'coadd_exposures')

    def run():
        ny, nx = nat('ny', 1), nat('nx', 1)
        V = inp('V', (ny, nx), 'f')
        n = to_int_e(lift(S.w.np.where(V > 0)[0].size))
        prove('a count is not negative', n >= 0)
        some = positive(V, ny, nx)
        prove('no positive pixel, no count', Or(some, n == 0))
        prove('a positive pixel counts', Implies(rv(V.elem((
            idx('y', ny), idx('x', nx)))).e > 0, n > 0))
    S.explore(run)


def exposures(S, only='image'):
    x = lm.ext()
    x['lsst.afw.image'].ExposureF = lambda e, deep=False: e.deep() if deep else e
    S.world(x)
    f = S.fn('metadetect.lsst.util', 'coadd_exposures')
    m = S.w.load('metadetect.lsst.util')
    med0 = S.w.np.median

    def run():
        nb, ny, nx = nat('nb', 1), nat('ny', 1), nat('nx', 1)
        py, px = nat('py', 1), nat('px', 1)
        pim = inp('psf', (nb, py, px), 'f', lambda v: v > 0)
        p0 = pim.snap()

        def psf(b):
            return types.SimpleNamespace(computeKernelImage=lambda cen: at(b, cen))

        def at(b, cen):
            prove('PSF at the centre of the image', And(
                rv(cen.x).e == (z3.ToReal(nx.e) - 1)/2,
                rv(cen.y).e == (z3.ToReal(ny.e) - 1)/2))
            return types.SimpleNamespace(array=om.sub(pim, (b,)))
        geo = lm.Geo(wcs=lambda b: ('wcs', b), xy0=lm.Pt(SInt(Z), SInt(Z)), psf=psf,
                     filt='f')
        mb = lm.mk_mbexp('d', nb, ny, nx, geo)
        D = mb.fam.data
        if only == 'none':
            D['variance'] = inp('var', (nb, ny, nx), 'f', lambda v: v <= 0)
        V = D['variance']
        if only == 'some':
            b0 = idx('b', nb)
            CTX.assume(rv(V.elem((b0, idx('y', ny), idx('x', nx)))).e > 0)
        old = {n: a.snap() for n, a in D.items()}
        MED = z3.Function('MED', I, R)
        CTX.input_facts['MED'] = lambda ch: [MED(*ch) > 0]
        if only == 'some':
            CTX.assume(MED(b0) > 0)

        N = counted(S, V, (nb, ny, nx))

        def some(b):
            return Not(Z == N(b))
        def median(a):
            b = (CTX.loopvars or CTX.exits or [Z])[-1]
            r = med0(a)
            u = om.sub(V, (b,))
            CTX.assume(some(b) == positive(om.sub(V, (b,)), ny, nx))
            prove('median of the positive variances of the band', And(
                fin(rv(r)), rv(r).e > 0, rv(r).e == rv(med0(u[u > 0])).e))
            return SReal(MED(b))
        S.w.np.median = median
        got = []

        def tot(fn, op='sum'):
            a = CTX.index('k')
            return combine(op, fn(Z), mk_fold1(op, a, z3.IntVal(1), nb.e, fn(a)))

        def raw(q):
            return tot(lambda k: If(some(k), (ONE/MED(k))*rv(p0((k,) + q)).e,
                                    z3.RealVal(0)))
        a, b = CTX.index('i'), CTX.index('j')
        total = mk_fold1('sum', a, Z, py.e, mk_fold1('sum', b, Z, px.e, raw((a, b))))

        def stack(im):
            got.append(im)
            return 'psf'
        m.get_stack_kernel_psf = stack
        r = f(mb.singles)
        if only == 'some':
            prove('a coadd wherever a band has usable data', z3.BoolVal(r is not None))
        if only == 'none':
            prove('no coadd without usable data', z3.BoolVal(r is None))
        if r is None or only in ('some', 'none'):
            return
        g = got[0]
        q = (idx('y', py), idx('x', px))
        if only == 'psf':
            CTX.assume(total > 0)       # follows from positive kernels and weights
            prove('normalised weighted mean of the PSFs', And(
                fin(rv(g.elem(q))), rv(g.elem(q)).e*total == raw(q)))
            return
        prove('shape', And(*[ix(p.array.shape[i]) == n.e for p in (
            r.image, r.variance, r.mask) for i, n in enumerate((ny, nx))]))
        p = (idx('y', ny), idx('x', nx))

        def pos(k):
            return rv(old['variance']((k,) + p)).e > 0
        W = tot(lambda k: If(some(k), ONE/MED(k), z3.RealVal(0)))
        im = rv(r.image.array.elem(p))
        prove('finite', fin(im))
        prove('weighted mean of the images', im.e*W == tot(lambda k: If(
            pos(k), rv(old['image']((k,) + p)).e/MED(k), z3.RealVal(0))))
        va = rv(r.variance.array.elem(p))
        wsum = tot(lambda k: If(pos(k), ONE/rv(old['variance']((k,) + p)).e,
                                z3.RealVal(0)))
        k = CTX.index('k')
        anyp = Or(pos(Z), mk_fold1('any', k, z3.IntVal(1), nb.e, pos(k)))
        if CTX.decide(wsum > 0):
            prove('inverse of the summed inverse variances', And(
                kd(va) == FIN, va.e*wsum == 1))
        else:
            prove('infinite variance without usable band', kd(va) == PINF)
            prove('no usable band there', Not(anyp))
        prove('OR of the masks', bits_of(lift(r.mask.array.elem(p))) == tot(
            lambda k: bits_of(lift(old['mask']((k,) + p))), 'bor'))
        prove('PSF is set', z3.BoolVal(r.getPsf() == 'psf' and len(got) == 1))
        prove('WCS of the exposures', z3.BoolVal(r.getWcs()[0] == 'wcs'))
        prove('PSF shape', And(ix(g.shape[0]) == py.e, ix(g.shape[1]) == px.e))
        b = idx('b', nb)
        for n, o in old.items():
            t = (b,) + p
            prove('inputs are not modified', bits_of(D[n].elem(t)) == bits_of(o(t))
                  if n == 'mask' else rv(D[n].elem(t)).e == rv(o(t)).e)
        prove('PSFs are not modified', rv(pim.elem((b,) + q)).e == rv(p0((b,) + q)).e)
    S.explore(run)


def stamps(S):
    S.world(lm.ext())
    f = S.fn('metadetect.lsst.util', 'coadd_mbobs')
    m = S.w.load('metadetect.lsst.util')
    med0 = S.w.np.median

    def run():
        nb, ny, nx = nat('nb', 1), nat('ny', 1), nat('nx', 1)
        py, px = nat('py', 1), nat('px', 1)
        A = {'image': inp('image', (nb, ny, nx), 'f'),
             'weight': inp('weight', (nb, ny, nx), 'f', lambda v: v >= 0),
             'psf': inp('psf', (nb, py, px), 'f', lambda v: v > 0)}
        V = A['weight']
        old = {n: a.snap() for n, a in A.items()}
        MED = z3.Function('MED', I, R)
        CTX.input_facts['MED'] = lambda ch: [MED(*ch) > 0]

        def some(b):
            i, j = CTX.index('i'), CTX.index('j')
            return mk_fold1('any', i, Z, ny.e, mk_fold1(
                'any', j, Z, nx.e, rv(V.elem((b, i, j))).e > 0))
        k = CTX.index('k')
        CTX.assume(Not(mk_fold1('any', k, Z, nb.e, Not(some(k)))))

        def median(a):
            b = (CTX.loopvars or CTX.exits or [Z])[-1]
            r = med0(a)
            u = om.sub(V, (b,))
            CTX.assume(some(b))     # instance of the precondition
            prove('median of the positive weights of the band', And(
                fin(rv(r)), rv(r).e > 0, rv(r).e == rv(med0(u[u > 0])).e))
            return SReal(MED(b))
        S.w.np.median = median

        class Stamp:
            __sym_last__ = True

            def __init__(self, b):
                self.ix = b
                self.image = om.sub(A['image'], (b,))
                self.weight = om.sub(A['weight'], (b,))
                self.jacobian = ('jac', SInt(b))
                self.meta = {'seen': SInt(b)}
                self.psf = types.SimpleNamespace(
                    image=om.sub(A['psf'], (b,)), jacobian=('psfjac', SInt(b)))

            def __sym_vmap__(self, f):
                return Stamp(f(self.ix))
        mb = om.MetaSeq(nb.e, lambda b: [Stamp(b)], list(A.values()), 'mbobs')
        S.w.ext['ngmix'].Observation = lambda **kw: types.SimpleNamespace(**kw)

        def tot(fn, op='sum'):
            a = CTX.index('k')
            return combine(op, fn(Z), mk_fold1(op, a, z3.IntVal(1), nb.e, fn(a)))

        def raw(q):
            return tot(lambda k: rv(old['psf']((k,) + q)).e*MED(k))
        r = f(mb)
        prove('shapes', And(*[ix(a.shape[i]) == n.e for a in (
            r.image, r.weight) for i, n in enumerate((ny, nx))], *[
            ix(a.shape[i]) == n.e for a in (r.psf.image, r.psf.weight)
            for i, n in enumerate((py, px))]))
        p = (idx('y', ny), idx('x', nx))
        q = (idx('y', py), idx('x', px))
        W = tot(lambda k: MED(k))
        im = rv(r.image.elem(p))
        prove('finite', fin(im))
        prove('weighted mean of the images', im.e*W == tot(
            lambda k: rv(old['image']((k,) + p)).e*MED(k)))
        prove('summed weights', rv(r.weight.elem(p)).e == tot(
            lambda k: rv(old['weight']((k,) + p)).e))
        for n, o in old.items():
            t = (idx('b', nb),) + (q if n == 'psf' else p)
            prove('inputs are not modified', rv(A[n].elem(t)).e == rv(o(t)).e)
        prove('Jacobians of the bands', z3.BoolVal(
            r.jacobian[0] == 'jac' and r.psf.jacobian[0] == 'psfjac'))
        a, b = CTX.index('i'), CTX.index('j')
        total = mk_fold1('sum', a, Z, py.e, mk_fold1('sum', b, Z, px.e, raw((a, b))))
        CTX.assume(total > 0)       # follows from positive kernels and weights
        g = r.psf.image
        prove('normalised weighted mean of the PSFs', And(
            fin(rv(g.elem(q))), rv(g.elem(q)).e*total == raw(q)))
    S.explore(run)


def sessions():
    return [('number of positive pixels', number), ('coadd_exposures', exposures),
            ('coadd_exposures: PSF', lambda S: exposures(S, 'psf')),
            ('coadd_exposures: usable data', lambda S: exposures(S, 'some')),
            ('coadd_exposures: no usable data', lambda S: exposures(S, 'none')),
            ('coadd_mbobs', stamps)]

"""survey exposures and observations"""
import types
from engine.lib import *
from engine import obsmodel as om, lsstmodel as lm
from engine.values import PINF
from .P28 import Z, rv, fin
from .P32 import kd

META = dict(
    assumptions=['lsst exposures, boxes and points behave as engine/lsstmodel.py states '
                 '(integer points are rounded from real ones)',
                 'ngmix.Jacobian(x, y, dudx, dudy, dvdx, dvdy) has column x, row y and '
                 'those derivatives; variances are finite (for exp2obs some are '
                 'positive); the PSF kernel has a positive '
                 'maximum (preconditions)'])


def jacobian(x, y, dudx, dudy, dvdx, dvdy):
    return om.Jac([y, x, dvdy, dvdx, dudy, dudx])


def pick(*names):
    for n in names[:-1]:
        if SBool(CTX.fresh('name_' + n, B)):
            return n
    return names[-1]


class World:
    """one exposure with an arbitrary WCS and PSF"""

    def __init__(self, S, fact=None):
        S.w.ext['ngmix'].Jacobian = jacobian
        self.ny, self.nx = nat('ny', 1), nat('nx', 1)
        self.h = nat('h')
        self.n = 2*self.h + 1
        L = [[z3.Function('L%d%d' % (i, j), R, R, R) for j in (0, 1)] for i in (0, 1)]
        K = z3.Function('K', R, R, I, I, R)
        self.L, self.K = L, K
        self.asked = []

        def linear(cen, unit):
            prove('derivatives in arcseconds', z3.BoolVal(unit == 'arcseconds'))
            x, y = rv(cen.x).e, rv(cen.y).e

            class M:
                def __getitem__(s, k):
                    return SReal(L[k[0]][k[1]](x, y))
            return types.SimpleNamespace(getLinear=lambda: types.SimpleNamespace(
                getMatrix=lambda: M()))
        self.wcs = types.SimpleNamespace(
            linearizePixelToSky=linear, pixelToSky=lambda p: ('sky', p))

        def kernel(cen):
            self.asked.append(cen)
            x, y = rv(cen.x).e, rv(cen.y).e
            return types.SimpleNamespace(array=SArr.make(
                (self.n, self.n), lambda q: SReal(K(x, y, *q)), 'f', 'K'))
        self.psf = types.SimpleNamespace(computeKernelImage=kernel)
        self.x0, self.y0 = SInt(CTX.fresh('x0', I)), SInt(CTX.fresh('y0', I))
        self.mb = lm.mk_mbexp('d', nat('nb', 1), self.ny, self.nx, lm.Geo(
            wcs=lambda b: self.wcs, xy0=lm.Pt(self.x0, self.y0), psf=lambda b: self.psf))
        self.D = self.mb.fam.data
        self.old = {n: a.snap() for n, a in self.D.items()}
        self.e = lm.Exp(self.mb.fam, (Z,))
        self.p = (idx('y', self.ny), idx('x', self.nx))
        self.q = (idx('y', self.n), idx('x', self.n))

    def val(self, n, p=None):
        v = lift(self.old[n]((Z,) + (p or self.p)))
        return bits_of(v) if n == 'mask' else rv(v).e

    def unchanged(self):
        for n, a in self.D.items():
            v = lift(a.elem((Z,) + self.p))
            prove('the exposure is not modified',
                  (bits_of(v) if n == 'mask' else rv(v).e) == self.val(n))

    def jac(self, name, j, x, y, psf=False):
        """the derivatives at (x, y); the centre relative to the corner"""
        L = self.L
        prove(name + ': derivatives of the WCS there', And(
            rv(j.vals['dudcol']).e == L[1][1](x, y),
            rv(j.vals['dudrow']).e == -L[1][0](x, y),
            rv(j.vals['dvdcol']).e == L[0][1](x, y),
            rv(j.vals['dvdrow']).e == -L[0][0](x, y)))
        if psf:
            c = z3.ToReal(self.h.e)
            prove(name + ': centre of the PSF image', And(
                rv(j.vals['row0']).e == c, rv(j.vals['col0']).e == c))
        else:
            prove(name + ': position relative to the corner', And(
                rv(j.vals['col0']).e == x - z3.ToReal(self.x0.e),
                rv(j.vals['row0']).e == y - z3.ToReal(self.y0.e)))

    def kernel(self, o, x, y):
        i, j = CTX.index('i'), CTX.index('j')
        K = self.K
        CTX.assume(mk_fold1('any', i, Z, to_int_e(self.n), mk_fold1(
            'any', j, Z, to_int_e(self.n), K(x, y, i, j) > 0)))
        prove('PSF image at the position', And(
            ix(o.image.shape[0]) == to_int_e(self.n),
            ix(o.image.shape[1]) == to_int_e(self.n),
            rv(o.image.elem(self.q)).e == K(x, y, *self.q)))
        w = rv(o.weight.elem(self.q))
        prove('PSF weight is constant, positive and finite', And(
            fin(w), w.e > 0, w.e == rv(o.weight.elem((Z, Z))).e))

    def center(self):
        """the integer centre of the bounding box"""
        def half(o, n):
            return lm._lround(SReal(z3.ToReal(o.e) + (z3.ToReal(n.e) - 1)/2)).e
        return (z3.ToReal(half(self.x0, self.nx)), z3.ToReal(half(self.y0, self.ny)))


def to_obs(S):
    S.world(lm.ext())
    f = S.fn('metadetect.lsst.util', 'exp2obs')

    def run():
        w = World(S)
        to = pick('ormask', 'bmask', 'mask')
        keep = bool(SBool(CTX.fresh('store', B)))
        x, y = w.center()
        try:
            r = f(w.e, copy_mask_to=to, store_exp=keep)
        except RuntimeError:
            prove('refused only for another mask name', z3.BoolVal(to == 'mask'))
            return
        prove('another mask name is refused', z3.BoolVal(to != 'mask'))
        prove('shape', And(*[ix(getattr(r, n).shape[i]) == d.e for n in (
            'image', 'weight', 'bmask', 'ormask') for i, d in enumerate((w.ny, w.nx))]))
        prove('image', rv(r.image.elem(w.p)).e == w.val('image'))
        v = w.val('variance')
        g = rv(r.weight.elem(w.p))
        prove('inverse variance', And(fin(g), Implies(v > 0, g.e*v == 1)))
        prove('zero weight without usable variance', Implies(v <= 0, g.e == 0))
        other = 'bmask' if to == 'ormask' else 'ormask'
        prove('mask bits', bits_of(lift(getattr(r, to).elem(w.p))) == w.val('mask'))
        prove('the other mask is empty', bits_of(lift(getattr(r, other).elem(
            w.p))) == bvval(0))
        w.jac('Jacobian', r.jacobian, x, y)
        w.jac('PSF Jacobian', r.psf.jacobian, x, y, psf=True)
        w.kernel(r.psf, x, y)
        prove('exposure stored on request', z3.BoolVal(
            (r.meta.get('exposure') is w.e) if keep else 'exposure' not in r.meta))
        w.unchanged()
    S.explore(run)


def to_exp(S):
    x = lm.ext()

    def exposure(nx, ny):
        d = {n: SArr.full((ny, nx), 0, 'b' if n == 'mask' else 'f')
             for n in lm.PLANES}
        d['mask'] = SArr.make((ny, nx), lambda i: SBits(bvval(0)), 'i', 'mask')
        return lm.Exp(lm.Fam('new', d, 0, lm.Geo(xy0=lm.Pt(SInt(Z), SInt(Z))),
                             local=True))
    x['lsst.afw.image'].ExposureF = exposure
    x['lsst.afw.image'].ImageD = lambda a: a
    S.world(x)
    f = S.fn('metadetect.lsst.util', 'obs2exp')
    S.w.ext['lsst.afw.math'] = types.SimpleNamespace(FixedKernel=lambda a: ('k', a))
    S.w.ext['lsst.meas.algorithms'] = types.SimpleNamespace(
        KernelPsf=lambda k: ('psf', k))

    def run():
        ny, nx, py, px = nat('ny', 1), nat('nx', 1), nat('py', 1), nat('px', 1)
        A = {n: inp(n, (ny, nx), 'bits' if 'mask' in n else 'f')
             for n in ('image', 'weight', 'bmask', 'ormask')}
        P = inp('psf', (py, px), 'f')
        old = {n: a.snap() for n, a in A.items()}
        p0 = P.snap()
        obs = types.SimpleNamespace(psf=types.SimpleNamespace(image=P), **A)
        frm = pick('bmask', 'ormask', 'mask')
        given = bool(SBool(CTX.fresh('given', B)))
        psf = bool(SBool(CTX.fresh('psf', B)))
        e = None
        if given:
            e = lm.Exp(lm.mk_mbexp('d', nat('nb', 1), ny, nx, lm.Geo(
                wcs='wcs', psf='oldpsf')).fam, (Z,))
        try:
            r = f(obs, exp=e, copy_mask_from=frm, copy_psf=psf)
        except RuntimeError:
            prove('refused only for another mask name', z3.BoolVal(frm == 'mask'))
            return
        prove('another mask name is refused', z3.BoolVal(frm != 'mask'))
        prove('the given exposure is filled', z3.BoolVal(not given or r is e))
        prove('shape', And(*[ix(a.array.shape[i]) == d.e for a in (
            r.image, r.variance, r.mask) for i, d in enumerate((ny, nx))]))
        p = (idx('y', ny), idx('x', nx))
        prove('image', rv(r.image.array.elem(p)).e == rv(old['image'](p)).e)
        prove('mask bits', bits_of(lift(r.mask.array.elem(p))) == bits_of(lift(
            old[frm](p))))
        g = rv(old['weight'](p)).e
        v = rv(r.variance.array.elem(p))
        prove('inverse weight', Implies(g > 0, And(kd(v) == FIN, v.e*g == 1)))
        prove('infinite variance without weight', Implies(g <= 0, kd(v) == PINF))
        if psf:
            q = (idx('y', py), idx('x', px))
            k = r.getPsf()
            prove('PSF image is copied on request', And(
                z3.BoolVal(k[0] == 'psf' and k[1][0] == 'k'),
                rv(k[1][1].elem(q)).e == rv(p0(q)).e))
        elif given:
            prove('the PSF stays', z3.BoolVal(r.getPsf() == 'oldpsf'))
        if given:
            prove('the WCS stays', z3.BoolVal(r.getWcs() == 'wcs'))
        for n, o in old.items():
            a, b = lift(A[n].elem(p)), lift(o(p))
            prove('the observation is not modified', bits_of(a) == bits_of(b)
                  if 'mask' in n else rv(a).e == rv(b).e)
    S.explore(run)


def source(w, nan):
    """a source with its sky position, centroid and peak"""
    px, py = SInt(CTX.fresh('px', I)), SInt(CTX.fresh('py', I))
    sx, sy = z3.Reals('skyx skyy')
    bad = SBool(z3.Bool('nan_position'))

    where = lm.Pt(SReal(sx, If(bad.e, z3.IntVal(NAN), z3.IntVal(FIN))),
                  SReal(sy, If(bad.e, z3.IntVal(NAN), z3.IntVal(FIN))))
    w.wcs.skyToPixel = lambda c: where if c == 'coord' else None
    peak = types.SimpleNamespace(getI=lambda: lm.Pt(px, py), getIx=lambda: px,
                                 getIy=lambda: py)
    cx, cy = SReal(CTX.fresh('cx', R)), SReal(CTX.fresh('cy', R))
    cen = lm.Pt(cx, cy)
    s = types.SimpleNamespace(
        getCoord=lambda: 'coord', getCentroid=lambda: cen, getId=lambda: 7,
        getFootprint=lambda: types.SimpleNamespace(getPeaks=lambda: [peak]))
    return s, bad.e, (sx, sy), (z3.ToReal(px.e), z3.ToReal(py.e)), (cx.e, cy.e), (px, py)


def extract(S):
    S.world(lm.ext())
    f = S.fn('metadetect.lsst.util', 'extract_obs')
    med0 = S.w.np.median

    def run():
        w = World(S)
        s, bad, sky, pk, cen, _ = source(w, True)
        i, j = CTX.index('i'), CTX.index('j')
        some = mk_fold1('any', i, Z, w.ny.e, mk_fold1(
            'any', j, Z, w.nx.e, w.val('variance', (i, j)) > 0))
        u = om.sub(w.D['variance'], (Z,))
        err = om.EXC.get('AllZeroWeightError') or S.w.load(
            'metadetect.lsst.util').AllZeroWeightError
        K = w.K
        n = to_int_e(w.n)
        a, b = CTX.index('i'), CTX.index('j')
        CTX.assume(mk_fold1('any', a, Z, n, mk_fold1('any', b, Z, n, K(
            cen[0], cen[1], a, b) > 0)))
        try:
            r = f(exp=w.e, source=s)
        except err:
            prove('refused only when no variance is positive', Not(some))
            return
        prove('stamps without positive variance are refused', some)
        prove('image', rv(r.image.elem(w.p)).e == w.val('image'))
        prove('mask bits', bits_of(lift(r.bmask.elem(w.p))) == w.val('mask'))
        med = rv(med0(u[u > 0]))
        g = rv(r.weight.elem(w.p))
        prove('weight is the inverse median of the positive variances', And(
            fin(g), g.e*med.e == 1))
        x, y = If(bad, pk[0], sky[0]), If(bad, pk[1], sky[1])
        w.jac('Jacobian', r.jacobian, x, y)
        w.jac('PSF Jacobian', r.psf.jacobian, x, y, psf=True)
        w.kernel(r.psf, *cen)
        c = r.meta['orig_cen']
        prove('centroid is recorded', And(rv(c.x).e == cen[0], rv(c.y).e == cen[1]))
        w.unchanged()
    S.explore(run)


def box(S):
    S.world(lm.ext())
    f = S.fn('metadetect.lsst.util', 'get_bbox')

    def run():
        w = World(S)
        s, *_, (px, py) = source(w, False)
        CTX.assume(And(w.x0.e <= px.e, px.e < w.x0.e + w.nx.e,
                       w.y0.e <= py.e, py.e < w.y0.e + w.ny.e))
        size = nat('size', 1)
        clip = bool(SBool(CTX.fresh('clip', B)))
        h = size.e/2
        full = [px.e - h, py.e - h, px.e + h + 1, py.e + h + 1]
        ends = [w.x0.e, w.y0.e, w.x0.e + w.nx.e, w.y0.e + w.ny.e]
        inside = And(ends[0] <= full[0], ends[1] <= full[1],
                     full[2] <= ends[2], full[3] <= ends[3])
        try:
            r = f(w.mb, s, size, clip=clip)
        except om.EXC['LengthError']:
            prove('refused only when the stamp does not fit', And(
                z3.BoolVal(not clip), Not(inside)))
            return
        got = r.ends()
        if clip:
            lo = [If(a >= b, a, b) for a, b in zip(full[:2], ends[:2])]
            hi = [If(a <= b, a, b) for a, b in zip(full[2:], ends[2:])]
            prove('clipped to the exposure', And(*[a == b for a, b in zip(
                got, lo + hi)]))
        else:
            prove('stamps that do not fit are refused', inside)
            prove('the requested size about the peak', And(*[
                a == b for a, b in zip(got, full)]))
    S.explore(run)


def stamps(S):
    S.world(lm.ext())
    f = S.fn('metadetect.lsst.util', 'get_stamp_mbobs')
    m = S.w.load('metadetect.lsst.util')

    def run():
        w = World(S)
        s = source(w, False)[0]
        x0, y0 = SInt(CTX.fresh('bx', I)), SInt(CTX.fresh('by', I))
        bw, bh = nat('bw', 1), nat('bh', 1)
        CTX.assume(And(w.x0.e <= x0.e, w.y0.e <= y0.e, x0.e + bw.e <= w.x0.e + w.nx.e,
                       y0.e + bh.e <= w.y0.e + w.ny.e))
        size = nat('size', 1)
        clip = bool(SBool(CTX.fresh('clip', B)))
        bb = lm.Box(x0, y0, bw, bh)

        def get_bbox(mb, src, sz, clip=None, _c=clip):
            prove('box of the source', And(z3.BoolVal(
                mb is w.mb and src is s and clip is _c), to_int_e(lift(sz)) == size.e))
            return bb

        class Stamp:
            __sym_heap__ = True

            def __init__(self, exp):
                self.exp = exp

            def __sym_vmap__(self, f):
                return Stamp(rt.vmap(self.exp, f))

        def extract_obs(exp, source):
            prove('data of the source', z3.BoolVal(source is s))
            return Stamp(exp)
        m.get_bbox, m.extract_obs = get_bbox, extract_obs
        r = f(w.mb, s, size, clip=clip)
        prove('one observation list per band', to_int_e(lift(rt.len_(r))) == w.mb.nb.e)
        b = idx('b', w.mb.nb)
        ol = r[SInt(b)]
        prove('one observation per band', to_int_e(lift(rt.len_(ol))) == 1)
        prove('band is recorded', ol.meta['band'].e == b)
        e = ol[0].exp
        q = (idx('y', bh), idx('x', bw))
        prove('stamp of the band in the box', And(
            ix(e.image.array.shape[0]) == bh.e, ix(e.image.array.shape[1]) == bw.e,
            *[(bits_of(lift(getattr(e, n).array.elem(q))) == bits_of(lift(
                w.old[n]((b, q[0] + y0.e - w.y0.e, q[1] + x0.e - w.x0.e)))))
              if n == 'mask' else rv(getattr(e, n).array.elem(q)).e == rv(
                  w.old[n]((b, q[0] + y0.e - w.y0.e, q[1] + x0.e - w.x0.e))).e
              for n in lm.PLANES]))
        xy = e.getXY0()
        prove('corner of the stamp', And(xy.x.e == x0.e, xy.y.e == y0.e))
    S.explore(run)


def sessions():
    return [('exp2obs', to_obs), ('obs2exp', to_exp), ('extract_obs', extract),
            ('get_bbox', box), ('get_stamp_mbobs', stamps)]

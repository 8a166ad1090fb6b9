"""edge and bright-object masks of survey exposures"""
from engine.lib import *
from engine import obsmodel as om, lsstmodel as lm
from engine.values import PINF, FIN, BVS
from .kern import install
from .P04 import taper

META = dict(
    assumptions=['all exposures and OR-masks have one image shape (precondition); '
                 'lsst exposures behave as engine/lsstmodel.py states; the shapes of '
                 'the bright masks are the contracts proved for the kernels (P06)'])


def scene(geo=None):
    nb, ny, nx = nat('nb', 1), nat('ny', 1), nat('nx', 1)
    mb = lm.mk_mbexp('d', nb, ny, nx, geo)
    opt = {}
    opt['noise_mbexp'] = lm.mk_mbexp('n', nb, ny, nx, geo) if SBool(
        CTX.fresh('noise', B)) else None
    opt['mfrac_mbexp'] = lm.mk_mbexp('m', nb, ny, nx, geo) if SBool(
        CTX.fresh('mfrac', B)) else None
    om_ = None
    if SBool(CTX.fresh('orm', B)):
        no = nat('no')
        om_ = inp('or', (no, ny, nx), 'bits')
        opt['ormasks'] = om.MetaSeq(no.e, lambda k: om.sub(om_, (k,)), [om_], 'ormasks')
    fams = [('data', mb.fam)] + [(n, opt[n].fam) for n in ('noise_mbexp', 'mfrac_mbexp')
                                 if opt[n] is not None]
    old = {n: {k: a.snap() for k, a in f.data.items()} for n, f in fams}
    p = (idx('b', nb), idx('y', ny), idx('x', nx))
    oldor = om_.snap() if om_ is not None else None
    return nb, ny, nx, mb, opt, om_, fams, old, oldor, p


def rv(x):
    return to_real(lift(x))


def check(fams, old, om_, oldor, p, t, bit, wide=None):
    """t: taper value at the pixel; bit: its bit; wide: (is set, bits) of a second mask"""
    low = t < 1
    zero = z3.BitVecVal(0, BVS.size())
    add = If(low, bit.e, zero)
    if wide is not None:
        add = add | wide
    for n, f in fams:
        o = {k: old[n][k](p) for k in lm.PLANES}
        im = rv(f.data['image'].elem(p))
        va = rv(f.data['variance'].elem(p))
        ma = bits_of(f.data['mask'].elem(p))
        if n == 'mfrac_mbexp':
            prove('masked fraction is one where the taper is below one, else unchanged',
                  im.e == If(low, z3.RealVal(1), rv(o['image']).e))
            prove('variance of the masked fraction unchanged', And(
                va.e == rv(o['variance']).e, kind(va) == kind(rv(o['variance']))))
            prove('mask of the masked fraction unchanged', ma == bits_of(o['mask']))
            continue
        prove('%s image is multiplied by the taper where it is below one' % n,
              im.e == If(low, rv(o['image']).e*t, rv(o['image']).e))
        prove('%s variance is infinite exactly there, else unchanged' % n, If(
            low, kind(va) == PINF, And(va.e == rv(o['variance']).e,
                                       kind(va) == kind(rv(o['variance'])))))
        prove('%s mask gets the bits exactly where they belong' % n,
              ma == bits_of(o['mask']) | add)
    if om_ is not None:
        k = idx('k', om_.shape[0])
        q = (k,) + p[1:]
        prove('OR-masks get the same bits', bits_of(om_.elem(q)) ==
              bits_of(oldor(q)) | add)


def kind(v):
    return v.k if v.k is not None else z3.IntVal(FIN)


def edge(S):
    M = lm.MaskCls()
    S.world(lm.ext(M))
    install(S)
    f = S.fn('metadetect.lsst.masking', 'apply_apodized_edge_masks_mbexp')

    def run():
        nb, ny, nx, mb, opt, om_, fams, old, oldor, p = scene()
        f(mb, **opt)
        h = SReal(z3.RealVal('3/2'))
        a, b, c, d = taper(p[1:], ny.e, nx.e, h)
        check(fams, old, om_, oldor, p, a*b*c*d, M.bit('APODIZED_EDGE'))
    S.explore(run)


def bright(S):
    M = lm.MaskCls()
    S.world(lm.ext(M))
    install(S)
    f = S.fn('metadetect.lsst.masking', 'apply_apodized_bright_masks_mbexp')
    msk = S.w.load('metadetect.masking')

    def run():
        XP, YP = z3.Function('XPIX', R, R, R), z3.Function('YPIX', R, R, R)
        n = nat('nobj')
        info = {k: inp(k, (n,), 'f') for k in ('ra', 'dec', 'radius_pixels')}
        x0, y0 = SInt(CTX.fresh('x0', I)), SInt(CTX.fresh('y0', I))

        class Wcs:
            def skyToPixelArray(self, ra, dec, degrees=False):
                ok = degrees is True
                r, d = ra.snap(), dec.snap()
                prove('sky positions are passed on in degrees', z3.BoolVal(ok))
                return tuple(SArr.make(ra.shape, lambda i, F=F: SReal(
                    F(rv(r(i)).e, rv(d(i)).e)), 'f') for F in (XP, YP))
        snap = {k: a.snap() for k, a in info.items()}
        nb, ny, nx, mb, opt, om_, fams, old, oldor, p = scene(
            lm.Geo(wcs=Wcs(), xy0=lm.Pt(x0, y0)))
        got = {}

        def same(xm, ym, rm, dims, symmetrize, grow):
            i = idx('i', n)
            r, d = rv(snap['ra']((i,))).e, rv(snap['dec']((i,))).e
            prove('object columns are local pixel columns', rv(xm.elem((i,))).e ==
                  XP(r, d) - z3.ToReal(x0.e))
            prove('object rows are local pixel rows', rv(ym.elem((i,))).e ==
                  YP(r, d) - z3.ToReal(y0.e))
            prove('radii', rv(rm.elem((i,))).e == rv(snap['radius_pixels'](
                (i,))).e + grow)
            prove('every object', And(*[ix(a.shape[0]) == n.e for a in (xm, ym, rm)]))
            prove('mask dimensions', And(ix(dims[0]) == ny.e, ix(dims[1]) == nx.e))
            prove('no symmetrization', z3.BoolVal(symmetrize is False))

        def apod(*, xm, ym, rm, dims, symmetrize, ap_rad):
            same(xm, ym, rm, dims, symmetrize, 0)
            prove('taper scale', rv(ap_rad).e == z3.RealVal('3/2'))
            a = inp('ap', (ny, nx), 'f', lambda v: And(v >= 0, v <= 1))
            got['t'] = a.snap()
            return a

        def bm(*, xm, ym, rm, dims, symmetrize, mask_bit_val):
            same(xm, ym, rm, dims, symmetrize, 16)
            prove('bit of the expanded mask', bits_of(lift(mask_bit_val)) ==
                  M.bit('BRIGHT_EXPANDED').e)
            w = inp('wide', (ny, nx), 'b')
            sw = got['w'] = w.snap()
            return SArr.make((ny, nx), lambda i: SBits(If(
                truth(sw(i)), M.bit('BRIGHT_EXPANDED').e, z3.BitVecVal(0, BVS.size()))), 'bits')
        msk.make_foreground_apodization_mask = apod
        msk.make_foreground_bmask = bm
        f(mb, info, **opt)
        prove('both masks are made', z3.BoolVal(set(got) == {'t', 'w'}))
        wide = If(truth(got['w'](p[1:])), M.bit('BRIGHT_EXPANDED').e,
                  z3.BitVecVal(0, BVS.size()))
        check(fams, old, om_, oldor, p, rv(got['t'](p[1:])).e, M.bit('BRIGHT'), wide)
        for k, a in info.items():
            prove('the object list is not changed', rv(a.elem((p[1]*0 + idx(
                'i', n),))).e == rv(snap[k]((CTX.skolems[-1],))).e)
    S.explore(run)


def sessions():
    return [('apply_apodized_edge_masks_mbexp', edge),
            ('apply_apodized_bright_masks_mbexp', bright)]

"""metacal images of survey exposures"""
import types
from engine.lib import *
from engine import obsmodel as om, lsstmodel as lm
from engine.loader import Auto
from .P28 import Z, rv, fin

META = dict(
    assumptions=['galsim is an external contract: ImageD copies or keeps pixels and WCS, '
                 'InterpolatedImage / Convolve / Deconvolve / shear / dilate build the '
                 'objects named, drawImage draws the object on the given image; the drawn '
                 'values are uninterpreted',
                 'the target PSF of ngmix (_get_gauss_target_psf, _get_ellip_dilation) is '
                 'external; util.get_mbexp keeps the exposures and their order (checked by '
                 'the runtime contract)'],
    bounds=['lists of metacal types: the default and every list of up to three of the five '
            'types (any number of bands and pixels)'])
TYPES = ('noshear', '1p', '1m', '2p', '2m')
SH = {'1p': ('g1', 0.01), '1m': ('g1', -0.01), '2p': ('g2', 0.01), '2m': ('g2', -0.01)}


class Img:
    __sym_heap__ = True

    def __init__(self, array, wcs=None):
        self.array, self.wcs = array.copy(), wcs

    def copy(self):
        return Img(self.array, self.wcs)


class Obj:
    def __init__(self, *t):
        self.t = t

    def shear(self, s):
        return Obj('shear', self, s)

    def dilate(self, f):
        return Obj('dilate', self, f)

    def drawImage(self, image, method=None):
        n = len(Obj.drawn)
        F = z3.Function('DRAW%d' % n, I, I, R)
        image.array[:, :] = SArr.make(image.array.shape, lambda i: SReal(F(*i)), 'f')
        Obj.drawn.append((self, F, method, image.wcs, tuple(image.array.shape)))


Obj.drawn = []


def galsim():
    g = Auto('galsim')
    g.ImageD = lambda a, wcs=None: Img(a, wcs)
    g.InterpolatedImage = lambda im, x_interpolant=None: Obj(
        'interp', im.array.snap(), im.wcs, tuple(im.array.shape))
    g.Convolve = lambda a, b: Obj('convolve', a, b)
    g.Deconvolve = lambda a: Obj('deconvolve', a)
    g.Gaussian = lambda sigma, flux: Obj('gauss', sigma, flux)
    g.Shear = lambda **k: tuple(k.items())[0] if len(k) == 1 else k
    return g


def setup(S):
    x = lm.ext()
    x['lsst.afw.image'].ExposureD = lambda e, deep=False: e.deep() if deep else e
    x['galsim'] = galsim()
    S.world(x)
    return S.w.load('metadetect.lsst.metacal_exposures')


def pick():
    if SBool(CTX.fresh('default', B)):
        return None
    n = 1
    while n < 3 and SBool(CTX.fresh('longer', B)):
        n += 1
    out = []
    for i in range(n):
        rest = [t for t in TYPES if t not in out]
        for t in rest[:-1]:
            if SBool(CTX.fresh('type_' + t, B)):
                break
        else:
            t = rest[-1]
        out.append(t)
    return out


def images(rot, stats):
    def go(S):
        m = setup(S)

        def run():
            Obj.drawn = []
            ny, nx, py, px = nat('ny', 1), nat('nx', 1), nat('py', 1), nat('px', 1)
            P = inp('psf', (py, px), 'f', lambda v: v > 0)
            cen = lm.Pt(SReal(CTX.fresh('cx', R)), SReal(CTX.fresh('cy', R)))

            def kern(c):
                prove('PSF at the integer centre', z3.BoolVal(c is cen))
                return types.SimpleNamespace(array=P)
            mb = lm.mk_mbexp('d', nat('nb', 1), ny, nx, lm.Geo(
                wcs='wcs', xy0=lm.Pt(SInt(Z), SInt(Z)), filt='filt',
                psf=types.SimpleNamespace(computeKernelImage=kern)))
            D = mb.fam.data
            old = {n: a.snap() for n, a in D.items()}
            p0 = P.snap()
            e = lm.Exp(mb.fam, (idx('b', mb.nb),))
            b = e.pre

            def center(wcs, bbox, as_double=False):
                prove('centre of the exposure', z3.BoolVal(
                    wcs == 'wcs' and isinstance(bbox, lm.Box) and as_double is True))
                return cen, None

            def jac(exp, cen, _c=cen):
                prove('WCS at the centre', z3.BoolVal(exp is e and cen is _c))
                return types.SimpleNamespace(get_galsim_wcs=lambda: 'jac')
            m.get_integer_center, m.get_jacobian = center, jac
            m.get_stack_kernel_psf = lambda a: ('psf', a)
            i, j = CTX.index('i'), CTX.index('j')
            flux = mk_fold1('sum', i, Z, py.e, mk_fold1('sum', j, Z, px.e, rv(
                p0((i, j))).e))

            def target(o, flux=None):
                return Obj('target', o, flux)
            ED = z3.Function('ED', R, R, R, R)

            def ell(e1, e2, T):
                return SReal(ED(rv(e1).e, rv(e2).e, rv(T).e))
            m._get_gauss_target_psf, m._get_ellip_dilation = target, ell
            st = None
            if stats:
                st = {n: real(n) for n in ('e1', 'e2', 'T')}
                CTX.assume(And(st['T'].e > 0, ED(*[st[n].e for n in (
                    'e1', 'e2', 'T')]) > 0))
            ts = pick()
            want = ['noshear', '1p', '1m'] if ts is None else list(ts)
            r = m.get_metacal_exps(e, psf_stats=st, types=ts, rot=rot)
            prove('every requested type once, in order', z3.BoolVal(list(r) == want))
            q = (idx('y', ny), idx('x', nx))
            u = (idx('py', py), idx('px', px))

            def is_psf(o):
                k, s, w, sh = o.t
                prove('PSF image of the exposure', And(
                    z3.BoolVal(k == 'interp' and w == 'jac'),
                    ix(sh[0]) == py.e, ix(sh[1]) == px.e,
                    rv(s(u)).e == rv(p0(u)).e))

            def is_dilated(o):
                k, t, f = o.t
                prove('target PSF dilated by twice the step', And(
                    z3.BoolVal(k == 'dilate'), rv(f).e == z3.RealVal('1.02')))
                if stats:
                    n, s, fl = t.t
                    T = st['T'].e*ED(*[st[v].e for v in ('e1', 'e2', 'T')])
                    s = rv(s).e
                    prove('round target PSF of the given size', And(
                        z3.BoolVal(n == 'gauss'), s > 0, s*s*2 == T))
                else:
                    n, o, fl = t.t
                    prove('target PSF of the exposure', z3.BoolVal(n == 'target'))
                    is_psf(o)
                prove('flux of the PSF is kept', rv(fl).e == flux)

            def of(arr, at):
                """the object drawn on the image of an array"""
                v = z3.simplify(rv(arr(at)).e)
                for d in Obj.drawn:
                    if v.decl().eq(d[1]):
                        return d, v.children()
                prove('the image is a drawn image', z3.BoolVal(False))
                return None
            for t in want:
                x = r[t]
                prove('exposure of the type', z3.BoolVal(isinstance(x, lm.Exp)))
                prove('shape', And(*[ix(x.image.array.shape[k]) == n.e
                                     for k, n in enumerate((ny, nx))]))
                d = of(x.image.array.elem, q)
                if d is None:
                    continue
                (o, F, method, wcs, sh), at = d
                ry, rx = (nx.e - 1 - q[1], q[0]) if rot else q
                prove('drawn image, rotated back', And(at[0] == ry, at[1] == rx))
                s = [nx, ny] if rot else [ny, nx]
                prove('drawn with the WCS and shape of the data', And(
                    z3.BoolVal(method == 'no_pixel' and wcs == 'jac'),
                    *[ix(v) == w.e for v, w in zip(sh, s)]))
                k, g, psf = o.t
                prove('convolved with the target PSF', z3.BoolVal(k == 'convolve'))
                is_dilated(psf)
                if t != 'noshear':
                    k, g, by = g.t
                    prove('sheared by the step of the type', z3.BoolVal(
                        k == 'shear' and by[0] == SH[t][0] and
                        abs(by[1] - SH[t][1]) < 1e-12))
                k, im, dec = g.t
                prove('deconvolved data', z3.BoolVal(
                    k == 'convolve' and im.t[0] == 'interp' and
                    dec.t[0] == 'deconvolve' and im.t[2] == 'jac'))
                is_psf(dec.t[1])
                sh = im.t[3]
                prove('image of the exposure' + (', rotated' if rot else ''), And(
                    *[ix(v) == w.e for v, w in zip(sh, s)],
                    rv(im.t[1]((ry, rx))).e == rv(old['image'](b + q)).e))
                for n in ('variance', 'mask'):
                    a, c = lift(getattr(x, n).array.elem(q)), lift(old[n](b + q))
                    prove('variance and mask are carried over', bits_of(a) == bits_of(c)
                          if n == 'mask' else rv(a).e == rv(c).e)
                prove('WCS and filter are kept', z3.BoolVal(
                    x.getWcs() == 'wcs' and x.getFilter() == 'filt'))
                ps = x.getPsf()
                prove('PSF is set', z3.BoolVal(ps[0] == 'psf'))
                d = of(ps[1].elem, u)
                if d is not None:
                    (o, F, method, wcs, sh), at = d
                    prove('PSF image is the dilated target PSF', And(
                        z3.BoolVal(method == 'no_pixel' and wcs == 'jac'),
                        at[0] == u[0], at[1] == u[1], ix(sh[0]) == py.e,
                        ix(sh[1]) == px.e))
                    is_dilated(o)
                for w in want:
                    if w != t:
                        prove('types do not share pixels', z3.BoolVal(
                            x.image.array.buf is not r[w].image.array.buf and
                            x.variance.array.buf is not r[w].variance.array.buf))
            for n, o in old.items():
                a, c = lift(D[n].elem(b + q)), lift(o(b + q))
                prove('inputs are not modified', bits_of(a) == bits_of(c)
                      if n == 'mask' else rv(a).e == rv(c).e)
            prove('PSF is not modified', rv(P.elem(u)).e == rv(p0(u)).e)
        S.explore(run)
    return go


def bands(S):
    m = setup(S)

    def run():
        nb = nat('nb', 1)
        mb = lm.mk_mbexp('d', nb, nat('ny', 1), nat('nx', 1))
        rot = bool(SBool(CTX.fresh('rot', B)))
        given = bool(SBool(CTX.fresh('stats', B)))
        n = nat('n', 1)
        sv = inp('stats', (n,), 'f')
        stats = sv if given else None
        ts = pick()
        want = ['noshear', '1p', '1m'] if ts is None else list(ts)

        class Out:
            __sym_heap__ = True

            def __init__(self, t, b, s):
                self.t, self.b, self.s = t, b, s

            def __sym_vmap__(self, f):
                return Out(self.t, f(self.b), self.s if self.s is None else rt.vmap(
                    self.s, f))

        def exps(exp, psf_stats=None, types=None, rot=False, _r=rot):
            prove('requested types and rotation', z3.BoolVal(
                (types == want or (types is None and ts is None)) and rot is _r))
            return {t: Out(t, exp.pre[0], psf_stats) for t in want}
        m.get_metacal_exps = exps
        m.get_mbexp = lambda es: ('mb', es)
        try:
            r = m.get_metacal_mbexps(mb, types=ts, rot=rot, psf_stats=stats)
        except AssertionError:
            prove('refused only for another number of statistics', And(
                z3.BoolVal(given), n.e != nb.e))
            return
        if given:
            prove('PSF statistics of every band', n.e == nb.e)
        prove('every requested type once, in order', z3.BoolVal(list(r) == want))
        b = idx('b', nb)
        for t in want:
            k, es = r[t]
            prove('one exposure per band', to_int_e(lift(rt.len_(es))) == nb.e)
            o = es[SInt(b)]
            prove('the band of the type', And(z3.BoolVal(o.t == t), o.b == b))
            if given:
                prove('PSF statistics of the band', rv(o.s).e == rv(sv.elem((b,))).e)
            else:
                prove('no PSF statistics', z3.BoolVal(o.s is None))
    S.explore(run)


def fixnoise(multi):
    def go(S):
        m = setup(S)

        def run():
            ny, nx, nb = nat('ny', 1), nat('nx', 1), nat('nb', 1)
            mk = (lambda n: lm.mk_mbexp(n, nb, ny, nx)) if multi else (
                lambda n: lm.Exp(lm.mk_mbexp(n, nb, ny, nx).fam, (Z,)))
            data, noise = mk('d'), mk('n')
            ts = pick()
            want = ['noshear', '1p', '1m'] if ts is None else list(ts)
            stats = object()
            out = {}
            calls = []

            def gen(e, types=None, rot=False, psf_stats=None):
                prove('the same types and PSF statistics', z3.BoolVal(
                    psf_stats is stats and (types == want or (
                        types is None and ts is None))))
                calls.append((e is noise, bool(rot)))
                r = {t: mk('%s_%s' % ('n' if e is noise else 'd', t)) for t in want}
                out[e is noise] = (r, {t: {n: a.snap() for n, a in r[
                    t].fam.data.items()} for t in want})
                return r

            def g2(mbexp, types=None, rot=False, psf_stats=None):
                return gen(mbexp, types, rot, psf_stats)

            def g1(exp, psf_stats=None, types=None, rot=False):
                return gen(exp, types, rot, psf_stats)
            m.get_metacal_mbexps, m.get_metacal_exps = g2, g1
            f = m.get_metacal_mbexps_fixnoise if multi else m.get_metacal_exps_fixnoise
            r, nr = f(data, noise, types=ts, psf_stats=stats)
            prove('data as is, noise rotated', z3.BoolVal(
                sorted(calls) == [(False, False), (True, True)]))
            prove('every requested type, in order', z3.BoolVal(
                list(r) == want and list(nr) == want))
            t = ((idx('b', nb),) if multi else (Z,)) + (idx('y', ny), idx('x', nx))
            for k in want:
                o, n0 = out[False][1][k], out[True][1][k]
                D = r[k].fam.data
                N = nr[k].fam.data
                prove('data plus noise of the type', rv(D['image'].elem(t)).e == rv(
                    o['image'](t)).e + rv(n0['image'](t)).e)
                prove('variance is doubled', rv(D['variance'].elem(t)).e == 2*rv(
                    o['variance'](t)).e)
                prove('mask is kept', bits_of(lift(D['mask'].elem(t))) == bits_of(lift(
                    o['mask'](t))))
                for n in lm.PLANES:
                    a, c = lift(N[n].elem(t)), lift(n0[n](t))
                    prove('noise images are kept', bits_of(a) == bits_of(c)
                          if n == 'mask' else rv(a).e == rv(c).e)
        S.explore(run)
    return go


def unknown(S):
    m = setup(S)

    def run():
        for bad in ('3p', 'noshear ', '', 'p1', '1P', '1p_psf'):
            try:
                m.get_shear_from_type(bad)
            except ValueError:
                continue
            prove('unknown types are refused', z3.BoolVal(False))
        prove('unknown types are refused', z3.BoolVal(True))
    S.explore(run)


def sessions():
    out = [('one band%s%s' % (', rotated' if r else '', ', PSF statistics' if s else ''),
            images(r, s)) for r in (False, True) for s in (False, True)]
    return out + [('bands', bands), ('fixed noise', fixnoise(True)),
                  ('fixed noise, one band', fixnoise(False)), ('types', unknown)]

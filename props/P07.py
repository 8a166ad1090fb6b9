"""interpolation over masked pixels"""
from engine.lib import *
from engine import obsmodel as om
from engine.arr import SSel, WhereTok, SelStack, count, asarray
from engine.loader import Auto

META = dict(
    assumptions=['_get_nearby_good_pixels by its contract, which is checked by a bounded '
                 'enumeration only (see bounded)',
                 'scipy CloughTocher2DInterpolator is a function of its data points, '
                 'which must not be degenerate; RandomState.normal draws independent '
                 'values of the given scale'],
    bounded=['_get_nearby_good_pixels: every mask of shapes 1x1..1x7, 7x1, 2x2..2x5, '
             '3x3, 3x4, 4x3 with buff 0-3 and iso_buff 0-3 (bounded, not proved)'])


def fold2(ny, nx, p, buff, body):
    """any over the in-bounds pixels within buff of p"""
    j, l = CTX.index('j'), CTX.index('l')
    y, x = p

    def near(a, b):
        return And(a - b <= buff, b - a <= buff)
    return mk_fold1('any', j, z3.IntVal(0), ny, mk_fold1(
        'any', l, z3.IntVal(0), nx, And(near(j, y), near(l, x), body(j, l))))


class Env:
    pass


def session(fill, given=True):
    def fn(S):
        sp = Auto('scipy.interpolate')
        ext = om.ngmix_ext()
        ext['scipy'] = Auto('scipy')
        ext['scipy.interpolate'] = sp
        S.world(ext)
        f = S.fn('metadetect.interpolate', 'interpolate_image_at_mask')
        m = S.w.load('metadetect.interpolate')
        V = Env()
        CTV = z3.Function('CTV', I, I, I, R)
        NOISE = z3.Function('NOISE', I, I, R)

        def nearby(bad_msk, nbad, buff, iso_buff):
            V.calls += 1
            ny, nx = [ix(d) for d in bad_msk.shape]
            b = bad_msk.snap()
            prove('neighbour search: the number of bad pixels is exact',
                  to_int_e(lift(nbad)) == to_int_e(count(bad_msk.shape, b)))
            prove('neighbour search: buffers are passed on', And(
                to_int_e(lift(buff)) == V.buff.e, to_int_e(lift(iso_buff)) == V.iso.e))
            mask = SArr.make(bad_msk.shape, lambda v: mkb(truth(b(v))), 'b')
            bu, io = to_int_e(lift(buff)), to_int_e(lift(iso_buff))

            def good(v):
                return mkb(And(Not(truth(b(v))), fold2(
                    ny, nx, v, bu, lambda j, l: truth(b((j, l))))))

            def iso(v):
                return SInt(If(fold2(ny, nx, v, io, lambda j, l: Not(truth(b((j, l))))),
                               z3.IntVal(0), z3.IntVal(1)))

            def ind(v):
                return SRaster(v, nx)
            gm = SArr.make(bad_msk.shape, good, 'b')
            V.good = gm
            return Raster(mask, nx), SSel(mask, iso, 'i'), Raster(gm, nx)

        def unique(x):
            if not isinstance(x, Raster):
                raise Unsupported('unique')
            return x

        def unravel(x, shape):
            if not isinstance(x, Raster):
                raise Unsupported('unravel_index')
            ny, nx = shape
            prove('indices are unravelled in the image shape', And(
                to_int_e(lift(ny)) == ix(V.mask.shape[0]),
                to_int_e(lift(nx)) == ix(V.mask.shape[1])))
            return tuple(WhereTok(x.mask, i) for i in (0, 1))

        class CT:
            def __init__(self, points, values, fill_value=None, **kw):
                if not isinstance(points, SelStack) or not isinstance(values, SSel):
                    raise Unsupported('interpolator points')
                self.n = V.ct
                V.ct += 1
                a, b = points.items

                def same(q):
                    g = truth(V.good.elem(q))
                    return And(*[(truth(s.mask.elem(q)) == g)
                                 for s in (a, b, values)])
                prove_at('interpolation uses exactly the good pixels near bad ones',
                         V.mask.shape, same)
                v = tuple(CTX.index('v') for _ in 'yx')
                self.swap = not (ix(a.fn(v)).eq(v[0]) and ix(b.fn(v)).eq(v[1]))
                c = (a, b)[::-1] if self.swap else (a, b)
                V.at.append(values)
                prove_at('good pixels are at their own positions', V.mask.shape,
                         lambda q: And(ix(c[0].fn(q)) == q[0], ix(c[1].fn(q)) == q[1]))
                prove_at('good pixels carry their image or noise values', V.mask.shape,
                         lambda q: Implies(truth(V.good.elem(q)), to_real(
                             values.fn(q)).e == V.filled(q)))

            def __call__(self, pix):
                if not isinstance(pix, SelStack):
                    raise Unsupported('interpolated points')
                c = pix.items[::-1] if self.swap else pix.items
                n = self.n
                return SSel(c[0].mask, lambda v: SReal(CTV(
                    z3.IntVal(n), ix(c[0].fn(v)), ix(c[1].fn(v)))), 'f')
        sp.CloughTocher2DInterpolator = CT
        m.CloughTocher2DInterpolator = CT
        m._get_nearby_good_pixels = nearby
        S.w.np.unique = unique
        S.w.np.unravel_index = unravel

        class Rng:
            def normal(self, loc=0.0, scale=1.0, size=None):
                V.rng += 1
                prove('as many noise values as isolated pixels',
                      to_int_e(lift(size[0])) == to_int_e(count(
                          V.mask.shape, lambda v: mkb(V.isobad(v)))))
                s = to_real(lift(scale)).e
                prove('noise has the standard deviation of the weight',
                      And(s > 0, s*s*V.wt.e == 1))
                prove('noise has no mean', to_real(lift(loc)).e == 0)
                return SSel(SArr.make(V.mask.shape, lambda v: mkb(V.isobad(v)), 'b'),
                            lambda v: SReal(s*NOISE(*v)), 'f')

        def run():
            ny, nx = nat('ny', 1), nat('nx', 1)
            im = inp('image', (ny, nx), 'f')
            bm = inp('bad', (ny, nx), 'b')
            oi, ob = im.snap(), bm.snap()
            V.mask = SArr.make((ny, nx), lambda v: mkb(truth(ob(v))), 'b')
            V.buff, V.iso = nat('buff'), nat('iso')
            V.wt = real('wt', lambda v: v > 0)
            V.ct = V.calls = V.rng = 0
            V.at = []
            mf = real('maxfrac')

            def isobad(v):
                return And(truth(ob(v)), Not(fold2(ny.e, nx.e, v, V.iso.e, lambda j, l:
                                                   Not(truth(ob((j, l)))))))
            V.isobad = isobad

            def filled(v):
                o = to_real(oi(v)).e
                if not fill:
                    return o
                s = CTX.fresh('s', R)
                return If(isobad(v), V.sd*NOISE(*v), o)
            V.sd = to_real(S.w.np.divide(1.0, S.w.np.sqrt(V.wt)) if False else
                           1.0/S.w.np.sqrt(V.wt)).e
            V.filled = filled
            kw = dict(rng=Rng(), weight=V.wt)
            if not given == 'both':
                if given == 'no rng':
                    kw['rng'] = None
                if given == 'no weight':
                    kw['weight'] = None
            p = (idx('y', ny), idx('x', nx))
            try:
                r = f(image=im, bad_msk=bm, maxfrac=mf, buff=V.buff,
                      fill_isolated_with_noise=fill, iso_buff=V.iso, **kw)
            except RuntimeError:
                prove('refused only without generator or weight',
                      z3.BoolVal(given in ('no rng', 'no weight')))
                return
            n = to_int_e(count((ny, nx), ob))
            area = ny.e*nx.e
            none = Or(z3.ToReal(n) > mf.e*z3.ToReal(area), n >= area)
            prove('nothing is returned exactly above the allowed fraction',
                  none == z3.BoolVal(r is None))
            prove('input image unchanged', to_real(im.elem(p)).e == to_real(oi(p)).e)
            prove('input mask unchanged', truth(bm.elem(p)) == truth(ob(p)))
            if r is None:
                return
            prove('the result is a new image', z3.BoolVal(r.buf is not im.buf))
            prove('the result has the image shape', And(*[
                ix(a) == ix(b) for a, b in zip(r.shape, im.shape)]))
            v = to_real(r.elem(p)).e
            bad = truth(ob(p))
            ib = isobad(p) if fill else z3.BoolVal(False)
            prove('unmasked pixels keep their value', Implies(Not(bad),
                                                              v == to_real(oi(p)).e))
            if fill:
                prove('isolated pixels are noise', Implies(ib, v == V.sd*NOISE(*p)))
            prove('other masked pixels are interpolated', Implies(
                And(bad, Not(ib)), v == CTV(z3.IntVal(max(V.ct - 1, 0)), *p)))
            prove('pixels to interpolate have an interpolation', Implies(
                And(bad, Not(ib)), z3.BoolVal(V.ct > 0)))
        S.explore(run)
    return fn


class Raster:
    """row*ncol + col of the pixels of a mask, as a list (repeats do not matter)"""

    def __init__(self, mask, nx):
        self.mask = mask
        self.nx = nx

    @property
    def size(self):
        return count(self.mask.shape, self.mask.snap())

    @property
    def shape(self):
        return (self.size,)

    def __sym_len__(self):
        return self.size


def sessions():
    n = 'interpolate_image_at_mask'
    return [(n, session(False, 'both')), (n + ' with noise', session(True, 'both')),
            (n + ' without generator', session(True, 'no rng')),
            (n + ' without weight', session(True, 'no weight'))]

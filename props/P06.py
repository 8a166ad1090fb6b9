"""foreground corrections of observations"""
from engine.lib import *
from engine import obsmodel as om
from .kern import install
from .P02 import holes, covered
from .P03 import profile
from .P05 import scene, same_presence, val, usable

META = dict(
    assumptions=['all epochs and bands have one image shape, noise and bit mask; weights '
                 'are not negative; hole radii are not negative; scales are positive; '
                 'mask bits are not zero (preconditions)',
                 'ngmix observations behave as engine/obsmodel.py states',
                 'make_foreground_bmask, make_foreground_apodization_mask and '
                 'interpolate_image_at_mask by their contracts P02, P03 and P07'])


def interp_contract(S, log):
    """P07: None or a new image equal to the old one at unmasked pixels"""
    m = S.w.load('metadetect.masking')
    I2 = {}

    def contract(*, image, bad_msk, maxfrac=0.90, buff=4,
                 fill_isolated_with_noise=False, weight=None, rng=None, iso_buff=1):
        log(dict(image=image, bad=bad_msk, maxfrac=maxfrac, fill=fill_isolated_with_noise,
                 weight=weight, rng=rng, iso=iso_buff))
        fam, n, pre = getattr(image, 'origin', (None, 'other', ()))
        if n not in I2:
            I2[n] = (z3.Function('NONE_' + n, I, I, B),
                     z3.Function('INT_' + n, I, I, I, I, R))
        N, V = I2[n]
        pre = tuple(pre) if len(pre) == 2 else (z3.IntVal(-1), z3.IntVal(-1))
        if CTX.decide(N(*pre)):
            return None
        s, t = image.snap(), bad_msk.snap()

        def fn(i):
            return SReal(If(truth(t(i)), V(*(pre + tuple(i))), to_real(s(i)).e))
        return SArr.make(image.shape, fn, 'f', 'interp')
    m.interpolate_image_at_mask = contract
    for n in ('image', 'noise'):
        I2[n] = (z3.Function('NONE_' + n, I, I, B),
                 z3.Function('INT_' + n, I, I, I, I, R))
    return I2


def call(f, mb, rows, cols, rad, **kw):
    a = dict(mbobs=mb, xm=cols, ym=rows, rm=rad, mask_expand_rad=0, symmetrize=False,
             expand_mask_bit_val=0, mask_bit_val=1, interp_bit_val=2, ap_rad=1.0,
             iso_buff=1, rng=None)
    a.update(kw)
    return f(**a)


class Masks:
    """
    P02 and P03 as contracts: the caller's arguments are checked, the results are the
    coverage predicate COV / EXPCOV and the apodization values APM in [0,1].
    """

    def __init__(self, S):
        m = S.w.load('metadetect.masking')
        self.COV = z3.Function('COV', I, I, B)
        self.EXP = z3.Function('EXPCOV', I, I, B)
        self.APM = z3.Function('APM', I, I, R)
        CTX.axiom_hooks['APM'] = lambda ch: [And(self.APM(*ch) >= 0, self.APM(*ch) <= 1)]
        m.make_foreground_bmask = self.bmask
        m.make_foreground_apodization_mask = self.apmask

    def common(self, xm, ym, rm, dims, symmetrize, extra=None):
        rows, cols, rad, n = self.h
        i = idx('hole', n)
        prove('hole columns are passed on', to_real(xm.elem((i,))).e ==
              to_real(cols.elem((i,))).e)
        prove('hole rows are passed on', to_real(ym.elem((i,))).e ==
              to_real(rows.elem((i,))).e)
        r = to_real(rad.elem((i,))).e
        if extra is not None:
            r = r + extra
        prove('hole radii are passed on', to_real(rm.elem((i,))).e == r)
        prove('mask has the image shape', And(
            to_int_e(dims[0]) == self.ny.e, to_int_e(dims[1]) == self.nx.e))
        prove('symmetrization is passed on', z3.BoolVal(symmetrize is self.sym))

    def bmask(self, *, xm, ym, rm, dims, symmetrize, mask_bit_val):
        ex = self.expanding
        self.common(xm, ym, rm, dims, symmetrize, self.er.e if ex else None)
        C = self.EXP if ex else self.COV
        fl = bits_of(mask_bit_val)
        return SArr.make((self.ny, self.nx), lambda i: SBits(
            If(C(*i), fl, bvval(0))), 'i', 'fgmask')

    def apmask(self, *, xm, ym, rm, dims, symmetrize, ap_rad):
        self.common(xm, ym, rm, dims, symmetrize)
        prove('apodization scale is passed on', to_real(ap_rad).e == self.ap.e)
        return SArr.make((self.ny, self.nx), lambda i: SReal(self.APM(*i)), 'f', 'apm')


def interp(fill, sym):
    def fn(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.masking', 'apply_foreground_masking_corrections')
        cur = {}

        def log(d):
            prove('interpolation is asked to fill any masked fraction',
                  z3.BoolVal(d['maxfrac'] == 1.0))
            prove('noise filling follows the method', z3.BoolVal(d['fill'] is fill))
            prove('isolation buffer is passed on', to_int_e(d['iso']) == cur['iso'].e)
            prove('random numbers come from the caller', z3.BoolVal(
                d['rng'] is cur['rng']))
            prove_at('interpolated pixels are the hole pixels', (cur['ny'], cur['nx']),
                     lambda q: truth(d['bad'].elem(q)) == M.COV(*q))
        I2 = interp_contract(S, log)
        M = Masks(S)

        def run():
            fam, mb, p, old, hs, ny, nx = scene(square=sym)
            n = nat('n')
            rows, cols, rad = holes(n)
            fl, ib = flag(), flag()
            CTX.assume(fl.e != 0)
            rng, iso = Tok(), nat('iso', 1)
            cur.update(iso=iso, rng=rng, ny=ny, nx=nx)
            M.__dict__.update(h=(rows, cols, rad, n), ny=ny, nx=nx, sym=sym,
                              expanding=False)
            call(f, mb, rows, cols, rad, method='interp-noise' if fill else 'interp',
                 symmetrize=sym, mask_bit_val=fl, interp_bit_val=ib, iso_buff=iso,
                 rng=rng)
            c = M.COV(*p[2:])
            j, l = CTX.index('j'), CTX.index('l')
            body = M.COV(j, l)

            def anyp(b):
                return mk_fold1('any', j, z3.IntVal(0), ny.e,
                                mk_fold1('any', l, z3.IntVal(0), nx.e, b))
            some, full = anyp(body), Not(anyp(Not(body)))
            be = p[:2]
            fail = And(some, Or(full, I2['image'][0](*be), I2['noise'][0](*be)))
            o = {k: v(p) for k, v in old.items()}
            for k in ('image', 'noise'):
                x = to_real(o[k]).e
                prove('%s is replaced only at masked pixels, by its interpolation' % k,
                      val(fam, k, p) == If(And(c, Not(fail)), I2[k][1](*p), x))
            ob = bits_of(o['bmask'])
            prove('hole bits and interpolation bits', bits_of(
                fam.data['bmask'].elem(p)) == If(
                    fail, ob | fl.e, If(c, ob | fl.e | ib.e, ob)))
            prove('zero weight exactly in holes, everywhere when impossible',
                  val(fam, 'weight', p) == If(Or(c, fail), z3.RealVal(0),
                                              to_real(o['weight']).e))
            prove('full masked fraction there, when present',
                  val(fam, 'mfrac', p) == If(
                      And(Or(c, fail), truth(hs['mfrac'](be))), z3.RealVal(1),
                      to_real(o['mfrac']).e))
            prove('ormask unchanged', bits_of(fam.data['ormask'].elem(p)) ==
                  bits_of(o['ormask']))
            same_presence(fam, hs, p)
        S.explore(run)
    return fn


class Tok:
    """an opaque object"""


def apod(sym):
    def fn(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.masking', 'apply_foreground_masking_corrections')
        M = Masks(S)

        def run():
            fam, mb, p, old, hs, ny, nx = scene(square=sym)
            n = nat('n')
            rows, cols, rad = holes(n)
            fl = flag()
            h = real('h', lambda v: v > 0)
            M.__dict__.update(h=(rows, cols, rad, n), ny=ny, nx=nx, sym=sym,
                              expanding=False, ap=h)
            call(f, mb, rows, cols, rad, method='apodize', symmetrize=sym,
                 mask_bit_val=fl, ap_rad=h)
            t = M.APM(*p[2:])
            c = t < 1
            o = {k: v(p) for k, v in old.items()}
            for k in ('image', 'noise'):
                prove('%s is multiplied by the hole profile' % k,
                      val(fam, k, p) == to_real(o[k]).e*t)
            ob = bits_of(o['bmask'])
            prove('hole bits where the profile is below one', bits_of(
                fam.data['bmask'].elem(p)) == If(c, ob | fl.e, ob))
            prove('zero weight exactly there', val(fam, 'weight', p) == If(
                c, z3.RealVal(0), to_real(o['weight']).e))
            prove('full masked fraction there, when present',
                  val(fam, 'mfrac', p) == If(And(c, truth(hs['mfrac'](p[:2]))),
                                             z3.RealVal(1), to_real(o['mfrac']).e))
            prove('ormask unchanged', bits_of(fam.data['ormask'].elem(p)) ==
                  bits_of(o['ormask']))
            same_presence(fam, hs, p)
        S.explore(run)
    return fn


def lemma(S):
    """the profile is below one exactly at covered pixels"""
    S.world(om.ngmix_ext())
    install(S)
    S.fn('metadetect.masking', 'make_foreground_apodization_mask')

    def run():
        n, ny, nx = nat('n'), nat('ny', 1), nat('nx', 1)
        rows, cols, rad = holes(n)
        h = real('h', lambda v: v > 0)
        p = (idx('y', ny), idx('x', nx))
        prove('profile is below one exactly inside a hole',
              (profile(rows, cols, rad, n, h.e, p) < 1) ==
              covered(rows, cols, rad, n, p))
    S.explore(run)


def expand(sym):
    def fn(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.masking', 'apply_foreground_masking_corrections')
        m = S.w.load('metadetect.masking')

        def nothing(**kw):
            return None
        m._apply_mask_apodize = nothing
        M = Masks(S)

        def run():
            fam, mb, p, old, hs, ny, nx = scene(square=sym)
            n = nat('n')
            rows, cols, rad = holes(n)
            eb = flag()
            er = real('er', lambda v: v >= 0)
            M.__dict__.update(h=(rows, cols, rad, n), ny=ny, nx=nx, sym=sym,
                              expanding=True, er=er)
            call(f, mb, rows, cols, rad, method='apodize', symmetrize=sym,
                 expand_mask_bit_val=eb, mask_expand_rad=er)
            c = And(er.e > 0, M.EXP(*p[2:]))
            ob = bits_of(old['bmask'](p))
            prove('expansion bits exactly in the expanded holes', bits_of(
                fam.data['bmask'].elem(p)) == If(c, ob | eb.e, ob))
            for k in ('image', 'noise', 'weight', 'mfrac'):
                prove('%s unchanged by the expansion' % k,
                      val(fam, k, p) == to_real(old[k](p)).e)
            same_presence(fam, hs, p)
        S.explore(run)
    return fn


def zero_weight(method):
    def fn(S):
        S.world(om.ngmix_ext())
        install(S)
        f = S.fn('metadetect.masking', 'apply_foreground_masking_corrections')
        interp_contract(S, lambda d: None)
        M = Masks(S)

        def run():
            fam, mb, p, old, hs, ny, nx = scene(mfrac=False)
            n = nat('n')
            rows, cols, rad = holes(n)
            q = p[:2]
            CTX.assume(Implies(truth(fam.izw.elem(q)), usable(fam.data['weight'], q)))
            fl = flag()
            CTX.assume(fl.e != 0)
            h = real('h', lambda v: v > 0)
            M.__dict__.update(h=(rows, cols, rad, n), ny=ny, nx=nx, sym=False,
                              expanding=False, ap=h)
            call(f, mb, rows, cols, rad, method=method, mask_bit_val=fl,
                 ap_rad=h, iso_buff=nat('iso', 1))
            prove('an observation without usable pixels accepts zero weight',
                  Implies(truth(fam.izw.elem(q)), usable(fam.data['weight'], q)))
        S.explore(run)
    return fn


def unknown(S):
    S.world(om.ngmix_ext())
    f = S.fn('metadetect.masking', 'apply_foreground_masking_corrections')

    def run():
        fam, mb, p, old, hs, ny, nx = scene()
        rows, cols, rad = holes(nat('n'))
        try:
            call(f, mb, rows, cols, rad, method='other')
        except RuntimeError:
            prove('an unknown method is refused', z3.BoolVal(True))
        else:
            prove('an unknown method is refused', z3.BoolVal(False))
        for k in ('image', 'noise', 'weight', 'mfrac'):
            prove('%s unchanged when refused' % k,
                  val(fam, k, p) == to_real(old[k](p)).e)
    S.explore(run)


def sessions():
    n = 'apply_foreground_masking_corrections '
    return [(n + 'interp', interp(False, False)),
            (n + 'interp symmetrized', interp(False, True)),
            (n + 'interp-noise', interp(True, False)),
            (n + 'apodize', apod(False)), (n + 'apodize symmetrized', apod(True)),
            ('lemma: profile and coverage', lemma),
            (n + 'expansion', expand(False)),
            (n + 'expansion symmetrized', expand(True)),
            (n + 'zero weight apodize', zero_weight('apodize')),
            (n + 'zero weight interp', zero_weight('interp')),
            (n + 'unknown method', unknown)]

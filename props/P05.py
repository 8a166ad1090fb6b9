"""edge apodization of observations"""
from engine.lib import *
from engine import obsmodel as om
from .kern import install
from .P04 import taper

META = dict(
    assumptions=['all epochs and bands have one image shape, noise and bit mask '
                 '(precondition); weights are not negative; the taper scale is positive',
                 'ngmix observations behave as engine/obsmodel.py states'])


def scene(mbname='o', square=False, **has):
    nb = nat('nb', 1)
    NE = z3.Function(CTX.fresh_name('NE'), I, I)
    CTX.input_facts[NE.name()] = lambda ch: [NE(*ch) >= 1]
    ny = nat('ny', 1)
    nx = ny if square else nat('nx', 1)
    EM = nat('emax', 1)
    has = dict(dict(noise=True, bmask=True), **has)
    psf = om.mk_family(mbname + 'psf', nb, EM, nat('py', 1), nat('px', 1),
                       has=dict(noise=False, bmask=False, mfrac=False, ormask=False))
    fam = om.mk_family(mbname, nb, EM, ny, nx, psf=psf, has=has)
    b = idx('b', nb)
    e = idx('e', EM)
    CTX.assume(e < NE(b))
    mb = om.mbobs_of(fam, nb.e, lambda k: NE(k))
    p = (b, e, idx('y', ny), idx('x', nx))
    old = {n: a.snap() for n, a in fam.data.items()}
    hs = {n: (h.snap() if isinstance(h, SArr) else h) for n, h in fam.has.items()}
    return fam, mb, p, old, hs, ny, nx


def same_presence(fam, hs, p):
    for n, h in fam.has.items():
        if isinstance(h, SArr):
            prove('presence of %s unchanged' % n,
                  truth(h.elem(p[:2])) == truth(hs[n](p[:2])))
        else:
            prove('presence of %s unchanged' % n, z3.BoolVal(h == hs[n]))


def val(fam, n, p):
    return to_real(fam.data[n].elem(p)).e


def edge(S):
    S.world(om.ngmix_ext())
    install(S)
    f = S.fn('metadetect.masking', 'apply_apodization_corrections')

    def run():
        fam, mb, p, old, hs, ny, nx = scene()
        h = real('h', lambda v: v > 0)
        fl = flag()
        f(mbobs=mb, ap_rad=h, mask_bit_val=fl)
        a, b_, c, d = taper(p[2:], ny.e, nx.e, h)
        t = a*b_*c*d
        low = t < 1
        for n in ('image', 'noise'):
            o = to_real(old[n](p)).e
            prove('%s is multiplied by the taper where it is below one' % n,
                  val(fam, n, p) == If(low, o*t, o))
        prove('bits are added exactly where the taper is below one',
              bits_of(fam.data['bmask'].elem(p)) == If(
                  low, bits_of(old['bmask'](p)) | fl.e, bits_of(old['bmask'](p))))
        prove('weight is zero exactly there',
              val(fam, 'weight', p) == If(low, z3.RealVal(0), to_real(old['weight'](p)).e))
        prove('masked fraction is one there, when present',
              val(fam, 'mfrac', p) == If(And(low, truth(hs['mfrac'](p[:2]))),
                                         z3.RealVal(1), to_real(old['mfrac'](p)).e))
        prove('ormask unchanged',
              bits_of(fam.data['ormask'].elem(p)) == bits_of(old['ormask'](p)))
        prove('psf unchanged', val(fam.psf, 'image', p) ==
              to_real(fam.psf.data['image'].elem(p)).e)
        same_presence(fam, hs, p)
    S.explore(run)


def usable(w, q):
    j, l = CTX.index('j'), CTX.index('l')
    ny, nx = [ix(d) for d in w.shape[2:]]
    body = to_real(w.elem(q + (j, l))).e > 0
    return mk_fold1('any', j, z3.IntVal(0), ny,
                    mk_fold1('any', l, z3.IntVal(0), nx, body))


def zero_weight(S):
    """an observation left without usable pixels must accept zero weight"""
    S.world(om.ngmix_ext())
    install(S)
    f = S.fn('metadetect.masking', 'apply_apodization_corrections')

    def run():
        fam, mb, p, old, hs, ny, nx = scene(mfrac=False)
        q = p[:2]
        CTX.assume(Implies(truth(fam.izw.elem(q)), usable(fam.data['weight'], q)))
        f(mbobs=mb, ap_rad=real('h', lambda v: v > 0), mask_bit_val=flag())
        prove('an observation without usable pixels accepts zero weight',
              Implies(truth(fam.izw.elem(q)), usable(fam.data['weight'], q)))
    S.explore(run)


def sessions():
    return [('apply_apodization_corrections', edge),
            ('apply_apodization_corrections zero weight', zero_weight)]

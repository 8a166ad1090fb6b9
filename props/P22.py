"""symmetrized weights"""
from engine.lib import *
from engine import obsmodel as om
from .P05 import usable

META = dict(
    assumptions=['the weight map is square (contract of 90 degree rotations); weights '
                 'are not negative', 'ngmix observations behave as engine/obsmodel.py '
                 'states'])
Z = z3.IntVal(0)


def run_sym(S):
    S.world(om.ngmix_ext())
    f = S.fn('metadetect.fitting', 'symmetrize_obs_weights')

    def run():
        n = nat('n', 1)
        psf = om.mk_family('psf', nat('nb', 1), None, nat('py', 1), nat('px', 1))
        fam = om.mk_family('o', nat('nb', 1), None, n, n, psf=psf)
        b = idx('b', fam.data['image'].shape[0])
        ob = om.Obs(fam, (b,))
        j, l = CTX.index('j'), CTX.index('l')
        old = {k: a.snap() for k, a in fam.data.items()}
        pold = {k: a.snap() for k, a in psf.data.items()}
        oizw = truth(lift(fam.izw.elem((b,))))
        some = usable_(old['weight'], b, n)
        CTX.assume(Implies(oizw, some))
        r = f(ob)
        y, x = idx('y', n), idx('x', n)
        t = n.e - 1

        def w(p, q):
            return to_real(lift(old['weight']((b, p, q)))).e
        zero = Or(*[w(p, q) <= 0 for p, q in (
            (y, x), (x, t - y), (t - y, t - x), (t - x, y))])
        prove('weight is zero exactly where it or a rotated counterpart is zero',
              to_real(lift(r.weight.elem((y, x)))).e == If(
                  zero, z3.RealVal(0), w(y, x)))
        for k in ('image', 'noise', 'mfrac', 'bmask', 'ormask'):
            a = lift(om.sub(r.fam.data[k], r.pre).elem((y, x)))
            o = lift(old[k]((b, y, x)))
            prove('%s is copied' % k, bits_of(a) == bits_of(o) if k in ('bmask', 'ormask')
                  else to_real(a).e == to_real(o).e)
        for k in om.OPTIONAL:
            prove('presence of %s' % k, truth(lift(r._has(k))) == truth(lift(ob._has(k))))
        py, px = [idx('p', d) for d in psf.data['image'].shape[1:]]
        prove('PSF image is copied', to_real(lift(r.psf.image.elem((py, px)))).e == to_real(
            lift(pold['image']((b, py, px)))).e)
        for nm in om.Jac.NAMES:
            prove('WCS is copied', to_real(lift(r.jacobian.vals[nm])).e == to_real(
                lift(ob.jacobian.vals[nm])).e)
        for k in old:
            a, o = lift(fam.data[k].elem((b, y, x))), lift(old[k]((b, y, x)))
            prove('the input is not modified', bits_of(a) == bits_of(o) if k in (
                'bmask', 'ormask') else to_real(a).e == to_real(o).e)
        prove('the input keeps its settings', truth(lift(fam.izw.elem((b,)))) == oizw)
        prove('the result is a new observation', z3.BoolVal(
            r.fam.data['weight'].buf is not fam.data['weight'].buf))
        prove('an observation left without usable pixels accepts zero weight', Implies(
            truth(lift(r.ignore_zero_weight)), usable_(
                lambda p: om.sub(r.fam.data['weight'], r.pre).elem(p[1:]), b, n)))
    S.explore(run)


def usable_(at, b, n):
    j, l = CTX.index('j'), CTX.index('l')
    return mk_fold1('any', j, Z, n.e, mk_fold1('any', l, Z, n.e, to_real(lift(
        at((b, j, l)))).e > 0))


def sessions():
    return [('symmetrize_obs_weights', run_sym)]

"""band combination of masks and masked fractions"""
from engine.lib import *
from engine import obsmodel as om

META = dict(
    assumptions=['all bands have the same shape and carry a bit mask and an OR mask '
                 '(contract of the input)'])
Z = z3.IntVal(0)


class Self:
    pass


def setup(S, fn):
    S.world(om.ngmix_ext())
    S.fn('metadetect.metadetect', 'Metadetect.' + fn)
    return getattr(S.w.load('metadetect.metadetect').Metadetect, fn)


def family(epochs=None):
    ny, nx, nb = nat('ny', 1), nat('nx', 1), nat('nb', 1)
    one = z3.IntVal(1)
    fam = om.mk_family('o', nb, one, ny, nx, has=dict(ormask=True, bmask=True))
    mb = om.mbobs_of(fam, nb, lambda b: one)
    return ny, nx, nb, fam, mb, {k: a.snap() for k, a in fam.data.items()}


def unchanged(fam, old, nb, p):
    q = (idx('b', nb), Z) + p
    for n, a in fam.data.items():
        x, y = lift(a.elem(q)), lift(old[n](q))
        prove('inputs unchanged', bits_of(x) == bits_of(y) if n in ('bmask', 'ormask')
              else to_real(x).e == to_real(y).e)


def masks(S):
    f = setup(S, '_get_ormask_and_bmask')

    def run():
        ny, nx, nb, fam, mb, old = family()
        o, b = f(Self(), mb)
        p = (idx('y', ny), idx('x', nx))
        for nm, a in (('ormask', o), ('bmask', b)):
            k = CTX.index('k')
            w = mk_fold1('bor', k, Z, nb.e, bits_of(lift(old[nm]((k, Z) + p))))
            prove('combined %s is the OR over the bands' % nm, bits_of(lift(
                a.elem(p))) == w)
            prove('shape', And(ix(a.shape[0]) == ny.e, ix(a.shape[1]) == nx.e))
            prove('result is a new array', z3.BoolVal(
                a.buf is not fam.data[nm].buf))
        unchanged(fam, old, nb, p)
    S.explore(run)


def mfrac(S):
    f = setup(S, '_get_mfrac')

    def run():
        ny, nx, nb, fam, mb, old = family()
        m = f(Self(), mb)
        p = (idx('y', ny), idx('x', nx))
        W = fam.data['weight']

        def w(b):
            a = om.sub(W, (b, Z))
            i, j = CTX.index('i'), CTX.index('j')
            pos = mk_fold1('any', i, Z, ny.e, mk_fold1('any', j, Z, nx.e, to_real(
                lift(W.elem((b, Z, i, j)))).e > 0))
            md = to_real(lift(S.w.np.median(a[a > 0])))
            return If(pos, md.e, z3.RealVal(0))
        k, l = CTX.index('k'), CTX.index('k')
        hm = fam.has['mfrac']
        ws = mk_fold1('sum', k, Z, nb.e, w(k))
        num = mk_fold1('sum', l, Z, nb.e, If(
            truth(hm.elem((l, Z))), to_real(lift(old['mfrac']((l, Z) + p))).e*w(l),
            z3.RealVal(0)))
        v = to_real(lift(m.elem(p)))
        prove('masked fraction is the weighted mean over the bands', Implies(
            ws > 0, v.e*ws == num))
        prove('all-one when no band has weight', Implies(Not(ws > 0), v.e == 1))
        if v.k is not None:
            prove('masked fraction is finite', v.k == FIN)
        prove('shape', And(ix(m.shape[0]) == ny.e, ix(m.shape[1]) == nx.e))
        prove('result is a new array', z3.BoolVal(m.buf is not fam.data['mfrac'].buf))
        unchanged(fam, old, nb, p)
    S.explore(run)


def epochs(fn):
    def go(S):
        f = setup(S, fn)

        def run():
            ny, nx = nat('ny', 1), nat('nx', 1)
            ne = [nat('ne', 1) for _ in range(2)]
            fam = om.mk_family('o', nat('nb', 2), nat('E', 1), ny, nx, has=dict(
                ormask=True, bmask=True))
            for e in ne:
                CTX.assume(e.e <= ix(fam.data['image'].shape[1]))
            CTX.assume(Or(*[e.e != 1 for e in ne]))
            mb = om.mbobs_of(fam, z3.IntVal(2), lambda b: If(b == 0, ne[0].e, ne[1].e))
            try:
                f(Self(), mb)
                ok = False
            except AssertionError:
                ok = True
            prove('more than one epoch per band is refused', z3.BoolVal(ok))
        S.explore(run)
    return go


def sessions():
    return [('_get_ormask_and_bmask', masks), ('_get_mfrac', mfrac)] + [
        ('epochs ' + f, epochs(f)) for f in ('_get_ormask_and_bmask', '_get_mfrac')]

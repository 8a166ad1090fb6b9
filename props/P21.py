"""coadding the bands of an object"""
from engine.lib import *
from engine import obsmodel as om
from engine.rt import SList

META = dict(
    bounds=['number of coadded bands: 1 to 4 in the proof (number of bands of the object, shapes and pixel values unbounded)'],
    assumptions=['one epoch per band; band indices are not negative; weights are not '
                 'negative', 'ngmix observations behave as engine/obsmodel.py states; '
                 'metadata is not modelled (concrete check only)'])
Z = z3.IntVal(0)


def scene(S, nb, has):
    """bands of one object, with equal shapes and a WCS per band"""
    one = z3.IntVal(1)
    no = dict(noise=False, bmask=False, mfrac=False, ormask=False)

    def meta(b, e):
        return {}
    J = om.Jac.fresh('jac')
    psf = om.mk_family('psf', nb, one, nat('py', 1), nat('px', 1), has=no, meta=meta,
                       jac=om.Jac.fresh('pjac'))
    fam = om.mk_family('o', nb, one, nat('ny', 1), nat('nx', 1), psf=psf, has=has,
                       meta=meta, jac=J)
    mb = om.mbobs_of(fam, nb if isinstance(nb, SInt) else z3.IntVal(nb), lambda b: one)
    om.MetaSeq.meta = {}
    return fam, psf, mb


def bands(nb, n, within=True):
    """n arbitrary band indices"""
    sb = [nat('s%d' % i) for i in range(n)]
    if within:
        for s in sb:
            CTX.assume(s.e < nb.e)
    return sb


def median(fn, fam, b):
    a = om.sub(fam.data['weight'], (b, Z))
    return to_real(lift(fn(a[a > 0])))


def cut_median(S, fam, at):
    """replace the medians of the run by positive constants: each is proved to be the
    median of the positive weights of a band (positive, being a median of such)"""
    orig, rec = S.w.np.median, []

    def med(a):
        v = to_real(lift(orig(a)))
        i = len(rec)
        prove('the median of the positive weights of the band', v.e == median(
            orig, fam, to_int_e(lift(at[i]))).e)
        m = CTX.fresh('med', R)
        CTX.assume(m > 0)
        rec.append(m)
        return SReal(m)
    S.w.np.median = med
    return rec


def cut_all(S, fam, at):
    """np.all: arbitrary answer, after proving what is asked: is every pixel one some
    band has no weight in"""
    orig, rec = S.w.np.all, []
    old = fam.data['weight'].snap()

    def all_(a, *r, **k):
        if r or k or not isinstance(a, SArr) or len(a.shape) != 2:
            return orig(a, *r, **k)
        prove_at('the test for no weight left looks at the weight of every band',
                 a.shape, lambda q: truth(lift(a.elem(q))) == Or(*[to_real(lift(old((
                     to_int_e(lift(b)), Z) + q))).e == 0 for b in at]))
        t = CTX.fresh('all', B)
        rec.append(t)
        return SBool(t)
    S.w.np.all = all_
    return rec


def anypos(fam, b):
    a = om.sub(fam.data['weight'], (b, Z))
    return truth(lift((a > 0).any()))


def coadd(nbands, opt=None, mode=False):
    """nbands arbitrary bands; opt: the optional data they have (mode: all / some)"""
    def go(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.fitting', 'make_coadd_obs')
        pf = S.w.load('metadetect.procflags')

        def run():
            nb = nat('nb', 2) if nbands else 2
            has = {k: False for k in om.OPTIONAL}
            if opt:
                has[opt] = mode
            fam, psf, mb = scene(S, nb, has)
            old = {k: a.snap() for k, a in fam.data.items()}
            pold = psf.data['image'].snap()
            if nbands is None:
                    at, sb = [0, 1], None
            else:
                at = bands(nb, nbands)
                sb = list(at)
            om_, oa = S.w.np.median, S.w.np.all
            nowgt = cut_all(S, fam, at)
            m = cut_median(S, fam, at)
            r, fl = f(mb, shear_bands=sb)
            S.w.np.median, S.w.np.all = om_, oa
            at = [to_int_e(lift(b)) for b in at]
            fl = bits_of(lift(fl))
            full = And(*[anypos(fam, b) for b in at])
            ps = tuple(idx('p', d) for d in fam.data['image'].shape[2:])
            q = (idx('b', nb), Z) + ps
            for nm, a in fam.data.items():
                x, y = lift(a.elem(q)), lift(old[nm](q))
                prove('the inputs are not modified', bits_of(x) == bits_of(y) if nm in (
                    'bmask', 'ormask') else to_real(x).e == to_real(y).e)
            h = [truth(lift(fam.has[opt].elem((b, Z)))) if mode == 'any' else
                 z3.BoolVal(bool(mode)) for b in at]
            if r is None:
                prove('flags are set when there is no coadd', fl != bvval(0))
                prove('no coadd: no weight, or data only some bands have', And(
                    Implies(Not(full), fl == bvval(pf.ZERO_WEIGHTS)),
                    Implies(fl == bvval(pf.INCONSISTENT_BANDS), And(Or(*h), Not(
                        And(*h)))),
                    Or(fl == bvval(pf.ZERO_WEIGHTS),
                       fl == bvval(pf.INCONSISTENT_BANDS))))
                prove('no coadd for lack of weight: no pixel has weight in all bands',
                      Implies(And(full, fl == bvval(pf.ZERO_WEIGHTS)), And(*nowgt[:1])
                              if nowgt else z3.BoolVal(False)))
                return
            prove('no flags with a coadd', fl == bvval(0))
            prove('every band has weight', full)
            prove('some pixel has weight in all bands', Not(And(*nowgt)) if nowgt
                  else z3.BoolVal(False))
            prove('bands agree on the optional data', Or(And(*h), Not(Or(*h))))

            prove('one weight per band', z3.BoolVal(len(m) == len(at)))
            ws = sum(m[1:], m[0])
            prove('the summed weights are positive', ws > 0)

            def mean(a, pos):
                v = [x/ws*to_real(lift(a((b, Z) + pos))).e for x, b in zip(m, at)]
                return sum(v[1:], v[0])

            def el(nm, pos=ps):
                return to_real(lift(getattr(r, nm).elem(pos)))
            prove('image is the weighted mean', el('image').e == mean(old['image'], ps))
            pp = tuple(idx('p', d) for d in psf.data['image'].shape[2:])
            prove('PSF image is the weighted mean', to_real(lift(r.psf.image.elem(
                pp))).e == mean(pold, pp))
            w = el('weight')
            if w.k is not None:
                prove('weight is finite', w.k == FIN)
            o = [to_real(lift(old['weight']((b, Z) + ps))).e for b in at]
            dead = Or(*[x == 0 for x in o])
            v = [(x/ws)*(x/ws)/y for x, y in zip(m, o)]
            prove('weight is zero where a band has none', Implies(dead, w.e == 0))
            prove('weight is the inverse variance of the mean elsewhere', Implies(
                Not(dead), w.e == 1/sum(v[1:], v[0])))
            for nm in om.OPTIONAL:
                has_ = r._has(nm)
                prove('%s is there when the bands have it' % nm, truth(lift(
                    has_)) == (Or(*h) if nm == opt else z3.BoolVal(False)))
                if not has_:
                    continue
                if nm in ('bmask', 'ormask'):
                    b = [bits_of(lift(old[nm]((x, Z) + ps))) for x in at]
                    t = b[0]
                    for x in b[1:]:
                        t = t | x
                    prove('%s is the OR' % nm, bits_of(lift(getattr(r, nm).elem(
                        ps))) == t)
                else:
                    prove('%s is the weighted mean' % nm, el(nm).e == mean(old[nm], ps))
            for a, b in ((r.jacobian, fam.jac), (r.psf.jacobian, psf.jac)):
                for nm in om.Jac.NAMES:
                    prove('WCS of the bands', to_real(lift(a.vals[nm])).e == to_real(
                        lift(b.vals[nm])).e)
        S.explore(run)
    return go


def single(S):
    S.world(om.ngmix_ext())
    f = S.fn('metadetect.fitting', 'make_coadd_obs')
    pf = S.w.load('metadetect.procflags')

    def run():
        nb = nat('nb', 1)
        fam, psf, mb = scene(S, nb, {})
        s = nat('s')
        if SBool(CTX.fresh('dflt', B)):
            CTX.assume(nb.e == 1)
            CTX.assume(s.e == 0)
            r, fl = f(mb)
        else:
            r, fl = f(mb, shear_bands=[s])
        fl = bits_of(lift(fl))
        prove('a missing band is inconsistent', If(s.e < nb.e, fl == bvval(0), And(
            fl == bvval(pf.INCONSISTENT_BANDS), z3.BoolVal(r is None))))
        if r is None:
            prove('a single band is returned', s.e >= nb.e)
            return
        prove('the band itself is returned', z3.BoolVal(r.fam is fam) if True else None)
        prove('it is the requested band', And(r.pre[0] == s.e, r.pre[1] == 0))
    S.explore(run)


def missing(n):
    def go(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.fitting', 'make_coadd_obs')
        pf = S.w.load('metadetect.procflags')

        def run():
            nb = nat('nb', 2)
            fam, psf, mb = scene(S, nb, {})
            at = bands(nb, n, within=False)
            CTX.assume(Or(*[b.e >= nb.e for b in at]))
            r, fl = f(mb, shear_bands=at)
            prove('bands that do not exist are inconsistent', And(
                bits_of(lift(fl)) == bvval(pf.INCONSISTENT_BANDS), z3.BoolVal(r is None)))
        S.explore(run)
    return go


def disagree(order, n=2):
    def go(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.fitting', 'make_coadd_obs')
        pf = S.w.load('metadetect.procflags')

        def run():
            one = z3.IntVal(1)
            no = {k: False for k in om.OPTIONAL}
            fams = []
            for b in range(n):
                psf = om.mk_family('psf%d' % b, one, one, nat('py', 1), nat('px', 1),
                                   has=no, meta=lambda b, e: {}, jac=om.Jac.fresh('pj'))
                fams.append(om.mk_family(
                    'o%d' % b, one, one, nat('ny', 1), nat('nx', 1), psf=psf, has=no,
                    meta=lambda b, e: {}, jac=om.Jac.fresh('j')))
            mb = [[om.Obs(x, (Z, Z))] for x in fams]

            def same(x, y):
                a, b = x.data['image'].shape[2:], y.data['image'].shape[2:]
                return And(*[to_int_e(p) == to_int_e(q) for p, q in zip(a, b)],
                           *[to_real(lift(x.jac.vals[k])).e == to_real(lift(
                               y.jac.vals[k])).e for k in om.Jac.NAMES])
            use = [fams[b] for b in order]
            bad = Or(*[Not(And(same(use[0], x), same(use[0].psf, x.psf)))
                       for x in use[1:]])
            nopsf = SBool(CTX.fresh('nopsf', B))
            if nopsf:
                use[-1].psf = None
            else:
                CTX.assume(bad)
            r, fl = f(mb, shear_bands=list(order))
            prove('bands of different shape, WCS or without PSF are inconsistent', And(
                bits_of(lift(fl)) == bvval(pf.INCONSISTENT_BANDS), z3.BoolVal(r is None)))
        S.explore(run)
    return go


def sessions():
    r = [('single band', single), ('missing bands', missing(2)),
         ('missing bands (3)', missing(3)), ('three bands', coadd(3)),
         ('four bands', coadd(4)),
         ('two bands', coadd(2)), ('all bands', coadd(None)),
         ('disagreeing bands', disagree([0, 1])),
         ('disagreeing bands, reversed', disagree([1, 0])),
         ('disagreeing bands (3)', disagree([1, 0, 2], 3))]
    for nm in om.OPTIONAL:
        r.append(('two bands with ' + nm, coadd(2, nm, True)))
        r.append(('two bands, one may lack ' + nm, coadd(2, nm, 'any')))
    return r

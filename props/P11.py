"""detection image"""
from engine.lib import *
from engine import obsmodel as om
from props import P08

META = dict(
    assumptions=['every band has a pixel with positive weight; one epoch per band; all '
                 'bands have the same shape (contract of the input)'])


Z = z3.IntVal(0)


def wmed(S, W, b):
    a = om.sub(W, (b, Z))
    return to_real(lift(S.w.np.median(a[a > 0])))


def variances(S):
    """contract of _get_image_vars"""
    P08.world(S)
    cls = S.fn('metadetect.detect', 'MEDSifier')
    S.fn('metadetect.detect', 'MEDSifier._get_image_vars')

    class M(cls):
        def __init__(self, mb):
            self.mbobs = mb

    def run():
        ny, nx, nb = nat('ny', 1), nat('nx', 1), nat('nb', 1)
        fam = om.mk_family('o', nb, z3.IntVal(1), ny, nx)
        W = fam.data['weight']
        old = W.snap()
        v = M(om.mbobs_of(fam, nb, lambda b: z3.IntVal(1)))._get_image_vars()
        prove('one variance per band', ix(v.shape[0]) == nb.e)
        b = idx('b', nb)
        om.has_positive_weight(fam, (b, Z))
        m = wmed(S, W, b)
        prove('the median positive weight is positive', m.e > 0)
        x = to_real(lift(v.elem((b,))))
        prove('variance is the inverse median positive weight', x.e*m.e == 1)
        if x.k is not None:
            prove('variance is finite', x.k == FIN)
        q = (b, Z, idx('y', ny), idx('x', nx))
        prove('weights unchanged', to_real(W.elem(q)).e == to_real(old(q)).e)
    S.explore(run)


def detim(S):
    P08.world(S)
    cls = S.fn('metadetect.detect', 'MEDSifier')
    S.fn('metadetect.detect', 'MEDSifier.__init__')
    S.fn('metadetect.detect', 'MEDSifier._set_detim')
    ran = []

    def run():
        ny, nx, nb = nat('ny', 1), nat('nx', 1), nat('nb', 1)
        fam = om.mk_family('o', nb, z3.IntVal(1), ny, nx)
        mb = om.mbobs_of(fam, nb, lambda b: z3.IntVal(1))
        nodet = flag('nodet')
        old = {k: fam.data[k].snap() for k in ('image', 'weight', 'bmask')}
        v = inp('vars', (nb,), 'f', lambda x: x > 0)

        class M(cls):
            def _run_sep(self):
                ran.append(self.detim)

            def _set_sx_config(self, c):
                pass

            def _get_image_vars(self):
                return v
        m = M(mb, None, {}, nodet_flags=nodet)
        prove('detection runs on the detection image', z3.BoolVal(ran[-1] is m.detim))
        p = (idx('y', ny), idx('x', nx))
        b, b2, b3 = [CTX.index('b') for _ in range(3)]

        def w(b):
            return 1/to_real(v.elem((b,))).e
        ws = mk_fold1('sum', b, Z, nb.e, w(b))
        im = mk_fold1('sum', b2, Z, nb.e, to_real(old['image']((b2, Z) + p)).e*(w(b2)/ws))
        prove('detection image shape', And(ix(m.detim.shape[0]) == ny.e,
                                           ix(m.detim.shape[1]) == nx.e))
        d = to_real(m.detim.elem(p))
        prove('detection image is the weighted sum of the bands', d.e == im)
        dn = to_real(lift(m.detnoise))
        prove('noise is the inverse root of the summed weights', And(
            dn.e >= 0, dn.e*dn.e*ws == 1))
        for x in (d, dn):
            if x.k is not None:
                prove('detection image and noise are finite', x.k == FIN)
        hb = fam.has['bmask']
        any_ = mk_fold1('any', b3, Z, nb.e, And(truth(hb.elem((b3, Z))), (bits_of(
            old['bmask']((b3, Z) + p)) & nodet.e) != bvval(0)))
        prove('a pixel is excluded iff some band has a no-detect bit there',
              truth(m.detmask.elem(p)) == any_)
        q = (idx('b', nb), Z) + p
        prove('inputs unchanged', And(
            to_real(fam.data['image'].elem(q)).e == to_real(old['image'](q)).e,
            to_real(fam.data['weight'].elem(q)).e == to_real(old['weight'](q)).e,
            bits_of(fam.data['bmask'].elem(q)) == bits_of(old['bmask'](q))))
    S.explore(run)


def sessions():
    return [('_get_image_vars', variances), ('_set_detim', detim)]

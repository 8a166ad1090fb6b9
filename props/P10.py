"""box sizes"""
from engine.lib import *
from props import P08
from props.P09 import trunc

META = dict(
    assumptions=['limits satisfy 1 <= min_box_size <= max_box_size; the conversion of '
                 'the wanted size to integer does not overflow; detection semi-axis a '
                 'is positive'])


def mk(S):
    P08.world(S)
    cls = S.fn('metadetect.detect', 'MEDSifier')
    mod = S.w.load('metadetect.detect')
    S.fn('metadetect.detect', 'MEDSifier._get_box_sizes')

    class M(cls):
        def __init__(self, conf):
            self.meds_config = conf
    return M, mod


def smallest(out, n, want, lo, hi, allowed):
    """out[k]: smallest size that is allowed (or the maximum), not below the wanted"""
    prove('one box size per object', ix(out.shape[0]) == ix(n))
    k = idx('k', n)
    s = to_int_e(out.elem((k,)))
    w = want(k)
    w = If(w < lo, lo, If(w > hi, hi, w))

    def ok(t):
        t = z3.IntVal(t)
        return And(t >= lo, t <= hi)
    prove('the box size is an allowed size within the limits or the maximum', Or(
        s == hi, Or(*[And(ok(t), s == t) for t in allowed])))
    prove('the box size is not below the wanted size clipped to the limits', s >= w)
    prove('no smaller allowed size would do', And(
        Implies(w <= hi, s <= hi),
        *[Implies(And(ok(t), z3.IntVal(t) >= w), s <= t) for t in allowed]))


def cat_of(n, ints=()):
    cols = dict(iso_radius=inp('iso', (n,), 'f'), flux_radius=inp('fr', (n,), 'f'),
                a=inp('a', (n,), 'f', lambda v: v > 0), b=inp('b', (n,), 'f'),
                **{c: inp(c, (n,), 'i') for c in ('xmin', 'xmax', 'ymin', 'ymax')})
    return SRec((n,), cols, [(c, 'f8') for c in cols])


def sigma(S):
    """contract of _get_sigma_size"""
    M, mod = mk(S)
    S.fn('metadetect.detect', 'MEDSifier._get_sigma_size')

    def run():
        FW = 2*S.w.np.sqrt(2*S.w.np.log(2))
        n, sf = nat('n', 1), real('sigma_fac')
        cat = cat_of(n)
        out = M(dict(sigma_fac=sf))._get_sigma_size(cat)
        prove('one size per object', ix(out.shape[0]) == ix(n))
        k = idx('k', n)
        fr, a, b = [to_real(lift(cat[c].elem((k,)))).e for c in ('flux_radius', 'a', 'b')]
        d = fr*2/to_real(lift(FW)).e*sf.e*(1 + (1 - b/a))
        prove('twice the rounded up flux-radius size', to_int_e(lift(out.elem((
            k,)))) == 2*(-z3.ToInt(-d)))
    S.explore(run)


# the limits fall in one of the gaps between the allowed sizes: cases are proved in
# parallel, each for all limits in its gaps
CUTS = [1, 9, 33, 129, 513, 2049, None]


def sizes(kind, clo, chi):
    def fn(S):
        M, mod = mk(S)

        def run():
            n = nat('n', 1)
            lo, hi = nat('lo', 1), nat('hi', 1)
            CTX.assume(lo.e <= hi.e)
            CTX.assume(lo.e >= clo)
            if chi is not None:
                CTX.assume(lo.e < chi)
            rm, rf, pad = [real(x) for x in ('rad_min', 'rad_fac', 'pad')]
            conf = dict(box_type=kind, min_box_size=lo, max_box_size=hi)
            cat = cat_of(n)
            cols = cat.fields
            old = {c: a.snap() for c, a in cols.items()}
            m = M(conf)

            def fld(c, k):
                return to_e(lift(old[c]((k,))))
            if kind == 'iso_radius':
                conf.update(rad_min=rm, rad_fac=rf, box_padding=pad)

                def want(k):
                    r = fld('iso_radius', k)
                    r = If(r < rm.e, rm.e, r)
                    return trunc(2*(rf.e*r) + pad.e)
            else:
                sg = inp('sigma', (n,), 'i')
                m._get_sigma_size = lambda cat: sg

                def want(k):
                    s = to_e(lift(sg.elem((k,))))
                    r = fld('ymax', k) - fld('ymin', k) + 1
                    c = fld('xmax', k) - fld('xmin', k) + 1
                    m = If(r > c, r, c)
                    return If(m > s, m, s)
            out = m._get_box_sizes(cat)
            smallest(out, n, want, lo.e, hi.e, list(mod.defaults.ALLOWED_BOX_SIZES))
            k = idx('kk', n)
            for c in cols:
                prove('catalogue unchanged', to_e(lift(cols[c].elem((k,)))) == fld(c, k))
        S.explore(run)
    return fn


def other(S):
    M, mod = mk(S)

    def run():
        n = nat('n', 1)
        cat = SRec((n,), dict(x=inp('x', (n,), 'f')), [('x', 'f8')])
        for t in ('', 'iso', 'sigma', None, 'nonsense'):
            try:
                M(dict(box_type=t, min_box_size=32, max_box_size=64))._get_box_sizes(cat)
                ok = False
            except ValueError:
                ok = True
            prove('an unknown box type is refused', z3.BoolVal(ok))
        e = M(dict(box_type='iso_radius'))._get_box_sizes(SRec((0,), dict(
            x=inp('x0', (0,), 'f')), [('x', 'f8')]))
        prove('an empty catalogue gives no sizes', z3.BoolVal(len(e) == 0))
        a = list(mod.defaults.ALLOWED_BOX_SIZES)
        prove('allowed sizes are positive, even above three, and increasing', z3.BoolVal(
            all(p < q for p, q in zip(a, a[1:])) and a[0] > 0))
    S.explore(run)


def sessions():
    return [('%s, minimum in [%s, %s)' % (k, a, b), sizes(k, a, b))
            for k in ('iso_radius', 'sigma_size') for a, b in zip(CUTS, CUTS[1:])] + [
        ('_get_sigma_size', sigma), ('other', other)]

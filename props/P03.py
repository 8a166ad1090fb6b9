"""foreground apodization mask and its kernel"""
from engine.lib import *
from .P02 import holes
from .kern import KF, kernel_session, install

META = dict(
    assumptions=['hole radii are not negative and the kernel scale is positive '
                 '(preconditions)',
                 'symmetrization is only specified for square images'])


def profile(rows, cols, rad, n, h, p):
    """product over the holes containing p of the profile at the distance"""
    i = CTX.index('i')
    dy = i2r(p[0]) - rows.elem((i,)).e
    dx = i2r(p[1]) - cols.elem((i,)).e
    rr = rad.elem((i,)).e
    d2 = dx*dx + dy*dy
    dist = to_real(sqrt(SReal(d2))).e
    return mk_fold1('prod', i, z3.IntVal(0), to_e(n),
                    If(d2 < rr*rr, KF(dist, rr, h), z3.RealVal(1)))


def loop(S):
    S.world()
    install(S)
    f = S.fn('metadetect.masking', '_do_apodization_mask')

    def run():
        n, ny, nx = nat('n'), nat('ny'), nat('nx')
        rows, cols, rad = holes(n)
        h = real('h', lambda v: v > 0)
        m = inp('apm', (ny, nx), 'f')
        s0 = m.snap()
        f(rows=rows, cols=cols, radius_pixels=rad, ap_mask=m, ap_rad=h)
        p = (idx('py', ny), idx('px', nx))
        prove('each pixel is multiplied by the product of the hole profiles',
              to_real(m.elem(p)).e == s0(p).e*profile(rows, cols, rad, n, h.e, p))
        # membership: reals only, no hole contains the pixel -> unchanged
    S.explore(run)


def make(sym):
    def fn(S):
        S.world()
        install(S)
        f = S.fn('metadetect.masking', 'make_foreground_apodization_mask')

        def run():
            n, ny = nat('n'), nat('ny')
            nx = ny if sym else nat('nx')
            rows, cols, rad = holes(n)
            h = real('h', lambda v: v > 0)
            snaps = [a.snap() for a in (rows, cols, rad)]
            m = f(xm=cols, ym=rows, rm=rad, dims=(ny, nx), symmetrize=sym, ap_rad=h)
            p = (idx('py', ny), idx('px', nx))
            w = profile(rows, cols, rad, n, h.e, p)
            if sym:
                w = w*profile(rows, cols, rad, n, h.e, (p[1], ny.e - 1 - p[0]))
            prove('mask is the product of the hole profiles',
                  to_real(m.elem(p)).e == w)
            prove('mask shape', And(to_int_e(m.shape[0]) == ny.e,
                                    to_int_e(m.shape[1]) == nx.e))
            prove('mask kind is float', z3.BoolVal(m.kind == 'f'))
            i = idx('i', n)
            for nm, a, s in zip(('rows', 'cols', 'radii'), (rows, cols, rad), snaps):
                prove('%s not modified' % nm, a.elem((i,)).e == s((i,)).e)
        S.explore(run)
    return fn


def sessions():
    return [('_ap_kern_kern', kernel_session), ('_do_apodization_mask', loop),
            ('make_foreground_apodization_mask', make(False)),
            ('make_foreground_apodization_mask symmetrized', make(True))]

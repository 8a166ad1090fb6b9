"""edge apodization mask"""
from engine.lib import *
from .kern import KF, kernel_session, install

META = dict(assumptions=['the taper scale is positive (precondition)'])


def ap_range(h):
    return to_int_e(trunc(arith('+', arith('*', 6, h), 0.5)))


def taper(p, ny, nx, h):
    A = ap_range(h)

    def fac(t, n):
        return If(And(t <= A, t < n), KF(z3.ToReal(t), z3.ToReal(A), h.e),
                  z3.RealVal(1))
    y, x = p
    return [fac(y, ny), fac(ny - 1 - y, ny), fac(x, nx), fac(nx - 1 - x, nx)]


def rng_session(S):
    S.world()
    f = S.fn('metadetect.masking', 'get_ap_range')

    def run():
        h = real('h', lambda v: v > 0)
        r = to_int_e(f(h))
        x = 6*h.e + z3.Q(1, 2)
        prove('range is the integer part of 6 s + 1/2',
              And(i2r(r) <= x, x < i2r(r) + 1))
        prove('range covers the kernel to half a pixel',
              And(i2r(r) <= 6*h.e + 1, i2r(r) >= 6*h.e - 1))
    S.explore(run)


def edge(S):
    S.world()
    install(S)
    f = S.fn('metadetect.masking', '_build_square_apodization_mask')

    def run():
        ny, nx = nat('ny'), nat('nx')
        h = real('h', lambda v: v > 0)
        m = inp('apm', (ny, nx), 'f')
        s0 = m.snap()
        f(h, m)
        p = (idx('py', ny), idx('px', nx))
        a, b, c, d = taper(p, ny.e, nx.e, h)
        prove('each edge tapers each pixel once',
              to_real(m.elem(p)).e == s0(p).e*a*b*c*d)
    S.explore(run)


def bounds(S):
    S.world()
    install(S)
    S.fn('metadetect.masking', '_build_square_apodization_mask')

    def run():
        ny, nx = nat('ny'), nat('nx')
        h = real('h', lambda v: v > 0)
        p = (idx('py', ny), idx('px', nx))
        fs = taper(p, ny.e, nx.e, h)
        for i, f in enumerate(fs):
            prove('factor %d lies in [0,1]' % i, And(f >= 0, f <= 1))
        v = real('v', lambda x: And(x >= 0, x <= 1)).e
        k = real('k', lambda x: And(x >= 0, x <= 1)).e
        prove('a factor in [0,1] keeps a value in [0,1] and below the input',
              And(v*k >= 0, v*k <= v, v*k <= 1))
    S.explore(run)


def sessions():
    return [('_ap_kern_kern', kernel_session), ('get_ap_range', rng_session),
            ('_build_square_apodization_mask', edge), ('lemma: bounds', bounds)]

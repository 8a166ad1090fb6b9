"""contract of the apodization kernel (shared by P03-P06, P27)"""
from engine.lib import *

KF = z3.Function('KERN', R, R, R, R)


def K(x, m, h):
    """cumulative triweight profile over six kernel scales, one at x == m"""
    y = (x - m)/h + 3
    p = -5*y**7/69984 + 7*y**5/2592 - 35*y**3/864 + 35*y/96 + z3.Q(1, 2)
    return If(y < -3, z3.RealVal(0), If(y > 3, z3.RealVal(1), p))


def kern_axioms(ch):
    """what the session on the kernel proves, for h > 0"""
    x, m, h = ch
    v = KF(x, m, h)
    return [Implies(h > 0, And(v >= 0, v <= 1, (v == 1) == (x >= m),
                               (v == 0) == (x <= m - 6*h)))]


def install(S):
    """callers see the contract of the kernel instead of its body"""
    m = S.w.load('metadetect.masking')
    CTX.axiom_hooks['KERN'] = kern_axioms
    if hasattr(m, '_ap_kern_kern'):
        def contract(x, m, h):
            CTX.prove('precondition of _ap_kern_kern: positive scale',
                      to_real(h).e > 0)
            return SReal(KF(to_real(x).e, to_real(m).e, to_real(h).e))
        m._ap_kern_kern = contract
    return m


def kernel_session(S):
    S.world()
    f = S.fn('metadetect.masking', '_ap_kern_kern')

    def run():
        x, m = real('x'), real('m')
        h = real('h', lambda v: v > 0)
        r = to_real(f(x, m, h)).e
        prove('kernel is the cumulative triweight profile', r == K(x.e, m.e, h.e))
        prove('kernel is one exactly at and beyond the edge',
              (r == 1) == (x.e >= m.e))
        prove('kernel is zero exactly six scales inside and further',
              (r == 0) == (x.e <= m.e - 6*h.e))
        prove('kernel lies in [0,1]', And(r >= 0, r <= 1))
    S.explore(run)

    def mono():
        x, m = real('x'), real('m')
        h = real('h', lambda v: v > 0)
        d = real('d', lambda v: v >= 0)
        a = to_real(f(x, m, h)).e
        b = to_real(f(SReal(x.e + d.e), m, h)).e
        prove('kernel never decreases outwards', a <= b)
    S.explore(mono)

"""positions in sheared and unsheared frames"""
import types
from engine.lib import *
from engine import obsmodel as om
from engine.loader import Auto

META = dict(
    assumptions=['galsim.Shear(g1, g2).getMatrix() is 1/sqrt(1-g^2) [[1+g1, g2], '
                 '[g2, 1-g1]], defined for g^2 < 1 (contract of galsim)',
                 'ngmix.Jacobian maps by its affine matrix and inverts it (contract of '
                 'ngmix, engine/obsmodel.py)'])
SIGN = {'1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}
SKIP = ('noshear', '1p_psf', '1m_psf', '2p_psf', '2m_psf')


class Shear:
    """contract of galsim.Shear; the normalisation is a positive root"""

    def __init__(self, g1=0.0, g2=0.0):
        self.g1, self.g2 = to_real(lift(g1)), to_real(lift(g2))
        q = self.g1.e*self.g1.e + self.g2.e*self.g2.e
        if not CTX.decide(q < 1):
            raise ValueError('shear too large')

    def getMatrix(self):
        from engine.npshim import array
        s = SReal(norm(self.g1.e, self.g2.e))
        for c in CTX.axiom_hooks['SHEARNORM']([self.g1.e, self.g2.e]):
            CTX.assume(c)
        a, b = self.g1, self.g2
        return array([[s*(1 + a), s*b], [s*b, s*(1 - a)]])


NF = z3.Function('SHEARNORM', R, R, R)


def norm(a, b):
    CTX.axiom_hooks['SHEARNORM'] = lambda ch: [
        Implies(ch[0]*ch[0] + ch[1]*ch[1] < 1,
                And(NF(*ch) > 0, NF(*ch)*NF(*ch)*(1 - ch[0]*ch[0] - ch[1]*ch[1]) == 1))]
    return NF(a, b)


def world(S):
    mc = types.ModuleType('ngmix.metacal')
    mc.DEFAULT_STEP = 0.01
    ext = om.ngmix_ext(metacal=mc)
    g = Auto('galsim')
    g.Shear = Shear
    ext['galsim'] = g
    S.world(ext)


def scene():
    n = nat('n')
    rows, cols = inp('rows', (n,), 'f'), inp('cols', (n,), 'f')
    ny, nx = nat('ny', 1), nat('nx', 1)
    j = om.Jac.fresh('jac')
    h = real('step', lambda v: v*v < 1)
    k = idx('k', n)
    return rows, cols, (ny, nx), j, h, k


def obs_of(j, dims):
    fam = om.mk_family('o', nat('nb', 1), None, dims[0], dims[1], jac=j,
                       has=dict(noise=False, bmask=False, mfrac=False, ormask=False))
    return om.Obs(fam, (z3.IntVal(0),))


def delta(j, r, c, dims):
    """sky offsets (u, v) from the canonical centre"""
    v = {n: to_real(x).e for n, x in j.vals.items()}
    dr = r - (z3.ToReal(to_int_e(dims[0])) - 1)/2
    dc = c - (z3.ToReal(to_int_e(dims[1])) - 1)/2
    return (v['dudrow']*dr + v['dudcol']*dc, v['dvdrow']*dr + v['dvdcol']*dc)


def rc(o, k):
    return to_real(o[0].elem((k,))).e, to_real(o[1].elem((k,))).e


def mapped(which, t):
    def fn(S):
        world(S)
        f = S.fn('metadetect.shearpos', which + 'shear_positions')
        fo = S.fn('metadetect.shearpos', which + 'shear_positions_obs')

        def run():
            rows, cols, dims, j, h, k = scene()
            a, b = rows.snap(), cols.snap()
            o = f(rows=rows, cols=cols, shear_str=t, jac=j, dims=dims, step=h)
            prove('one result per position', And(*[
                ix(x.shape[0]) == ix(rows.shape[0]) for x in o]))
            x = rc(o, k)
            y = (to_real(a((k,))).e, to_real(b((k,))).e)
            g1, g2 = SIGN[t][0]*h.e, SIGN[t][1]*h.e
            s = norm(g1, g2)
            src, dst = (y, x) if which == '' else (x, y)
            u, v = delta(j, *src, dims)
            p, q = delta(j, *dst, dims)
            # (u', v') = s (1+g1, g2; g2, 1-g1) (u, v)
            if which == '':
                prove('sky offset is sheared, u', p == s*((1 + g1)*u + g2*v))
                prove('sky offset is sheared, v', q == s*(g2*u + (1 - g1)*v))
            else:
                # inverse matrix s (1-g1, -g2; -g2, 1+g1): s^2 det = 1
                prove('sky offset is unsheared, u', u == s*((1 - g1)*p - g2*q))
                prove('sky offset is unsheared, v', v == s*((1 + g1)*q - g2*p))
            prove('inputs unchanged', And(to_real(rows.elem((k,))).e == y[0],
                                          to_real(cols.elem((k,))).e == y[1]))
            o2 = fo(rows=rows, cols=cols, shear_str=t, obs=obs_of(j, dims), step=h)
            x2 = rc(o2, k)
            prove('observation form agrees', And(x2[0] == x[0], x2[1] == x[1]))
        S.explore(run)
    return fn


def inverse_lemma(S):
    """the two proved maps are inverse to each other, and determined by them"""
    world(S)
    S.fn('metadetect.shearpos', 'shear_positions')

    def run():
        _, _, dims, j, h, k = scene()
        r, c = CTX.fresh('r', R), CTX.fresh('c', R)
        p, q = CTX.fresh('p', R), CTX.fresh('q', R)
        u, v = CTX.fresh('u', R), CTX.fresh('v', R)
        for t, (a, b) in SIGN.items():
            g1, g2 = a*h.e, b*h.e
            s = norm(g1, g2)
            n = s*s*(1 - g1*g1 - g2*g2)
            P, Q = s*((1 + g1)*u + g2*v), s*(g2*u + (1 - g1)*v)
            prove('matrix of the inverse, %s' % t, And(
                s*((1 - g1)*P - g2*Q) == n*u, s*((1 + g1)*Q - g2*P) == n*v, n == 1))
        # the affine map to the sky is one to one
        d = to_real(j.det()).e
        a = delta(j, r, c, dims)
        b = delta(j, p, q, dims)
        vv = {n: to_real(x).e for n, x in j.vals.items()}
        du, dv = a[0] - b[0], a[1] - b[1]
        prove('sky offsets determine positions', And(
            d*(r - p) == vv['dudcol']*dv - vv['dvdcol']*du,
            d*(c - q) == vv['dvdrow']*du - vv['dudrow']*dv, d != 0))
    S.explore(run)


def skip(S):
    world(S)
    f = S.fn('metadetect.shearpos', 'shear_positions')
    g = S.fn('metadetect.shearpos', 'unshear_positions')
    fo = S.fn('metadetect.shearpos', 'shear_positions_obs')
    go = S.fn('metadetect.shearpos', 'unshear_positions_obs')

    def run():
        rows, cols, dims, j, h, k = scene()
        a, b = rows.snap(), cols.snap()
        ob = obs_of(j, dims)
        y = (to_real(a((k,))).e, to_real(b((k,))).e)
        for t in SKIP:
            for q, fn in (('shear', lambda: f(rows, cols, t, j, dims, h)),
                          ('unshear', lambda: g(rows, cols, t, j, dims, h)),
                          ('shear obs', lambda: fo(rows, cols, t, ob, h)),
                          ('unshear obs', lambda: go(rows, cols, t, ob, h))):
                x = rc(fn(), k)
                prove('%s of %s is the identity' % (q, t),
                      And(x[0] == y[0], x[1] == y[1]))
        for t in ('3p', '1', '', 'p1', 'Noshear', '1p_'):
            for q, fn in (('shear', f), ('unshear', g)):
                try:
                    fn(rows, cols, t, j, dims, h)
                except ValueError:
                    ok = True
                else:
                    ok = False
                prove('%s refuses other types' % q, z3.BoolVal(ok))
    S.explore(run)


def sessions():
    return [('%s_positions %s' % (w + 'shear', t), mapped(w, t))
            for w in ('', 'un') for t in SIGN] + [
        ('lemma: inverse', inverse_lemma), ('identity types', skip)]

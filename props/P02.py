"""foreground-hole bit mask"""
from engine.lib import *

META = dict(
    assumptions=['hole radii are not negative (precondition)',
                 'symmetrization is only specified for square images'])


def holes(n):
    rows = inp('rows', (n,), 'f')
    cols = inp('cols', (n,), 'f')
    rad = inp('rad', (n,), 'f', lambda v: v >= 0)
    return rows, cols, rad


def covered(rows, cols, rad, n, p):
    """pixel p lies strictly inside some hole (in the sense of the property)"""
    i = CTX.index('i')
    dy = i2r(p[0]) - rows.elem((i,)).e
    dx = i2r(p[1]) - cols.elem((i,)).e
    rr = rad.elem((i,)).e
    return mk_fold1('any', i, z3.IntVal(0), to_e(n), dy*dy + dx*dx < rr*rr)


def raster(S):
    S.world()
    f = S.fn('metadetect.masking', '_do_mask_foreground')

    def run():
        n, ny, nx = nat('n'), nat('ny'), nat('nx')
        rows, cols, rad = holes(n)
        b = inp('bm', (ny, nx), 'bits')
        fl = flag()
        s0 = b.snap()
        f(rows=rows, cols=cols, radius_pixels=rad, bmask=b, flag=fl)
        p = (idx('py', ny), idx('px', nx))
        old = bits_of(s0(p))
        prove('bits set exactly at covered pixels, others unchanged',
              bits_of(b.elem(p)) == If(covered(rows, cols, rad, n, p),
                                       old | fl.e, old))
        prove('shape unchanged', And(to_int_e(b.shape[0]) == ny.e,
                                     to_int_e(b.shape[1]) == nx.e))
    S.explore(run)


def intersects(S):
    S.world()
    f = S.fn('metadetect.masking', '_intersects')

    def run():
        ny, nx = nat('ny'), nat('nx')
        row, col = real('row'), real('col')
        rad = real('rad', lambda r: r >= 0)
        r = f(row, col, rad, ny, nx)
        py, px = idx('py', ny), idx('px', nx)
        dy = i2r(py) - row.e
        dx = i2r(px) - col.e
        prove('a hole covering a pixel is never cut',
              Implies(dy*dy + dx*dx < rad.e*rad.e, truth(r)))
    S.explore(run)


def make(sym):
    def fn(S):
        S.world()
        f = S.fn('metadetect.masking', 'make_foreground_bmask')

        def run():
            n, ny = nat('n'), nat('ny')
            nx = ny if sym else nat('nx')
            rows, cols, rad = holes(n)
            fl = flag()
            snaps = [a.snap() for a in (rows, cols, rad)]
            b = f(xm=cols, ym=rows, rm=rad, dims=(ny, nx), symmetrize=sym,
                  mask_bit_val=fl)
            p = (idx('py', ny), idx('px', nx))
            c = covered(rows, cols, rad, n, p)
            if sym:
                q = (p[1], ny.e - 1 - p[0])
                c = Or(c, covered(rows, cols, rad, n, q))
            prove('mask has the bits exactly where covered',
                  bits_of(b.elem(p)) == If(c, fl.e, bvval(0)))
            prove('mask shape', And(to_int_e(b.shape[0]) == ny.e,
                                    to_int_e(b.shape[1]) == nx.e))
            prove('mask kind is integer', z3.BoolVal(b.kind == 'i'))
            i = idx('i', n)
            for nm, a, s in zip(('rows', 'cols', 'radii'), (rows, cols, rad), snaps):
                prove('%s not modified' % nm, a.elem((i,)).e == s((i,)).e)
        S.explore(run)
    return fn


def sessions():
    return [('_intersects', intersects), ('_do_mask_foreground', raster),
            ('make_foreground_bmask', make(False)),
            ('make_foreground_bmask symmetrized', make(True))]

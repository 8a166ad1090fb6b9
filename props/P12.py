"""mask columns"""
from engine.lib import *
from engine import obsmodel as om

META = dict(
    assumptions=['positions are finite and fit a 32-bit integer after rounding; the mask '
                 'image has at least one pixel; the region is a positive integer'])


def nearest(x, n, r):
    """r is the nearest integer to x moved into [0, n)"""
    rr = z3.ToReal(r)
    return And(r >= 0, r < n,
               Implies(And(x >= 0, x <= z3.ToReal(n - 1)), And(
                   2*(rr - x) <= 1, 2*(x - rr) <= 1)),
               Implies(x <= 0, r == 0), Implies(x >= z3.ToReal(n - 1), r == n - 1))


def clip_round(S):
    """contract of _clip_and_round"""
    S.world(om.ngmix_ext())
    f = S.fn('metadetect.metadetect', '_clip_and_round')

    def run():
        d, n = nat('dim', 1), nat('n')
        x = inp('x', (n,), 'f')
        old = x.snap()
        r = f(x, d)
        prove('one value per object', ix(r.shape[0]) == n.e)
        k = idx('k', n)
        v = r.elem((k,))
        prove('values are integers', z3.BoolVal(isinstance(lift(v), SInt)))
        prove('the nearest integer, moved into the image', nearest(
            to_real(old((k,))).e, d.e, to_int_e(v)))
        prove('input unchanged', to_real(x.elem((k,))).e == to_real(old((k,))).e)
    S.explore(run)


NEAR = z3.Function('NEAR', R, I, I)


def clip_contract(vals, dim_):
    """_clip_and_round by its contract: NEAR(x, dim) is the nearest pixel"""
    d = to_int_e(lift(dim_))
    o = vals.snap()

    def one(v):
        x = to_real(lift(o(v)))
        return SInt(NEAR(x.e, d))
    return SArr.make(vals.shape, one, 'i')


def near_axioms():
    CTX.input_facts['NEAR'] = lambda ch: [Implies(ch[1] >= 1, nearest(
        ch[0], ch[1], NEAR(*ch)))]


def session(region, given):
    def fn(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.metadetect', '_fill_in_mask_col')
        S.w.load('metadetect.metadetect')._clip_and_round = clip_contract

        def run():
            near_axioms()
            ny, nx, n = nat('ny', 1), nat('nx', 1), nat('n')
            rows, cols = inp('rows', (n,), 'f'), inp('cols', (n,), 'f')
            mask = inp('mask', (ny, nx), 'bits')
            old = [a.snap() for a in (rows, cols, mask)]
            reg = region if given else nat('region', 1 if region == 1 else 2)
            res = f(mask_region=reg, rows=rows, cols=cols, mask=mask)
            prove('one value per object', ix(res.shape[0]) == n.e)
            k = idx('k', n)
            r = NEAR(to_real(old[0]((k,))).e, ny.e)
            c = NEAR(to_real(old[1]((k,))).e, nx.e)
            got = bits_of(lift(res.elem((k,))))
            if region == 1:
                prove('value is the mask at the nearest pixel', got == bits_of(lift(
                    old[2]((r, c)))))
            else:
                R_ = to_int_e(lift(reg))
                j, l = CTX.index('j'), CTX.index('l')
                w = mk_fold1('bor', j, z3.IntVal(0), ny.e, mk_fold1(
                    'bor', l, z3.IntVal(0), nx.e, If(And(
                        j >= r - R_, j <= r + R_, l >= c - R_, l <= c + R_), bits_of(
                            lift(old[2]((j, l)))), bvval(0))))
                prove('value is the OR over the pixels within the region', got == w)
            q = (idx('y', ny), idx('x', nx))
            prove('inputs unchanged', And(
                to_real(rows.elem((k,))).e == to_real(old[0]((k,))).e,
                to_real(cols.elem((k,))).e == to_real(old[1]((k,))).e,
                bits_of(lift(mask.elem(q))) == bits_of(lift(old[2](q)))))
        S.explore(run)
    return fn


def sessions():
    return [('_clip_and_round', clip_round), ('no region', session(1, True)), ('region', session(2, False))]

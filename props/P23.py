"""combination of the results of several fitters"""
from engine.lib import *
from engine import obsmodel as om

META = dict(
    bounds=['up to three fitters (their result lengths and values are unbounded)'],
    assumptions=['columns of different fitters have different names except the band '
                 'label (contract of the fitters); labels are represented by integers; '
                 'numpy structured arrays by engine/arr.py'])


def result(i, n):
    """a fitter's result: a scalar and a vector column of its own, and the label"""
    sh = (n,)
    f = {'shear_bands': inp('lab%d' % i, sh, 'i'), 'f%d_flags' % i: inp('fl%d' % i, sh, 'i'),
         'f%d_g' % i: inp('g%d' % i, sh + (2,), 'f'), 'f%d_s' % i: inp('s%d' % i, sh, 'f')}
    d = [('shear_bands', '<i8'), ('f%d_flags' % i, '<i4'), ('f%d_g' % i, '<f8', (2,)),
         ('f%d_s' % i, '<f8')]
    if i % 2:       # the label need not come first
        d = d[1:] + d[:1]
    return SRec(sh, {k[0]: f[k[0]] for k in d}, d)


def eqel(x, y):
    x, y = lift(x), lift(y)
    return to_real(x).e == to_real(y).e


def combine(pat):
    def go(S):
        S.world(om.ngmix_ext())
        f = S.fn('metadetect.fitting', 'combine_fit_res')

        def run():
            rs = []
            for i, present in enumerate(pat):
                n = nat('n%d' % i)
                rs.append(result(i, n) if present else None)
            have = [r for r in rs if r is not None]
            snap = [{k: a.snap() for k, a in r.fields.items()} for r in have]
            n0 = have[0]._shape[0] if have else None
            same = And(*[ix(r._shape[0]) == ix(n0) for r in have]) if have \
                else z3.BoolVal(True)
            if len(rs) > 1 and have:
                j = CTX.index('j')
                lab = And(*[Not(mk_fold1('any', j, z3.IntVal(0), ix(n0), to_int_e(
                    s['shear_bands']((j,))) != to_int_e(snap[0]['shear_bands']((j,)))))
                    for s in snap[1:]])
                empty = ix(n0) == 0
                fine = And(same, lab if all(pat) else empty)
            else:
                fine = z3.BoolVal(True)
            try:
                r = f(list(rs))
                ok = True
            except RuntimeError:
                ok = False
            prove('refused exactly when lengths or labels disagree, or one fitter of a '
                  'non-empty set has no result', fine == z3.BoolVal(ok))
            if not ok:
                return
            if not have:
                prove('no result when no fitter has one', z3.BoolVal(r is None))
                return
            prove('there is a result', z3.BoolVal(isinstance(r, SRec)))
            prove('one row per object', ix(r._shape[0]) == ix(n0))
            names = list(r.fields)
            want = []
            for h in have:
                want += [c for c in h.fields if c not in want]
            prove('every column once, without renaming', z3.BoolVal(
                sorted(names) == sorted(want)))
            for h, s in zip(have, snap):
                for c, a in h.fields.items():
                    if c not in r.fields:
                        prove('every column is there', z3.BoolVal(False))
                        continue
                    prove_at('columns keep their values', a.shape, lambda q: eqel(
                        r.fields[c].elem(q), s[c](q)))
                    prove_at('results are not modified', a.shape, lambda q: eqel(
                        a.elem(q), s[c](q)))
                dd = {d[0]: tuple(d[1:]) for d in r.descr}
                prove('columns keep their types', z3.BoolVal(all(
                    dd.get(d[0]) == tuple(d[1:]) for d in h.descr)))
        S.explore(run, exc=(RuntimeError,))
    return go


def sessions():
    out = []
    for m in (1, 2, 3):
        for bits in range(2**m):
            pat = [bool(bits >> i & 1) for i in range(m)]
            out.append(('fitters ' + ''.join('+' if p else '-' for p in pat),
                        combine(pat)))
    return out

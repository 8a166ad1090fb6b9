"""positions, mask values and PSF statistics of the rows"""
from engine.lib import *
from engine import obsmodel as om
from props import P15

META = dict(
    assumptions=['columns in single precision are treated as exact',
                 'the positions without shear are those of P01, the local masked fraction '
                 'that of P24 (contracts)',
                 'esutil.numpy_util.add_fields copies the columns and adds zeroed ones'])
Z = z3.IntVal(0)


def rounding(S):
    m = P15.world(S)
    f = S.fn('metadetect.metadetect', '_clip_and_round')

    def run():
        n, dim = nat('n'), nat('dim', 1)
        v = inp('v', (n,), 'f')
        old = v.snap()
        r = f(v, dim)
        prove('one pixel per position', ix(r.shape[0]) == n.e)
        k = idx('k', n)
        x = to_real(lift(old((k,)))).e
        y = lift(r.elem((k,)))
        prove('pixels are integers', z3.BoolVal(isinstance(y, (SInt, int))))
        y = to_int_e(y)
        prove('inside the image', And(0 <= y, y < dim.e))
        yr, top = z3.ToReal(y), z3.ToReal(dim.e) - 1
        half = z3.RealVal('1/2')
        prove('the nearest pixel', Or(And(yr - x <= half, x - yr <= half),
                                      And(y == 0, x < 0), And(yr == top, x > top)))
        prove('the positions are unchanged', to_real(lift(v.elem((k,)))).e == x)
    S.explore(run)


def region(S):
    m = P15.world(S)
    f = S.fn('metadetect.metadetect', '_fill_in_mask_col')

    def run():
        n, ny, nx = nat('n'), nat('ny', 1), nat('nx', 1)
        rows, cols = inp('rows', (n,), 'f'), inp('cols', (n,), 'f')
        mask = inp('mask', (ny, nx), 'bits')
        old = mask.snap()
        px = {}
        for nm, d in (('r', ny), ('c', nx)):
            px[nm] = inp('pix' + nm, (n,), 'i')
            k = CTX.index('k')
            CTX.input_facts[px[nm].elem((k,)).e.decl().name()] = \
                lambda ch, a=px[nm], d=d: [And(to_int_e(a.elem(tuple(ch))) >= 0,
                                               to_int_e(a.elem(tuple(ch))) < d.e)]
        bad = []

        def nearest(v, dim):
            for w, nm, d in ((rows, 'r', ny), (cols, 'c', nx)):
                if v is w:
                    prove('rows with the number of rows, columns with that of columns',
                          to_int_e(dim) == d.e)
                    return px[nm].copy()
            raise Unsupported('other positions')
        m._clip_and_round = nearest
        reg = SInt(CTX.fresh('region', I))
        res = f(mask_region=reg, rows=rows, cols=cols, mask=mask)
        prove('one value per position', ix(res.shape[0]) == n.e)
        k = idx('k', n)
        pr, pc = [to_int_e(px[q].elem((k,))) for q in 'rc']
        got = bits_of(lift(res.elem((k,))))
        if reg > 1:
            i, j = CTX.index('i'), CTX.index('j')

            def lim(p, d):
                lo, hi = p - reg.e, p + reg.e + 1
                return If(lo < 0, Z, lo), If(hi > d.e, d.e, hi)
            want = mk_fold1('bor', i, *lim(pr, ny), mk_fold1('bor', j, *lim(
                pc, nx), bits_of(lift(old((i, j))))))
            prove('the bits within the region around the pixel', got == want)
        else:
            prove('the bits of the pixel', got == bits_of(lift(old((pr, pc)))))
        p = (idx('y', ny), idx('x', nx))
        prove('the mask is unchanged', bits_of(lift(mask.elem(p))) == bits_of(
            lift(old(p))))
    S.explore(run)


def columns(bands, shear, psfrec, fwhm, step):
    def go(S):
        m = P15.world(S)
        S.fn('metadetect.metadetect', 'Metadetect._add_positions_and_psf')

        def run():
            n = nat('n')
            ny, nx = nat('ny', 1), nat('nx', 1)
            descr = [('flags', '<i4'), ('wmom_g', '<f8', (2,)), ('shear_bands', '<f8')]
            if psfrec:
                descr += [('psfrec_flags', '<i4'), ('psfrec_g', '<f8', (2,)),
                          ('psfrec_T', '<f8')]
            fields = {d[0]: inp(d[0], (n,) + (d[2] if len(d) > 2 else ()), d[1][1])
                      for d in descr}
            res = SRec((n,), fields, descr)
            old = {k: v.snap() for k, v in fields.items()}
            cat = SRec((n,), {'x': inp('x', (n,), 'f'), 'y': inp('y', (n,), 'f'),
                              'box_size': inp('bs', (n,), 'i')},
                       [('x', '<f8'), ('y', '<f8'), ('box_size', '<i8')])
            cold = {k: v.snap() for k, v in cat.fields.items()}
            conf = {'metacal': {}}
            if step:
                conf['metacal']['step'] = real('step')
            regions = {}
            for k in ('mask_region', 'ormask_region'):
                if SBool(CTX.fresh('has ' + k, B)):
                    conf[k] = regions[k] = SInt(CTX.fresh(k, I))
            if fwhm:
                conf['mfrac_fwhm'] = real('mfrac_fwhm')
            md = P15.make(S, m, **conf)
            fam = om.mk_family('o', nat('nb', 1), z3.IntVal(1), ny, nx, has=P15.HAS)
            md.mbobs = om.mbobs_of(fam, nat('nb', 1), lambda b: z3.IntVal(1))
            md._fwhms = [real('fwhm0'), real('fwhm1')]
            mf = inp('mfrac', (ny, nx), 'f')
            om_, bm = inp('om', (ny, nx), 'bits'), inp('bm', (ny, nx), 'bits')
            stats = dict(flags=SInt(CTX.fresh('pf', I)), g1=real('g1'), g2=real('g2'),
                         T=real('T'))
            un = {k: inp('un_' + k, (n,), 'f') for k in ('row', 'col')}
            log = []

            def same(name, a, f):
                with rt.Scope():
                    k = CTX.fresh('k', I)
                with rt.Scope(And(k >= 0, k < n.e)):
                    prove(name, to_real(lift(a.elem((k,)))).e == to_real(lift(
                        f((k,)))).e)

            def unshear(rows, cols, shear_str, obs, step=0.01):
                same('the detected row is mapped back', rows, cold['y'])
                same('the detected column is mapped back', cols, cold['x'])
                prove('with the shear of this image', z3.BoolVal(shear_str == shear))
                prove('with the geometry of the main observations', And(z3.BoolVal(
                    obs.fam is fam), obs.pre[0] == 0, obs.pre[1] == 0))
                want = conf['metacal'].get('step', 0.01)
                prove('with the step of the metacal settings', to_real(lift(
                    step)).e == to_real(lift(want)).e)
                log.append('unshear')
                return un['row'], un['col']
            m.shearpos.unshear_positions_obs = unshear

            def at(a, which):
                """which positions these are"""
                k = CTX.fresh('k', I)
                with rt.Scope(And(k >= 0, k < n.e)):
                    x = to_real(lift(a.elem((k,)))).e
                    y0 = to_real(lift(cold['y' if which == 'row' else 'x']((k,)))).e
                    y1 = to_real(lift(un[which].elem((k,)))).e
                    x = z3.simplify(x)
                    if x.eq(z3.simplify(y0)):
                        return 'sheared'
                    if x.eq(z3.simplify(y1)):
                        return 'noshear'
                prove('values are looked up at the row\'s positions', z3.BoolVal(False))
                raise Unsupported('other positions')
            vals = {}

            def fill(mask_region, rows, cols, mask):
                a, b = at(rows, 'row'), at(cols, 'col')
                prove('row and column of the same position', z3.BoolVal(a == b))
                w = 'ormask' if mask is om_ else 'bmask' if mask is bm else None
                prove('a mask that was given', z3.BoolVal(w is not None))
                r = inp('%s_%s' % (w, a), (n,), 'i')
                vals[w, a] = r, mask_region
                return r
            m._fill_in_mask_col = fill

            def local(mfrac, x, y, box_sizes, obs, fwhm):
                a, b = at(y, 'row'), at(x, 'col')
                prove('row and column of the same position', z3.BoolVal(a == b))
                same('the box of each object', box_sizes, cold['box_size'])
                want = conf['mfrac_fwhm'] if 'mfrac_fwhm' in conf else md._fwhms[0]
                prove('the masked fraction image and the aperture', And(z3.BoolVal(
                    mfrac is mf and obs.fam is fam), obs.pre[0] == 0, to_real(lift(
                        fwhm)).e == to_real(lift(want)).e))
                r = inp('mfrac_' + a, (n,), 'f')
                vals['mfrac', a] = r, None
                return r
            m.measure_mfrac = local
            out = md._add_positions_and_psf(
                cat=cat, res=res, shear_str=shear, mfrac=mf, bmask=bm, ormask=om_,
                psf_stats=stats, det_bands=list(bands))
            prove('one row per object', ix(out.shape[0]) == n.e)
            k = idx('k', n)

            def col(nm, *a):
                return lift(out[nm].elem((k,) + tuple(z3.IntVal(q) for q in a)))
            for d in descr:
                for a in ([(0,), (1,)] if len(d) > 2 else [()]):
                    i = (k,) + tuple(z3.IntVal(q) for q in a)
                    want = lift(old[d[0]](i))
                    if not d[0].startswith('psfrec'):
                        prove('measured columns unchanged', to_real(lift(
                            out[d[0]].elem(i))).e == to_real(want).e)
                    prove('the given table is unchanged', to_real(lift(
                        res[d[0]].elem(i))).e == to_real(want).e)
            prove('PSF flags', to_int_e(col('psfrec_flags')) == stats['flags'].e)
            prove('PSF shape', And(to_real(col('psfrec_g', 0)).e == stats['g1'].e,
                                   to_real(col('psfrec_g', 1)).e == stats['g2'].e))
            prove('PSF size', to_real(col('psfrec_T')).e == stats['T'].e)
            prove('mean masked fraction', to_real(col('mfrac_img')).e == to_real(lift(
                S.w.np.mean(mf))).e)
            prove('detection bands, sorted', z3.BoolVal(out['det_bands'].elem(
                (k,)) == ''.join(str(b) for b in sorted(bands))))
            prove('detected position', And(
                to_real(col('sx_row')).e == to_real(lift(cold['y']((k,)))).e,
                to_real(col('sx_col')).e == to_real(lift(cold['x']((k,)))).e))
            prove('position without shear', And(
                to_real(col('sx_row_noshear')).e == to_real(lift(
                    un['row'].elem((k,)))).e,
                to_real(col('sx_col_noshear')).e == to_real(lift(
                    un['col'].elem((k,)))).e))
            R_ = {w: regions[w].e if w in regions else z3.IntVal(1) for w in (
                'mask_region', 'ormask_region')}
            R_['bmask'] = If(R_['mask_region'] > 1, R_['mask_region'], z3.IntVal(1))
            R_['ormask'] = If(R_['ormask_region'] > 1, R_['ormask_region'], R_['bmask'])
            for w in ('ormask', 'bmask'):
                for a in ('sheared', 'noshear'):
                    nm = w if a == 'sheared' else w + '_noshear'
                    if (w, a) not in vals:
                        prove(nm + ' is looked up', z3.BoolVal(False))
                        continue
                    r, g = vals[w, a]
                    prove(nm + ' at its position', to_int_e(col(nm)) == to_int_e(
                        r.elem((k,))))
                    prove(nm + ' within the configured region', to_int_e(g) == R_[w])
            some = truth(lift((mf > 0).any()))
            for a in ('sheared', 'noshear'):
                nm = 'mfrac' if a == 'sheared' else 'mfrac_noshear'
                v = to_real(col(nm)).e
                if ('mfrac', a) in vals:
                    prove(nm + ' at its position', v == to_real(lift(
                        vals['mfrac', a][0].elem((k,)))).e)
                else:
                    prove('no masked fraction only where nothing is masked', Not(some))
                    prove(nm + ' is zero', v == 0)
        S.explore(run)
    return go


def sessions():
    return [('nearest pixels', rounding), ('bits around positions', region),
            ('columns, one band', columns([0], '1p', False, False, True)),
            ('columns, bands out of order', columns([2, 0, 1], 'noshear', False, True,
                                                    False)),
            ('columns, PSF columns present', columns([1, 0], '2m', True, True, True))]

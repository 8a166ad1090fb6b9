"""geometry of the stamp catalogues"""
from engine.lib import *
from engine import obsmodel as om
from engine.loader import Auto
from props import P08

META = dict(
    assumptions=['positions are at least -1 (conversion to integer truncates toward '
                 'zero); single-precision storage of positions treated as exact',
                 'sxdes.run_sep returns one row per detection with x, y, iso_radius '
                 'and the segmentation map (contract); box sizes by the contract of '
                 'P10 (any positive integers here)',
                 'esutil.numpy_util.add_fields copies the columns and adds zeroed ones'])


def trunc(r):
    return If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))


def world(S):
    P08.world(S)


def mkobs():
    ny, nx, nb = nat('ny', 1), nat('nx', 1), nat('nb', 1)
    py, px = nat('py', 1), nat('px', 1)
    no = dict(noise=False, bmask=False, mfrac=False, ormask=False)
    psf = om.mk_family('psf', nb, z3.IntVal(1), py, px, has=no)
    fam = om.mk_family('o', nb, z3.IntVal(1), ny, nx, psf=psf,
                       has=dict(noise=True, bmask=True))
    return om.mbobs_of(fam, nb, lambda b: z3.IntVal(1)), fam, (ny, nx, py, px, nb)


def geometry(cat, n, y, x, bs, dims, jac, ids):
    """y, x, bs: fn(index) -> real / int"""
    ny, nx, py, px, nb = dims
    prove('one row per object', ix(cat.shape[0]) == ix(n))
    k = idx('k', n)

    def g(nm, *a):
        return lift(cat[nm].elem((k,) + tuple(z3.IntVal(j) for j in a)))
    b = bs(k)
    half = b / 2
    for ax, pos, d, pd in (('row', y(k), ny, py), ('col', x(k), nx, px)):
        ip = trunc(pos)
        s, e = ip - half + 1, ip + half + 1
        prove('original position is the input position', to_real(
            g('orig_' + ax, 0)).e == pos)
        prove('stamp start', to_int_e(g('orig_start_' + ax, 0)) == If(
            s < 0, z3.IntVal(0), s))
        prove('stamp end', to_int_e(g('orig_end_' + ax, 0)) == If(e > d.e, d.e, e))
        prove('start plus position in the stamp is the position', to_real(g(
            'cutout_' + ax, 0)).e + z3.ToReal(to_int_e(g('orig_start_' + ax, 0))) == pos)
        prove('psf centre', to_real(g('psf_cutout_' + ax, 0)).e*2 == z3.ToReal(pd.e) - 1)
    for nm in ('dudrow', 'dudcol', 'dvdrow', 'dvdcol'):
        prove('WCS derivatives', to_real(g(nm, 0)).e == to_real(lift(getattr(
            jac, nm))).e)
    prove('box size', to_int_e(g('box_size')) == b)
    prove('one stamp per object', to_int_e(g('ncutout')) == 1)
    i_, num = ids(k)
    prove('id', to_int_e(g('id')) == i_)
    if num is not None:
        prove('number', to_int_e(g('number')) == num)
    return k


def catalog(number, seg):
    def fn(S):
        world(S)
        cls = S.fn('metadetect.detect', 'CatalogMEDSifier')
        S.fn('metadetect.detect', 'CatalogMEDSifier.__init__')
        S.fn('metadetect.detect', 'CatalogMEDSifier._set_cat_and_seg')
        S.fn('metadetect.detect', 'MEDSifier.get_meds')
        S.fn('metadetect.detect', 'MEDSifier.get_multiband_meds')

        def run():
            mb, fam, dims = mkobs()
            ny, nx = dims[:2]
            n = nat('n')
            x = inp('x', (n,), 'f', lambda v: v > -1)
            y = inp('y', (n,), 'f', lambda v: v > -1)
            bs = inp('bs', (n,), 'i', lambda v: v >= 1)
            num = inp('number', (n,), 'i') if number else None
            sg = inp('seg', (ny, nx), 'i') if seg else None
            old = [a.snap() for a in (x, y, bs)]
            m = cls(mb, x, y, bs, number=num, seg=sg)
            k = geometry(
                m.cat, n, lambda k: to_real(old[1]((k,))).e,
                lambda k: to_real(old[0]((k,))).e, lambda k: to_int_e(old[2]((k,))),
                dims, fam.jac,
                (lambda k: (to_int_e(num.elem((k,))) - 1, to_int_e(num.elem((k,)))))
                if number else lambda k: (k, k + 1))
            for a, o in zip((x, y, bs), old):
                prove('input positions and box sizes unchanged',
                      lift(a.elem((k,))).e == lift(o((k,))).e)
            p = (idx('sy', ny), idx('sx', nx))
            prove('segmentation map', And(to_int_e(m.seg.elem(p)) == (
                to_int_e(sg.elem(p)) if seg else z3.IntVal(0)), ix(m.seg.shape[0]) ==
                ny.e, ix(m.seg.shape[1]) == nx.e))
            band = idx('band', dims[4])
            r = m.get_meds(SInt(band))
            prove('the reader uses the catalogue and map', z3.BoolVal(
                r._cat is m.cat and r.seg is m.seg))
            prove('the reader of a band uses that band', to_real(r.obs.image.elem(
                p)).e == to_real(fam.data['image'].elem((band, z3.IntVal(0)) + p)).e)
        S.explore(run)
    return fn


def detection(S):
    world(S)
    sx = Auto('sxdes')
    S.w.ext['sxdes'] = sx
    cls = S.fn('metadetect.detect', 'MEDSifier')
    S.fn('metadetect.detect', 'MEDSifier._run_sep')

    def run():
        mb, fam, dims = mkobs()
        ny, nx = dims[:2]
        n = nat('n')
        cols = dict(x=inp('x', (n,), 'f', lambda v: v > -1),
                    y=inp('y', (n,), 'f', lambda v: v > -1),
                    iso_radius=inp('iso', (n,), 'f'), number=inp('num', (n,), 'i'),
                    flux=inp('flux', (n,), 'f'))
        objs = SRec((n,), cols, [('x', 'f8'), ('y', 'f8'), ('iso_radius', 'f4'),
                                 ('number', 'i4'), ('flux', 'f8')])
        bs = inp('bs', (n,), 'i', lambda v: v >= 1)
        seg = inp('seg', (ny, nx), 'i')
        dim_ = inp('detim', (ny, nx), 'f')
        dmask = inp('detmask', (ny, nx), 'b')
        noise = real('detnoise')
        conf = object()
        calls = []

        def run_sep(image, noise, config=None, mask=None, thresh=None):
            calls.append((image, noise, config, mask, thresh))
            return objs, seg
        sx.run_sep = run_sep

        class M(cls):
            def __init__(self):
                pass

            def _get_box_sizes(self, cat):
                return bs
        m = M()
        m.mbobs, m.detim, m.detmask, m.detnoise = mb, dim_, dmask, noise
        m.sx_config, m.detect_thresh = conf, 0.8
        m._run_sep()
        c = calls[0]
        prove('detection runs on the detection image, noise and mask', z3.BoolVal(
            len(calls) == 1 and c[0] is dim_ and c[1] is noise and c[3] is dmask
            and c[2] is conf and c[4] == 0.8))
        k = geometry(m.cat, n, lambda k: to_real(cols['y'].elem((k,))).e,
                     lambda k: to_real(cols['x'].elem((k,))).e,
                     lambda k: to_int_e(bs.elem((k,))), dims, fam.jac,
                     lambda k: (k, None))
        for nm in ('flux', 'number'):
            prove('detection columns are kept', lift(m.cat[nm].elem((k,))).e ==
                  lift(cols[nm].elem((k,))).e)
        sc = to_real(lift(fam.jac.get_scale())).e
        prove('isophotal radius in arcsec', to_real(m.cat['iso_radius_arcsec'].elem(
            (k,))).e == to_real(cols['iso_radius'].elem((k,))).e*sc)
        prove('segmentation map', z3.BoolVal(m.seg is seg))
    S.explore(run)


def sessions():
    return [('CatalogMEDSifier number=%s seg=%s' % (a, b), catalog(a, b))
            for a in (False, True) for b in (False, True) if (a, b) != (True, False)] + [
        ('_run_sep', detection)]

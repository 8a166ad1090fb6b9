"""postage stamps"""
from engine.lib import *
from engine import obsmodel as om
from engine.loader import Auto

META = dict(
    assumptions=['the stamp overlaps the image (its object lies in the image); box '
                 'sizes are positive',
                 'the base class of the stamp reader checks indices only (ngmix)'])
PAD = {'image': 0, 'weight': 0, 'seg': 0, 'noise': 0, 'bmask': 2**30}


class Base:
    """contract of ngmix.medsreaders.NGMixMEDS: indices are checked"""

    def _check_indices(self, iobj, icutout=None):
        n = self._cat.shape[0]
        if not CTX.decide(And(ix(iobj) < ix(n), ix(iobj) >= 0)):
            raise ValueError('object index')
        if icutout is not None and not CTX.decide(ix(icutout) < 1):
            raise ValueError('cutout index')


def world(S):
    ext = om.ngmix_ext()
    mr = Auto('ngmix.medsreaders')
    mr.NGMixMEDS = Base
    ext['ngmix'].medsreaders = mr
    ext['ngmix.medsreaders'] = mr
    ut = Auto('meds.util')
    ut.get_image_info_struct = lambda *a, **k: None
    ext['meds.util'] = ut
    S.world(ext)
    return mr


def cutout(kind):
    def fn(S):
        world(S)
        cls = S.fn('metadetect.detect', 'MEDSInterface')
        S.fn('metadetect.detect', 'MEDSInterface.get_cutout')
        S.fn('metadetect.detect', 'MEDSInterface._get_clipped_boxes')

        def run():
            ny, nx, n = nat('ny', 1), nat('nx', 1), nat('n', 1)
            fam = om.mk_family('o', nat('nb', 1), None, ny, nx, has=dict(
                noise=True, bmask=True))
            ob = om.Obs(fam, (idx('b', fam.data['image'].shape[0]),))
            seg = inp('seg', (ny, nx), 'i')
            bs = inp('bsize', (n,), 'i', lambda v: v >= 1)
            r0, c0 = inp('r0', (n, 2), 'i'), inp('c0', (n, 2), 'i')
            cat = SRec((n,), dict(orig_start_row=r0, orig_start_col=c0, box_size=bs),
                       [('orig_start_row', 'i8', (2,)), ('orig_start_col', 'i8', (2,)),
                        ('box_size', 'i4')])
            k = idx('k', n)
            B_ = to_int_e(bs.elem((k,)))
            sr, sc = [to_int_e(a.elem((k, z3.IntVal(0)))) for a in (r0, c0)]
            CTX.assume(And(sr > -B_, sr < ny.e, sc > -B_, sc < nx.e))
            m = cls(obs=ob, seg=seg, cat=cat)
            src = seg if kind == 'seg' else getattr(ob, kind)
            old = src.snap()
            o = m.get_cutout(SInt(k), 0, type=kind)
            prove('the stamp has the box size', And(ix(o.shape[0]) == B_,
                                                    ix(o.shape[1]) == B_))
            prove('the stamp is two-dimensional', z3.BoolVal(o.ndim == 2))
            q = (idx('sy', SInt(B_)), idx('sx', SInt(B_)))
            y, x = sr + q[0], sc + q[1]
            inside = And(y >= 0, y < ny.e, x >= 0, x < nx.e)
            v, w = o.elem(q), old((y, x))
            if kind == 'bmask':
                v, w, pad = bits_of(v), bits_of(w), bvval(PAD[kind])
            else:
                v, w = to_real(v).e, to_real(w).e
                pad = z3.RealVal(PAD[kind])
            prove('pixels inside the image are the image pixels', Implies(inside, v == w))
            prove('pixels outside the image have the padding value',
                  Implies(Not(inside), v == pad))
            prove('the stamp is a copy', z3.BoolVal(o.buf is not src.buf))
            p = (idx('y', ny), idx('x', nx))
            a, b = src.elem(p), old(p)
            prove('image unchanged', bits_of(a) == bits_of(b) if kind == 'bmask'
                  else to_real(a).e == to_real(b).e)
        S.explore(run)
    return fn


def other(S):
    world(S)
    cls = S.fn('metadetect.detect', 'MEDSInterface')

    def run():
        ny, nx, n = nat('ny', 1), nat('nx', 1), nat('n', 1)
        py, px = nat('py', 1), nat('px', 1)
        nb = nat('nb', 1)
        no = dict(noise=False, bmask=False, mfrac=False, ormask=False)
        psf = om.mk_family('psf', nb, None, py, px, has=no)
        fam = om.mk_family('o', nb, None, ny, nx, psf=psf, has=dict(
            noise=True, bmask=True))
        ob = om.Obs(fam, (idx('b', nb),))
        seg = inp('seg', (ny, nx), 'i')
        z = inp('r0', (n, 2), 'i')
        cat = SRec((n,), dict(orig_start_row=z, orig_start_col=z, box_size=inp(
            'bs', (n,), 'i', lambda v: v >= 1)), [
            ('orig_start_row', 'i8', (2,)), ('orig_start_col', 'i8', (2,)),
            ('box_size', 'i4')])
        m = cls(obs=ob, seg=seg, cat=cat)
        k = idx('k', n)
        for t in ('mfrac', 'ormask', 'nonsense', '', 'Image'):
            try:
                m.get_cutout(SInt(k), 0, type=t)
            except ValueError:
                ok = True
            else:
                ok = False
            prove('an unknown stamp type is refused', z3.BoolVal(ok))
        o = m.get_cutout(SInt(k), 0, type='psf')
        p = (idx('y', py), idx('x', px))
        prove('psf stamp is the psf image', And(
            to_real(o.elem(p)).e == to_real(ob.psf.image.elem(p)).e,
            ix(o.shape[0]) == py.e, ix(o.shape[1]) == px.e))
        prove('psf stamp is a copy', z3.BoolVal(o.buf is not psf.data['image'].buf))
    S.explore(run)


def clipped(S):
    """contract of _get_clipped_boxes"""
    world(S)
    cls = S.fn('metadetect.detect', 'MEDSInterface')
    S.fn('metadetect.detect', 'MEDSInterface._get_clipped_boxes')

    def run():
        d, b = nat('dim', 1), nat('bsize', 1)
        s = SInt(CTX.fresh('start', I))
        CTX.assume(And(s.e > -b.e, s.e < d.e))
        o, x = cls._get_clipped_boxes(None, d, s, b)
        o0, o1, x0, x1 = [to_int_e(v) for v in (o[0], o[1], x[0], x[1])]
        prove('image range is the part of the stamp in the image', And(
            o0 == If(s.e < 0, z3.IntVal(0), s.e),
            o1 == If(s.e + b.e > d.e, d.e, s.e + b.e)))
        prove('stamp range is the same pixels', And(x0 == o0 - s.e, x1 == o1 - s.e))
        prove('ranges are not empty and in bounds', And(
            0 <= o0, o0 < o1, o1 <= d.e, 0 <= x0, x0 < x1, x1 <= b.e))
    S.explore(run)


def sessions():
    return [('get_cutout ' + k, cutout(k)) for k in PAD] + [
        ('get_cutout other types', other), ('_get_clipped_boxes', clipped)]

"""subtraction and restoration of source models"""
import types
from engine.lib import *
from engine import obsmodel as om, lsstmodel as lm
from .P28 import Z, rv, fin

META = dict(
    assumptions=['addTo / subtractFrom of a heavy footprint add / subtract its pixel values '
                 'where it overlaps the given image (lsst.afw contract); '
                 'scarletModelToHeavy (scarlet) gives one heavy footprint per source with '
                 'arbitrary values; bounding boxes of footprints lie inside the exposure '
                 '(precondition); util.copy_mbexp returns an independent copy of all '
                 'pixels (checked by the runtime contract)',
                 'images are real valued: rounding of float32 sums is not modelled'],
    bounds=['the initial subtraction is proved for up to three sources in up to two blends; '
            'adding, removing and stamps for any source and state (so, step by step, for '
            'any history)'])
IDS = (11, 12, 13)


class Part:
    """a plane inside a box"""
    __sym_heap__ = True
    __hash__ = None

    def __init__(self, array, x0, y0, band):
        self.array, self.x0, self.y0, self.band = array, x0, y0, band


def part(plane, box):
    e = lm.Exp(plane.fam, plane.pre)[box]
    return Part(getattr(e, plane.n).array, box.x0, box.y0, plane.pre)


class Heavy:
    """the model of one source: H(source, band, y, x) inside its own support"""
    __sym_heap__ = True

    def __init__(self, sid, H, IN):
        self.sid, self.H, self.IN = sid, H, IN

    def __getitem__(self, band):
        return One(self, band.e)

    def val(self, b, y, x):
        s = z3.IntVal(self.sid)
        return If(self.IN(s, y, x), self.H(s, b, y, x), z3.RealVal(0))


class One:
    __sym_heap__ = True

    def __init__(self, heavy, b):
        self.heavy, self.b = heavy, b

    def __sym_vmap__(self, f):
        return One(self.heavy, f(self.b))

    def _do(self, im, sign):
        y0, x0 = to_int_e(lift(im.y0)), to_int_e(lift(im.x0))
        h, b = self.heavy, self.b
        d = SArr.make(im.array.shape, lambda i: SReal(
            sign*h.val(b, i[0] + y0, i[1] + x0)), 'f')
        im.array[:, :] = im.array + d

    def addTo(self, im):
        self._do(im, 1)

    def subtractFrom(self, im):
        self._do(im, -1)


class World:
    def __init__(self, S, m):
        self.nb, self.ny, self.nx = nat('nb', 1), nat('ny', 1), nat('nx', 1)
        self.x0, self.y0 = SInt(CTX.fresh('x0', I)), SInt(CTX.fresh('y0', I))
        geo = lm.Geo(wcs=lambda b: ('wcs', b), xy0=lm.Pt(self.x0, self.y0),
                     psf=lambda b: ('psf', b))
        self.mb = lm.mk_mbexp('d', self.nb, self.ny, self.nx, geo)
        self.H = z3.Function('H', I, I, I, I, R)
        self.IN = z3.Function('IN', I, I, I, B)
        self.box = {}
        self.src = {}
        self.peak = {}
        for s in IDS:
            x, y = SInt(CTX.fresh('bx', I)), SInt(CTX.fresh('by', I))
            w, h = nat('bw', 1), nat('bh', 1)
            CTX.assume(And(self.x0.e <= x.e, self.y0.e <= y.e,
                           x.e + w.e <= self.x0.e + self.nx.e,
                           y.e + h.e <= self.y0.e + self.ny.e))
            self.box[s] = [e for e in (x.e, y.e, x.e + w.e, y.e + h.e)]
            px, py = SInt(CTX.fresh('px', I)), SInt(CTX.fresh('py', I))
            CTX.assume(And(self.x0.e <= px.e, px.e < self.x0.e + self.nx.e,
                           self.y0.e <= py.e, py.e < self.y0.e + self.ny.e))
            self.peak[s] = (px.e, py.e)
            pk = types.SimpleNamespace(getIx=lambda px=px: px, getIy=lambda py=py: py)
            fp = types.SimpleNamespace(
                getBBox=lambda v=(x, y, w, h): lm.Box(*v), getPeaks=lambda pk=pk: [pk])
            self.src[s] = types.SimpleNamespace(getFootprint=lambda fp=fp: fp, sid=s)
        src = self.src

        class Cat:
            def find(self, sid):
                return src[sid]
        self.cat = Cat()
        m.MultibandExposure, m.SourceCatalog = lm.MBExp, Cat
        self.copies = []

        def copy_mbexp(mb, clear=False):
            data = {n: a.copy() for n, a in mb.fam.data.items()}
            if clear:
                data['image'][:, :, :] = 0
            r = lm.MBExp(lm.Fam('copy%d' % len(self.copies), data, 1, geo), self.nb)
            self.copies.append(r)
            return r
        m.util.copy_mbexp = copy_mbexp
        lm.Plane.__getitem__ = part
        self.old = {n: a.snap() for n, a in self.mb.fam.data.items()}
        self.t = (idx('b', self.nb), idx('y', self.ny), idx('x', self.nx))

    def model(self, s, t=None):
        """pixel value of the model of a source inside its bounding box"""
        b, y, x = t or self.t
        Y, X = y + self.y0.e, x + self.x0.e
        B_ = self.box[s]
        return If(And(B_[0] <= X, X < B_[2], B_[1] <= Y, Y < B_[3]),
                  Heavy(s, self.H, self.IN).val(b, Y, X), z3.RealVal(0))

    def heavies(self):
        return {s: Heavy(s, self.H, self.IN) for s in IDS}

    def untouched(self, fam, what, names=lm.PLANES):
        for n in names:
            a, b = lift(fam.data[n].elem(self.t)), lift(self.old[n](self.t))
            prove(what, bits_of(a) == bits_of(b) if n == 'mask'
                  else rv(a).e == rv(b).e)


def start(S):
    S.world(lm.ext())
    m = S.w.load('metadetect.lsst.model_subtractor')

    def run():
        w = World(S, m)
        n = 0
        while n < 3 and SBool(CTX.fresh('more', B)):
            n += 1
        split = n > 1 and bool(SBool(CTX.fresh('two blends', B)))
        ids = list(IDS[:n])
        seen = []

        def blend(part):
            def get(model_psf, psf, bands):
                return types.SimpleNamespace(sources=[types.SimpleNamespace(
                    metadata={'id': s}) for s in part])
            return types.SimpleNamespace(minimal_data_to_blend=get)

        def heavy(source, blend):
            seen.append(source.metadata['id'])
            return Heavy(source.metadata['id'], w.H, w.IN)
        m.scarletModelToHeavy = heavy
        groups = [[ids[:1]], [ids[1:2], ids[2:]]] if split else [[ids]]
        data = types.SimpleNamespace(
            metadata={'bands': w.mb.bands, 'model_psf': {None: 'mp'}, 'psf': 'op'},
            blends={i: types.SimpleNamespace(children={j: blend(c) for j, c in enumerate(
                g)}) for i, g in enumerate(groups)})
        r = m.ModelSubtractor(w.mb, w.cat, data)
        prove('one copy of the data', z3.BoolVal(len(w.copies) == 1 and
                                                 r.mbexp is w.copies[0]))
        prove('every source once', z3.BoolVal(seen == ids and list(r.child_ids()) == ids
                                              and [s.sid for s in r.children()] == ids))
        tot = rv(w.old['image'](w.t)).e
        for s in ids:
            tot = tot - w.model(s)
        prove('data minus all models', rv(r.mbexp.fam.data['image'].elem(w.t)).e == tot)
        w.untouched(r.mbexp.fam, 'variance and mask stay', ('variance', 'mask'))
        w.untouched(w.mb.fam, 'the original data stay')
        f = r.get_full_model()
        tot = z3.RealVal(0)
        for s in ids:
            tot = tot + w.model(s)
        prove('full model is the sum of the models', rv(
            f.fam.data['image'].elem(w.t)).e == tot)
        w.untouched(w.mb.fam, 'the original data stay')
    S.explore(run)


def ready(S, m, w):
    """a subtractor in an arbitrary state"""
    r = object.__new__(m.ModelSubtractor)
    r.orig = w.mb
    st = {n: inp('s_' + n, (w.nb, w.ny, w.nx), 'bits' if n == 'mask' else 'f')
          for n in lm.PLANES}
    r.mbexp = lm.MBExp(lm.Fam('state', st, 1, w.mb.fam.geo), w.nb)
    r.sources = w.cat
    r.bands = w.mb.bands
    r.heavies = w.heavies()
    r.bboxes = {s: w.src[s].getFootprint().getBBox() for s in IDS}
    r.footprints = {s: w.src[s].getFootprint() for s in IDS}
    return r, {n: a.snap() for n, a in st.items()}


def add(S):
    S.world(lm.ext())
    m = S.w.load('metadetect.lsst.model_subtractor')

    def run():
        w = World(S, m)
        r, old = ready(S, m, w)
        known = bool(SBool(CTX.fresh('known', B)))
        sid = IDS[0] if known else 99
        im = r.mbexp.fam.data['image']
        body = inp('body', (w.nb, w.ny, w.nx), 'f')
        mode = 0
        if SBool(CTX.fresh('changes', B)):
            mode = 1
        fail = bool(SBool(CTX.fresh('fails', B)))

        class Boom(Exception):
            pass
        inside = [False]
        try:
            with r.add_source(sid) as e:
                inside[0] = True
                prove('the subtracted exposures are given', z3.BoolVal(e is r.mbexp))
                prove('the model of the source is added', rv(im.elem(w.t)).e == rv(
                    old['image'](w.t)).e + w.model(sid))
                if mode:
                    im[:, :, :] = body
                if fail:
                    raise Boom()
        except Boom:
            prove('the error of the block is passed on', z3.BoolVal(fail))
        except ValueError:
            prove('refused only for unknown sources', z3.BoolVal(
                not known and not inside[0]))
            prove('nothing changes for unknown sources', rv(im.elem(w.t)).e == rv(
                old['image'](w.t)).e)
            return
        else:
            prove('errors of the block are not swallowed', z3.BoolVal(not fail))
        prove('unknown sources are refused', z3.BoolVal(known))
        base = rv(body.elem(w.t)).e - w.model(sid) if mode else rv(old['image'](w.t)).e
        prove('the model is subtracted on leaving the block', rv(
            im.elem(w.t)).e == base)
        for n in ('variance', 'mask'):
            a, b = lift(r.mbexp.fam.data[n].elem(w.t)), lift(old[n](w.t))
            prove('variance and mask stay', bits_of(a) == bits_of(b) if n == 'mask'
                  else rv(a).e == rv(b).e)
        w.untouched(w.mb.fam, 'the original data stay')
        prove('the sources stay', z3.BoolVal(list(r.heavies) == list(IDS)))
    S.explore(run)


def stamp(obs):
    def go(S):
        S.world(lm.ext())
        m = S.w.load('metadetect.lsst.model_subtractor')

        def run():
            w = World(S, m)
            r, old = ready(S, m, w)
            sid = IDS[0] if SBool(CTX.fresh('known', B)) else 99
            size = nat('size', 1) if SBool(CTX.fresh('sized', B)) else None
            clip = bool(SBool(CTX.fresh('clip', B)))
            kind = 'original' if SBool(CTX.fresh('orig', B)) else 'deblended'
            ends = [w.x0.e, w.y0.e, w.x0.e + w.nx.e, w.y0.e + w.ny.e]
            want = None
            if sid == 99:
                inside = z3.BoolVal(True)
            elif size is None:
                want = w.box[sid]
                inside = z3.BoolVal(True)
            else:
                h = size.e/2
                px, py = w.peak[sid]
                want = [px - h, py - h, px + h + 1, py + h + 1]
                inside = And(ends[0] <= want[0], ends[1] <= want[1],
                             want[2] <= ends[2], want[3] <= ends[3])
                if clip:
                    want = [If(a >= b, a, b) for a, b in zip(want[:2], ends[:2])] + [
                        If(a <= b, a, b) for a, b in zip(want[2:], ends[2:])]
            m.util.get_mbexp = lambda exps: ('mbexp', exps)

            class Stamp:
                __sym_heap__ = True

                def __init__(self, exp):
                    self.exp = exp

                def __sym_vmap__(self, f):
                    return Stamp(rt.vmap(self.exp, f))

            def extract_obs(exp, source):
                prove('data of the source', z3.BoolVal(source is w.src[sid]))
                return Stamp(exp)
            m.util.extract_obs = extract_obs
            try:
                f = r.get_mbobs if obs else r.get_stamp
                g = f(sid, stamp_size=size, clip=clip, type=kind)
            except ValueError:
                prove('refused only for unknown sources', z3.BoolVal(sid == 99))
                return
            except om.EXC['LengthError']:
                prove('refused only when the stamp does not fit', And(
                    z3.BoolVal(size is not None and not clip), Not(inside)))
                return
            prove('unknown sources are refused', z3.BoolVal(sid != 99))
            if not clip:
                prove('stamps that do not fit are refused', inside)
            src = w.old if kind == 'original' else old
            b = idx('b', w.nb)
            if obs:
                prove('one observation list per band', to_int_e(lift(rt.len_(
                    g))) == w.nb.e)
                ol = g[SInt(b)]
                prove('one observation per band', to_int_e(lift(rt.len_(ol))) == 1)
                prove('band is recorded', ol.meta['band'].e == b)
                e = ol[0].exp
            else:
                prove('one exposure per band', And(z3.BoolVal(g[0] == 'mbexp'), to_int_e(
                    lift(rt.len_(g[1]))) == w.nb.e))
                e = g[1][SInt(b)]
            sh = e.image.array.shape
            xy = e.getXY0()
            prove('box of the stamp', And(
                to_int_e(lift(xy.x)) == want[0], to_int_e(lift(xy.y)) == want[1],
                ix(sh[1]) == want[2] - want[0], ix(sh[0]) == want[3] - want[1]))
            q = (idx('y', SInt(ix(sh[0]))), idx('x', SInt(ix(sh[1]))))
            t = (b, q[0] + want[1] - w.y0.e, q[1] + want[0] - w.x0.e)
            for n in lm.PLANES:
                a, c = lift(getattr(e, n).array.elem(q)), lift(src[n](t))
                prove('pixels of the requested exposures', bits_of(a) == bits_of(c)
                      if n == 'mask' else rv(a).e == rv(c).e)
        S.explore(run)
    return go


def sessions():
    return [('initial subtraction', start), ('add_source', add),
            ('get_stamp', stamp(False)), ('get_mbobs', stamp(True))]

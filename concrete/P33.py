import types
import numpy as np
import lsst.geom as geom
from lsst.afw.detection import HeavyFootprintF as Heavy
from lsst.afw.table import SourceCatalog
from lsst.pex.exceptions import LengthError
from metadetect.lsst import model_subtractor as ms, util
from concrete import survey
RULE = ('random exposures of one to four bands with up to six overlapping source models in '
        'up to three blends, and random histories of nested additions, stamps and errors')
N_QUICK, N_DEEP = 300, 5000


class Source:
    def __init__(self, sid, box, peak):
        self.sid, self.box, self.pk = sid, box, peak

    def getId(self):
        return self.sid

    def getFootprint(self):
        pk = types.SimpleNamespace(getIx=lambda: self.pk[0], getIy=lambda: self.pk[1])
        return types.SimpleNamespace(
            getBBox=lambda: geom.Box2I(geom.Point2I(*self.box[:2]),
                                       geom.Extent2I(*self.box[2:])),
            getPeaks=lambda: [pk])


def cases(rng, deep):
    while True:
        d = survey.gen(rng, nb=int(rng.randint(1, 5)), lo=4, hi=20)
        d['ns'] = int(rng.randint(0, 7))
        d['steps'] = int(rng.randint(1, 8))
        d['nblend'] = int(rng.randint(1, 4))
        yield d


def check(d):
    rng = np.random.RandomState(d['seed'] + 2)
    m = survey.build(d)
    old = survey.snap(m)
    (ny, nx), (x0, y0), nb = d['dims'], d['xy0'], d['nb']
    ids = [int(v) for v in 100 + rng.permutation(50)[:d['ns']]]
    cat, heavy, full = SourceCatalog(), {}, {}
    for s in ids:
        w, h = rng.randint(1, nx + 1), rng.randint(1, ny + 1)
        bx, by = x0 + rng.randint(nx - w + 1), y0 + rng.randint(ny - h + 1)
        # the support of the model need not be the footprint of the catalogue
        hw, hh = rng.randint(1, nx + 3), rng.randint(1, ny + 3)
        hx, hy = bx + rng.randint(-3, 4), by + rng.randint(-3, 4)
        v = rng.normal(size=(nb, hh, hw)).astype('f4')
        cat.append(Source(s, [int(q) for q in (bx, by, w, h)],
                          [int(bx + rng.randint(w)), int(by + rng.randint(h))]))
        hb = geom.Box2I(geom.Point2I(int(hx), int(hy)), geom.Extent2I(int(hw), int(hh)))
        heavy[s] = {survey.BANDS[b]: Heavy(v[b], hb) for b in range(nb)}
        f = np.zeros((nb, ny, nx))
        Y, X = np.mgrid[y0:y0 + ny, x0:x0 + nx]
        inb = (X >= bx) & (X < bx + w) & (Y >= by) & (Y < by + h)
        inh = (X >= hx) & (X < hx + hw) & (Y >= hy) & (Y < hy + hh)
        use = inb & inh
        f[:, use] = v[:, (Y - hy)[use], (X - hx)[use]]
        full[s] = f
    parts = [[] for _ in range(d['nblend'])]
    for s in ids:
        parts[rng.randint(d['nblend'])].append(s)

    def blend(p):
        return types.SimpleNamespace(minimal_data_to_blend=lambda **k: types.SimpleNamespace(
            sources=[types.SimpleNamespace(metadata={'id': s}) for s in p]))
    bands = tuple(survey.BANDS[:nb])
    data = types.SimpleNamespace(
        metadata={'bands': bands, 'model_psf': np.zeros((3, 3)), 'psf': None},
        blends={i: types.SimpleNamespace(children={0: blend(p[:2]), 1: blend(p[2:])})
                for i, p in enumerate(parts)})
    keep = ms.scarletModelToHeavy
    ms.scarletModelToHeavy = lambda source, blend, **k: heavy[source.metadata['id']]
    try:
        r = ms.ModelSubtractor(m, cat, data)
    finally:
        ms.scarletModelToHeavy = keep
    orig = np.array([o[0] for o in old], dtype='f8')

    def same(images, want, what):
        if not np.allclose(images, want, rtol=0, atol=2e-4):
            return what

    def imgs(mb):
        return np.array([e.image.array for e in mb.singles])

    def want(opened):
        w = orig.copy()
        for s in ids:
            if s not in opened:
                w -= full[s]
        return w
    if sorted(r.child_ids()) != sorted(ids) or [s.getId() for s in r.children()] != list(
            r.child_ids()):
        return 'children'
    e = same(imgs(r.mbexp), want([]), 'data minus all models')
    if e:
        return e
    if not np.allclose(imgs(r.get_full_model()), sum(full.values()) if ids else 0,
                       atol=2e-4):
        return 'full model'

    class Boom(Exception):
        pass

    def stamp(opened):
        s = ids[rng.randint(len(ids))]
        src = cat.find(s)
        size = None if rng.randint(3) == 0 else int(rng.randint(1, 14))
        clip = bool(rng.randint(2))
        kind = ['original', 'deblended'][rng.randint(2)]
        if size is None:
            bx, by, w, h = src.box
            box = [bx, by, bx + w, by + h]
        else:
            h = size//2
            box = [src.pk[0] - h, src.pk[1] - h, src.pk[0] + h + 1, src.pk[1] + h + 1]
        fits = box[0] >= x0 and box[1] >= y0 and box[2] <= x0 + nx and box[3] <= y0 + ny
        box = [max(box[0], x0), max(box[1], y0), min(box[2], x0 + nx), min(
            box[3], y0 + ny)]
        sl = (slice(None), slice(box[1] - y0, box[3] - y0),
              slice(box[0] - x0, box[2] - x0))
        seen = []
        ex = util.extract_obs
        util.extract_obs = lambda exp, source: seen.append((exp, source)) or __import__(
            'ngmix').Observation(exp.image.array)
        try:
            g = r.get_stamp(s, stamp_size=size, clip=clip, type=kind)
            o = r.get_mbobs(s, stamp_size=size, clip=clip, type=kind)
        except LengthError:
            return 'a stamp that fits is refused' if clip or fits or size is None else None
        finally:
            util.extract_obs = ex
        if not fits and not clip and size is not None:
            return 'a stamp that does not fit is accepted'
        ref = (orig if kind == 'original' else want(opened))[sl]
        got = [imgs(g), np.array([x.image.array for x, _ in seen])]
        for a in got:
            if a.shape != ref.shape or not np.allclose(a, ref, rtol=0, atol=2e-4):
                return 'stamp'
        for b in range(nb):
            if not np.array_equal(g.singles[b].variance.array, old[b][1][sl[1:]]) or \
                    not np.array_equal(g.singles[b].mask.array, old[b][2][sl[1:]]):
                return 'planes of the stamp'
            if g.singles[b].getXY0() != geom.Point2I(box[0], box[1]):
                return 'corner of the stamp'
            if seen[b][1] is not src or o[b].meta['band'] != bands[b]:
                return 'observation of the stamp'

    def walk(n, opened):
        while n > 0 and ids:
            n -= 1
            k = rng.randint(4)
            if k == 0:
                e = stamp(opened)
                if e:
                    return e
                continue
            left = [s for s in ids if s not in opened]
            if k == 1 or not left:
                try:
                    with r.add_source(7):
                        return 'an unknown source is accepted'
                except ValueError:
                    pass
                continue
            s = left[rng.randint(len(left))]
            boom = rng.randint(4) == 0
            try:
                with r.add_source(s) as mb:
                    if mb is not r.mbexp:
                        return 'exposures of the block'
                    e = same(imgs(mb), want(opened + [s]), 'data inside the block')
                    e = e or walk(n//2, opened + [s])
                    if e:
                        return e
                    if boom:
                        raise Boom()
                if boom:
                    return 'error of the block is swallowed'
            except Boom:
                pass
            e = same(imgs(r.mbexp), want(opened), 'data after the block')
            if e:
                return e
    e = walk(d['steps'], [])
    if e:
        return e
    for b, (x, o) in enumerate(zip(r.mbexp.singles, old)):
        if not np.array_equal(x.variance.array, o[1]) or not np.array_equal(
                x.mask.array, o[2]):
            return 'variance or mask of band %d' % b
    return survey.same(old, survey.snap(m), 'original data')

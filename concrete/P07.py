import itertools
import numpy as np
from metadetect import interpolate as it
RULE = 'enumeration of all masks of small shapes for the neighbour search; random ' \
       'images and masks for the interpolation'
N_QUICK = 4000
SHAPES = [(1, n) for n in range(1, 8)] + [(7, 1), (2, 2), (2, 3), (2, 4), (2, 5), (3, 3),
                                          (3, 4), (4, 3)]


def cases(rng, deep):
    for sh in SHAPES:
        for buff in range(4):
            yield dict(k='enum', sh=list(sh), buff=buff)
    yield dict(k='img', sh=[8, 9], p=0.0, buff=2, iso=1, mf=0.9, fill=False, seed=1)
    yield dict(k='img', sh=[8, 9], p=0.0, buff=2, iso=1, mf=0.9, fill=True, seed=1)
    yield dict(k='img', sh=[8, 9], p=0.1, buff=2, iso=0, mf=0.9, fill=True, seed=1)
    yield dict(k='img', sh=[8, 9], p=2.0, buff=2, iso=1, mf=1.0, fill=False, seed=1)
    while True:
        yield dict(k='img', sh=[int(v) for v in rng.randint(2, 16, 2)],
                   p=float(rng.choice([0.02, 0.1, 0.4, 0.8, -1, -2])),
                   buff=int(rng.choice([1, 2, 4])), iso=int(rng.choice([0, 1, 1, 2, 4])),
                   mf=float(rng.choice([0.05, 0.5, 0.9, 1.0])),
                   fill=bool(rng.randint(2)), seed=int(rng.randint(1 << 30)))


def near(m, r, c, b):
    return m[max(0, r - b):r + b + 1, max(0, c - b):c + b + 1]


def search(m, buff, iso):
    ny, nx = m.shape
    bad, isl, good = [], [], set()
    for r in range(ny):
        for c in range(nx):
            if m[r, c]:
                bad.append(r*nx + c)
                isl.append(int(np.all(near(m, r, c, iso))))
                for y in range(max(0, r - buff), min(ny, r + buff + 1)):
                    for x in range(max(0, c - buff), min(nx, c + buff + 1)):
                        if not m[y, x]:
                            good.add(y*nx + x)
    return bad, isl, good


def check_search(m, buff, iso):
    m0 = m.copy()
    b, i, g = it._get_nearby_good_pixels(m, int(m.sum()), buff, iso)
    wb, wi, wg = search(m, buff, iso)
    if list(b) != wb:
        return 'bad pixels %s, expected %s' % (list(b), wb)
    if list(i) != wi:
        return 'isolated flags %s, expected %s' % (list(i), wi)
    if set(int(v) for v in g) != wg:
        return 'good pixels %s, expected %s' % (sorted(set(g)), sorted(wg))
    if not np.array_equal(m, m0):
        return 'mask modified'


def check(c):
    ny, nx = c['sh']
    if c['k'] == 'enum':
        for bits in range(1 << (ny*nx)):
            m = np.array([(bits >> q) & 1 for q in range(ny*nx)],
                         dtype=bool).reshape(ny, nx)
            iso = (bits*7 + c['buff'] + bits//3) % 4
            for s in (iso, c['buff']) if ny*nx > 8 else range(4):
                e = check_search(m, c['buff'], s)
                if e:
                    return 'mask %s buff %d iso %d: %s' % (m.tolist(), c['buff'], s, e)
        return
    rng = np.random.RandomState(c['seed'])
    if c['p'] >= 0:
        m = rng.uniform(size=(ny, nx)) < c['p']
    else:
        m = np.zeros((ny, nx), dtype=bool)
        h = int(rng.randint(1, 7))
        r, q = rng.randint(0, ny), rng.randint(0, nx)
        m[max(0, r - h):r + h, max(0, q - h):q + h] = True
        if c['p'] == -2:
            m |= rng.uniform(size=(ny, nx)) < 0.05
    im = rng.normal(size=(ny, nx))*3
    e = check_search(m, c['buff'], c['iso'])
    if e:
        return e
    im0, m0 = im.copy(), m.copy()
    wt = 4.0
    _, isl, good = search(m, c['buff'], c['iso'])
    none = m.sum() > c['mf']*m.size or m.all()
    iso = np.zeros_like(m)
    iso[np.where(m)] = np.array(isl, dtype=bool)
    rest = m & ~iso if c['fill'] else m
    pts = np.array([divmod(v, nx) for v in sorted(search(rest, c['buff'], c['iso'])[2])])
    if not none and rest.any() and (len(pts) < 4 or np.linalg.matrix_rank(
            pts[1:] - pts[0]) < 2):
        skip()
    kw = dict(image=im, bad_msk=m, maxfrac=c['mf'], buff=c['buff'], iso_buff=c['iso'],
              fill_isolated_with_noise=c['fill'])
    if c['fill'] and not none:
        for k in (dict(rng=np.random.RandomState(2)), dict(weight=wt)):
            try:
                it.interpolate_image_at_mask(**dict(kw, **k))
            except RuntimeError:
                continue
            return 'noise filling without weight or generator accepted'
    if c['fill']:
        kw.update(rng=np.random.RandomState(5), weight=wt)
    o = it.interpolate_image_at_mask(**kw)
    if not (np.array_equal(im, im0) and np.array_equal(m, m0)):
        return 'inputs modified'
    if (o is None) != none:
        return 'result %s with masked fraction %s of %s' % (
            'missing' if o is None else 'present', m.mean(), c['mf'])
    if o is None:
        return
    if o is im or np.shares_memory(o, im):
        return 'the result is the input image'
    w = im0.copy()
    if c['fill'] and iso.any():
        w[iso] = np.random.RandomState(5).normal(size=int(iso.sum()), scale=0.5)
    if rest.any():
        from scipy.interpolate import CloughTocher2DInterpolator
        f = CloughTocher2DInterpolator(pts, w[pts[:, 0], pts[:, 1]], fill_value=0.0)
        q = np.argwhere(rest)
        w[rest] = f(q)
    if not np.array_equal(o[~m], im0[~m]):
        return 'unmasked pixel changed'
    if np.any(np.abs(o - w) > 1e-8*(1 + np.abs(w))):
        return 'masked pixel %s is not as specified' % (
            tuple(np.argwhere(np.abs(o - w) > 1e-8*(1 + np.abs(w)))[0]),)


def skip():
    class Skip(Exception):
        pass
    raise Skip()

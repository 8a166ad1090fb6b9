import numpy as np
import ngmix
import sxdes
from metadetect import detect, defaults
from concrete import obs
RULE = 'random images (also smaller than the boxes), sheared Jacobians, positions on and ' \
       'off the image edges, random box sizes and numbers; catalogues from positions and ' \
       'from a stand-in detector; every column of every object compared'


def cases(rng, deep):
    while True:
        o = obs.gen(rng, multi=False, maxdim=60)
        ny, nx = o['dims']
        n = int(rng.choice([0, 1, 2, 5]))
        o['jac'] = [float(v) for v in np.round(rng.normal(size=6), 3)]
        o['jac'][2] += 3
        o['jac'][5] += 3
        y = np.round(rng.uniform(-0.9, ny - 0.1, n), 3)
        x = np.round(rng.uniform(-0.9, nx - 0.1, n), 3)
        k = rng.randint(0, 3)
        if k == 0:
            y, x = np.rint(np.abs(y)), np.rint(np.abs(x))
        yield dict(o=o, x=[float(v) for v in x], y=[float(v) for v in y],
                   b=[int(v) for v in rng.randint(2, 70, n)],
                   num=None if rng.randint(2) else
                   [int(v) for v in rng.permutation(50)[:n] + 1],
                   seg=bool(rng.randint(2)), psf=[int(v) for v in rng.randint(1, 9, 2)],
                   how=str(rng.choice(['pos', 'det'])), iso=float(rng.uniform(1, 9)))


def check(c):
    mb = obs.build(c['o'])
    rng = np.random.RandomState(c['o']['seed'])
    for ol in mb:
        ol[0].psf = ngmix.Observation(rng.normal(size=c['psf']), jacobian=ol[0].jacobian)
    ob = mb[0][0]
    want0 = obs.snap_all(mb)
    ny, nx = ob.image.shape
    n = len(c['x'])
    x, y, b = np.array(c['x']), np.array(c['y']), np.array(c['b'], dtype='i4')
    seg = rng.randint(0, 5, size=(ny, nx)).astype('i4') if c['seg'] else None
    if c['how'] == 'pos':
        num = None if c['num'] is None else np.array(c['num'])
        m = detect.CatalogMEDSifier(mb, x, y, b, number=num, seg=seg)
        wid = np.arange(n) if num is None else num - 1
        wnum = wid + 1
        wseg = np.zeros((ny, nx), dtype='i4') if seg is None else seg
    else:
        objs = np.zeros(n, dtype=[('number', 'i4'), ('x', 'f8'), ('y', 'f8'),
                                  ('iso_radius', 'f8'), ('flux', 'f8')])
        objs['x'], objs['y'], objs['number'] = x, y, np.arange(n) + 1
        objs['iso_radius'] = c['iso']
        objs['flux'] = rng.normal(size=n)
        wseg = rng.randint(0, 5, size=(ny, nx)).astype('i4')
        sxdes.run_sep = lambda **k: (objs.copy(), wseg)

        class M(detect.MEDSifier):
            def _get_box_sizes(self, cat):
                return b
        m = M(mb, dict(filter_kernel=[[1.0]], detect_thresh=0.8), {})
        wid, wnum = np.arange(n), np.arange(n) + 1
        if not np.array_equal(m.cat['flux'], objs['flux']):
            return 'detection columns changed'
        w = c['iso']*ob.jacobian.get_scale()
        if not np.allclose(m.cat['iso_radius_arcsec'], w, rtol=1e-5):
            return 'isophotal radius in arcsec'
    cat = m.cat
    if cat.size != n:
        return 'number of rows'
    if not np.array_equal(m.seg, wseg):
        return 'segmentation map'
    f4 = np.float32
    j = c['o']['jac']
    for i in range(n):
        for ax, p, dim in (('row', y[i], ny), ('col', x[i], nx)):
            half = int(b[i])//2
            ip = int(f4(p))
            s, e = max(0, ip - half + 1), min(dim, ip + half + 1)
            g = [cat['orig_' + ax][i, 0], cat['orig_start_' + ax][i, 0],
                 cat['orig_end_' + ax][i, 0], cat['cutout_' + ax][i, 0]]
            if g[:3] != [f4(p), s, e]:
                return 'object %d %s: %s, expected %s' % (i, ax, g, [p, s, e])
            if abs(float(g[3]) + s - float(f4(p))) > 1e-5*max(1, abs(p)):
                return 'object %d: start plus position in the stamp (%s)' % (i, ax)
            if cat['psf_cutout_' + ax][i, 0] != (c['psf'][ax == 'col'] - 1)/2:
                return 'psf centre ' + ax
        if cat['box_size'][i] != b[i] or cat['ncutout'][i] != 1:
            return 'box size or number of stamps'
        if cat['id'][i] != wid[i] or cat['number'][i] != wnum[i]:
            return 'id or number'
        g = [cat[k][i, 0] for k in ('dvdrow', 'dvdcol', 'dudrow', 'dudcol')]
        if g != j[2:]:
            return 'WCS derivatives %s, expected %s' % (g, j[2:])
    d = obs.differs_all(mb, want0)
    if d:
        return 'input changed: ' + d
    mm = m.get_multiband_meds()
    if len(mm.mlist) != len(mb):
        return 'number of bands of the stamp reader'
    for k in range(len(mb)):
        r = mm.mlist[k]
        if not np.array_equal(r.obs.image, mb[k][0].image):
            return 'stamp reader of band %d' % k
        if not np.array_equal(r._cat, cat) or not np.array_equal(r.seg, wseg):
            return 'stamp reader catalogue'

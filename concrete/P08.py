import numpy as np
from metadetect import detect
from concrete import obs
RULE = 'random observations, seg maps and stamp catalogues with starts from -box+1 to ' \
       'dim-1 in either axis; every stamp type of every object, read twice'
PAD = {'image': 0.0, 'weight': 0.0, 'seg': 0, 'bmask': 2**30, 'noise': 0.0}


def cases(rng, deep):
    while True:
        o = obs.gen(rng, nb=1, multi=False, maxdim=24)
        ny, nx = o['dims']
        n = int(rng.randint(1, 4))
        b = [int(v) for v in rng.randint(1, 40, n)]
        yield dict(o=o, b=b, r=[int(rng.randint(-v + 1, ny)) for v in b],
                   c=[int(rng.randint(-v + 1, nx)) for v in b], f4=bool(rng.randint(2)))


def check(c):
    ob = obs.build(c['o'])[0][0]
    rng = np.random.RandomState(c['o']['seed'])
    ny, nx = ob.image.shape
    seg = rng.randint(0, 9, size=(ny, nx)).astype('i4')
    n = len(c['b'])
    cat = np.zeros(n, dtype=[('orig_start_row', 'i8', 2), ('orig_start_col', 'i8', 2),
                             ('box_size', 'i4'), ('ncutout', 'i4')])
    cat['orig_start_row'][:, 0] = c['r']
    cat['orig_start_col'][:, 0] = c['c']
    cat['orig_start_row'][:, 1] = 99
    cat['box_size'] = c['b']
    cat['ncutout'] = 1
    m = detect.MEDSInterface(ob, seg, cat)
    old = obs.snap(ob)
    olds = seg.copy()
    cat0 = cat.copy()
    for rep in range(2):
        for t in PAD:
            src = olds if t == 'seg' else old[t]
            for i in range(n):
                o = m.get_cutout(i, 0, type=t)
                b = c['b'][i]
                want = np.full((b, b), PAD[t], dtype=src.dtype)
                for y in range(b):
                    for x in range(b):
                        yy, xx = y + c['r'][i], x + c['c'][i]
                        if 0 <= yy < ny and 0 <= xx < nx:
                            want[y, x] = src[yy, xx]
                if not obs.eqv(o, want):
                    return '%s stamp %d differs' % (t, i)
                o[:] = 77
                n_ = obs.differs(obs.snap(ob), old)
                if n_ or not np.array_equal(seg, olds):
                    return 'source image changed: %s' % n_
    if not np.array_equal(m.get_cutout(0, 0, type='psf'), old['psf']):
        return 'psf stamp'
    if not np.array_equal(cat, cat0):
        return 'catalogue changed'
    for t in ('mfrac', 'ormask', 'bad', '', 'Image'):
        try:
            m.get_cutout(0, 0, type=t)
        except ValueError:
            pass
        else:
            return 'type %r accepted' % t

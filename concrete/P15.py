import copy
import numpy as np
import ngmix
from concrete import scene
RULE = 'runs on random scenes with unusable images, failing metacal, blank sheared ' \
       'images, all kinds of fitters and several band combinations; existence, keys, ' \
       'order and measured columns of the result compared with direct calls'
N_QUICK = 150
MIN = 12
FAULTS = ['ok']*8 + ['zero', 'masked', 'mfrac', 'mfrac_part', 'metacal', 'almost']


def cases(rng, deep):
    while True:
        d = scene.gen(rng)
        yield dict(d=d, seed=int(rng.randint(1 << 30)), fault=str(rng.choice(FAULTS)),
                   blank=[t for t in scene.TYPES if not rng.randint(6)])


def spoil(mb, fault, rng, conf):
    """returns True if nothing can be measured"""
    b = rng.randint(len(mb))
    o = mb[b][0]
    n = conf.get('nodet_flags', 0)
    if fault == 'zero':
        o.set_weight(np.zeros_like(o.weight))
        return True
    if fault == 'masked':
        if n == 0:
            return False
        o.set_bmask(o.bmask | n)
        return True
    if fault == 'mfrac':
        for ol in mb:
            ol[0].set_mfrac(np.ones_like(o.image))
        return True
    if fault == 'mfrac_part':       # one band only
        o.set_mfrac(np.ones_like(o.image))
        return len(mb) == 1
    if fault == 'almost':
        w = np.zeros_like(o.weight)
        w[3, 4] = 2
        bm = o.bmask | n
        bm[5, 6] = 0
        mf = np.ones_like(w)
        mf[8, 2] = 0.5
        for ol in mb:
            ol[0].set_mfrac(mf)
        o.set_weight(w)
        o.set_bmask(bm)
    return False


def check(c):
    from metadetect import metadetect as mm
    rng = np.random.RandomState(c['seed'])
    conf = scene.config(rng)
    mb = scene.build(c['d'])
    none = spoil(mb, c['fault'], rng, conf)
    sb, db, combs = scene.combos(rng, len(mb))
    types = conf['metacal'].get('types', scene.TYPES)
    kw = {}
    if sb is not None:
        kw['shear_band_combs'] = copy.deepcopy(sb)
    if db is not None:
        kw['det_band_combs'] = copy.deepcopy(db)
    with scene.Metacal(c['fault'] == 'metacal', c['blank']) as mc:
        if c['seed'] % 2:
            got = mm.do_metadetect(copy.deepcopy(conf), mb, np.random.RandomState(1), **kw)
        else:
            md = mm.Metadetect(copy.deepcopy(conf), mb, np.random.RandomState(1), **kw)
            try:
                md.result
                return 'a result before the run'
            except RuntimeError:
                pass
            md.go()
            got = md.result
    if none and mc.calls:
        return 'metacal of data that cannot be measured'
    if none or c['fault'] == 'metacal':
        return None if got is None else 'a result although nothing can be measured'
    if got is None:
        return 'no result although it can be measured'
    if set(got) != set(types):
        return 'types %s, expected %s' % (sorted(got), sorted(types))
    sh = scene.Metacal(False, c['blank'])(mb, types=types)
    for t in types:
        rows = []
        for s, d in combs:
            cat, lst, r = scene.measure(conf, sh[t], s, d)
            if r is not None:
                rows.append((cat, r, ''.join(str(x) for x in sorted(d))))
        if not rows:
            if got[t] is not None:
                return 'rows of %s although nothing was found' % t
            continue
        if got[t] is None:
            return 'no rows of %s, expected %d' % (t, sum(len(r[1]) for r in rows))
        want = np.hstack([r[1] for r in rows])
        if len(got[t]) != len(want):
            return '%d rows of %s, expected %d' % (len(got[t]), t, len(want))
        m = scene.differ(got[t], want)
        if m:
            return '%s: %s' % (t, m)
        for n, k in (('sx_row', 'y'), ('sx_col', 'x')):
            w = np.hstack([r[0][k] for r in rows])
            if not np.allclose(got[t][n], w, rtol=1e-6):
                return '%s: rows are not in detection order' % t
        w = np.hstack([[r[2]]*len(r[1]) for r in rows])
        if not np.array_equal(got[t]['det_bands'], w):
            return '%s: detection bands' % t
    return None

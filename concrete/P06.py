import copy
import numpy as np
from metadetect import masking as mk
from metadetect.interpolate import interpolate_image_at_mask
from concrete import obs, P02, P03
RULE = 'random multi-band multi-epoch observations, hole lists, methods and expansion ' \
       'radii; every array of every epoch is compared with the per-pixel specification'


def cases(rng, deep):
    # the whole image covered: interpolation is impossible
    for meth in ('interp', 'interp-noise', 'apodize'):
        for ex in (0.0, 1.5):
            yield dict(o=obs.gen(rng, maxdim=9), x=[3.0], y=[3.0], r=[30.0], h=0.3,
                       m=meth, s=False, ex=ex, iso=1, bits=[4, 64, 1024], seed=3)
    while True:
        s = bool(rng.randint(2))
        o = obs.gen(rng, square=s, maxdim=int(rng.choice([8, 14, 20])))
        ny, nx = o['dims']
        n = int(rng.randint(0, 4))
        yield dict(
            o=o, y=[float(v) for v in np.round(rng.uniform(-3, ny + 3, n), 2)],
            x=[float(v) for v in np.round(rng.uniform(-3, nx + 3, n), 2)],
            r=[float(v) for v in np.round(rng.uniform(0, 6, n), 2)],
            h=float(np.round(rng.choice([0.05, 0.3, 1.0])*rng.uniform(0.5, 1.5), 3)),
            m=str(rng.choice(['interp', 'interp-noise', 'apodize', 'nonsense'],
                             p=[0.35, 0.3, 0.3, 0.05])),
            s=s, ex=float(rng.choice([0, 0, 0.5, 2.3])), iso=int(rng.choice([1, 1, 2, 4])),
            bits=[int(b) for b in rng.permutation([1, 4, 64, 1024, 2**20])[:3]],
            seed=int(rng.randint(1 << 30)))


def mask(c, extra=0.0):
    d = dict(d=c['o']['dims'], x=c['x'], y=c['y'], r=[v + extra for v in c['r']],
             s=c['s'])
    return P02.cover(d)


def ap(c):
    d = dict(d=c['o']['dims'], x=c['x'], y=c['y'], r=c['r'], h=c['h'])
    return P03.want(d, c['s'])


def check(c):
    mb = obs.build(c['o'])
    want = obs.snap_all(mb)
    fb, ib, eb = c['bits']
    m = mask(c)
    if c['ex'] > 0:
        em = mask(c, c['ex'])
        for ol in want:
            for s in ol:
                s['bmask'] = np.where(em, s['bmask'] | eb, s['bmask'])
    rng = np.random.RandomState(c['seed'])
    fail = []
    if c['m'] == 'apodize':
        t = ap(c)

        def apodized(s, lo):
            s = dict(s)
            s['image'] = s['image']*t
            s['noise'] = s['noise']*t
            s['weight'] = np.where(lo, 0.0, s['weight'])
            s['bmask'] = np.where(lo, s['bmask'] | fb, s['bmask'])
            if s['mfrac'] is not None:
                s['mfrac'] = np.where(lo, 1.0, s['mfrac'])
            return s
        old = want
        # pixels inside a hole where the profile is one up to rounding may count as one
        amb = m & (np.abs(t - 1) < 1e-9)
        want, no = [[[apodized(s, lo) for s in ol] for ol in old]
                    for lo in ((t < 1 - 1e-9) | amb, (t < 1 - 1e-9) & ~amb)]
    elif c['m'] != 'nonsense' and np.any(m):
        for ol in want:
            for s in ol:
                wt = np.where(m, 0.0, s['weight'])
                ok = not np.all(m)
                if ok:
                    pos = wt[wt > 0]
                    w = np.median(pos) if pos.size else np.nan
                    kw = dict(bad_msk=m.copy(), maxfrac=1.0, iso_buff=c['iso'], rng=rng,
                              fill_isolated_with_noise=c['m'] == 'interp-noise', weight=w)
                    try:
                        a = interpolate_image_at_mask(image=s['image'].copy(), **kw)
                        b = interpolate_image_at_mask(image=s['noise'].copy(), **kw)
                    except Exception:
                        raise_skip()
                    ok = a is not None and b is not None
                s['weight'] = wt
                s['bmask'] = np.where(m, s['bmask'] | fb, s['bmask'])
                if s['mfrac'] is not None:
                    s['mfrac'] = np.where(m, 1.0, s['mfrac'])
                if ok:
                    if np.any((a != s['image']) & ~m):
                        return 'interpolation changed an unmasked pixel'
                    s['image'], s['noise'] = a, b
                    s['bmask'] = np.where(m, s['bmask'] | ib, s['bmask'])
                else:
                    s['weight'] = np.zeros_like(wt)
                    s['bmask'] = s['bmask'] | fb
                    if s['mfrac'] is not None:
                        s['mfrac'] = np.ones_like(s['mfrac'])
    kw = dict(mbobs=mb, method=c['m'], mask_expand_rad=c['ex'],
              xm=np.array(c['x'], dtype=float), ym=np.array(c['y'], dtype=float),
              rm=np.array(c['r'], dtype=float), symmetrize=c['s'], mask_bit_val=fb,
              expand_mask_bit_val=eb, interp_bit_val=ib, ap_rad=c['h'],
              iso_buff=c['iso'], rng=np.random.RandomState(c['seed']))
    keep = copy.deepcopy({k: kw[k] for k in ('xm', 'ym', 'rm')})
    try:
        mk.apply_foreground_masking_corrections(**kw)
    except RuntimeError:
        if c['m'] != 'nonsense':
            raise
    else:
        if c['m'] == 'nonsense':
            return 'an unknown method is accepted'
    for k in keep:
        if not np.array_equal(keep[k], kw[k]):
            return '%s was modified' % k
    if c['m'] == 'nonsense':
        for ol in want:
            for s in ol:
                s.pop('bmask')
    if c['m'] == 'apodize':
        want = obs.settle(mb, want, no, amb)
    d = obs.differs_all(mb, want, 1e-9)
    if d:
        return '%s: %s differs from the specification' % (c['m'], d)
    for ol in mb:
        for o in ol:
            if o.ignore_zero_weight and not np.any(o.weight > 0):
                return 'zero-weight observation that does not accept zero weight'


def raise_skip():
    class Skip(Exception):
        pass
    raise Skip()

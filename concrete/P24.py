import numpy as np
import ngmix
from metadetect.mfrac import measure_mfrac
from concrete import obs
RULE = 'random masked-fraction images and positions (inside, at corners, just outside), ' \
       'box sizes also 0 and negative, several WCS and aperture sizes; averages recomputed ' \
       'from the image'
N_QUICK = 250
EDGE = 2**30


def cases(rng, deep):
    while True:
        o = obs.gen(rng, nb=1, multi=False, ny=int(rng.randint(4, 40)),
                    nx=int(rng.randint(4, 40)), zeros=float(rng.choice([0, 0.5])))
        o['mfrac'] = [int(rng.randint(2))]
        th, sc = rng.uniform(0, 6.3), rng.choice([0.2, 0.263, 0.6])
        o['jac'] = [float(rng.uniform(0, 20)), float(rng.uniform(0, 20)),
                    float(sc*np.cos(th)), float(-sc*np.sin(th)*1.1),
                    float(sc*np.sin(th)), float(sc*np.cos(th)*1.05)]
        n = int(rng.choice([0, 1, 3, 6]))
        yield dict(o=o, y=[float(v) for v in rng.uniform(-0.5, o['dims'][0] - 0.5, n)],
                   x=[float(v) for v in rng.uniform(-0.5, o['dims'][1] - 0.5, n)],
                   b=[int(v) for v in rng.choice([-1, 0, 2, 3, 4, 8, 16, 31, 32, 64], n)],
                   fwhm=[None, 0.7, 1.2, 3.0][rng.randint(4)],
                   edge=int(rng.randint(8) == 0))


def check(c):
    ob = obs.build(c['o'])[0][0]
    rng = np.random.RandomState(c['o']['seed'] + 1)
    if c['edge']:
        bm = ob.bmask.copy()
        bm[rng.uniform(size=bm.shape) < 0.5] |= EDGE
        ob.bmask = bm
    mf = rng.uniform(0, 1, ob.image.shape)*(rng.uniform(size=ob.image.shape) < 0.7)
    x, y, b = np.array(c['x']), np.array(c['y']), np.array(c['b'], dtype='i4')
    old = obs.snap(ob)
    args = [v.copy() for v in (mf, x, y, b)]
    r = measure_mfrac(mfrac=mf, x=x, y=y, box_sizes=b, obs=ob, fwhm=c['fwhm'])
    d = obs.differs(obs.snap(ob), old)
    if d or not all(np.array_equal(p, q) for p, q in zip((mf, x, y, b), args)):
        return ('input', 'the observation or the arguments were modified: %s' % d)
    if np.shape(r) != (len(x),):
        return 'result of shape %s for %d positions' % (np.shape(r), len(x))
    fw = 1.2 if c['fwhm'] is None else c['fwhm']
    T = ngmix.moments.fwhm_to_T(fw)
    ny, nx = mf.shape
    j = c['o']['jac']
    for i in range(len(x)):
        num = den = 0.0
        amb = live = False
        if b[i] > 0:
            h = b[i]//2
            # stamps that would start outside the image start at its edge
            y0, x0 = max(0, int(y[i]) - h + 1), max(0, int(x[i]) - h + 1)
            for p in range(y0, min(ny, y0 + b[i])):
                for q in range(x0, min(nx, x0 + b[i])):
                    live |= bool(old['weight'][p, q] > 0)
                    if old['bmask'][p, q] & EDGE:
                        continue
                    dr, dc = p - y[i], q - x[i]
                    v, u = j[2]*dr + j[3]*dc, j[4]*dr + j[5]*dc
                    r2 = u*u + v*v
                    if abs(r2 - 4*fw*fw) < 1e-5*(4*fw*fw):
                        amb = True
                    if r2 < 4*fw*fw:
                        w = np.exp(-r2/T)
                        num += w*mf[p, q]
                        den += w
        if not live:        # a stamp without usable pixels cannot be read
            den = 0.0
        elif amb:
            continue
        if live and b[i] > 0 and den <= 0:
            continue        # no pixel within the aperture: precondition
        e = num/den if den > 0 else 1.0
        if not abs(r[i] - e) < 1e-4:
            return 'position %d (%s, %s), box %d: %s, expected %s' % (
                i, y[i], x[i], b[i], r[i], e)

"""survey measurement: one row per detected object"""
import types
from engine.lib import *
from engine import obsmodel as om, lsstmodel as lm, rt
from engine.loader import Auto
from engine.rt import SList
from engine.arr import SRec
from engine.values import NAN, BVS
from .P28 import Z, rv, fin
from .P32 import kd
from . import P33

META = dict(
    assumptions=['the fits are those of P19, P20 and P22 (contracts: one row for the given '
                 'observations); lsst sources, footprints, peaks, detection, deblending and '
                 'wcs are external; a catalogue lists each source once',
                 'the extractor of the scarlet path is that of P33'],
    bounds=['catalogues of up to three sources for the extractor (measurement, coadd '
            'and rows: any number)', 'up to three sheared images per run', 'columns of up to three shear bands'])
MOD = 'metadetect.lsst.measure'
EDGE_HIT, ZERO_WEIGHTS, NO_ATTEMPT = None, None, None


def uf(n, *s):
    return z3.Function(n, *s)


class Source:
    __sym_heap__ = True
    __sym_last__ = True

    def __init__(self, ix):
        self.ix = ix

    def __sym_vmap__(self, f):
        return Source(f(self.ix))

    def getId(self):
        return SInt(self.ix)


class Stamp(Source):
    def __sym_vmap__(self, f):
        return Stamp(f(self.ix))


class Ctx:
    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False


def row(**cols):
    descr = [(n, 'f8' if k == 'f' else 'i4') for n, (k, v) in cols.items()]
    return SRec((1,), {n: SArr.make((1,), lambda i, v=v: v, k, n) for n, (
        k, v) in cols.items()}, descr)


def loop(S):
    x = lm.ext()
    for n, c in (('admom', 'AdmomFitter'), ('guessers', 'GMixPSFGuesser'),
                 ('runners', 'PSFRunner')):
        a = x['ngmix.' + n] = Auto('ngmix.' + n)
        setattr(a, c, lambda **k: 'contract')
        setattr(x['ngmix'], n, a)
    S.world(x)
    f = S.fn(MOD, 'measure')
    m = S.w.load(MOD)
    pf = S.w.load('metadetect.procflags')

    def run():
        ns, n = nat('nsource'), nat('nchild')
        CTX.assume(n.e <= ns.e)
        STAT, G, P, BM = uf('STAT', I, I), uf('G', I, R), uf('P', I, R), uf('BM', I, I)
        DG, DP = real('DG'), real('DP')
        size = nat('size', 1)
        seen = {}

        class Sources:
            __sym_heap__ = True

            def __sym_len__(self):
                return ns
        sources = Sources()
        kids = SList.sym(n.e, lambda k: Source(k))
        bands = SList.sym(z3.IntVal(2), lambda k: lm.Band(k))
        mb = types.SimpleNamespace(
            bands=bands, getBBox=lambda: 'bbox',
            singles=[types.SimpleNamespace(getWcs=lambda: 'wcs')])

        class Ex:
            def children(self):
                return kids

            def add_source(self, sid):
                prove('source is added for its own stamp', to_int_e(lift(sid)) == cur())
                return Ctx()

            def get_mbobs(self, source_id, stamp_size):
                k = to_int_e(lift(source_id))
                prove('stamp of this source', k == cur())
                prove('configured stamp size', to_int_e(lift(stamp_size)) == size.e)
                if SBool(STAT(k) == 1):
                    raise om.EXC['LengthError']('edge')
                if SBool(STAT(k) == 2):
                    raise m.util.AllZeroWeightError('zero')
                return Stamp(k)

        def cur():
            return (CTX.loopvars or CTX.exits or [Z])[-1]

        def get_ex(mbexp, sources, model_data):
            prove('extractor of these data', z3.BoolVal(
                mbexp is mb and sources is sources_ and model_data == 'model'))
            return Ex()
        sources_ = sources
        m._get_extractor = get_ex
        m.get_pgauss_fitter = lambda c: ('pgauss', c)
        m.util.extract_shear_band_indices = lambda mbexp, config: 'shear'

        class Task:
            def callMeasure(self, source, exp):
                prove('measured on the detection exposure', And(z3.BoolVal(
                    exp == 'detexp'), source.ix == cur()))

        def bmask(source, exposure):
            prove('mask of the detection exposure', z3.BoolVal(exposure == 'detexp'))
            return SInt(BM(source.ix))
        m.get_bmask = bmask

        def wavg_struct(nband, model, shear_bands=None):
            if model == 'gauss':
                prove('shear bands of the columns', z3.BoolVal(shear_bands == 'shear'))
                return row(g=('f', DG))
            prove('models', z3.BoolVal(model == 'pgauss'))
            return row(p=('f', DP))
        m.get_wavg_output_struct = wavg_struct

        def gauss(mbobs, bmask_flags, psf_runner, rng, shear_bands=None):
            prove('fit of this source', mbobs.ix == cur())
            prove('fit options', z3.BoolVal(bmask_flags == 0 and rng == 'rng'
                                            and shear_bands == 'shear'))
            return row(g=('f', SReal(G(mbobs.ix))))

        def wavg(mbobs, fitter, bmask_flags, **kw):
            prove('fit of this source', mbobs.ix == cur())
            prove('fit options', z3.BoolVal(bmask_flags == 0 and not kw and fitter == (
                'pgauss', 'pg')))
            return row(p=('f', SReal(P(mbobs.ix))))
        m.fit_mbobs_gauss, m.fit_mbobs_wavg = gauss, wavg

        def combined(g, p):
            return row(g=('f', g['g'][0]), p=('f', p['p'][0]), stamp_flags=('i', SInt(Z)))
        m._get_combined_struct = combined

        def output(wcs, source, res, bmask, stamp_size, exp_bbox):
            prove('row of these data', And(z3.BoolVal(wcs == 'wcs' and exp_bbox == 'bbox'),
                                           to_int_e(lift(stamp_size)) == size.e))
            return row(g=('f', res['g'][0]), p=('f', res['p'][0]),
                       stamp_flags=('i', res['stamp_flags'][0]),
                       src=('i', SInt(source.ix)), bmask=('i', bmask))
        m.get_output = output
        r = f(mb, 'detexp', sources, 'model', Task(),
              {'pgauss': 'pg', 'stamp_size': size}, 'rng')
        if r is None:
            prove('no result only without objects', Or(ns.e == 0, n.e == 0))
            return
        prove('no result without objects', And(ns.e > 0, n.e > 0))
        prove('one row per object', to_int_e(lift(rt.len_(r))) == n.e)
        k = idx('k', n)
        prove('rows in the order of the objects', to_int_e(lift(
            r['src'].elem((k,)))) == k)
        prove('own mask value', to_int_e(lift(r['bmask'].elem((k,)))) == BM(k))
        ok = And(STAT(k) != 1, STAT(k) != 2)
        g, p = rv(r['g'].elem((k,))), rv(r['p'].elem((k,)))
        prove('own fit, or no values', And(g.e == If(ok, G(k), DG.e),
                                           p.e == If(ok, P(k), DP.e)))
        prove('stamp flags', to_int_e(lift(r['stamp_flags'].elem((k,)))) == If(
            STAT(k) == 1, pf.EDGE_HIT, If(STAT(k) == 2, pf.ZERO_WEIGHTS, 0)))
        prove('flags are set', z3.BoolVal(
            pf.EDGE_HIT not in (0, pf.ZERO_WEIGHTS) and pf.ZERO_WEIGHTS != 0))
    S.explore(run)


def anyrow(name, descr):
    fields = {}
    for d in descr:
        q = d[2] if len(d) > 2 else ()
        sh = (1,) + (tuple(q) if isinstance(q, tuple) else (q,))
        k = 'f' if d[1][0] == 'f' else 'i' if d[1][0] == 'i' else 'U'
        if k == 'U':
            fields[d[0]] = SArr.make(sh, lambda i: '01', 'U', d[0])
        else:
            fields[d[0]] = inp('%s_%s' % (name, d[0]), sh, k)
    return SRec((1,), fields, list(descr))


def same(a, b, what):
    """two columns hold the same values"""
    if a.kind in 'US':
        prove(what, z3.BoolVal(str(a.elem((Z,))) == str(b.elem((Z,)))))
        return
    prove(what, z3.BoolVal(len(a.shape) == len(b.shape)))
    q = tuple(idx('q', SInt(ix(n))) for n in b.shape)
    prove(what, And(*[ix(m) == ix(n) for m, n in zip(a.shape, b.shape)]))
    if a.kind == 'i':
        prove(what, to_int_e(lift(a.elem(q))) == to_int_e(lift(b.elem(q))))
    else:
        u, v = rv(a.elem(q)), rv(b.elem(q))
        prove(what, And(u.e == v.e, kd(u) == kd(v)))


def columns(nb):
    def go(S):
        S.world(lm.ext())
        f = S.fn(MOD, '_get_combined_struct')
        fit = S.w.load('metadetect.fitting')

        def run():
            t = [anyrow(n, list(fit.get_wavg_output_struct(
                nband=nb, model=n, shear_bands=[0]).descr)) for n in ('gauss', 'pgauss')]
            old = [r.copy() for r in t]
            r = f(*t)
            g, p = old
            skip = [c for c in p.fields if 'psf' in c or c in (
                'pgauss_g', 'pgauss_g_cov', 'shear_bands')]
            want = list(g.fields) + [c for c in p.fields if c not in skip]
            prove('columns of both fits and stamp flags', z3.BoolVal(
                sorted(r.fields) == sorted(want + ['stamp_flags'])))
            prove('one row', to_int_e(lift(rt.len_(r))) == 1)
            for c in want:
                o = g if c in g.fields else p
                same(r.fields[c], o.fields[c], 'values of the fits')
            prove('no stamp flags yet', to_int_e(lift(r['stamp_flags'].elem((Z,)))) == 0)
            for a, b in zip(t, old):
                for c in b.fields:
                    same(a.fields[c], b.fields[c], 'the fits are not changed')
        S.explore(run)
    return go


def mayb(name):
    bad = CTX.fresh(name + ' bad', B)
    return SReal(CTX.fresh(name, R), If(bad, z3.IntVal(NAN), z3.IntVal(FIN)))


def output(S):
    mask = lm.MaskCls()
    x = lm.ext(mask=mask)
    S.world(x)
    f = S.fn(MOD, 'get_output')
    S.fn(MOD, 'get_output_struct')
    pf = S.w.load('metadetect.procflags')

    def run():
        cen = lm.Pt(mayb('cx'), mayb('cy'))
        CTX.assume(kd(cen.x) == kd(cen.y))
        ipk = lm.Pt(SInt(CTX.fresh('px', I)), SInt(CTX.fresh('py', I)))
        pk = lm.Pt(real('pcx'), real('pcy'))
        RA, DEC = real('ra'), real('dec')
        sky = types.SimpleNamespace(
            getRa=lambda: types.SimpleNamespace(asDegrees=lambda: RA),
            getDec=lambda: types.SimpleNamespace(asDegrees=lambda: DEC))
        asked = []

        def at(p):
            asked.append(p)
            return sky
        wcs = types.SimpleNamespace(pixelToSky=at)
        peak = types.SimpleNamespace(getI=lambda: ipk, getCentroid=lambda: pk)
        fp = types.SimpleNamespace(getPeaks=lambda: [peak])
        src = types.SimpleNamespace(getCentroid=lambda: cen, getFootprint=lambda: fp)
        res = row(v=('f', mayb('v')), stamp_flags=('i', SInt(CTX.fresh('sf', I))))
        old = res.copy()
        bm = SBits(CTX.fresh('bmask', BVS))
        size = nat('size', 1)
        box = lm.Box(SInt(CTX.fresh('x0', I)), SInt(CTX.fresh('y0', I)), nat('w', 1),
                     nat('h', 1))
        r = f(wcs=wcs, source=src, res=res, bmask=bm, stamp_size=size, exp_bbox=box)
        prove('one row', to_int_e(lift(rt.len_(r))) == 1)
        for c in old.fields:
            same(r.fields[c], old.fields[c], 'measurements are kept')
            same(res.fields[c], old.fields[c], 'measurements are not changed')

        def val(c):
            return rv(r[c].elem((Z,)))

        def num(c, e):
            return to_int_e(lift(r[c].elem((Z,)))) == to_int_e(lift(e))
        bad = kd(cen.y) == NAN
        prove('stamp size', num('stamp_size', size))
        prove('corner of the image', And(num('row0', box.y0), num('col0', box.x0)))
        for c, d, u, w, i in (('row', 'row_diff', cen.y, pk.y, ipk.y),
                              ('col', 'col_diff', cen.x, pk.x, ipk.x)):
            prove('centroid, or the peak without centroid', And(
                kd(val(c)) == FIN, val(c).e == If(bad, w.e, u.e)))
            prove('offset from the peak, or none', And(
                kd(val(d)) == If(bad, z3.IntVal(NAN), z3.IntVal(FIN)),
                z3.Implies(Not(bad), val(d).e == u.e - to_real(i).e)))
        prove('sky position of the centroid', And(
            z3.BoolVal(len(asked) == 1 and asked[0] is cen), val('ra').e == RA.e,
            val('dec').e == DEC.e, fin(val('ra')), fin(val('dec'))))
        prove('mask value without the detection bit', bits_of(lift(
            r['bmask'].elem((Z,)))) == (bm.e & ~bits_of(mask.bit('DETECTED'))))
        prove('nothing else is measured yet', And(
            num('psfrec_flags', pf.NO_ATTEMPT), num('ormask', 0),
            *[kd(rv(r[c].elem((Z,) + t))) == NAN for c, t in (
                ('mfrac', ()), ('psfrec_T', ()), ('psfrec_g', (Z,)),
                ('psfrec_g', (z3.IntVal(1),)))]))
        prove('not tried is flagged', z3.BoolVal(pf.NO_ATTEMPT != 0))
    S.explore(run)


def masks(S):
    S.world(lm.ext())
    f, one = S.fn(MOD, 'get_bmasks'), S.fn(MOD, 'get_bmask')

    def run():
        n = nat('n')
        PX, PY = uf('PX', I, I, I), uf('PY', I, I, I)
        ny, nx = nat('ny', 1), nat('nx', 1)
        mask = inp('mask', (ny, nx), 'bits')

        class Mask:
            __sym_heap__ = True

            def __getitem__(self, p):
                return mask[p.y, p.x]
        exp = types.SimpleNamespace(mask=Mask())

        class Src(Source):
            def __sym_vmap__(self, g):
                return Src(g(self.ix))

            def getFootprint(self):
                return types.SimpleNamespace(getPeaks=lambda: SList.sym(
                    npk.e, lambda j: Peak(self.ix, j)))

        class Peak:
            __sym_heap__ = True

            def __init__(self, k, j):
                self.k, self.j = k, j

            def __sym_vmap__(self, g):
                return Peak(g(self.k), g(self.j))

            def getI(self):
                return lm.Pt(SInt(PX(self.k, self.j)), SInt(PY(self.k, self.j)))
        npk = nat('npeak', 1)
        for N, m in (('PX', nx), ('PY', ny)):
            CTX.input_facts[N] = lambda ch, N=N, m=m: [And(
                uf(N, I, I, I)(*ch) >= 0, uf(N, I, I, I)(*ch) < m.e)]

        def want(k):
            return bits_of(lift(mask.elem((PY(k, Z), PX(k, Z)))))
        j = idx('j', nat('one', 1))
        prove('mask value at the first peak', bits_of(lift(one(
            source=Src(j), exposure=exp))) == want(j))
        r = f(SList.sym(n.e, lambda k: Src(k)), exp)
        prove('one mask value per source', to_int_e(lift(rt.len_(r))) == n.e)
        if SBool(n.e > 0):
            k = idx('k', n)
            prove('in order', bits_of(lift(r[SInt(k)])) == want(k))
    S.explore(run)


def extractor(what):
    def go(S):
        S.world(lm.ext())
        m = S.w.load('metadetect.lsst.mbobs_extractor')

        def run():
            w = P33.World(S, m)
            src = w.src
            n = 0
            while n < 3 and SBool(CTX.fresh('more', B)):
                n += 1
            ids = list(P33.IDS[:n])
            nc = {s: nat('nchild') for s in ids}

            class Rec:
                def __init__(self, s):
                    self.s = s

                def __getitem__(self, c):
                    if c != 'deblend_nChild':
                        raise KeyError(c)
                    return nc[self.s]

                get = __getitem__

                def getId(self):
                    return self.s

                def getFootprint(self):
                    return src[self.s].getFootprint()
            recs = {s: Rec(s) for s in ids}

            class Cat:
                def __sym_iter__(self):
                    return SList(tuple(recs.values()))

                def __iter__(self):
                    return iter(recs.values())

                def find(self, s):
                    return recs.get(s)
            m.SourceCatalog = Cat
            cat = Cat()
            r = m.MBObsExtractor(w.mb, cat)
            kids = [s for s in ids if CTX.decide(nc[s].e == 0)]
            if what == 'children':
                prove('objects without children of their own, each once', z3.BoolVal(
                    sorted(r.child_ids()) == kids
                    and sorted(c.getId() for c in r.children()) == kids
                    and all(c is recs[c.getId()] for c in r.children())))
                w.untouched(w.mb.fam, 'the data stay')
            sid = ids[0] if ids and SBool(CTX.fresh('listed', B)) else 99
            ok = sid in kids
            if what == 'children':
                inside = False
                try:
                    with r.add_source(sid):
                        inside = True
                except ValueError:
                    prove('refused only for other sources', z3.BoolVal(not ok))
                    return
                prove('other sources are refused', z3.BoolVal(ok and inside))
                return
            size = nat('size', 1)
            clip = bool(SBool(CTX.fresh('clip', B)))
            ends = [w.x0.e, w.y0.e, w.x0.e + w.nx.e, w.y0.e + w.ny.e]
            inside, want = z3.BoolVal(True), None
            if ok:
                h = size.e/2
                px, py = w.peak[sid]
                want = [px - h, py - h, px + h + 1, py + h + 1]
                inside = And(ends[0] <= want[0], ends[1] <= want[1],
                             want[2] <= ends[2], want[3] <= ends[3])
                if clip:
                    want = [If(a >= b, a, b) for a, b in zip(want[:2], ends[:2])] + [
                        If(a <= b, a, b) for a, b in zip(want[2:], ends[2:])]
            m.util.get_mbexp = lambda exps: ('mbexp', exps)

            class Obs:
                __sym_heap__ = True

                def __init__(self, exp):
                    self.exp = exp

                def __sym_vmap__(self, f):
                    return Obs(rt.vmap(self.exp, f))

            def extract_obs(exp, source):
                prove('data of the source', z3.BoolVal(source is recs[sid]))
                if SBool(CTX.fresh('zero', B)):
                    raise m.util.AllZeroWeightError('zero')
                return Obs(exp)
            m.util.extract_obs = extract_obs
            try:
                f = r.get_mbobs if what == 'get_mbobs' else r.get_stamp
                g = f(sid, stamp_size=size, clip=clip)
            except ValueError:
                prove('refused only for other sources', z3.BoolVal(not ok))
                return
            except om.EXC['LengthError']:
                prove('refused only when the stamp does not fit', And(
                    z3.BoolVal(not clip), Not(inside)))
                return
            except m.util.AllZeroWeightError:
                return
            prove('other sources are refused', z3.BoolVal(ok))
            if not clip:
                prove('stamps that do not fit are refused', inside)
            b = idx('b', w.nb)
            if what == 'get_mbobs':
                prove('one observation list per band', to_int_e(lift(rt.len_(
                    g))) == w.nb.e)
                ol = g[SInt(b)]
                prove('one observation per band', to_int_e(lift(rt.len_(ol))) == 1)
                prove('band is recorded', ol.meta['band'].e == b)
                e = ol[0].exp
            else:
                prove('one exposure per band', And(z3.BoolVal(g[0] == 'mbexp'), to_int_e(
                    lift(rt.len_(g[1]))) == w.nb.e))
                e = g[1][SInt(b)]
            sh, xy = e.image.array.shape, e.getXY0()
            prove('box of the stamp', And(
                to_int_e(lift(xy.x)) == want[0], to_int_e(lift(xy.y)) == want[1],
                ix(sh[1]) == want[2] - want[0], ix(sh[0]) == want[3] - want[1]))
            q = (idx('y', SInt(ix(sh[0]))), idx('x', SInt(ix(sh[1]))))
            t = (b, q[0] + want[1] - w.y0.e, q[1] + want[0] - w.x0.e)
            for n in lm.PLANES:
                u, v = lift(getattr(e, n).array.elem(q)), lift(w.old[n](t))
                prove('pixels of the exposures', bits_of(u) == bits_of(v)
                      if n == 'mask' else rv(u).e == rv(v).e)
        S.explore(run)
    return go


def detection(S):
    x = lm.ext()

    class ExposureF(lm.Exp):
        def __new__(cls, e, *a, **k):
            return object.__new__(cls)

        def __init__(self, e, deep=False):
            if isinstance(e, lm.Exp) and deep:
                self.__dict__.update(e.deep(ExposureFam).__dict__)
            else:
                raise Unsupported('exposure of %r' % (e,))

    def ExposureFam(fam, pre=()):
        r = lm.Exp(fam, pre)
        return r
    x['lsst.afw.image'].ExposureF = ExposureF

    class Scarlet:
        pass

    class Sdss:
        pass
    for n, c in (('lsst.meas.extensions.scarlet', dict(ScarletDeblendTask=Scarlet)),
                 ('lsst.afw.table', dict(SourceTable=types.SimpleNamespace(
                     make=lambda schema: 'table')))):
        a = x[n] = Auto(n)
        for k, v in c.items():
            setattr(a, k, v)
        up, _, last = n.rpartition('.')
        if up in x:
            setattr(x[up], last, a)
    S.world(x)
    m = S.w.load(MOD)
    for n in ('run', '_run_with_sdss', '_run_with_scarlet'):
        S.fn(MOD, 'DetectAndDeblendTask.' + n)

    def run():
        nb, ny, nx = nat('nb', 1), nat('ny', 1), nat('nx', 1)
        mb = lm.mk_mbexp('d', nb, ny, nx, lm.Geo(
            wcs=lambda b: ('wcs', b), xy0=lm.Pt(SInt(Z), SInt(Z)), psf=lambda b: 'psf',
            filt='f'))
        D = mb.fam.data
        old = {n: a.snap() for n, a in D.items()}
        t = object.__new__(m.DetectAndDeblendTask)
        scar = bool(SBool(CTX.fresh('scarlet', B)))
        found = bool(SBool(CTX.fresh('found', B)))
        usable = bool(SBool(CTX.fresh('usable', B)))
        calls = []
        co = lm.Exp(lm.Fam('coadd', {n: inp('c_' + n, (ny, nx), 'bits' if n == 'mask'
                                            else 'f') for n in lm.PLANES}, 0,
                           lm.Geo('wcs', lm.Pt(SInt(Z), SInt(Z)), 'psf', 'f')))
        if SBool(CTX.fresh('float', B)):
            co.__class__ = ExposureF

        def coadd(exps):
            calls.append('coadd')
            prove('coadd of all bands', to_int_e(lift(rt.len_(exps))) == nb.e)
            e = exps[SInt(idx('b', nb))]
            prove('exposures of the data', z3.BoolVal(e.fam is mb.fam))
            return co if usable else None
        m.util.coadd_exposures = coadd

        class Detect:
            def run(self, table, exp):
                calls.append(('detect', exp))
                return types.SimpleNamespace(sources='found') if found else None
        t.detect = Detect()

        class D1(Scarlet if scar else Sdss):
            schema = objectSchema = 'schema'

            def run(self, *a, **k):
                if scar:
                    prove('scarlet gets the data and the detections', z3.BoolVal(
                        not a and k['mExposure'] is mb and k['mDeconvolved'] == 'dec'
                        and k['mergedSources'] == 'found'))
                    return types.SimpleNamespace(scarletModelData='model',
                                                 deblendedCatalog='deblended')
                prove('deblending of the detections', z3.BoolVal(
                    not k and a[1] == 'found'))
                calls.append(('deblend', a[0]))
        t.deblend = D1()
        m.util.make_deconvolved_mbexp = lambda e, s: 'dec' if (
            e is mb and s == 'found') else None

        def update(modelData, catalog, **k):
            prove('footprints of the deblended sources', z3.BoolVal(
                modelData == 'model' and catalog == 'deblended'))
            calls.append('footprints')
        m.updateCatalogFootprints = update
        r = t.run(mb)
        s, e, md = r
        n = [c for c in calls if isinstance(c, tuple) and c[0] == 'detect']
        if CTX.decide(nb.e > 1) and not usable:
            prove('nothing usable gives no objects', z3.BoolVal(
                len(s) == 0 and e is None and md is None and not n))
        else:
            one = CTX.decide(nb.e == 1)
            prove('coadd exactly for several bands', z3.BoolVal(calls.count(
                'coadd') == (0 if one else 1)))
            prove('one detection, on the exposure that is returned', z3.BoolVal(
                len(n) == 1 and n[0][1] is e and isinstance(e, lm.Exp)))
            d = [c[1] for c in calls if isinstance(c, tuple) and c[0] == 'deblend']
            if not found:
                prove('no detection gives no objects', z3.BoolVal(
                    len(s) == 0 and md is None and not d))
            elif scar:
                prove('deblended sources and their models', z3.BoolVal(
                    s == 'deblended' and md == 'model' and 'footprints' in calls))
            else:
                prove('deblended detections', z3.BoolVal(
                    s == 'found' and md is None and len(d) == 1 and d[0] is e))
            p = (idx('y', ny), idx('x', nx))
            for n in lm.PLANES:
                u = lift(getattr(e, n).array.elem(p))
                v = lift(old[n]((Z,) + p) if one else co.fam.data[n].elem(p))
                prove('detection exposure is the band or the coadd', bits_of(
                    u) == bits_of(v) if n == 'mask' else rv(u).e == rv(v).e)
        p = (idx('b', nb), idx('y', ny), idx('x', nx))
        for n in lm.PLANES:
            u, v = lift(D[n].elem(p)), lift(old[n](p))
            prove('the data stay', bits_of(u) == bits_of(v) if n == 'mask'
                  else rv(u).e == rv(v).e)
    S.explore(run)


LMD = 'metadetect.lsst.metadetect'


def each_image(S):
    x = lm.ext()
    S.world(x)
    f = S.fn(LMD, 'MetadetectTask.run')
    m = S.w.load(LMD)

    def run():
        NS = types.SimpleNamespace
        types_ = []
        for t in ('noshear', '1p', '1m', '2p', '2m'):
            if len(types_) < 3 and SBool(CTX.fresh('type', B)):
                types_.append(t)
        sky, stats = [bool(SBool(CTX.fresh(n, B))) for n in ('sky', 'stats')]
        rec = 'fitgauss' if SBool(CTX.fresh('fitgauss', B)) else 'gauss'
        conf = {'detect': {}, 'metacal': {'types': 'types', 'reconv_type': rec}}
        mb = NS(name='data')
        log = []
        nothing = {t: bool(SBool(CTX.fresh('none', B))) for t in types_}
        mcal = {}
        for t in types_:
            class MB:
                bands = ['first', 'second']

                def __init__(self, t):
                    self.t = t

                def __getitem__(self, b):
                    return (self.t, b)
            mcal[t] = MB(t)

        def says(what, ok, r=None):
            prove(what, z3.BoolVal(bool(ok)))
            return r
        m.combine_ormasks = lambda a, b: says('masks of the run', (
            a is mb and b == 'ormasks'), 'ormask')
        m.get_mfrac_mbexp = lambda mbexp, mfrac_mbexp: says('masked fractions of the run', (
            mbexp is mb and mfrac_mbexp == 'mfracs'), ('mfrac', 'wgts'))

        def subtract(mbexp, thresh):
            says('sky of the data at the configured threshold', mbexp is mb
                 and thresh == 'thr')
            log.append('sky')
        m.subtract_sky_mbexp = subtract

        def psfs(mbexp, config, wgts, rng):
            says('PSF fits of the run', mbexp is mb and wgts == 'wgts' and rng == 'rng')
            log.append('psf')
            return pst
        pst = {'perband': 'perband'}
        m.fit_original_psfs_mbexp = psfs

        def metacal(mbexp, noise_mbexp, psf_stats, types):
            says('metacal of the run', mbexp is mb and noise_mbexp == 'noise'
                 and types == 'types' and psf_stats == (
                     'perband' if rec == 'fitgauss' else None))
            log.append('metacal')
            return mcal, 'noise'
        m.get_metacal_mbexps_fixnoise = metacal

        class Res:
            def __init__(self, t):
                self.t, self.got = t, []

        def ddm(mbexp, config, rng, show=False):
            says('detection at the configured threshold', config['detect'][
                'thresh'] == 'thr2' and rng == 'rng')
            log.append(mbexp.t)
            return None if nothing[mbexp.t] else Res(mbexp.t)
        m.detect_deblend_and_measure = ddm

        def add_mfrac(config, mfrac, res, exp):
            says('masked fraction of the run', mfrac == 'mfrac' and exp == (
                res.t, 'first'))
            res.got.append('mfrac')

        def add_ormask(o, res):
            says('masks of the run', o == 'ormask')
            res.got.append('ormask')

        def add_psf(p, res):
            says('PSF fits of the run', p is pst)
            res.got.append('psf')
        m.add_mfrac, m.add_ormask, m.add_original_psf = add_mfrac, add_ormask, add_psf
        t = object.__new__(m.MetadetectTask)
        t.config = NS(toDict=lambda: conf, subtract_sky=sky,
                      detect=NS(thresholdValue='thr'))
        t.detect = NS(config=NS(thresholdValue='thr2'))
        r = t.run(mb, 'noise', 'rng', mfrac_mbexp='mfracs', ormasks='ormasks',
                  get_psf_stats=stats)
        prove('sky subtraction first, where configured', z3.BoolVal(
            log[:len(log) - len(types_)] == ['sky'] * sky + ['psf', 'metacal']))
        prove('each image is measured once', z3.BoolVal(
            sorted(log[len(log) - len(types_):]) == sorted(types_)))
        prove('one result per image', z3.BoolVal(list(r.keys()) == types_ + [
            'psf_stats'] * stats))
        for k in types_:
            v = r[k]
            prove('no result is kept as none', z3.BoolVal((v is None) == nothing[k]))
            if v is not None:
                prove('own result, completed once', z3.BoolVal(
                    v.t == k and sorted(v.got) == ['mfrac', 'ormask', 'psf']))
        if stats:
            prove('PSF fits are returned', z3.BoolVal(r['psf_stats'] is pst))
    S.explore(run)


def one_image(S):
    S.world(lm.ext())
    f = S.fn(LMD, 'detect_deblend_and_measure')
    m = S.w.load(LMD)

    def run():
        ok = []

        class Task:
            meas = 'meas'

            def run(self, mbexp, show=False):
                ok.append(mbexp == 'mb')
                return 'sources', 'detexp', 'model'
        m.measure.get_detect_and_deblend_task = lambda rng, thresh, deblender: (
            ok.append((rng, thresh, deblender) == ('rng', 'thr', 'how')) or Task())

        def measure(**k):
            k.pop('show', None)
            ok.append(k.pop('config') is conf and k == dict(
                mbexp='mb', model_data='model', meas_task='meas', detexp='detexp',
                sources='sources', rng='rng'))
            return res
        m.measure.measure = measure
        conf = {'detect': {'thresh': 'thr'}, 'deblender': 'how'}
        res = None if SBool(CTX.fresh('none', B)) else 'result'
        r = f('mb', conf, 'rng')
        prove('measures what was detected, in the same exposures', z3.BoolVal(
            ok == [True] * 3))
        prove('gives the measurements', z3.BoolVal(r is res))
    S.explore(run)


def path(S):
    S.world(lm.ext())
    f = S.fn(MOD, '_get_extractor')
    m = S.w.load(MOD)

    def run():
        m.ModelSubtractor = lambda mbexp, sources, model_data: (
            'sub', mbexp, sources, model_data)
        m.MBObsExtractor = lambda mbexp, sources: ('ext', mbexp, sources)
        md = 'model' if SBool(CTX.fresh('model', B)) else None
        r = f(mbexp='mb', sources='src', model_data=md)
        prove('models are subtracted exactly when there are models', z3.BoolVal(
            r == (('ext', 'mb', 'src') if md is None else ('sub', 'mb', 'src', md))))
    S.explore(run)


def sessions():
    return [('measurement loop', loop), ('row of an object', output),
            ('mask values', masks), ('detection', detection),
            ('every sheared image', each_image), ('one image', one_image),
            ('choice of extractor', path)] + [
        ('extractor ' + n, extractor(n)) for n in ('children', 'get_stamp', 'get_mbobs')
    ] + [('columns, %d bands' % b, columns(b)) for b in (1, 2, 3)]

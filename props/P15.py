"""result of a run"""
from engine.lib import *
from engine import obsmodel as om
from engine.loader import Auto
from engine.rt import SList
from props import P08

META = dict(
    bounds=['go: up to two band combinations with two metacal types, or three combinations '
            'with one type (numbers of bands, epochs, pixels, rows unbounded)'],
    assumptions=['metacal returns a dictionary with the observations of each requested '
                 'type, or raises BootPSFFailure (ngmix)',
                 'the catalogue returned by detection and the stamp readers are those of '
                 'P08 to P11'])
Z = z3.IntVal(0)
HAS = dict(noise=True, bmask=True, mfrac=True, ormask=True)
MINIMAL = ['noshear', '1p', '1m', '2p', '2m']


def world(S):
    P08.world(S)
    mc = Auto('ngmix.metacal')
    mc.METACAL_MINIMAL_TYPES = list(MINIMAL)
    mc.DEFAULT_STEP = 0.01
    S.w.ext['ngmix'].metacal = S.w.ext['ngmix.metacal'] = mc
    m = S.w.load('metadetect.metadetect')
    return m


def make(S, m, **conf):
    cls = S.fn('metadetect.metadetect', 'Metadetect')
    o = cls.__new__(cls)
    for k, v in conf.items():
        o[k] = v
    return o


def go_input(S):
    """when there is no result"""
    m = world(S)
    S.fn('metadetect.metadetect', 'Metadetect.go')
    S.fn('metadetect.metadetect', 'Metadetect.result')

    def run():
        nb, ne, ny, nx = nat('nb', 1), nat('ne', 1), nat('ny', 1), nat('nx', 1)
        fam = om.mk_family('o', nb, ne, ny, nx, has=HAS)
        nodet = flag('nodet')
        md = make(S, m, nodet_flags=nodet, metacal={})
        md.mbobs = om.mbobs_of(fam, nb, lambda b: ne.e)
        md.nband = nb
        mf = inp('mfrac', (ny, nx), 'f')
        asked = []
        md._get_mfrac = lambda mb: (asked.append(mb), mf)[1]
        good = SBool(CTX.fresh('psf ok', B))
        types_ = {t: object() for t in MINIMAL}
        req = []

        def data(key, sb):
            req.append((key, sb))
            return {'mcal_res': types_ if good else None}
        md._get_mbobs_data = data
        md.color_key_func = md.color_dep_mbobs = None
        md._shear_band_combs, md._det_band_combs = [], []
        md.go()
        b, e = CTX.index('b'), CTX.index('e')
        W, M = [om.sub(fam.data[k], (b, e)) for k in ('weight', 'bmask')]
        zero = mk_fold1('any', b, Z, nb.e, mk_fold1('any', e, Z, ne.e, truth(lift(
            (W == 0).all()))))
        allm = mk_fold1('any', b, Z, nb.e, mk_fold1('any', e, Z, ne.e, truth(lift(
            ((M & nodet) != 0).all()))))
        some = truth(lift((mf < 1).any()))
        bad = Or(Not(some), zero, allm)
        got = md.result
        if not req:
            prove('nothing is prepared only for data that cannot be measured', bad)
            prove('no result', z3.BoolVal(got is None))
            return
        prove('the masked fraction is that of the main observations',
              z3.BoolVal(asked == [md.mbobs]))
        prove('data are prepared only if something can be measured', Not(bad))
        prove('metacal is of the main observations', z3.BoolVal(req[0][0] is None))
        prove('no result when metacal fails, else a dictionary', z3.BoolVal(
            (got is not None)) == truth(good))
        if got is not None:
            prove('an entry for every minimal type', z3.BoolVal(
                sorted(got) == sorted(MINIMAL) and all(v is None for v in got.values())))
    S.explore(run)


def go_stack(ncomb, ntype, listed, color):
    def fn(S):
        m = world(S)
        S.fn('metadetect.metadetect', 'Metadetect.go')

        def run():
            ts = MINIMAL[:ntype]
            md = make(S, m, nodet_flags=0, metacal={'types': list(ts)} if listed else {})
            one = nat('n1', 1)
            fam = om.mk_family('o', one, z3.IntVal(1), nat('ny', 1), nat('nx', 1),
                                has=HAS)
            md.mbobs = om.mbobs_of(fam, one, lambda b: z3.IntVal(1))
            md.nband = one
            md._get_mfrac = lambda mb: inp('mf', (one,), 'f')
            mcal = {t: object() for t in ts}
            md._get_mbobs_data = lambda key, sb: {'mcal_res': mcal}
            combs = [[i] for i in range(ncomb)]
            dets = [[10 + i] for i in range(ncomb)]
            md._shear_band_combs, md._det_band_combs = combs, dets
            calls, rows = [], {t: [] for t in ts}
            md.color_key_func, md.color_dep_mbobs = (object(), object()) if color else (
                None, None)

            def bands(sb, mc, db):
                if mc is not mcal:
                    raise Unsupported('metacal data')
                i = len(calls)
                calls.append((sb, db))
                r = {}
                for t in ts:
                    if SBool(CTX.fresh('none', B)):
                        r[t] = None
                    else:
                        n = nat('n_%s_%d' % (t, i))
                        r[t] = SRec((n,), {'x': inp('x_%s_%d' % (t, i), (n,), 'f')},
                                    [('x', '<f8')])
                        rows[t].append((n, r[t].fields['x'].snap()))
                return r

            def no(*a):
                raise Unsupported('wrong mode')
            md._go_bands, md._go_bands_with_color = (no, bands) if color else (bands, no)
            md.go()
            got = md.result
            if not calls and got is None:
                return          # decided by the other session
            prove('every combination is run, in order, with its detection bands',
                  z3.BoolVal(calls == list(zip(combs, dets))))
            want = ts if listed else MINIMAL
            prove('an entry for every requested type', z3.BoolVal(
                sorted(got) == sorted(want)))
            for t in want:
                if not rows.get(t):
                    prove('nothing for a type without rows', z3.BoolVal(got[t] is None))
                    continue
                r = got[t]
                tot = sum([n.e for n, _ in rows[t]][1:], rows[t][0][0].e)
                prove('all rows of the type', ix(r.shape[0]) == tot)
                off = z3.IntVal(0)
                for n, x in rows[t]:
                    k = CTX.fresh('k', I)
                    with rt.Scope(And(k >= 0, k < n.e)):
                        prove('the rows of each combination, in order', to_real(
                            r['x'].elem((off + k,))).e == to_real(x((k,))).e)
                    off = off + n.e
        S.explore(run)
    return fn


def go_bands(S):
    """one band combination"""
    m = world(S)
    S.fn('metadetect.metadetect', 'Metadetect._go_bands')

    def run():
        md = make(S, m)
        sb, db = object(), object()
        K = {k: object() for k in ('mfrac', 'bmask', 'ormask', 'psf_stats', 'mcal_res')}
        req, det, mea = [], [], []
        md._get_mbobs_data = lambda key, b: (req.append((key, b)), K)[1]

        def do_detect(mb, bands):
            c = (object(), object())
            det.append((mb, bands, c))
            return c
        md._do_detect = do_detect

        def measure(**kw):
            r = object()
            mea.append((kw, r))
            return r
        md._measure = measure
        mcal = {t: object() for t in ('noshear', '1p', 'x')}
        out = md._go_bands(sb, mcal, db)
        prove('an entry for every sheared image', z3.BoolVal(list(out) == list(mcal)))
        prove('prepared data are those of the main observations and the shear bands',
              z3.BoolVal(all(k is None and b is sb for k, b in req) and len(req) > 0))
        ok = len(det) == len(mea) == len(mcal)
        prove('one detection and one measurement per sheared image', z3.BoolVal(ok))
        for (t, mb), d, (kw, r) in zip(mcal.items(), det, mea):
            prove('detection on the sheared image in the detection bands', z3.BoolVal(
                d[0] is mb and d[1] is db))
            prove('the catalogue is measured on its own stamps', z3.BoolVal(
                kw['cat'] is d[2][0] and kw['mbobs_list'] is d[2][1]))
            prove('measured with its shear, bands and masks', z3.BoolVal(
                kw['shear_str'] == t and kw['shear_bands'] is sb and kw['det_bands'] is db
                and all(kw[k] is K[k] for k in ('mfrac', 'bmask', 'ormask', 'psf_stats'))
                and len(kw) == 9))
            prove('the entry is that measurement', z3.BoolVal(out[t] is r))
    S.explore(run)


def detect_one(S):
    m = world(S)
    S.fn('metadetect.metadetect', 'Metadetect._do_detect')

    def run():
        conf = dict(meds={'weight_type': 'wt'} if SBool(CTX.fresh('w', B)) else {},
                    nodet_flags=flag('nodet'))
        has_sx = SBool(CTX.fresh('sx', B))
        if has_sx:
            conf['sx'] = {'k': 1}
        md = make(S, m, **conf)
        md._show = False
        nb, nd = nat('nb', 1), nat('nd')
        one = z3.IntVal(1)
        fam = om.mk_family('o', nb, one, nat('ny', 1), nat('nx', 1), has=HAS)
        om.MetaSeq.meta = {}
        mb = om.MetaSeq(nb, lambda b: SList([om.Obs(fam, (b, Z))]), fam.roots(), 'mbobs')
        D = inp('det', (nd,), 'i')
        k = CTX.index('k')
        CTX.input_facts[D.elem((k,)).e.decl().name()] = lambda ch: [
            And(to_int_e(D.elem(tuple(ch))) >= 0, to_int_e(D.elem(tuple(ch))) < nb.e)]
        det = SList.sym(nd.e, lambda k: D.elem((k,)))
        log = []
        cat = {c: object() for c in ('x', 'y', 'box_size', 'number')}
        seg, lst, mm = object(), object(), object()

        class Med:
            def __init__(self, mbobs, sx_config, meds_config, nodet_flags=0):
                log.append(('det', mbobs, sx_config, meds_config, nodet_flags))
                self.cat, self.seg = cat, seg

        class Cat:
            def __init__(self, mbobs, x, y, box_sizes, seg=None, number=None):
                log.append(('cat', mbobs, x, y, box_sizes, seg, number))

            def get_multiband_meds(self):
                class MM:
                    def get_mbobs_list(self, weight_type='weight'):
                        log.append(('list', weight_type))
                        return lst
                return MM()
        old = m.detect.MEDSifier, m.detect.CatalogMEDSifier
        m.detect.MEDSifier, m.detect.CatalogMEDSifier = Med, Cat
        try:
            c, l = md._do_detect(mb, det)
        finally:
            m.detect.MEDSifier, m.detect.CatalogMEDSifier = old
        prove('one detection, one cutting of stamps', z3.BoolVal(
            [x[0] for x in log] == ['det', 'cat', 'list']))
        d, ct, li = log
        prove('as many detection bands as asked', to_int_e(rt.len_(d[1])) == nd.e)
        j = idx('j', nd)
        o = d[1][SInt(j)][0]
        prove('the detection bands are those asked', And(
            o.pre[0] == to_int_e(D.elem((j,))), z3.BoolVal(o.fam is fam)))
        prove('with the configured settings', z3.BoolVal(
            d[2] is (conf['sx'] if 'sx' in conf else None) and d[3] is conf['meds']
            and d[4] is conf['nodet_flags']))
        prove('stamps of all bands at the detected objects', z3.BoolVal(
            ct[1] is mb and ct[2] is cat['x'] and ct[3] is cat['y'] and
            ct[4] is cat['box_size'] and ct[5] is seg and ct[6] is cat['number']))
        prove('stamps with the configured weight', z3.BoolVal(
            li[1] == conf['meds'].get('weight_type', 'weight')))
        prove('the catalogue and its stamps are returned', z3.BoolVal(
            c is cat and l is lst))
    S.explore(run)


def metacal(S):
    m = world(S)
    S.fn('metadetect.metadetect', 'Metadetect._get_all_metacal')

    def run():
        md = make(S, m, metacal={'types': ['noshear'], 'step': 0.02})
        md._show = False
        md.rng = object()
        mb, out, log = object(), {'noshear': object()}, []

        def allm(mbobs, **kw):
            log.append((mbobs, kw))
            if SBool(CTX.fresh('fails', B)):
                log.append('failed')
                raise m.BootPSFFailure('x')
            return out
        S.w.ext['ngmix'].metacal.get_all_metacal = allm
        r = md._get_all_metacal(mb)
        prove('metacal of the observations with the configured options', z3.BoolVal(
            log[0][0] is mb and log[0][1] == dict(rng=md.rng, **md['metacal'])))
        prove('nothing on failed PSF fits, else the sheared images', z3.BoolVal(
            (r is None) == (len(log) == 2) and (r is None or r is out)))
    S.explore(run)


def sessions():
    return [('inputs that cannot be measured', go_input),
            ('stacking, one combination, two types', go_stack(1, 2, True, False)),
            ('stacking, two combinations, two types', go_stack(2, 2, True, False)),
            ('stacking, two combinations, minimal types', go_stack(2, 1, False, False)),
            ('stacking, three combinations', go_stack(3, 1, True, False)),
            ('stacking with colours', go_stack(2, 2, True, True)),
            ('one combination', go_bands), ('detection and stamps', detect_one),
            ('metacal', metacal)]

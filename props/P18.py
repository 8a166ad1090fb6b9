"""colour-dependent runs"""
from engine.lib import *
from engine.rt import SList
from props import P15

META = dict(
    assumptions=['the data prepared for a key are those of P16; detection is that of P15; '
                 'stamps are those of P08 and P09 (contracts)',
                 'the colour function is any function of the fluxes',
                 'one row per measured object (P19, P20)'])
Z = z3.IntVal(0)


class Th:
    """a thing that belongs to an object index (its terms follow substitutions)"""
    __sym_heap__ = True

    def __init__(self, kind, *pre, none=None):
        self.kind, self.pre, self.none = kind, pre, none

    def __sym_vmap__(self, f):
        return Th(self.kind, *[f(p) for p in self.pre], none=self.none)

    def __sym_none__(self):
        return self.none(*self.pre) if self.none is not None else z3.BoolVal(False)

    def __getitem__(self, k):
        return self.get(k)

    def get(self, k):
        if self.kind == 'data':
            if k == 'mcal_res':
                return Th('mcal', *self.pre, none=self.fact['failed'])
            return Th('stat ' + k, *self.pre)
        if self.kind == 'mcal':
            return Th('sheared ' + k, *self.pre, none=lambda i: self.fact[
                'no image'](i, z3.IntVal(self.shears.index(k))))
        raise Unsupported('item %s of %s' % (k, self.kind))

    def get_multiband_meds(self):
        return Th('multi ' + self.kind, *self.pre)

    def get_mbobs_list(self, weight_type='weight'):
        return Th('list %s %s' % (weight_type, self.kind), *self.pre)


def run_colors(wtype, flags_):
    def go(S):
        m = P15.world(S)
        S.fn('metadetect.metadetect', 'Metadetect._go_bands_with_color')

        def run():
            conf = dict(meds={'weight_type': wtype} if wtype else {}, metacal={})
            if flags_:
                conf['bmask_flags'] = flag('bf')
            md = P15.make(S, m, **conf)
            shears = ['noshear', '1p']
            Th.shears = shears
            n = [nat('n0'), nat('n1')]
            PF = z3.Function(str(CTX.fresh('failed', B)), I, B)
            PN = z3.Function(str(CTX.fresh('noimage', B)), I, I, B)
            NR = z3.Function(str(CTX.fresh('norow', B)), I, I, B)
            Th.fact = {'failed': PF, 'no image': PN}

            class Fit:
                kind = 'wmom'
            md._fitters = [Fit()]
            md._fitter_is_wavg = [True, False]
            sb, db = object(), object()
            mcal = {t: object() for t in shears}
            cur = [None]
            cats, lists = [], []

            def do_detect(mb, bands):
                t = cur[0] = len(cats)
                prove('detection on the sheared image in the detection bands', z3.BoolVal(
                    t < 2 and mb is mcal[shears[t]] and bands is db))
                c = SRec((n[t],), {'x': inp('x', (n[t],), 'f'), 'y': inp('y', (
                    n[t],), 'f'), 'box_size': inp('bs', (n[t],), 'i')},
                    [('x', '<f8'), ('y', '<f8'), ('box_size', '<i8')])
                cats.append(c)
                lists.append(object())
                return c, lists[t]
            md._do_detect = do_detect

            class Fluxes:
                def __init__(self, n):
                    self.shape = (n,)
                    self.size = n

                def __sym_len__(self):
                    return self.shape[0]

                def __sym_iter__(self):
                    return rt.SymSeq(ix(self.shape[0]), lambda k: Th('flux', k))

                def __getitem__(self, i):
                    return Th('flux', ix(i))

            class Nocolor:
                def __init__(self, n):
                    self.shape = (n,)
                    self.size = n

                def __sym_len__(self):
                    return self.shape[0]

                def __getitem__(self, k):
                    prove('the colour is of the fluxes of the first fitter',
                          z3.BoolVal(k == 'wmom_band_flux'))
                    return Fluxes(self.shape[0])

            def fit(mbobs_list, fitter, shear_bands, bmask_flags, **kw):
                prove('the colour is measured on the detected objects',
                      z3.BoolVal(mbobs_list is lists[cur[0]] and shear_bands is sb and
                                 fitter is md._fitters[0] and not kw))
                prove('with the configured flags', bits_of(lift(bmask_flags)) == (
                    conf['bmask_flags'].e if flags_ else bvval(0)))
                # nothing is returned for no objects only
                if n[cur[0]] == 0:
                    return None
                return Nocolor(n[cur[0]])
            m.fit_mbobs_list_wavg = fit

            def color(fl):
                prove('the colour is of one object', z3.BoolVal(fl.kind == 'flux'))
                return Th('key', *fl.pre)
            md.color_key_func = color
            md.color_dep_mbobs = object()

            def data(key, bands):
                prove('data are prepared for the colour and the shear bands',
                      z3.BoolVal(key.kind == 'key' and bands is sb))
                return Th('data', *key.pre)
            md._get_mbobs_data = data

            def one(a, f, i, what):
                prove('one object at a time', ix(a.shape[0]) == 1)
                prove(what, to_real(lift(a.elem((Z,)))).e == to_real(lift(f.elem((
                    i,)))).e)

            def stamps(mb, x, y, bs, *a, **kw):
                i = mb.pre[0]
                prove('stamps from the image sheared like the detection image',
                      z3.BoolVal(mb.kind == 'sheared ' + shears[cur[0]] and not a
                                 and not kw))
                prove('stamps only from data that could be prepared', And(Not(
                    PF(i)), Not(PN(i, z3.IntVal(cur[0])))))
                c = cats[cur[0]]
                one(x, c['x'], i, 'stamp at the position of the object')
                one(y, c['y'], i, 'stamp at the position of the object')
                one(bs, c['box_size'], i, 'stamp of the size of the object')
                return Th('meds', i)
            m.detect.CatalogMEDSifier = stamps

            def measure(**kw):
                l = kw['mbobs_list']
                i = l.pre[0]
                prove('measured on its own stamp with the configured weight', z3.BoolVal(
                    l.kind == 'list %s multi meds' % (wtype or 'weight')))
                prove('with its shear and bands', z3.BoolVal(
                    kw['shear_str'] == shears[cur[0]] and kw['shear_bands'] is sb and
                    kw['det_bands'] is db and len(kw) == 9))
                for k in ('mfrac', 'bmask', 'ormask', 'psf_stats'):
                    prove('with the masks and PSF statistics of its colour', And(
                        z3.BoolVal(kw[k].kind == 'stat ' + k), kw[k].pre[0] == i))
                c, k = cats[cur[0]], kw['cat']
                for f in ('x', 'y', 'box_size'):
                    one(k[f], c[f], i, 'measured with its catalogue row')
                t = z3.IntVal(cur[0])
                return Th('row %d' % cur[0], i, none=lambda j: NR(t, j))
            md._measure = measure
            stacked = []

            def hstack(l):
                stacked.append(l)
                return Th('stack %d' % (len(stacked) - 1))
            S.w.np.hstack = hstack
            out = md._go_bands_with_color(sb, mcal, db)
            prove('an entry for every sheared image', z3.BoolVal(list(out) == shears))
            for t, s in enumerate(shears):
                T = z3.IntVal(t)

                def has(k):
                    return Not(Or(PF(k), PN(k, T), NR(T, k)))
                r = out[s]
                k = CTX.index('k')
                some = mk_fold1('any', k, Z, n[t].e, has(k))
                if r is None:
                    prove('nothing only if nothing was measured', Not(some))
                    continue
                prove('a table only if something was measured', some)
                l = stacked[int(r.kind.split()[1])]
                prove('rows are collected in one list per sheared image', z3.BoolVal(
                    isinstance(l, SList) and len(l.segs) == 1))
                g = l.segs[0]
                if g[0] not in 'sf':
                    raise Unsupported('list of rows')
                k = CTX.fresh('k', I)
                prove('every detected object is considered', g[1] == n[t].e)
                with rt.Scope(And(k >= 0, k < n[t].e)):
                    gd = g[2](k) if g[0] == 'f' else z3.BoolVal(True)
                    prove('exactly the objects whose data could be prepared', has(
                        k) == gd)
                    x = g[-1](k)
                    prove('their rows, in detection order', And(z3.BoolVal(
                        x.kind == 'row %d' % t), x.pre[0] == k))
        S.explore(run)
    return go


def refused(S):
    """colours need a weighted average as the first fitter"""
    m = P15.world(S)
    S.fn('metadetect.metadetect', 'Metadetect._go_bands_with_color')

    def run():
        md = P15.make(S, m, meds={}, metacal={})
        md._fitter_is_wavg = [False, True]
        done = []

        def no(*a, **kw):
            done.append(1)
            raise Unsupported('work in a refused mode')
        md._do_detect = md._get_mbobs_data = md._measure = no
        try:
            md._go_bands_with_color([0], {'noshear': object()}, [0])
            ok = False
        except RuntimeError:
            ok = True
        prove('refused without a weighted-average first fitter', z3.BoolVal(ok))
    S.explore(run)


def inputs(S):
    m = P15.world(S)
    cls = S.fn('metadetect.metadetect', 'Metadetect')
    S.fn('metadetect.metadetect', 'Metadetect.__init__')

    def run():
        nb = nat('nb', 1)

        class MB:
            def __sym_len__(self):
                return nb
        f = object() if SBool(CTX.fresh('func', B)) else None
        d = {} if SBool(CTX.fresh('data', B)) else None
        mb = MB()
        rng = object()
        old = cls._set_fitter
        cls._set_fitter = lambda self: None
        try:
            md = cls({'metacal': {}, 'meds': {}}, mb, rng, color_key_func=f,
                     color_dep_mbobs=d)
            ok = True
        except RuntimeError:
            ok = False
        finally:
            cls._set_fitter = old
        prove('refused with only one of the colour inputs', z3.BoolVal(
            ok == ((f is None) == (d is None))))
        if ok:
            prove('the inputs are kept', z3.BoolVal(
                md.color_key_func is f and md.color_dep_mbobs is d and md.mbobs is mb
                and md.rng is rng))
    S.explore(run)


def which(S):
    """colours are used exactly if both inputs are given"""
    m = P15.world(S)
    S.fn('metadetect.metadetect', 'Metadetect.go')

    def run():
        from engine import obsmodel as om
        md = P15.make(S, m, nodet_flags=0, metacal={'types': ['noshear']})
        one = nat('n1', 1)
        fam = om.mk_family('o', one, z3.IntVal(1), nat('ny', 1), nat('nx', 1), has=P15.HAS)
        md.mbobs = om.mbobs_of(fam, one, lambda b: z3.IntVal(1))
        md.nband = one
        md._get_mfrac = lambda mb: inp('mf', (one,), 'f')
        md._get_mbobs_data = lambda key, sb: {'mcal_res': {}}
        both = SBool(CTX.fresh('colours', B))
        md.color_key_func, md.color_dep_mbobs = (object(), {}) if both else (None, None)
        md._shear_band_combs, md._det_band_combs = [[0], [1]], [[2], [3]]
        log = []

        def stub(tag):
            def f(sb, mc, db):
                log.append((tag, sb, db))
                return {}
            return f
        md._go_bands, md._go_bands_with_color = stub('plain'), stub('colour')
        md.go()
        if not log and md.result is None:
            return
        w = 'colour' if both else 'plain'
        prove('the colour run is used exactly with colour inputs', z3.BoolVal(
            log == [(w, [0], [2]), (w, [1], [3])]))
    S.explore(run)


def sessions():
    return [('colour run', run_colors(None, True)),
            ('colour run, weight type', run_colors('uberseg', False)),
            ('refused fitters', refused), ('colour inputs', inputs),
            ('choice of the run', which)]

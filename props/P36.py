"""set-up of the fitters and their use"""
from engine.lib import *
from engine.loader import Auto
from engine.rt import SList
from props import P15

META = dict(
    bounds=['lists of fitter settings: up to three fitters (the use of the fitters: any '
            'number)'],
    assumptions=['the fits, their combination and the added columns are those of P19, '
                 'P20, P23 and P17 (contracts)'])
Z = z3.IntVal(0)
KINDS = dict(wmom='wmom', ksigma='ksigma', pgauss='pgauss')


class Fitter:
    def __init__(self, kind, a, kw):
        self.kind, self.a, self.kw = kind, a, kw


def world(S):
    m = P15.world(S)
    ng = S.w.ext['ngmix']
    for mod, names in (('gaussmom', {'GaussMom': 'wmom'}),
                       ('prepsfmom', {'KSigmaMom': 'ksigma', 'PGaussMom': 'pgauss'})):
        x = Auto('ngmix.' + mod)
        for n, k in names.items():
            setattr(x, n, lambda *a, k=k, **kw: Fitter(k, a, kw))
        setattr(ng, mod, x)
    return m


REG = (0.0, 0.8, 1.236)
MODELS = ('wmom', 'ksigma', 'pgauss', 'am', 'admom', 'gauss')


def fork(what):
    return bool(SBool(CTX.fresh(what, B)))


def choose(opts):
    for o in opts[:-1]:
        if fork('option'):
            return o
    return opts[-1]


def settings(model, short=False):
    """some settings of a fitter, and what they mean"""
    c = {} if model == 'default' else {'model': model}
    mom = model in KINDS or model == 'default'
    has_w = mom or fork('weight')
    w = {}
    if has_w:
        c['weight'] = w
        if mom or fork('fwhm'):
            w['fwhm'] = real('fwhm')
        if not short and model in KINDS and fork('smooth'):
            w['fwhm_smooth'] = real('smooth')
        if mom and fork('reg'):
            w['fwhm_reg'] = choose(REG) if not short else 0.8
    if fork('symm'):
        c['symmetrize'] = SBool(CTX.fresh('symmetrize', B))
    if fork('coadd'):
        c['coadd'] = SBool(CTX.fresh('coadd', B))
    return c


def kept(c):
    return {k: (dict(v) if isinstance(v, dict) else v) for k, v in c.items()}


def same(a, b):
    return truth(lift(a)) == truth(lift(b))


def check(md, i, c):
    """the i-th fitter is that of the settings"""
    m = c.get('model', 'wmom')
    f, w = md._fitters[i], c.get('weight', {})
    fw = w.get('fwhm', 1.2)
    prove('aperture', to_real(lift(md._fwhms[i])).e == to_real(lift(fw)).e)
    reg = w.get('fwhm_reg', 0)
    prove('regularization', to_real(lift(md._fwhm_regs[i])).e == to_real(lift(reg)).e)
    prove('symmetrization as configured, on by default', same(
        md._fitter_symmetrize[i], c.get('symmetrize', True)))
    prove('averages for moments, joint fits otherwise', z3.BoolVal(
        bool(md._fitter_is_wavg[i]) == (m in KINDS)))
    if m in KINDS:
        kw = dict(f.kw)
        x = kw.pop('fwhm', None)
        if x is None and len(f.a) == 1:
            x = f.a[0]
        prove('moments of the configured aperture', And(z3.BoolVal(
            x is not None), to_real(lift(x)).e == to_real(lift(fw)).e))
        kind = KINDS[m] + ('_reg%0.2f' % reg if 'fwhm_reg' in w else '')
        prove('model and name', z3.BoolVal(f.kind == kind))
        if m != 'wmom' and 'fwhm_smooth' in w:
            s = kw.pop('fwhm_smooth', None)
            prove('smoothing as configured', And(z3.BoolVal(s is not None), to_real(
                lift(s)).e == to_real(lift(w['fwhm_smooth'])).e) if s is not None
                else z3.BoolVal(False))
        prove('no other settings', z3.BoolVal(not kw))
        prove('moments are not coadded', Not(truth(lift(md._fitter_coadd[i]))))
    else:
        prove('model and name', z3.BoolVal(f == m))
        prove('coadd as configured, off by default', same(
            md._fitter_coadd[i], c.get('coadd', False)))


def single(model):
    def go(S):
        m = world(S)
        S.fn('metadetect.metadetect', 'Metadetect._set_fitter')

        def run():
            c = settings(model)
            md = P15.make(S, m, metacal={}, meds={}, **c)
            c = kept(c)
            md._set_fitter()
            prove('one fitter', z3.BoolVal(all(len(getattr(md, a)) == 1 for a in (
                '_fitters', '_fwhms', '_fwhm_regs', '_fitter_is_wavg',
                '_fitter_symmetrize', '_fitter_coadd'))))
            check(md, 0, c)
        S.explore(run)
    return go


def several(models):
    def go(S):
        m = world(S)
        S.fn('metadetect.metadetect', 'Metadetect._set_fitter')

        def run():
            cs = [settings(x, True) for x in models]
            md = P15.make(S, m, metacal={}, meds={}, fitters=cs)
            cs = [kept(c) for c in cs]
            md._set_fitter()
            prove('a fitter for each of the settings', z3.BoolVal(all(
                len(getattr(md, a)) == len(cs) for a in (
                    '_fitters', '_fwhms', '_fwhm_regs', '_fitter_is_wavg',
                    '_fitter_symmetrize', '_fitter_coadd'))))
            for i, c in enumerate(cs):
                check(md, i, c)
        S.explore(run)
    return go


def refused(S):
    m = world(S)
    S.fn('metadetect.metadetect', 'Metadetect._set_fitter')
    S.fn('metadetect.metadetect', 'Metadetect._set_config')

    def run():
        W = {'model': 'wmom', 'weight': {'fwhm': real('f')}}
        alone = {'model': 'wmom', 'weight': {'fwhm': real('g')}, 'symmetrize': True,
                 'coadd': False}
        k = choose(sorted(alone))
        md = P15.make(S, m, metacal={}, meds={}, fitters=[dict(W)], **{k: alone[k]})
        try:
            md._set_fitter()
            ok = False
        except RuntimeError:
            ok = True
        prove('a list of fitters with %s is refused' % k, z3.BoolVal(ok))
        bad = {'model': 'moments', 'weight': {'fwhm': real('h')}}
        md = P15.make(S, m, metacal={}, meds={}, **(
            {'fitters': [W, bad]} if fork('list') else bad))
        try:
            md._set_fitter()
            ok = False
        except ValueError:
            ok = True
        prove('an unknown model is refused', z3.BoolVal(ok))
        conf = {a: object() for a in ('metacal', 'meds', 'x') if fork(a)}
        if fork('nodet'):
            conf['nodet_flags'] = flag('nodet')
        given = dict(conf)
        md = P15.make(S, m)
        try:
            md._set_config(conf)
            ok = True
        except AssertionError:
            ok = False
        prove('metacal and stamp settings are required', z3.BoolVal(
            ok == ('metacal' in conf and 'meds' in conf)))
        if ok:
            prove('all settings are kept', z3.BoolVal(
                all(md[a] is given[a] for a in given) and len(md) == len(
                    set(given) | {'nodet_flags'})))
            if 'nodet_flags' not in given:
                prove('nothing keeps pixels from detection by default', bits_of(lift(
                    md['nodet_flags'])) == 0)
        prove('the given settings are unchanged', z3.BoolVal(
            len(conf) == len(given) and all(conf[a] is given[a] for a in given)))
    S.explore(run)


def combs(S):
    """which band combinations are run"""
    m = world(S)
    cls = S.fn('metadetect.metadetect', 'Metadetect')
    S.fn('metadetect.metadetect', 'Metadetect.__init__')

    def run():
        nb = nat('nb', 1)

        class MB:
            def __sym_len__(self):
                return nb
        old = cls._set_fitter
        cls._set_fitter = lambda self: None
        kw = {}
        sb = choose([None, [[0]], [[0], [1, 2]], [[1], [0], [2]]])
        if sb is not None:
            kw['shear_band_combs'] = sb
        db = choose([None, 'shear_bands', 'given'])
        n = 1 if sb is None else len(sb)
        if db == 'given':
            db = [[7 + i] for i in range(n)]
        if db is not None:
            kw['det_band_combs'] = db
        try:
            md = cls({'metacal': {}, 'meds': {}}, MB(), object(), **kw)
        finally:
            cls._set_fitter = old

        def every(x, what):
            prove(what, to_int_e(rt.len_(x)) == nb.e)
            k = idx('k', nb)
            prove(what, to_int_e(lift(x[SInt(k)])) == k)
        s, d = md._shear_band_combs, md._det_band_combs
        if sb is None:
            prove('one combination by default', z3.BoolVal(len(s) == 1))
            every(s[0], 'shears use all bands by default')
        else:
            prove('shear combinations as given', z3.BoolVal(s == sb))
        if db == 'shear_bands':
            prove('detection in the shear bands', z3.BoolVal(d is s or list(d) == list(s)))
        elif db is None:
            prove('detection bands for every combination', z3.BoolVal(len(d) == n))
            for x in d:
                every(x, 'detection in all bands by default')
        else:
            prove('detection combinations as given', z3.BoolVal(d == db))
        prove('the number of bands', to_int_e(lift(md.nband)) == nb.e)
    S.explore(run)


class Th:
    __sym_heap__ = True
    kind = 'kind'

    def __init__(self, what, *pre):
        self.what, self.pre = what, pre

    def __sym_vmap__(self, f):
        return Th(self.what, *[f(p) for p in self.pre])


def measure(S):
    m = world(S)
    S.fn('metadetect.metadetect', 'Metadetect._measure')

    def run():
        conf = {'bmask_flags': flag('bf')} if fork('flags') else {}
        md = P15.make(S, m, **conf)
        n = nat('nfit', 1)
        md.rng = object()
        fun = {k: z3.Function(str(CTX.fresh(k, s)), I, s) for k, s in (
            ('wavg', B), ('symm', B), ('coadd', B), ('reg', R))}

        def lst(fn):
            return SList.sym(n.e, fn)
        md._fitters = lst(lambda k: Th('fitter', k))
        md._fwhms = lst(lambda k: SReal(z3.RealVal(1)))
        md._fwhm_regs = lst(lambda k: SReal(fun['reg'](k)))
        md._fitter_is_wavg = lst(lambda k: SBool(fun['wavg'](k)))
        md._fitter_symmetrize = lst(lambda k: SBool(fun['symm'](k)))
        md._fitter_coadd = lst(lambda k: SBool(fun['coadd'](k)))
        A = {k: object() for k in ('mbobs_list', 'shear_bands', 'det_bands', 'cat', 'mfrac',
                                   'bmask', 'ormask', 'psf_stats')}

        def common(f, kw):
            prove('all objects, in the shear bands of the run', z3.BoolVal(
                kw['mbobs_list'] is A['mbobs_list'] and
                kw['shear_bands'] is A['shear_bands'] and f.what == 'fitter'))
            prove('with the configured flags', bits_of(lift(kw['bmask_flags'])) == (
                conf['bmask_flags'].e if conf else bvval(0)))
            prove('with its own symmetrization', truth(lift(kw.get(
                'symmetrize', True))) == fun['symm'](f.pre[0]))

        def wavg(**kw):
            f = kw['fitter']
            i = f.pre[0]
            common(f, kw)
            prove('averages only for moments', fun['wavg'](i))
            prove('with its own regularization', to_real(lift(kw.get(
                'fwhm_reg', 0))).e == fun['reg'](i))
            prove('no other settings', z3.BoolVal(set(kw) <= {
                'mbobs_list', 'fitter', 'shear_bands', 'bmask_flags', 'fwhm_reg',
                'symmetrize'}))
            return Th('result', i)

        def joint(**kw):
            f = kw['fitter_name']
            i = f.pre[0]
            common(f, kw)
            prove('joint fits for the others', Not(fun['wavg'](i)))
            prove('with its own coadding', truth(lift(kw.get(
                'coadd', False))) == fun['coadd'](i))
            prove('with the generator of the run', z3.BoolVal(kw['rng'] is md.rng))
            return Th('result', i)
        m.fit_mbobs_list_wavg, m.fit_mbobs_list_joint = wavg, joint
        comb = None if fork('no result') else object()

        def combine(l):
            g = l.segs[0] if len(l.segs) == 1 else (None,)
            if g[0] != 's':
                raise Unsupported('list of results')
            prove('a result of every fitter', g[1] == n.e)
            k = idx('k', n)
            x = g[2](k)
            prove('in the configured order', And(z3.BoolVal(x.what == 'result'),
                                                 x.pre[0] == k))
            return comb
        m.combine_fit_res = combine
        final, log = object(), []

        def add(**kw):
            log.append(kw)
            return final
        md._add_positions_and_psf = add
        r = md._measure(shear_str='1p', **A)
        if comb is None:
            prove('nothing without results', z3.BoolVal(r is None and not log))
            return
        want = {k: A[k] for k in ('cat', 'mfrac', 'bmask', 'ormask', 'psf_stats',
                                  'det_bands')}
        prove('positions, masks and PSF statistics of the same run are added', z3.BoolVal(
            r is final and len(log) == 1 and set(log[0]) == set(want) | {
                'res', 'shear_str'} and log[0]['res'] is comb and
            log[0]['shear_str'] == '1p' and all(log[0][k] is want[k] for k in want)))
    S.explore(run)


def sessions():
    return [('settings, ' + x, single(x)) for x in MODELS + ('default',)] + [
        ('list of settings, ' + ' '.join(x), several(x)) for x in (
            ('gauss',), ('wmom', 'gauss'), ('am', 'pgauss'), ('ksigma', 'wmom', 'admom'),
            ('gauss', 'am', 'wmom'))] + [
        ('refused settings', refused), ('band combinations', combs),
        ('use of the fitters', measure)]

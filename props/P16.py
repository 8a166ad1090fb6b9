"""per-colour data"""
from engine.lib import *
from engine import obsmodel as om
from engine.loader import Auto
from engine.rt import SList
from props import P08, P15

META = dict(
    bounds=['the cache: any earlier history; requests for up to three bands'],
    assumptions=['one epoch per band (asserted by the code)',
                 'fits and metacal are contracts: any outcome, a function of the '
                 'observations they are given'])
Z = z3.IntVal(0)
ONE = z3.IntVal(1)


class Ghost:
    """what any history may have left in a dictionary: whether a key is present is
    open, what is stored under it obeys the invariant `make`"""

    def __init__(self, present, make):
        self.present, self.make = present, make
        self.new = {}
        self.seen = {}

    def __contains__(self, k):
        if k in self.new:
            return True
        if k not in self.seen:
            self.seen[k] = bool(self.present(k))
        return self.seen[k]

    __sym_contains__ = __contains__

    def __getitem__(self, k):
        if k in self.new:
            return self.new[k]
        if k not in self:
            raise KeyError(k)
        self.new[k] = self.make(k)
        return self.new[k]

    def __setitem__(self, k, v):
        self.new[k] = v

    def get(self, k, d=None):
        return self[k] if k in self else d

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]


class Key:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'key %s' % self.n


def cache(bands, fresh, which):
    def go(S):
        m = P15.world(S)
        S.fn('metadetect.metadetect', 'Metadetect._get_mbobs_data')
        pf = S.w.load('metadetect.procflags')

        def run():
            md = P15.make(S, m)
            bandobs = {w: [object() for _ in range(3)] for w in ('main', 'blue', 'red')}
            ng = S.w.ext['ngmix']

            class MB(list):
                pass
            mbs = {w: MB(bandobs[w]) for w in bandobs}
            ng.MultiBandObsList = lambda: MB()
            md.mbobs = mbs['main']
            md.rng = object()
            kb, kr, km = Key('blue'), Key('red'), Key('main')
            md.color_dep_mbobs = {kb: mbs['blue'], kr: mbs['red'], km: mbs['main']}
            of = {None: 'main', kb: 'blue', kr: 'red', km: 'main'}
            log = []
            psff, mcal, stat = {}, {}, {}

            def val(d, *k):
                if k not in d:
                    d[k] = object()
                return d[k]
            # the facts about the observations of each key, whenever they are computed
            for w in mbs:
                psff[w] = pf.PSF_FAILURE if SBool(CTX.fresh('psf fails ' + w, B)) else 0
                mcal[w] = None if SBool(CTX.fresh('metacal fails ' + w, B)) else object()

            def name(x):
                for w in mbs:
                    if x is mbs[w]:
                        return w
                raise Unsupported('observations that were not given')

            def sub(x):
                for w in mbs:
                    if len(x) and all(any(o is q for q in bandobs[w]) for o in x):
                        return w, tuple(sorted(bandobs[w].index(o) for o in x))
                raise Unsupported('mixed observations')

            def fit(mb, rng):
                log.append(('psf', name(mb)))
                if psff[name(mb)]:
                    raise m.BootPSFFailure('x')
            m.fitting.fit_all_psfs = fit

            def metacal(mb):
                w = name(mb)
                prove('PSFs are fit before metacal', z3.BoolVal(('psf', w) in log))
                log.append(('metacal', w))
                return mcal[w]
            md._get_all_metacal = metacal
            md._get_mfrac = lambda x: (log.append(('mfrac',) + sub(x)), val(
                stat, 'mfrac', *sub(x)))[1]

            def masks(x):
                log.append(('masks',) + sub(x))
                return val(stat, 'ormask', *sub(x)), val(stat, 'bmask', *sub(x))
            md._get_ormask_and_bmask = masks

            def stats(x, flags):
                log.append(('stats',) + sub(x))
                if flags != psff[sub(x)[0]]:
                    raise Unsupported('flags of another fit')
                return val(stat, 'psf_stats', *sub(x))
            m._get_psf_stats = stats

            def data(w, sb):
                d = {'psf_fit_flags': psff[w], 'mcal_res': mcal[w]}
                d.update({k: val(stat, k, w, sb) for k in (
                    'mfrac', 'bmask', 'ormask', 'psf_stats')})
                return d
            have = {}
            if not fresh:
                def present(k):
                    return SBool(CTX.fresh('cached %s' % (k,), B))

                def inner(k):
                    return Ghost(present, lambda sb: data(of[k], sb))
                outer = Ghost(lambda k: k is not km and present(k), inner)
                md._mbobs_data_cache = outer
                md._mcalpsf_data_cache = Ghost(
                    lambda k: k in outer.seen and outer.seen[k],
                    lambda k: {'psf_fit_flags': psff[of[k]], 'mcal_res': mcal[of[k]]})
            key = {'main': None, 'blue': kb, 'same': km}[which]
            w, sb = of[key], tuple(sorted(bands))
            for again in (bands, list(reversed(bands)), bands):
                n0 = len(log)
                d = md._get_mbobs_data(key, list(again))
                prove('the fits and metacal are those of the key',
                      z3.BoolVal(d['mcal_res'] is mcal[w]))
                prove('masks, masked fraction and PSF statistics are those of the key and '
                      'the bands', z3.BoolVal(all(d[k] is val(stat, k, w, sb) for k in (
                          'mfrac', 'bmask', 'ormask', 'psf_stats'))))
                prove('everything is computed at most once', z3.BoolVal(
                    len(set(log)) == len(log)))
                prove('nothing is computed for other observations', z3.BoolVal(
                    all(x[1] == w for x in log)))
                if again is not bands or n0:
                    prove('a repeated request computes nothing',
                          z3.BoolVal(len(log) == n0))
            if fresh:
                other = kr if key is not kr else None
                d2 = md._get_mbobs_data(other, list(bands))
                prove('another key has its own data', z3.BoolVal(
                    d2['mcal_res'] is mcal[of[other]] and all(
                        d2[k] is val(stat, k, of[other], sb) for k in (
                            'mfrac', 'bmask', 'ormask', 'psf_stats'))))
                d3 = md._get_mbobs_data(key, [bands[0]])
                prove('other bands have their own data', z3.BoolVal(
                    d3['mcal_res'] is mcal[w] and all(
                        d3[k] is val(stat, k, w, (bands[0],)) for k in (
                            'mfrac', 'bmask', 'ormask', 'psf_stats'))))
                prove('the fits and metacal run once per key', z3.BoolVal(
                    len([x for x in log if x[0] in ('psf', 'metacal')]) == 4))
                prove('the first data are unchanged', z3.BoolVal(
                    d['mcal_res'] is mcal[w] and all(d[k] is val(stat, k, w, sb) for k in (
                        'mfrac', 'bmask', 'ormask', 'psf_stats'))))
        S.explore(run)
    return go


def bands_of(S, nb, has):
    fam = om.mk_family('o', nb, ONE, nat('ny', 1), nat('nx', 1), has=has)
    return fam, om.mbobs_of(fam, nb, lambda b: ONE)


def masks(S):
    m = P15.world(S)
    S.fn('metadetect.metadetect', 'Metadetect._get_ormask_and_bmask')

    def run():
        md = P15.make(S, m)
        nb = nat('nb', 1)
        fam, mb = bands_of(S, nb, P15.HAS)
        old = {k: fam.data[k].snap() for k in ('ormask', 'bmask')}
        ny, nx = fam.data['image'].shape[2:]
        o, bm = md._get_ormask_and_bmask(mb)
        for k, r in (('ormask', o), ('bmask', bm)):
            prove('shape', And(ix(r.shape[0]) == ix(ny), ix(r.shape[1]) == ix(nx)))
            p = (idx('y', SInt(ix(ny))), idx('x', SInt(ix(nx))))
            b = CTX.index('b')
            prove('the masks of the bands OR-ed', bits_of(r.elem(p)) == mk_fold1(
                'bor', b, Z, nb.e, bits_of(old[k]((b, Z) + p))))
            b = idx('b', nb)
            prove('the masks of the bands are unchanged', bits_of(fam.data[k].elem(
                (b, Z) + p)) == bits_of(old[k]((b, Z) + p)))
    S.explore(run)


def mfrac(S):
    m = P15.world(S)
    S.fn('metadetect.metadetect', 'Metadetect._get_mfrac')

    def run():
        md = P15.make(S, m)
        nb = nat('nb', 1)
        fam, mb = bands_of(S, nb, dict(P15.HAS, mfrac=True))
        old = fam.data['mfrac'].snap()
        ny, nx = fam.data['image'].shape[2:]
        orig = S.w.np.median
        W = z3.Function(str(CTX.fresh('wmed', R)), I, R)
        CTX.input_facts[W.name()] = lambda ch: [W(ch[0]) > 0]

        def w(b):
            a = om.sub(fam.data['weight'], (b, Z))
            pos = truth(lift((a > 0).any()))
            return If(pos, to_real(lift(orig(a[a > 0]))).e, z3.RealVal(0))
        r = md._get_mfrac(mb)
        prove('shape', And(ix(r.shape[0]) == ix(ny), ix(r.shape[1]) == ix(nx)))
        p = (idx('y', SInt(ix(ny))), idx('x', SInt(ix(nx))))
        b, b2 = CTX.index('b'), CTX.index('b')
        tot = mk_fold1('sum', b, Z, nb.e, w(b))
        s = mk_fold1('sum', b2, Z, nb.e, w(b2)*to_real(old((b2, Z) + p)).e)
        x = to_real(r.elem(p))
        if SBool(tot > 0):
            prove('mean masked fraction weighted by the median weights',
                  And(x.e*tot == s, x.k == FIN if x.k is not None else True))
        else:
            prove('without any weight everything counts as masked', x.e == 1)
        b = idx('b', nb)
        prove('the masked fractions are unchanged', to_real(fam.data['mfrac'].elem(
            (b, Z) + p)).e == to_real(old((b, Z) + p)).e)
    S.explore(run)


class Res:
    __sym_heap__ = True

    def __init__(self, t, pre):
        self.t, self.pre = t, pre

    def __sym_vmap__(self, f):
        return Res(self.t, tuple(f(p) for p in self.pre))

    def __sym_contains__(self, k):
        e = truth(self.t['has_e'].elem(self.pre))
        return SBool(e if k == 'e' else Not(e))

    def __contains__(self, k):
        return bool(self.__sym_contains__(k))

    def __getitem__(self, k):
        if k in 'eg':
            return om.sub(self.t[k], self.pre)
        return self.t[k].elem(self.pre)


def stats(S):
    m = P15.world(S)
    f = S.fn('metadetect.metadetect', '_get_psf_stats')
    pf = S.w.load('metadetect.procflags')

    def run():
        nb = nat('nb', 1)
        psf = om.mk_family('psf', nb, ONE, nat('py', 1), nat('px', 1),
                           meta=lambda b, e: {})
        fam = om.mk_family('o', nb, ONE, nat('ny', 1), nat('nx', 1), psf=psf, has=P15.HAS)
        mb = om.mbobs_of(fam, nb, lambda b: ONE)
        sh = (nb.e, ONE)
        t = {'T': inp('T', sh, 'f'), 'has_e': inp('has_e', sh, 'b'),
             'e': inp('e', sh + (z3.IntVal(2),), 'f'),
             'g': inp('g', sh + (z3.IntVal(2),), 'f')}
        psf.meta = lambda b, e: {'result': Res(t, (b, e))}
        fl = flag('fit flags')
        r = f(mb, fl)
        bad = SBool(fl.e != 0)

        def nan(k):
            v = to_real(lift(r[k]))
            return v.k == NAN if v.k is not None else z3.BoolVal(False)
        if bad:
            prove('failed fits are flagged', bits_of(lift(r['flags'])) == (
                fl.e | bvval(pf.PSF_FAILURE)))
            prove('and have no statistics', And(nan('g1'), nan('g2'), nan('T')))
            return
        b = CTX.index('b')

        def w(b):
            return to_real(lift(om.sub(fam.data['weight'], (b, Z)).max())).e

        def tot(fn):
            b = CTX.index('b')
            return mk_fold1('sum', b, Z, nb.e, fn(b))
        ws = tot(w)
        if SBool(ws > 0):
            prove('no flags', bits_of(lift(r['flags'])) == 0)

            def sh1(b, i):
                ix_ = (b, Z, z3.IntVal(i))
                return If(truth(t['has_e'].elem((b, Z))), to_real(t['e'].elem(ix_)).e,
                          to_real(t['g'].elem(ix_)).e)
            prove('mean size', to_real(lift(r['T'])).e*ws == tot(
                lambda b: w(b)*to_real(t['T'].elem((b, Z))).e))
            for i, k in enumerate(('g1', 'g2')):
                prove('mean shape', to_real(lift(r[k])).e*ws == tot(
                    lambda b: w(b)*sh1(b, i)))
        else:
            prove('no weight is flagged', bits_of(lift(r['flags'])) == bvval(
                pf.PSF_FAILURE))
            prove('no weight, no statistics', And(nan('g1'), nan('g2'), nan('T')))
    S.explore(run)


def sessions():
    out = []
    for w in ('main', 'blue', 'same'):
        for b in ([0], [2, 0], [1, 2, 0]):
            out.append(('cache, %s, %d bands' % (w, len(b)), cache(b, False, w)))
        out.append(('first requests, ' + w, cache([1, 0], True, w)))
    return out + [('masks', masks), ('masked fraction', mfrac), ('PSF statistics', stats)]

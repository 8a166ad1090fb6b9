"""merging of the survey configuration"""
import copy
from engine.lib import *

META = dict(
    assumptions=['configuration values are opaque (the code does not look at them); '
                 'sub-configurations are dictionaries; an unknown key is represented by '
                 'one fresh name per level, added last'])
SUBS = {'detect': ['thresh'], 'metacal': ['reconv_type'], 'pgauss': ['fwhm']}


class V:
    """an arbitrary value"""

    def __init__(self, n):
        self.n = n

    def __deepcopy__(self, memo):
        return self

    __copy__ = None


def choose(n):
    return bool(SBool(CTX.fresh(n, B)))


def merge(level):
    def go(S):
        S.world({})
        f = S.fn('metadetect.lsst.configs', 'get_config')
        for n in ('_verify_detect_config', '_verify_pgauss_config',
                  '_check_required_keywords', '_check_keywords'):
            S.fn('metadetect.lsst.configs', n)
        D = S.w.load('metadetect.lsst.defaults').DEFAULT_MDET_CONFIG
        old = copy.deepcopy(D)

        def run():
            c, bad = {}, False
            for k in sorted(D):
                if k in SUBS:
                    if not choose('sub ' + k):
                        continue
                    c[k] = {s: V(s) for s in SUBS[k] if choose(s)}
                    if level == k and choose('unknown'):
                        c[k]['%s-unknown' % k] = V('u')
                        bad = bad or k != 'metacal'
                elif choose('top ' + k):
                    c[k] = V(k)
            if level == 'top':
                c['unknown'] = V('u')
                bad = True
            given = {k: dict(v) if isinstance(v, dict) else v for k, v in c.items()}
            try:
                r = f(c if c or choose('empty') else None)
                ok = True
            except ValueError:
                ok = False
            prove('unknown keys are refused, known ones accepted', z3.BoolVal(ok != bad))
            prove("the user's configuration is not modified", z3.BoolVal(given == c))
            prove('the defaults are not modified', z3.BoolVal(D == old))
            if not ok:
                return
            good, keys = True, set(r) == set(old)
            for k in old:
                u = given.get(k)
                if k in SUBS:
                    exp = dict(old[k])
                    exp.update(u or {})
                    good = good and k in r and r[k] == exp and r[k] is not D[k] \
                        and r[k] is not c.get(k)
                else:
                    good = good and k in r and r[k] == given.get(k, old[k])
            prove('exactly the default keys', z3.BoolVal(keys))
            prove("the user's value where given, the default elsewhere", z3.BoolVal(good))
        S.explore(run)
    return go


def defaults(S):
    S.world({})
    S.w.load('metadetect.lsst.configs')
    D = S.w.load('metadetect.lsst.defaults').DEFAULT_MDET_CONFIG

    def run():
        prove('the levels of the configuration', z3.BoolVal(
            all(isinstance(D.get(k), dict) for k in SUBS) and
            all(set(D[k]) == set(v) for k, v in SUBS.items()) and
            not any(isinstance(v, dict) for k, v in D.items() if k not in SUBS)))
    S.explore(run)


def sessions():
    return [('levels', defaults)] + [('merge, %s' % n, merge(n)) for n in (
        'top', 'detect', 'metacal', 'pgauss')]

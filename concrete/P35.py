import copy
from metadetect.lsst import util, metadetect as lm
RULE = ('random trees of options with overrides of any subset, any value type and depth '
        'up to four, with and without unknown names; the configuration of MetadetectTask')
N_QUICK, N_DEEP = 400, 8000
NAMES = ['stamp_size', 'a', 'types', 'fwhm', 'detect', 'thresholdValue', 'shear_bands', 'b',
         'deblender', 'metacal', 'weight', 'subtract_sky']
VALUES = [0, 1, 7, -1.5, None, True, False, '', 'x', [], [1, 2], ['noshear', '1p'],
          (3, 4), 'None']


class Conf(object):
    def __init__(self, d):
        self.__dict__.update({k: Conf(v) if isinstance(v, dict) else v
                              for k, v in d.items()})

    def __setattr__(self, n, v):
        if n not in self.__dict__:
            raise AttributeError(n)
        self.__dict__[n] = v

    def toDict(self):
        return {k: v.toDict() if isinstance(v, Conf) else copy.deepcopy(v)
                for k, v in self.__dict__.items()}


def tree(rng, depth):
    d = {}
    for n in rng.permutation(NAMES)[:rng.randint(1, 6)]:
        d[str(n)] = tree(rng, depth - 1) if depth and rng.randint(3) == 0 else \
            VALUES[rng.randint(len(VALUES))]
    return d


def over(rng, t, bad):
    o = {}
    for n in rng.permutation(list(t)):
        n = str(n)
        if rng.randint(3) == 0:
            continue
        o[n] = over(rng, t[n], bad) if isinstance(t[n], dict) else \
            VALUES[rng.randint(len(VALUES))]
    if bad and rng.randint(3) == 0:
        o['nosuch'] = 3
    return o


def real(rng):
    o = {}
    for n, v in (('stamp_size', int(rng.randint(20, 90))), ('subtract_sky', bool(
            rng.randint(2))), ('deblender', ['sdss', 'scarlet'][rng.randint(2)]),
            ('shear_bands', [None, ['g'], ['r', 'i']][rng.randint(3)]),
            ('pgauss', {'fwhm': float(rng.uniform(1, 3))}),
            ('detect', {'thresholdValue': float(rng.uniform(3, 9))}),
            ('metacal', {'types': ['noshear'], 'reconv_type': ['gauss', 'fitgauss'][
                rng.randint(2)]})):
        if rng.randint(2):
            o[n] = v
    return {k: o[k] for k in [str(x) for x in rng.permutation(list(o))]} if o else o


def cases(rng, deep):
    while True:
        if rng.randint(4) == 0:
            yield dict(kind='real', over=real(rng))
        else:
            t = tree(rng, 3)
            bad = bool(rng.randint(4) == 0)
            yield dict(kind='tree', tree=t, over=over(rng, t, bad))


def want(t, o):
    """(expected options, is every name known)"""
    r, ok = copy.deepcopy(t), True
    for k, v in o.items():
        if k not in t:
            return r, False
        if isinstance(v, dict):
            r[k], good = want(t[k], v)
            ok &= good
        else:
            r[k] = copy.deepcopy(v)
    return r, ok


def check(d):
    o = copy.deepcopy(d['over'])
    c = lm.MetadetectConfig() if d['kind'] == 'real' else Conf(d['tree'])
    w, ok = want(c.toDict(), o)
    keep = copy.deepcopy(o)
    try:
        util.override_config(c, o)
    except AttributeError as e:
        return None if not ok else 'raised %r' % e
    if not ok:
        return 'an unknown option is accepted'
    if o != keep:
        return 'the overrides are changed'
    if repr(c.toDict()) != repr(w):
        return 'options %s, expected %s' % (c.toDict(), w)
    if d['kind'] == 'real':
        got = lm.get_config(copy.deepcopy(keep)) if hasattr(lm, 'get_config') else w
        if repr({k: got[k] for k in w}) != repr(w):
            return 'configuration %s, expected %s' % (got, w)

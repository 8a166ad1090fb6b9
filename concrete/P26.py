import copy
from metadetect.lsst import configs, defaults
RULE = 'random subsets of the keys at both levels with random values and unknown keys; ' \
       'result, the user\'s and the default configuration compared'
N_QUICK = 3000
ORIG = copy.deepcopy(defaults.DEFAULT_MDET_CONFIG)
SUBS = [k for k, v in ORIG.items() if isinstance(v, dict)]
KEYS = ('subtract_sky', 'deblender', 'detect', 'metacal', 'pgauss', 'stamp_size',
        'shear_bands')


def val(rng):
    return [None, 0, 1.5, True, False, 'x', [1, 2], {'a': 1}, {}, '', [], 0.0][
        rng.randint(12)]


def cases(rng, deep):
    yield dict(c=None)
    yield dict(c={})
    while True:
        p = rng.uniform()
        c = {}
        for k in rng.permutation(sorted(ORIG)):
            if rng.uniform() > p:
                continue
            if k in SUBS:
                c[k] = {s: val(rng) for s in ORIG[k] if rng.randint(3)}
                if rng.randint(12) == 0:
                    c[k]['wild%d' % rng.randint(3)] = val(rng)
            else:
                c[k] = val(rng)
        if rng.randint(8) == 0:
            u = ['detec', 'wild', 'thresh', 'fwhm', 'weight', 'metacal2', ''][
                rng.randint(7)]
            c = {u: {} if rng.randint(2) else val(rng), **c} if rng.randint(2) \
                else {**c, u: val(rng)}
        yield dict(c=c)


def check(c):
    c = copy.deepcopy(c['c'])
    if set(ORIG) != set(KEYS):
        return 'default keys %s' % sorted(ORIG)
    given = copy.deepcopy(c)
    u = c or {}
    bad = any(k not in ORIG for k in u) or any(
        s not in ORIG[k] for k in ('detect', 'pgauss') for s in u.get(k, {}))
    try:
        r = configs.get_config(c)
    except ValueError:
        r = None
    if given != c:
        return ('user config', 'the user\'s configuration was modified')
    if defaults.DEFAULT_MDET_CONFIG != ORIG:
        defaults.DEFAULT_MDET_CONFIG.clear()
        defaults.DEFAULT_MDET_CONFIG.update(copy.deepcopy(ORIG))
        return ('defaults', 'the default configuration was modified')
    if bad:
        return None if r is None else 'unknown key accepted'
    if r is None:
        return 'known keys refused'
    exp = copy.deepcopy(ORIG)
    for k, v in u.items():
        if k in SUBS:
            exp[k].update(v)
        else:
            exp[k] = v
    if r != exp or any(type(r[k]) is not type(exp[k]) for k in exp):
        return 'merged %s, expected %s' % (r, exp)
    for k in SUBS:
        r[k]['changed'] = 1
    if defaults.DEFAULT_MDET_CONFIG != ORIG or given != c:
        defaults.DEFAULT_MDET_CONFIG.clear()
        defaults.DEFAULT_MDET_CONFIG.update(copy.deepcopy(ORIG))
        return ('aliasing', 'changing the result changes the defaults or the input')

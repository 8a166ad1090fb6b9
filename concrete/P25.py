import ngmix.flags
from metadetect import procflags
RULE = 'all single bits, pairs of bits and random combinations of the processing flags'
N_QUICK, N_DEEP = 2000, 20000
OWN = dict(SHEAR_RANGE_ERROR=19, EDGE_HIT=20, PSF_FAILURE=21, OBJ_FAILURE=22,
           NOMOMENTS_FAILURE=23, BAD_BBOX=24, ZERO_WEIGHTS=25, NO_DATA=26,
           MISSING_BAND=27, INCONSISTENT_BANDS=28, CENTROID_FAILURE=29,
           DEBLEND_FAILURE=30)


def flags_of(m):
    return {n: getattr(m, n) for n in dir(m) if n.isupper() and n != 'NAME_MAP'
            and isinstance(getattr(m, n), int)}


def cases(rng, deep):
    yield dict(k='table')
    for i in range(31):
        yield dict(k='val', v=2**i)
        for j in range(i):
            yield dict(k='val', v=2**i | 2**j)
    while True:
        yield dict(k='val', v=int(rng.randint(0, 2**31)))


def check(c):
    fl = flags_of(procflags)
    lib = flags_of(ngmix.flags)
    for n in OWN:
        if n not in fl:
            return 'flag %s is missing' % n
    if c['k'] == 'table':
        own = {n: v for n, v in fl.items() if n != 'NO_ATTEMPT'}
        if fl.get('NO_ATTEMPT') != lib['NO_ATTEMPT']:
            return 'NO_ATTEMPT differs from the library flag'
        vals = list(own.values()) + list(lib.values())
        for n, v in own.items():
            if v <= 0 or v & (v - 1) or v >= 2**31:
                return ('bit ' + n, '%s = %d is not a single bit below 2**31' % (n, v))
        if len(set(vals)) != len(vals):
            return 'two flags share a bit'
        names = [procflags.NAME_MAP.get(v) for v in vals]
        if any(not isinstance(s, str) for s in names):
            return 'a flag has no name'
        if len(set(names)) != len(names):
            return 'two flags share a name'
        for v, s in zip(vals, names):
            if procflags.NAME_MAP.get(s) != v:
                return 'name %r does not map back to its flag' % s
        return None
    val = {**{v: n for n, v in lib.items()}, **{v: n for n, v in fl.items()}}
    known = [b for b in (2**i for i in range(31)) if b in val and b & c['v']]
    unk = [b for b in (2**i for i in range(31)) if b not in val and b & c['v']]
    exp = sorted(procflags.NAME_MAP.get(b, '?') for b in known)
    s = procflags.get_procflags_str(c['v'])
    got = s.split('|') if s else []
    if sorted(g for g in got if not g.startswith('bit 2**')) != exp or \
            len(got) != len(exp) + len(unk):
        return 'names of %d: %r, expected %r' % (c['v'], got, exp)

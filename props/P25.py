"""processing flags and their names"""
from engine.lib import *
from engine import obsmodel as om

META = dict(
    assumptions=['ngmix.flags: its flag values and get_flags_str (the name in the map it '
                 'is given of every set bit, in order) by contract'])


def flags_of(m):
    return {n: getattr(m, n) for n in dir(m) if n.isupper() and n != 'NAME_MAP'
            and isinstance(getattr(m, n), int) and not isinstance(getattr(m, n), bool)}


def table(S):
    ext = om.ngmix_ext()
    S.world(ext)
    m = S.w.load('metadetect.procflags')
    S.funcs.append('metadetect.procflags (module)')

    def run():
        own = {n: int(v) for n, v in flags_of(m).items()}
        lib = {n: int(v) for n, v in flags_of(ext['ngmix.flags']).items()}
        prove('NO_ATTEMPT is the flag of the library', z3.BoolVal(
            own.pop('NO_ATTEMPT') == lib['NO_ATTEMPT']))
        bits = lambda v: z3.BitVecVal(v, 64)
        names = sorted(own)
        for n in names:
            v = bits(own[n])
            prove('%s is a single bit that fits a signed 32-bit column' % n, And(
                v != 0, v & (v - 1) == 0, z3.ULT(v, bits(2**31))))
            for o in names:
                if o < n:
                    prove('%s and %s are distinct bits' % (o, n), v & bits(own[o]) == 0)
            for o in sorted(lib):
                prove('%s and ngmix %s are distinct bits' % (n, o), v & bits(lib[o]) == 0)
        nm = m.NAME_MAP
        ints = {int(k): v for k, v in nm.items() if not isinstance(k, str)}
        for n in names:
            prove('%s has a name' % n, z3.BoolVal(isinstance(ints.get(own[n]), str)))
        for v, s in ext['ngmix.flags'].NAME_MAP.items():
            if not isinstance(v, str):
                prove('library flag %d keeps its name' % v, z3.BoolVal(
                    ints.get(v) == s))
        prove('only flags have names', z3.BoolVal(
            set(ints) == set(own.values()) | set(lib.values())))
        prove('names are distinct', z3.BoolVal(len(set(ints.values())) == len(ints)))
        prove('every name maps back to its flag', z3.BoolVal(
            {k: v for k, v in nm.items() if isinstance(k, str)} ==
            {v: k for k, v in ints.items()}))
        prove('the map of the library is not modified', z3.BoolVal(
            nm is not ext['ngmix.flags'].NAME_MAP and not any(
                v in ext['ngmix.flags'].NAME_MAP for v in own.values())))
    S.explore(run)


def text(S):
    ext = om.ngmix_ext()
    S.world(ext)
    f = S.fn('metadetect.procflags', 'get_procflags_str')
    m = S.w.load('metadetect.procflags')

    def run():
        calls = []
        out = object()

        def contract(val, name_map=None):
            calls.append((val, name_map))
            return out
        ext['ngmix.flags'].get_flags_str = contract
        v = flag('val')
        r = f(v)
        prove('one look-up gives the result', z3.BoolVal(len(calls) == 1 and r is out))
        prove('of the given value', bits_of(lift(calls[0][0])) == v.e)
        prove('with the names of this module', z3.BoolVal(calls[0][1] is m.NAME_MAP))
    S.explore(run)


def sessions():
    return [('flag table', table), ('names of a combination', text)]

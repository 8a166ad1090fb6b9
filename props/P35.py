"""overriding options of the survey tasks"""
from engine.lib import *
from engine import obsmodel as om, lsstmodel as lm
from .P28 import Z, rv

META = dict(
    assumptions=['the recursive call fulfils this contract (induction over the nesting '
                 'depth, which is finite)',
                 'setting and reading attributes of a Config raises AttributeError for '
                 'an unknown name and otherwise sets and reads that option; options of '
                 'different names are independent'])


class Key(str):
    """name of an option; the k-th name of the overrides is option number k"""
    __sym_heap__ = True

    def __new__(cls, e):
        s = str.__new__(cls, '\0option')
        s.e = e
        return s

    def __sym_vmap__(self, f):
        return Key(f(self.e))

    def __eq__(self, o):
        if isinstance(o, Key):
            return SBool(self.e == o.e)
        return SBool(z3.Function('NAME_' + str(o), I, B)(self.e))

    def __ne__(self, o):
        return SBool(Not(truth(lift(self == o))))
    __hash__ = str.__hash__


class Value:
    __sym_heap__ = True

    def __init__(self, e):
        self.e = e

    def __sym_vmap__(self, f):
        return Value(f(self.e))

    def __sym_isinstance__(self, t):
        return SBool(z3.Function('IS_' + t.__name__, I, B)(self.e))


class Sub:
    """the options below an option"""
    __sym_heap__ = True

    def __init__(self, e):
        self.e = e

    def __sym_vmap__(self, f):
        return Sub(f(self.e))


def override(S):
    S.world(lm.ext())
    f = S.fn('metadetect.lsst.util', 'override_config')
    m = S.w.load('metadetect.lsst.util')

    def run():
        n, na = nat('n'), nat('na')
        CTX.assume(na.e >= n.e)
        # value numbers of the options, and of what was handed down to sub-options
        state, down = inp('state', (na,), 'i'), inp('down', (na,), 'i')
        s0, d0 = state.snap(), down.snap()
        KNOWN = z3.Function('KNOWN', I, B)
        VAL = z3.Function('VAL', I, I)
        DICT = z3.Function('IS_dict', I, B)

        class Conf:
            __sym_heap__ = True

            def __sym_vmap__(self, f):
                return self

            def __setattr__(self, k, v):
                if not SBool(KNOWN(k.e)):
                    raise AttributeError(k)
                state[SInt(k.e)] = SInt(v.e)

            def __getattr__(self, k):
                if not isinstance(k, Key):
                    raise AttributeError(k)
                if not SBool(KNOWN(k.e)):
                    raise AttributeError(k)
                return Sub(k.e)
        conf = Conf()

        def below(c, v):
            prove('the options below are overridden', z3.BoolVal(
                isinstance(c, Sub) and isinstance(v, Value)))
            down[SInt(c.e)] = SInt(v.e)

        class Over:
            __sym_heap__ = True

            def __sym_vmap__(self, f):
                return self

            def items(self):
                return om.MetaSeq(n.e, lambda k: (Key(k), Value(VAL(k))), [
                    state, down], 'items')

            def keys(self):
                return om.MetaSeq(n.e, Key, [state, down], 'keys')

            __sym_iter__ = keys

            def __getitem__(self, k):
                return Value(VAL(k.e))
        m.override_config = below
        k = CTX.index('k')
        known = Not(mk_fold1('any', k, Z, n.e, Not(KNOWN(k))))
        try:
            r = f(conf, Over())
        except AttributeError:
            prove('refused only for an unknown option', Or(*[
                And(0 <= b, b < n.e, Not(KNOWN(b))) for b in [Z] + CTX.exits]))
            return
        prove('unknown options are refused', known)

        def e(a):
            return lambda q: to_int_e(lift(a(q)))
        prove_at('exactly the named options have the given values', (na,), lambda q: e(
            state.elem)(q) == If(And(q[0] < n.e, Not(DICT(VAL(q[0])))), VAL(q[0]),
                                 e(s0)(q)))
        prove_at('nested overrides go to the options below', (na,), lambda q: e(
            down.elem)(q) == If(And(q[0] < n.e, DICT(VAL(q[0]))), VAL(q[0]), e(d0)(q)))
    S.explore(run)


def sessions():
    return [('override_config', override)]

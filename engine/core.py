"""
Core of the deductive verifier: path contexts, obligations, the term rewriter and
the fold (iterated operator) registry with its lemma generator.

A *fold* is the closed form of a loop or of a numpy reduction:

    fold(op, k, lo, hi, body)   =   unit  op body(lo)  op ... op body(hi-1)

It is an uninterpreted function of the free index/state constants of its body
(lambda lifting), so substitution into it is ordinary substitution.  Nothing is ever
unrolled: equality of two folds is proved by congruence (for every k in range the
bodies are equal), and the logical folds (any) get their quantified meaning.
"""
import time
from fractions import Fraction
import itertools
import z3

z3.set_param('memory_max_size', 6000)


class EngineError(BaseException):
    """base of everything the real code may not catch"""


class Unsupported(EngineError):
    """the engine cannot bring this construct within reach"""


class Prune(EngineError):
    """path infeasible"""


class NeedBits(EngineError):
    def __init__(self, what):
        self.what = what


class NeedPeel(EngineError):
    def __init__(self, name):
        self.name = name


class Stop(EngineError):
    """stop exploring this path (used by harnesses)"""


# ---------------------------------------------------------------------------
# small z3 helpers

def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def realval(x):
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + '/' + str(x.denominator))
    if isinstance(x, int):
        return z3.RealVal(x)
    x = float(x)
    if x == int(x) and abs(x) < 1e300:
        return z3.RealVal(int(x))
    return z3.RealVal(str(Fraction(repr(x))))


def And(*a):
    out = []
    for x in a:
        if is_true(x):
            continue
        if is_false(x):
            return z3.BoolVal(False)
        out.append(x)
    if not out:
        return z3.BoolVal(True)
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*a):
    out = []
    for x in a:
        if is_false(x):
            continue
        if is_true(x):
            return z3.BoolVal(True)
        out.append(x)
    if not out:
        return z3.BoolVal(False)
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(a):
    if is_true(a):
        return z3.BoolVal(False)
    if is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if isinstance(a, int):
        a = mknum(a, b.sort() if z3.is_expr(b) else z3.IntSort())
    if isinstance(b, int):
        b = mknum(b, a.sort())
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return Not(c)
    return z3.If(c, a, b)


# ---------------------------------------------------------------------------
# lifted constants: index variables and havocked state

_LIFT = {}


def lift_const(name, sort):
    c = z3.Const(name, sort)
    _LIFT[c.get_id()] = c
    return c


def is_lifted(e):
    return e.num_args() == 0 and e.get_id() in _LIFT


_fv_cache = {}
_keep = []


def free_syms(e):
    """(lifted consts, decl names) occurring in e (fold bodies included)"""
    i = e.get_id()
    r = _fv_cache.get(i)
    if r is not None:
        return r
    stack = [(e, False)]
    while stack:
        x, done = stack.pop()
        xi = x.get_id()
        if xi in _fv_cache:
            continue
        if z3.is_quantifier(x):
            ch = [x.body()]
        elif z3.is_var(x):
            ch = []
        else:
            ch = x.children()
        if not done:
            stack.append((x, True))
            for c in ch:
                if c.get_id() not in _fv_cache:
                    stack.append((c, False))
            continue
        cs = set()
        ds = set()
        if z3.is_app(x):
            if x.num_args() == 0:
                if xi in _LIFT:
                    cs.add(xi)
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                ds.add(nm)
                f = FOLDS.get(nm)
                if f is not None:
                    ds |= f.decls
        for c in ch:
            a, b = _fv_cache[c.get_id()]
            cs |= a
            ds |= b
        _fv_cache[xi] = (frozenset(cs), frozenset(ds))
        _keep.append(x)
    return _fv_cache[i]


def rewrite(e, cmap=None, umap=None, _cache=None):
    """
    Replace lifted constants (cmap: id -> expr) and uninterpreted functions
    (umap: name -> python callable(args) -> expr) in e, going into fold bodies.
    """
    cmap = cmap or {}
    umap = umap or {}
    if _cache is None:
        _cache = {}
    ckeys = frozenset(cmap)
    ukeys = frozenset(umap)

    def need(x):
        cs, ds = free_syms(x)
        return bool(cs & ckeys) or bool(ds & ukeys)

    def go(x):
        xi = x.get_id()
        r = _cache.get(xi)
        if r is not None:
            return r
        if not need(x):
            _cache[xi] = x
            return x
        if x.num_args() == 0:
            if xi in cmap:
                r = cmap[xi]
            elif x.decl().name() in umap:
                r = umap[x.decl().name()]([])
            else:
                r = x
                f = FOLDS.get(x.decl().name())
                if f is not None:
                    r = f.remap([], umap, cmap)
            _cache[xi] = r
            _keep.append(x)
            return r
        if z3.is_quantifier(x):
            raise Unsupported("rewrite under quantifier")
        args = [go(a) for a in x.children()]
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            nm = d.name()
            if nm in umap:
                r = umap[nm](args)
            elif nm in FOLDS and (FOLDS[nm].decls & ukeys):
                r = FOLDS[nm].remap(args, umap, {})
            else:
                r = d(*args)
        else:
            r = rebuild(x, d, args)
        _cache[xi] = r
        _keep.append(x)
        return r

    return go(e)


def rebuild(x, d, args):
    k = d.kind()
    if k == z3.Z3_OP_ITE:
        return If(*args)
    if k == z3.Z3_OP_AND:
        return And(*args)
    if k == z3.Z3_OP_OR:
        return Or(*args)
    if k == z3.Z3_OP_NOT:
        return Not(args[0])
    if k == z3.Z3_OP_EQ:
        if args[0].eq(args[1]):
            return z3.BoolVal(True)
        if z3.is_int_value(args[0]) and z3.is_int_value(args[1]):
            return z3.BoolVal(args[0].as_long() == args[1].as_long())
        return args[0] == args[1]
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        if args[0].eq(args[1]):
            return z3.BoolVal(k in (z3.Z3_OP_LE, z3.Z3_OP_GE))
    if k == z3.Z3_OP_ADD:
        return nary_add(args)
    if k == z3.Z3_OP_MUL:
        return nary_mul(args)
    if k == z3.Z3_OP_BOR:
        out = args[0]
        for a in args[1:]:
            out = bor(out, a)
        return out
    if k == z3.Z3_OP_DISTINCT and len(args) == 2:
        return Not(rebuild(x, (args[0] == args[1]).decl(), args))
    try:
        return d(*args)
    except z3.Z3Exception:
        r = args[0]
        for a in args[1:]:
            r = d(r, a)
        return r


def is_num(e, v=None):
    if z3.is_int_value(e):
        return v is None or e.as_long() == v
    if z3.is_rational_value(e):
        return v is None or e.as_fraction() == v
    return False


def numval(e):
    if z3.is_int_value(e):
        return e.as_long()
    return e.as_fraction()


def mknum(v, sort):
    if sort == z3.IntSort():
        return z3.IntVal(int(v))
    return realval(Fraction(v))


def nary_add(args):
    acc = 0
    out = []
    for a in args:
        if is_num(a):
            acc = acc + numval(a)
        else:
            out.append(a)
    if acc != 0 or not out:
        out.append(mknum(acc, args[0].sort()))
    if len(out) == 1:
        return out[0]
    return z3.Sum(*out) if False else _fold2(out, lambda a, b: a + b)


def nary_mul(args):
    acc = 1
    out = []
    for a in args:
        if is_num(a):
            acc = acc * numval(a)
        else:
            out.append(a)
    if acc == 0:
        return mknum(0, args[0].sort())
    if acc != 1 or not out:
        out.insert(0, mknum(acc, args[0].sort()))
    if len(out) == 1:
        return out[0]
    return _fold2(out, lambda a, b: a * b)


def _fold2(xs, f):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def bor(a, b):
    if z3.is_bv_value(a) and a.as_long() == 0:
        return b
    if z3.is_bv_value(b) and b.as_long() == 0:
        return a
    if a.eq(b):
        return a
    return a | b


BV = 32


def bvval(x):
    return z3.BitVecVal(int(x), BV)


# ---------------------------------------------------------------------------
# folds

FOLDS = {}      # decl name -> Fold
_FKEY = {}

UNITS = {
    'sum': lambda s: mknum(0, s),
    'prod': lambda s: mknum(1, s),
    'bor': lambda s: bvval(0),
    'band': lambda s: bvval(-1),
    'any': lambda s: z3.BoolVal(False),
}


def combine(op, a, b):
    if op == 'sum':
        return nary_add([a, b])
    if op == 'prod':
        return nary_mul([a, b])
    if op == 'bor':
        return bor(a, b)
    if op == 'band':
        return a & b
    if op == 'any':
        return Or(a, b)
    raise Unsupported('combine ' + op)


class Fold:
    """op over vars (list of (k, lo, hi)), bodies: list of exprs"""

    def __init__(self, name, op, params, vars, bodies, sort):
        self.name = name
        self.op = op
        self.params = params
        self.vars = vars
        self.bodies = bodies
        self.sort = sort
        ds = set()
        for b in bodies:
            ds |= free_syms(b)[1]
        for _, lo, hi in vars:
            ds |= free_syms(lo)[1] | free_syms(hi)[1]
        self.decls = frozenset(ds)
        self.decl = z3.Function(
            name, *([p.sort() for p in params] + [sort])
        )

    def app(self, args):
        return self.decl(*args)

    def inst(self, args, ks=None):
        """(vars, bodies) at the given params; ks are the bound variables to use"""
        cm = {p.get_id(): a for p, a in zip(self.params, args)}
        if ks is None:
            ks = [CTX.index('k') for _ in self.vars]
        for (k, _, _), nk in zip(self.vars, ks):
            cm[k.get_id()] = nk
        cache = {}
        vs = []
        for (k, lo, hi), nk in zip(self.vars, ks):
            vs.append((nk, rewrite(lo, cm, None, cache),
                       rewrite(hi, cm, None, cache)))
        return vs, [rewrite(b, cm, None, cache) for b in self.bodies]

    def remap(self, args, umap, cmap):
        vs, bodies = self.inst(args)
        cache = {}
        vs = [(k, rewrite(lo, cmap, umap, cache), rewrite(hi, cmap, umap, cache))
              for k, lo, hi in vs]
        bodies = [rewrite(b, cmap, umap, cache) for b in bodies]
        return mk_fold(self.op, vs, bodies, self.sort)


def mk_fold(op, vars, bodies, sort=None):
    """general constructor (multi variable folds are kept as they are)"""
    if sort is None:
        sort = bodies[-1].sort()
    if op in UNITS and len(vars) == 1 and len(bodies) == 1:
        (k, lo, hi) = vars[0]
        return mk_fold1(op, k, lo, hi, bodies[0])
    return raw_fold(op, vars, bodies, sort)


def raw_fold(op, vars, bodies, sort):
    allc = set()
    for b in bodies:
        allc |= free_syms(b)[0]
    for _, lo, hi in vars:
        allc |= free_syms(lo)[0] | free_syms(hi)[0]
    bound = {k.get_id() for k, _, _ in vars}
    params = sorted(allc - bound)
    params = [_LIFT[i] for i in params]
    # order the parameters by first occurrence, to be stable under renaming
    order = {}
    for b in list(bodies) + [x for v in vars for x in v[1:]]:
        for c in occ_order(b):
            order.setdefault(c, len(order))
    params.sort(key=lambda p: order.get(p.get_id(), 10**9))
    cm = {}
    cps = []
    for i, p in enumerate(params):
        cp = lift_const('P!%d!%s' % (i, p.sort()), p.sort())
        cm[p.get_id()] = cp
        cps.append(cp)
    cks = []
    depth = 0
    for b in bodies:
        for d in free_syms(b)[1]:
            if d in FOLDS:
                depth = max(depth, FOLDS[d].depth + 1)
    for j, (k, _, _) in enumerate(vars):
        ck = lift_const('K!%d!%d' % (depth, j), z3.IntSort())
        cm[k.get_id()] = ck
        cks.append(ck)
    cache = {}
    cvars = [(ck, rewrite(lo, cm, None, cache), rewrite(hi, cm, None, cache))
             for ck, (_, lo, hi) in zip(cks, vars)]
    cb = [rewrite(b, cm, None, cache) for b in bodies]
    key = (op, str(sort), tuple(p.get_id() for p in cps),
           tuple((k.get_id(), lo.get_id(), hi.get_id()) for k, lo, hi in cvars),
           tuple(b.get_id() for b in cb))
    f = _FKEY.get(key)
    if f is None:
        name = 'F!%s!%d' % (op, len(FOLDS))
        f = Fold(name, op, cps, cvars, cb, sort)
        f.depth = depth
        FOLDS[name] = f
        _FKEY[key] = f
        _keep.extend(cb)
        _keep.extend([x for v in cvars for x in v])
        _keep.extend(cps)
    return f.app(params)


def occ_order(e):
    out = []
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.num_args() == 0:
            if i in _LIFT:
                out.append(i)
        else:
            stack.extend(reversed(x.children()))
    return out


def has_const(e, k):
    return k.get_id() in free_syms(e)[0]


def mk_fold1(op, k, lo, hi, body):
    sort = body.sort()
    unit = UNITS[op](sort)
    if z3.is_int_value(lo) and z3.is_int_value(hi):
        n = hi.as_long() - lo.as_long()
        if n <= 0:
            return unit
        if n <= 8:
            r = unit
            for i in range(lo.as_long(), hi.as_long()):
                r = combine(op, r, rewrite(body, {k.get_id(): z3.IntVal(i)}))
            return r
    if body.eq(unit):
        return unit
    c = shift_of(body, k)
    if c is not None:
        body = reshift(body, k, nary_add([k, nary_mul([z3.IntVal(-1), c])]))
        lo, hi = nary_add([lo, c]), nary_add([hi, c])
    if not has_const(body, k):
        ne = lo < hi
        if op in ('any', 'bor', 'band'):
            if op == 'any':
                return And(ne, body)
            return If(ne, body, unit)
        if op == 'sum':
            n = If(ne, hi - lo, z3.IntVal(0))
            if sort == z3.RealSort():
                n = z3.ToReal(n)
            return nary_mul([n, body])
    r = finite_support(op, k, lo, hi, body, unit)
    if r is not None:
        return r
    if op == 'sum' and z3.is_app_of(body, z3.Z3_OP_ITE) and all(
            z3.is_int_value(x) or z3.is_rational_value(x)
            for x in body.children()[1:]) and not (
                is_num(body.arg(1), 1) and is_num(body.arg(2), 0)):
        c, a, b = body.children()       # constants pulled out: a count remains
        return nary_add([mk_fold1('sum', k, lo, hi, b), nary_mul([
            z3.simplify(a - b), mk_fold1('sum', k, lo, hi, If(
                c, mknum(1, sort), mknum(0, sort)))])])
    if op == 'sum':
        parts = lin_split(body, k)
        if len(parts) > 1 or not is_num(parts[0][0], 1):
            out = []
            for coef, mono in parts:
                if is_num(mono, 1):
                    out.append(nary_mul([coef, mk_fold1('sum', k, lo, hi, mono)]))
                else:
                    r = finite_support(op, k, lo, hi, mono, unit)
                    if r is None:
                        r = raw_fold('sum', [(k, lo, hi)], [mono], sort)
                    out.append(nary_mul([coef, r]))
            return nary_add(out)
        body = parts[0][1]
    if op == 'prod':
        fs = []
        mul_flatten(body, fs)
        if len(fs) > 1:
            return nary_mul([mk_fold1('prod', k, lo, hi, f) for f in fs])
    if op == 'bor':
        leaf = single_leaf(body, k)
        if leaf is not None:
            return If(mk_fold1('any', k, lo, hi, leaf[0]), leaf[1], unit)
    if op == 'any':
        b = bool_norm(blake(body))
        if not b.eq(body):
            return mk_fold1(op, k, lo, hi, b)
    if op == 'any' and z3.is_or(body):
        return Or(*[mk_fold1('any', k, lo, hi, b) for b in body.children()])
    if op == 'any' and z3.is_and(body):
        fr = [b for b in body.children() if not has_const(b, k)]
        bd = [b for b in body.children() if has_const(b, k)]
        if fr:
            return And(*(fr + [mk_fold1('any', k, lo, hi, And(*bd))]))
    return raw_fold(op, [(k, lo, hi)], [body], sort)


BOOLCMP = (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)


def bool_norm(e, neg=False):
    """negation normal form, with comparisons as < or <= and choices spread out"""
    if not z3.is_app(e):
        return Not(e) if neg else e
    k = e.decl().kind()
    if k == z3.Z3_OP_NOT:
        return bool_norm(e.arg(0), not neg)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        conj = (k == z3.Z3_OP_AND) != neg
        out = []
        for c in e.children():
            c = bool_norm(c, neg)
            out += c.children() if (z3.is_and(c) if conj else z3.is_or(c)) else [c]
        return And(*out) if conj else Or(*out)
    if k in BOOLCMP and e.num_args() == 2:
        a, b = e.children()
        for x, y, f in ((a, b, lambda v: rebuild(e, e.decl(), [a, v])),
                        (b, a, lambda v: rebuild(e, e.decl(), [v, b]))):
            if (z3.is_int_value(x) or z3.is_rational_value(x)) and \
                    y.decl().kind() == z3.Z3_OP_ITE:
                r = choice_cmp(y, f)
                if r is not None:
                    return bool_norm(r, neg)
        if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
            a, b = b, a
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            lt = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            if neg:
                a, b, lt = b, a, not lt
            return a < b if lt else a <= b
        if k == z3.Z3_OP_DISTINCT:
            e, neg = a == b, not neg
    return Not(e) if neg else e


CONN = (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ITE)


def blake(e, most=4):
    """a formula with choices or alternatives as the disjunction of its prime
    implicants over its (at most `most`) atoms"""
    atoms, kinds, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() in CONN:
            kinds.add(x.decl().kind())
            todo += x.children()
        elif not (z3.is_true(x) or z3.is_false(x) or any(x.eq(a) for a in atoms)):
            atoms.append(x)
    if len(atoms) > most or not (z3.Z3_OP_ITE in kinds or {
            z3.Z3_OP_AND, z3.Z3_OP_OR} <= kinds):
        return e

    def ev(x, m):
        if z3.is_true(x) or z3.is_false(x):
            return z3.is_true(x)
        k = x.decl().kind()
        if k == z3.Z3_OP_NOT:
            return not ev(x.arg(0), m)
        if k == z3.Z3_OP_AND:
            return all(ev(c, m) for c in x.children())
        if k == z3.Z3_OP_OR:
            return any(ev(c, m) for c in x.children())
        if k == z3.Z3_OP_ITE:
            return ev(x.arg(1 if ev(x.arg(0), m) else 2), m)
        return m[next(i for i, a in enumerate(atoms) if a.eq(x))]
    n = len(atoms)
    true = {m for m in itertools.product((False, True), repeat=n) if ev(e, m)}
    prime = []
    for cube in sorted(itertools.product((None, False, True), repeat=n),
                       key=lambda c: sum(v is not None for v in c)):
        fits = [m for m in itertools.product((False, True), repeat=n)
                if all(c is None or c == v for c, v in zip(cube, m))]
        if all(m in true for m in fits) and not any(
                all(p is None or p == c for p, c in zip(q, cube)) for q in prime):
            prime.append(cube)
    if z3.Z3_OP_ITE not in kinds and sum(c is not None for q in prime for c in q) >= \
            leaves(e):
        return e
    return Or(*[And(*[a if c else Not(a) for a, c in zip(atoms, q) if c is not None])
                for q in prime])


def leaves(e):
    """number of occurrences of atoms"""
    if z3.is_app(e) and e.decl().kind() in CONN:
        return sum(leaves(c) for c in e.children())
    return 1


def choice_cmp(y, f):
    if z3.is_int_value(y) or z3.is_rational_value(y):
        return z3.simplify(f(y))
    if y.decl().kind() != z3.Z3_OP_ITE:
        return f(y)
    c, p, q = y.children()
    p, q = choice_cmp(p, f), choice_cmp(q, f)
    if p is None or q is None:
        return None
    if z3.is_true(p):
        return Or(c, q)
    if z3.is_false(p):
        return And(Not(c), q)
    if z3.is_true(q):
        return Or(Not(c), p)
    if z3.is_false(q):
        return And(c, p)
    return None


def shift_of(e, k):
    """the c when e mentions k only as k + c (as for the pixels of a slice)"""
    kid = k.get_id()
    off = []
    seen = set()

    def go(x):
        i = x.get_id()
        if i in seen:
            return True
        seen.add(i)
        if i == kid:
            return False
        if not has_const(x, k):
            return True
        f = FOLDS.get(x.decl().name()) if x.num_args() else None
        if f is not None:
            vs, bodies = f.inst(x.children())
            return all(go(q) for q in bodies + [q for v in vs for q in v[1:]])
        if x.decl().kind() == z3.Z3_OP_ADD and x.sort() == z3.IntSort():
            ch = x.children()
            if sum(1 for q in ch if q.get_id() == kid) == 1:
                rest = [q for q in ch if q.get_id() != kid]
                if any(has_const(q, k) for q in rest):
                    return False
                c = nary_add(rest) if len(rest) > 1 else rest[0]
                off.append(c)
                return off[0].eq(c) or z3.simplify(off[0] - c).eq(z3.IntVal(0))
        return all(go(q) for q in x.children())
    if not go(e) or not off:
        return None
    if z3.is_int_value(off[0]):
        return None
    return off[0]


def reshift(e, k, new):
    """e with k replaced, folds rebuilt so that they stay in normal form"""
    def go(x):
        if not has_const(x, k):
            return x
        if x.eq(k):
            return new
        f = FOLDS.get(x.decl().name()) if x.num_args() else None
        if f is not None:
            vs, bodies = f.inst(x.children())
            return mk_fold(f.op, [(v, z3.simplify(go(lo)), z3.simplify(go(hi)))
                                  for v, lo, hi in vs],
                           [z3.simplify(go(b)) for b in bodies], f.sort)
        return rebuild(x, x.decl(), [go(c) for c in x.children()])
    return z3.simplify(go(e))


def mul_flatten(e, out):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        for c in e.children():
            mul_flatten(c, out)
    else:
        out.append(e)


def lin_split(e, k):
    """
    write e as sum of coef*mono with coef free of k; returns list of (coef, mono),
    monos with equal id merged
    """
    sort = e.sort()
    one = mknum(1, sort)

    def go(x, coef):
        if not has_const(x, k):
            return [(nary_mul([coef, x]), one)]
        kd = x.decl().kind()
        if kd == z3.Z3_OP_ADD:
            out = []
            for c in x.children():
                out += go(c, coef)
            return out
        if kd == z3.Z3_OP_SUB:
            out = go(x.arg(0), coef)
            for c in x.children()[1:]:
                out += go(c, nary_mul([mknum(-1, sort), coef]))
            return out
        if kd == z3.Z3_OP_UMINUS:
            return go(x.arg(0), nary_mul([mknum(-1, sort), coef]))
        if kd == z3.Z3_OP_MUL:
            fr, bd = [], []
            fl = []
            mul_flatten(x, fl)
            for f in fl:
                (bd if has_const(f, k) else fr).append(f)
            if fr:
                return go(nary_mul(bd), nary_mul([coef] + fr))
            # distribute over one additive factor
            for i, f in enumerate(bd):
                if f.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                    out = []
                    rest = bd[:i] + bd[i+1:]
                    for j, c in enumerate(f.children()):
                        sg = mknum(-1 if (j and f.decl().kind() == z3.Z3_OP_SUB)
                                   else 1, sort)
                        out += go(nary_mul(rest + [c]), nary_mul([coef, sg]))
                    return out
            # pull k-free divisors out
            nb = []
            cf = [coef]
            ch = False
            for f in bd:
                if f.decl().kind() == z3.Z3_OP_DIV and not has_const(f.arg(1), k):
                    cf.append(mknum(1, sort) / f.arg(1))
                    nb.append(f.arg(0))
                    ch = True
                elif f.decl().kind() == z3.Z3_OP_DIV and not has_const(f.arg(0), k) \
                        and not is_num(f.arg(0), 1):
                    cf.append(f.arg(0))
                    nb.append(mknum(1, sort) / f.arg(1))
                    ch = True
                else:
                    nb.append(f)
            if ch:
                return go(nary_mul(nb), nary_mul(cf))
            bd.sort(key=lambda z: z.get_id())
            return [(coef, nary_mul(bd))]
        if kd == z3.Z3_OP_DIV:
            a, b = x.children()
            if not has_const(b, k):
                return go(a, nary_mul([coef, mknum(1, sort) / b]))
            if not has_const(a, k) and not is_num(a, 1):
                return [(nary_mul([coef, a]), mknum(1, sort) / b)]
        if kd == z3.Z3_OP_TO_REAL:
            return [(coef, x)]
        if kd == z3.Z3_OP_ITE and sort != z3.BoolSort():
            c, a, b = x.children()
            if not has_const(c, k):
                # ite with k-free condition: split into two guarded parts
                za = go(a, nary_mul([coef, If(c, mknum(1, sort), mknum(0, sort))]))
                zb = go(b, nary_mul([coef, If(c, mknum(0, sort), mknum(1, sort))]))
                return za + zb
            if is_num(b, 0) and not is_num(a):
                # ite(c, a, 0) with a = coef*mono: pull k-free factors
                pa = go(a, one)
                if len(pa) == 1 and not is_num(pa[0][0], 1):
                    return [(nary_mul([coef, pa[0][0]]), If(c, pa[0][1], b))]
                if len(pa) > 1:
                    return [(nary_mul([coef, p0]), If(c, p1, b)) for p0, p1 in pa]
            if is_num(a, 0):
                return go(If(Not(c), b, a), coef)
        return [(coef, x)]

    parts = go(e, one)
    merged = {}
    for c, m in parts:
        if m.get_id() in merged:
            merged[m.get_id()] = (nary_add([merged[m.get_id()][0], c]), m)
        else:
            merged[m.get_id()] = (c, m)
    out = [v for v in merged.values() if not is_num(v[0], 0)]
    if not out:
        return [(mknum(0, sort), one)]
    return out


def eq_candidates(e, k):
    """terms t (free of k) such that an atom equivalent to k == t occurs in e"""
    out = {}
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if not has_const(x, k):
            continue
        if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort():
            t = solve_linear(x.arg(0), x.arg(1), k)
            if t is not None:
                out[t.get_id()] = t
        stack.extend(x.children())
    return list(out.values())


def lin_coeffs(e, k):
    """(a, b) with e == a*k + b, a python int, b free of k; or None"""
    if e.eq(k):
        return 1, z3.IntVal(0)
    if not has_const(e, k):
        return 0, e
    kd = e.decl().kind()
    if kd == z3.Z3_OP_ADD:
        a = 0
        bs = []
        for c in e.children():
            r = lin_coeffs(c, k)
            if r is None:
                return None
            a += r[0]
            bs.append(r[1])
        return a, nary_add(bs)
    if kd == z3.Z3_OP_SUB:
        r = lin_coeffs(e.arg(0), k)
        if r is None:
            return None
        a, b = r
        for c in e.children()[1:]:
            r = lin_coeffs(c, k)
            if r is None:
                return None
            a -= r[0]
            b = nary_add([b, nary_mul([z3.IntVal(-1), r[1]])])
        return a, b
    if kd == z3.Z3_OP_UMINUS:
        r = lin_coeffs(e.arg(0), k)
        if r is None:
            return None
        return -r[0], nary_mul([z3.IntVal(-1), r[1]])
    if kd == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        r = lin_coeffs(e.arg(1), k)
        if r is None:
            return None
        m = e.arg(0).as_long()
        return m*r[0], nary_mul([z3.IntVal(m), r[1]])
    return None


def solve_linear(l, r, k):
    a = lin_coeffs(l, k)
    b = lin_coeffs(r, k)
    if a is None or b is None:
        return None
    m = a[0] - b[0]
    if abs(m) != 1:
        return None
    d = z3.simplify(b[1] - a[1])
    if m == -1:
        d = z3.simplify(-d)
    return d


def finite_support(op, k, lo, hi, body, unit):
    cands = eq_candidates(body, k)
    if not cands or len(cands) > 4:
        return None
    off = And(*[k != c for c in cands])
    if not valid(Implies(off, body == unit)):
        # maybe only inside the range
        if not valid(Implies(And(off, lo <= k, k < hi), body == unit)):
            return None
    # drop candidates one at a time when not needed
    if len(cands) > 1:
        for c in list(cands):
            rest = [x for x in cands if not x.eq(c)]
            if not rest:
                break
            off = And(*([k != x for x in rest] + [lo <= k, k < hi]))
            if valid(Implies(off, body == unit), timeout=500):
                cands = rest
    r = unit
    used = []
    for c in cands:
        inr = And(lo <= c, c < hi, *[c != u for u in used])
        v = rewrite(body, {k.get_id(): c})
        r = combine(op, r, If(inr, v, unit))
        used.append(c)
    return r


_valid_cache = {}


# on a second attempt the solver gets more time and another seed
EFFORT = dict(scale=1, seed=0)


def ms(t):
    return int(t*EFFORT['scale'])


def effort(scale, seed):
    EFFORT.update(scale=scale, seed=seed)
    z3.set_param('smt.random_seed', seed)
    z3.set_param('sat.random_seed', seed)


def valid(e, timeout=2000, hyps=()):
    """plain validity of e (no path condition), cached"""
    e = z3.simplify(e)
    if is_true(e):
        return True
    if is_false(e):
        return False
    key = (e.get_id(), tuple(h.get_id() for h in hyps))
    r = _valid_cache.get(key)
    if r is None:
        _keep.append(e)
        _keep.extend(hyps)
        s = z3.Solver()
        s.set('timeout', ms(timeout))
        for h in hyps:
            s.add(h)
        s.add(z3.Not(e))
        if CTX.input_facts:
            s.add(*CTX.ifacts(And(e, *hyps)))
        t0 = time.time()
        r = s.check() == z3.unsat
        CTX.solver_time += time.time() - t0
        CTX.nqueries += 1
        _valid_cache[key] = r
    return r


# ---------------------------------------------------------------------------
# context

class Frame:
    scope = False         # assumes conditions only, explores nothing

    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.pc = []          # z3 exprs: decisions and assumptions of this frame
        self.decisions = []


class Obligation:
    def __init__(self, name, status, backend, wall, detail=None, model=None):
        self.name = name
        self.status = status
        self.backend = backend
        self.wall = wall
        self.detail = detail
        self.model = model


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.frames = []
        self.solver = z3.Solver()
        self.solver.set('timeout', ms(1500))
        self.obls = []
        self.counter = 0
        self.solver_time = 0.0
        self.nqueries = 0
        self.npaths = 0
        self.maxpaths = 3000
        self.loopvars = []
        self.skolems = []         # index constants named by contracts
        self.exits = []           # iterations at which loops were left on this path
        self.axiom_hooks = {}     # decl name -> fn(args) -> list of facts
        self.input_facts = {}     # same, for preconditions on inputs (used everywhere)
        self.assumptions = {}
        self.deadline = None
        self.inferred = []        # loop summaries, for the evidence
        self.prove_timeout = 10000
        self.functions = set()
        self.named = {}

    def assumption(self, text):
        self.assumptions[text] = self.assumptions.get(text, 0) + 1

    # -- symbols
    def fresh_name(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def index(self, base='i'):
        return lift_const(self.fresh_name(base), z3.IntSort())

    def state(self, base, sort):
        return lift_const(self.fresh_name(base), sort)

    def fresh(self, base, sort):
        """fresh value; inside loop bodies a function of the loop variables"""
        if self.loopvars:
            f = z3.Function(self.fresh_name(base),
                            *([v.sort() for v in self.loopvars] + [sort]))
            return f(*self.loopvars)
        return z3.Const(self.fresh_name(base), sort)

    def fresh_fun(self, base, argsorts, sort):
        """fresh function of the given arguments (and of the loop variables)"""
        lv = list(self.loopvars)
        f = z3.Function(self.fresh_name(base),
                        *([v.sort() for v in lv] + list(argsorts) + [sort]))
        return lambda *a: f(*(lv + list(a)))

    # -- path condition
    def pc(self):
        out = []
        for f in self.frames:
            out.extend(f.pc)
        return out

    def assume(self, e):
        e = z3.simplify(e) if not z3.is_quantifier(e) else e
        if is_true(e):
            return
        self.frames[-1].pc.append(e)
        self.solver.add(e)
        self.solver.add(*self.ifacts(e))
        if is_false(e):
            raise Prune()

    def feasible(self, e=None):
        self.tick()
        t0 = time.time()
        self.nqueries += 1
        if e is None:
            r = self.solver.check()
        else:
            r = self.solver.check(e, *self.ifacts(e))
        self.solver_time += time.time() - t0
        return r != z3.unsat

    def ifacts(self, e):
        """preconditions on the inputs read in e"""
        if not self.input_facts:
            return []
        out = []
        for a in apps([e], lambda n: n in self.input_facts):
            out.extend(self.input_facts[a.decl().name()](a.children()))
        return out

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget of the proof exceeded')

    def entailed(self, e):
        """e follows from the path condition (quick check, no fold lemmas)"""
        e = z3.simplify(e)
        if is_true(e):
            return True
        if is_false(e):
            return False
        return not self.feasible(z3.Not(e))

    def decide(self, e):
        e0 = e
        e = z3.simplify(e)
        if is_true(e):
            return True
        if is_false(e):
            return False
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
            fr.pos += 1
            if d is None:
                d = True
                forced = True
            val, both = d
        else:
            t = self.feasible(e)
            f = self.feasible(z3.Not(e))
            if not t and not f:
                raise Prune()
            if t and f:
                if fr.scope:
                    raise Unsupported('case distinction inside a scope')
                both = True
                val = True
                self.pending.append(fr.prefix[:0] + fr.decisions + [(False, True)])
            else:
                both = False
                val = t
            fr.pos += 1
        fr.decisions.append((val, both))
        lit = e if val else z3.simplify(z3.Not(e))
        if both:
            fr.pc.append(lit)
            self.solver.add(lit)
            self.solver.add(*self.ifacts(lit))
        return val

    def explore(self, fn):
        """
        run fn() along every feasible path; returns list of
        (pc, kind, value) with kind 'ok' or 'exc'
        """
        saved_pending = getattr(self, 'pending', None)
        results = []
        work = [[]]
        top = not self.frames
        cnt0 = self.counter
        while work:
            prefix = work.pop()
            self.npaths += 1
            if self.npaths > self.maxpaths:
                self.pending = saved_pending
                raise Unsupported('too many paths')
            self.pending = []
            fr = Frame(prefix)
            self.frames.append(fr)
            self.solver.push()
            if top:
                self.counter = cnt0
                self.exits = []
            lv = list(self.loopvars)
            try:
                try:
                    v = fn()
                    results.append((fr.pc, 'ok', v))
                except Prune:
                    pass
                except Stop:
                    pass
                except EngineError:
                    raise
                except Exception as err:
                    results.append((fr.pc, 'exc', err))
                work.extend(reversed(self.pending))
            finally:
                self.solver.pop()
                self.frames.pop()
                self.loopvars = lv
                self.pending = saved_pending
        return results

    # -- obligations
    def prove(self, name, e, timeout=None):
        t0 = time.time()
        ok, backend, detail, model = prove_formula(
            self.pc(), e, timeout or self.prove_timeout)
        st = 'discharged' if ok else ('failed' if ok is False else 'unknown')
        self.obls.append(Obligation(name, st, backend, time.time() - t0,
                                    detail, model))
        return ok

    def fail(self, name, detail):
        self.obls.append(Obligation(name, 'failed', 'engine', 0.0, detail))


CTX = Ctx()


# ---------------------------------------------------------------------------
# prover with fold lemmas

def apps(exprs, pred):
    out = {}
    seen = set()
    stack = list(exprs)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x.decl().name()):
                out[i] = x
            stack.extend(x.children())
    return list(out.values())


def hook_axioms(exprs):
    """instances of the registered axioms (sqrt, external contracts)"""
    out = []
    done = set()
    work = list(exprs)
    for _ in range(3):
        new = []
        for a in apps(work, lambda n: n in CTX.axiom_hooks or n in CTX.input_facts):
            if a.get_id() in done:
                continue
            done.add(a.get_id())
            _keep.append(a)
            n = a.decl().name()
            for hk in (CTX.axiom_hooks, CTX.input_facts):
                if n in hk:
                    new.extend(hk[n](a.children()))
        if not new:
            break
        out.extend(new)
        work = new
    return out


def solve(hyps, goal, timeout):
    s = z3.Solver()
    s.set('timeout', ms(int(timeout)))
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    t0 = time.time()
    r = s.check()
    CTX.solver_time += time.time() - t0
    CTX.nqueries += 1
    return r, s


_lemma_cache = {}


def range_cond(vs):
    return And(*[And(lo <= k, k < hi) for k, lo, hi in vs])


def fold_lemmas(hyps, goal, depth, timeout):
    """facts about the fold applications occurring in goal and hyps"""
    facts = []
    gapps = apps([goal], lambda n: n in FOLDS)
    happs = apps(hyps, lambda n: n in FOLDS)
    allapps = {a.get_id(): a for a in gapps + happs}
    allapps = list(allapps.values())
    gids = {a.get_id() for a in gapps}
    if depth <= 1:
        for fact, new in peel(allapps):
            facts.append(fact)
            for a in apps([fact], lambda n: n in FOLDS):
                if a.get_id() not in {x.get_id() for x in allapps}:
                    allapps.append(a)
                    gids.add(a.get_id())
    if depth <= 2 and EFFORT['scale'] > 1:
        for fact, new in one_element(allapps, [goal] + list(hyps)) + shifted(allapps):
            facts.append(fact)
            for a in apps([new], lambda n: n in FOLDS):
                if a.get_id() not in {x.get_id() for x in allapps}:
                    allapps.append(a)
                    gids.add(a.get_id())
    # congruence between folds of the same operator
    n = len(allapps)
    for i in range(n):
        for j in range(i + 1, n):
            a, b = allapps[i], allapps[j]
            if a.get_id() not in gids and b.get_id() not in gids and depth > 0:
                continue
            fa, fb = FOLDS[a.decl().name()], FOLDS[b.decl().name()]
            if fa.op != fb.op or fa.sort != fb.sort:
                continue
            if len(fa.vars) != len(fb.vars) or len(fa.bodies) != len(fb.bodies):
                continue
            if congruent(hyps, a, b, fa, fb, depth, timeout):
                facts.append(a == b)
    for a in allapps:
        f = FOLDS[a.decl().name()]
        facts.extend(f_axioms(hyps, a, f, depth, timeout))
    return facts


def peel(allapps):
    """folds of one operator starting at 0 and at 1: take the first element out"""
    out = []
    lows = {}
    for a in allapps:
        f = FOLDS[a.decl().name()]
        if f.op in UNITS and len(f.vars) == 1 and z3.is_int_value(f.vars[0][1]):
            lows.setdefault((f.op, str(f.sort)), set()).add(f.vars[0][1].as_long())
    for a in allapps:
        f = FOLDS[a.decl().name()]
        if f.op not in UNITS or len(f.vars) != 1 or not z3.is_int_value(f.vars[0][1]):
            continue
        lo = f.vars[0][1].as_long()
        for b in sorted(lows[(f.op, str(f.sort))]):
            if not lo < b <= lo + 3:
                continue
            vs, bodies = f.inst(a.children())
            k, _, hi = vs[0]
            unit = UNITS[f.op](f.sort)
            r = mk_fold1(f.op, k, z3.IntVal(b), hi, bodies[0])
            for i in range(lo, b):
                x = rewrite(bodies[0], {k.get_id(): z3.IntVal(i)})
                r = combine(f.op, If(z3.simplify(i < hi), x, unit), r)
            out.append((a == r, r))
    return out


ORDER = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ)


def one_element(allapps, exprs):
    """folds whose length is compared with one: with one element they are that"""
    tops = {}
    for a in allapps:
        f = FOLDS[a.decl().name()]
        if f.op in UNITS and len(f.vars) == 1 and len(f.bodies) == 1 and \
                z3.is_int_value(f.vars[0][1]):
            vs, bodies = f.inst(a.children())
            hi = vs[0][2]
            if not z3.is_int_value(hi):
                tops.setdefault(hi.get_id(), []).append((a, f, vs, bodies[0]))
    if not tops:
        return []
    out = []
    seen = set()
    found = set()
    todo = list(exprs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        ch = e.children()
        todo.extend(ch)
        if len(ch) == 2 and z3.is_app(e) and e.decl().kind() in ORDER and \
                z3.is_int(ch[0]):
            for x, y in (ch, ch[::-1]):
                if x.get_id() in tops and z3.is_int_value(y) and \
                        y.as_long() in (1, 2):
                    found.add(x.get_id())
    for i in sorted(found):
        for a, f, vs, body in tops[i]:
            k, lo, hi = vs[0]
            r = rewrite(body, {k.get_id(): lo})
            if f.op == 'any' or r.sort() == a.sort():
                out.append((Implies(hi == lo + 1, a == r), r))
    return out


def shifted(allapps):
    """folds of one operator over [lo, n) and [lo, n - c): take c elements out"""
    fs = []
    for a in allapps:
        f = FOLDS[a.decl().name()]
        if f.op in UNITS and len(f.vars) == 1 and len(f.bodies) == 1 and \
                z3.is_int_value(f.vars[0][1]):
            vs, bodies = f.inst(a.children())
            fs.append((a, f, vs[0], bodies[0]))
    out = []
    done = set()
    for a, f, (k, lo, hi), body in fs:
        for _, f2, (_, lo2, hi2), _ in fs:
            if f2.op != f.op or f2.sort != f.sort or lo2.as_long() != lo.as_long():
                continue
            c = z3.simplify(hi - hi2)
            if not z3.is_int_value(c) or not 0 < c.as_long() <= 2:
                continue
            c = c.as_long()
            if (a.get_id(), c) in done:
                continue
            done.add((a.get_id(), c))
            r = mk_fold1(f.op, k, lo, hi - c, rewrite(body, {k.get_id(): k + c}))
            for i in range(lo.as_long(), lo.as_long() + c):
                x = rewrite(body, {k.get_id(): z3.IntVal(i)})
                r = combine(f.op, If(z3.simplify(i < hi), x, UNITS[f.op](f.sort)), r)
            out.append((a == r, r))
    return out


def congruent(hyps, a, b, fa, fb, depth, timeout):
    if depth > 4:
        return False
    key = (a.get_id(), b.get_id(), GUARD[0], tuple(h.get_id() for h in hyps))
    r = _lemma_cache.get(key)
    if r is not None:
        return r
    _keep.extend([a, b])
    _keep.extend(hyps)
    ks = [CTX.index('k') for _ in fa.vars]
    va, ba = fa.inst(a.children(), ks)
    vb, bb = fb.inst(b.children(), ks)
    r = True
    for (k, lo, hi), (_, lo2, hi2) in zip(va, vb):
        ok = prove_formula(hyps, Or(And(lo == lo2, hi == hi2),
                                    And(lo >= hi, lo2 >= hi2)),
                           timeout, depth + 1)[0]
        if not ok:
            r = False
            break
    if not r and GUARD[0] and fa.op in UNITS and len(ba) == 1 and depth <= 2:
        # different ranges: the bodies agree where both count, and are the unit where
        # only one does
        unit = UNITS[fa.op](fa.sort)
        ra, rb = range_cond(va), range_cond(vb)
        r = all(prove_formula(list(hyps) + h, g, min(timeout, 4000), depth + 1)[0]
                for h, g in (([ra, rb], ba[0] == bb[0]),
                             ([ra, Not(rb)], ba[0] == unit),
                             ([rb, Not(ra)], bb[0] == unit)))
    elif r:
        rc = range_cond(va)
        if fa.op == 'median':
            g1, v1 = ba
            g2, v2 = bb
            goals = [g1 == g2, Implies(g1, v1 == v2)]
        else:
            goals = [x == y for x, y in zip(ba, bb)]
        h = list(hyps) + [rc]
        for g in goals:
            if not prove_formula(h, g, timeout, depth + 1)[0]:
                r = False
                break
    _lemma_cache[key] = r
    return r


def expand_any(e, seen=None):
    """
    replace any-folds by existential quantifiers (recursively). Other folds whose
    value depends on bound variables stay as function applications, which is sound.
    """
    def go(x):
        fs = apps([x], lambda n: n in FOLDS and FOLDS[n].op == 'any')
        if not fs:
            return x
        sub = []
        for a in fs:
            f = FOLDS[a.decl().name()]
            vs, bodies = f.inst(a.children())
            inner = go(And(range_cond(vs), bodies[0]))
            bound = [z3.Int('q!' + v[0].decl().name()) for v in vs]
            inner = z3.substitute(inner, *[(v[0], q) for v, q in zip(vs, bound)])
            sub.append((a, z3.Exists(bound, inner)))
        return z3.substitute(x, *sub)
    return go(e)


def f_axioms(hyps, a, f, depth, timeout):
    out = []
    vs, bodies = f.inst(a.children())
    rc = range_cond(vs)
    bnd = [z3.Int('q!' + v[0].decl().name()) for v in vs]
    sub = [(v[0], q) for v, q in zip(vs, bnd)]

    def facts(x):
        return [g for g in CTX.ifacts(x) if any(has_const(g, v[0]) for v in vs)]

    def forall(x):
        return z3.ForAll(bnd, z3.substitute(
            expand_any(Implies(And(*facts(x)), x)), *sub))

    def exists(x):
        return z3.Exists(bnd, z3.substitute(expand_any(And(x, *facts(x))), *sub))

    if f.op == 'any':
        out.append(a == exists(And(rc, bodies[0])))
    elif f.op == 'bor':
        nz = And(rc, bodies[0] != bvval(0))
        out.append((a != bvval(0)) == exists(nz))
        # single k-free non zero leaf
        leaf = single_leaf(bodies[0], vs[0][0])
        if leaf is not None:
            c, v = leaf
            out.append(a == z3.If(exists(And(rc, c)), v, bvval(0)))
        q = bnd
        out.append(z3.ForAll(q, z3.substitute(
            z3.Implies(rc, (a | bodies[0]) == a), *sub)))
    elif f.op == 'sum':
        # sign lemmas
        if depth <= 2:
            k = vs[0][0]
            h = list(hyps) + [rc]
            z = mknum(0, f.sort)
            if inner_sum(bodies[0]):
                pos = positive_sum(h, a, z)
                if pos is not None:
                    out.append(a >= z)
                    out.append((a > z) == pos)
            elif z3.is_app(bodies[0]) and quick(h, bodies[0] >= z):
                out.append(a >= z)
                lo, hi = vs[0][1], vs[0][2]
                if len(vs) == 1 and quick(h, bodies[0] > z):
                    out.append((a > z) == (lo < hi))
                else:
                    out.append((a > z) == exists(And(rc, bodies[0] > z)))
                one = mknum(1, f.sort)
                n = z3.If(lo < hi, hi - lo, z3.IntVal(0))
                if f.sort == z3.RealSort():
                    n = z3.ToReal(n)
                if quick(h, bodies[0] <= one):
                    out.append(a <= n)
                    out.append((a == n) == forall(Implies(
                        rc, eq_const(bodies[0], one, h))))
    elif f.op == 'prod':
        h = list(hyps) + [rc]
        z = mknum(0, f.sort)
        one = mknum(1, f.sort)
        if quick(h, And(bodies[0] >= z, bodies[0] <= one)):
            out.append(And(a >= z, a <= one))
            out.append((a == one) == forall(Implies(rc, eq_const(bodies[0], one, h))))
            out.append((a == z) == exists(And(rc, eq_const(bodies[0], z, h))))
    elif f.op == 'median':
        g, v = bodies
        h = list(hyps) + [rc, g]
        for rel in ('>', '>=', '<=', '<'):
            z = mknum(0, f.sort)
            c = {'>': v > z, '>=': v >= z, '<=': v <= z, '<': v < z}[rel]
            if quick(h, c):
                ca = {'>': a > z, '>=': a >= z, '<=': a <= z, '<': a < z}[rel]
                out.append(z3.Implies(exists(And(rc, g)), ca))
                break
    elif f.op in ('max', 'min'):
        v = bodies[0]
        cmp = (lambda x, y: x <= y) if f.op == 'max' else (lambda x, y: x >= y)
        out.append(forall(Implies(rc, cmp(v, a))))
        out.append(z3.Implies(exists(rc), exists(And(rc, v == a))))
    return out


def inner_sum(e):
    return z3.is_app(e) and e.decl().name() in FOLDS and FOLDS[
        e.decl().name()].op == 'sum'


def positive_sum(hyps, a, z):
    """a nested sum of terms >= 0: the condition for it to be > 0, or None"""
    if not inner_sum(a):
        return a > z if quick(hyps, a >= z) else None
    vs, bodies = FOLDS[a.decl().name()].inst(a.children())
    rc = range_cond(vs)
    p = positive_sum(list(hyps) + [rc], bodies[0], z)
    if p is None:
        return None
    bnd = [z3.Int('q!' + v[0].decl().name()) for v in vs]
    x = And(rc, p)
    facts = [g for g in CTX.ifacts(x) if any(has_const(g, v[0]) for v in vs)]
    return z3.Exists(bnd, z3.substitute(expand_any(And(x, *facts)), *[
        (v[0], q) for v, q in zip(vs, bnd)]))


def eq_const(e, v, hyps):
    """formula equivalent to e == v under hyps, leaves decided where possible"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c = e.arg(0)
        a = eq_const(e.arg(1), v, hyps + [c])
        b = eq_const(e.arg(2), v, hyps + [Not(c)])
        return If(c, a, b)
    g = z3.simplify(e == v)
    if is_true(g) or is_false(g):
        return g
    if quick(hyps, Not(e == v)):
        return z3.BoolVal(False)
    return e == v


def quick(hyps, goal, timeout=1500):
    ax = hook_axioms(list(hyps) + [goal])
    return solve([h for h in hyps] + ax, goal, timeout)[0] == z3.unsat


def single_leaf(e, k):
    """e == ite(c, v, 0) with v free of k -> (c, v)"""
    leaves = []

    def go(x, c):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            go(x.arg(1), And(c, x.arg(0)))
            go(x.arg(2), And(c, Not(x.arg(0))))
        else:
            leaves.append((c, x))
    go(e, z3.BoolVal(True))
    nz = [(c, x) for c, x in leaves
          if not (z3.is_bv_value(x) and x.as_long() == 0)]
    if not nz:
        return None
    v = nz[0][1]
    if has_const(v, k) or any(not x.eq(v) for _, x in nz):
        return None
    return Or(*[c for c, _ in nz]), v


def prove_formula(hyps, goal, timeout=10000, depth=0):
    """-> (True|False|None, backend, detail, model)"""
    res = prove_1(hyps, goal, timeout, depth)
    if depth or res[0] or not res[1].startswith('z3+fold'):
        return res
    if prove_cubes(list(hyps), z3.simplify(goal), timeout):
        return True, 'z3+fold+cases', None, None
    # once more, comparing folds over different ranges
    GUARD[0] = True
    try:
        r2 = prove_1(hyps, goal, timeout, depth)
    finally:
        GUARD[0] = False
    return r2 if r2[0] else res


GUARD = [False]


def prove_cubes(hy, g, timeout):
    """case analysis over the boolean atoms of the goal, cases found by models"""
    atoms = [a for a in apps([g], lambda n: True) if a.sort() == B_SORT]
    if not 1 < len(atoms) <= 9:
        return False
    blocks = []
    for _ in range(40):
        r, s = solve(hy + hook_axioms(hy + [g]) + blocks, g, 3000)
        if r == z3.unsat:
            return True
        if r != z3.sat:
            return False
        m = s.model()
        cube = [a if is_true(m.eval(a, model_completion=True)) else Not(a)
                for a in atoms]
        sub = [(a, z3.BoolVal(not is_not(c))) for a, c in zip(atoms, cube)]
        cache = {}
        h2 = [specialise(h, sub, cache) for h in hy]
        for (a, v), c in zip(sub, cube):
            if a.decl().name() in FOLDS:
                f = specialise_app(a, [x for x in sub if not x[0].eq(a)], cache)
                h2.append(f if is_true(v) else Not(f))
            else:
                h2.append(c)
        h2 = [h for h in h2 if not is_true(h)]
        g2 = z3.simplify(specialise(g, sub, cache))
        if not prove_1(h2, g2, min(timeout, 3000), 0)[0]:
            return False
        blocks.append(Not(And(*cube)))
    return False


def is_not(e):
    return z3.is_not(e)


def specialise(e, sub, cache):
    """put truth values in the place of ground atoms, in fold bodies too"""
    e = z3.simplify(z3.substitute(e, *sub))
    out = []
    for a in apps([e], lambda n: n in FOLDS):
        b = specialise_app(a, sub, cache)
        if not a.eq(b):
            out.append((a, b))
    return z3.simplify(z3.substitute(e, *out)) if out else e


def specialise_app(a, sub, cache):
    i = a.get_id()
    if i not in cache:
        f = FOLDS[a.decl().name()]
        vs, bodies = f.inst(a.children())
        nb = [specialise(b, sub, cache) for b in bodies]
        r = a
        if not all(x.eq(z3.simplify(y)) for x, y in zip(nb, bodies)):
            r = mk_fold(f.op, vs, nb, f.sort)
        cache[i] = (r, a)
    return cache[i][0]


B_SORT = z3.BoolSort()


def prove_1(hyps, goal, timeout=10000, depth=0):
    """-> (True|False|None, backend, detail, model)"""
    CTX.tick()
    g = z3.simplify(goal)
    if is_true(g):
        return True, 'z3-simplify', None, None
    if z3.is_and(g) and depth == 0:
        pass
    hy = list(hyps)
    ax = hook_axioms(hy + [g])
    # 1. without fold lemmas
    t1 = min(timeout, 3000) if depth == 0 else min(timeout, 1500)
    r, s = solve(hy + ax, g, t1)
    if r == z3.unsat:
        return True, 'z3', None, None
    hasf = apps([g] + hy, lambda n: n in FOLDS)
    first = r
    m0 = None
    if r == z3.sat:
        m0 = s.model()
    if not hasf:
        if r == z3.sat:
            return False, 'z3', 'counterexample', m0
        if depth <= 1 and find_ite(g) is not None or poly_eq(g):
            if prove_split(hy + ax, g, timeout):
                return True, 'z3+split', None, None
        if depth == 0:
            r2 = cvc5_check(hy + ax, g, timeout)
            if r2 is True:
                return True, 'cvc5', None, None
            r, s = solve(hy + ax, g, timeout)
            if r == z3.unsat:
                return True, 'z3', None, None
            if r == z3.sat:
                return False, 'z3', 'counterexample', s.model()
        return None, 'z3', 'unknown', None
    # 2. with fold lemmas
    if depth > 5:
        return None, 'z3', 'depth', None
    fl = fold_lemmas(hy, g, depth, min(timeout, 4000))
    ax2 = hook_axioms(fl)
    qf = [f for f in fl if not has_quant(f)]
    full = timeout if depth == 0 else min(timeout, 3000)
    r, s = solve(hy + ax + qf + ax2, g, min(full, 3000))
    if r == z3.unsat:
        return True, 'z3+fold', None, None
    if depth == 0 and by_instances(hy, g, qf, depth, min(timeout, 3000)):
        return True, 'z3+fold', None, None
    if len(qf) != len(fl):
        r, s = solve(hy + ax + fl + ax2, g, full)
        if r == z3.unsat:
            return True, 'z3+fold', None, None
        if depth == 0:
            # expand the any-folds in the goal and hypotheses themselves
            try:
                ge = expand_any(g)
                he = [expand_any(h) for h in hy]
                r4, s4 = solve(he + ax + qf, ge, timeout)
                if r4 == z3.unsat:
                    return True, 'z3+fold', None, None
            except z3.Z3Exception:
                pass
    elif r == z3.unknown:
        r, s = solve(hy + ax + qf + ax2, g, full)
        if r == z3.unsat:
            return True, 'z3+fold', None, None
    if depth == 0 and timeout > 3000 and by_instances(hy, g, qf, depth, timeout):
        return True, 'z3+fold', None, None
    if r == z3.sat:
        return False, 'z3+fold', 'counterexample (modulo fold lemmas)', s.model()
    return None, 'z3+fold', 'unknown', m0


def by_instances(hy, g, qf, depth, timeout):
    """with the any-folds instantiated at the indices in use"""
    gi = ground_instances(hy, g)
    if not gi:
        return False
    hy2 = hy + gi
    old = apps([g] + hy, lambda n: n in FOLDS)
    oid = {a.get_id() for a in old}
    new = [a for a in apps(gi, lambda n: n in FOLDS) if a.get_id() not in oid]
    fl2 = list(qf)
    for i, a in enumerate(new):
        for b in old + new[:i]:
            if same_fold(a, b):
                fl2.append(a == b)
                break
        else:
            for b in old:
                fa, fb = FOLDS[a.decl().name()], FOLDS[b.decl().name()]
                if fa.op == fb.op and fa.sort == fb.sort and \
                        len(fa.vars) == len(fb.vars) and \
                        len(fa.bodies) == len(fb.bodies) and \
                        congruent(hy, a, b, fa, fb, depth, 2000):
                    fl2.append(a == b)
                    break
            fl2.extend(f for f in f_axioms(hy, a, FOLDS[a.decl().name()], depth, timeout)
                       if not has_quant(f))
    ax3 = hook_axioms(hy2 + [g] + fl2)
    return solve(hy2 + ax3 + fl2, g, timeout)[0] == z3.unsat


def same_fold(a, b):
    """syntactic congruence of two fold applications"""
    fa, fb = FOLDS[a.decl().name()], FOLDS[b.decl().name()]
    if fa.op != fb.op or fa.sort != fb.sort or len(fa.vars) != len(fb.vars) or \
            len(fa.bodies) != len(fb.bodies):
        return False
    ks = [CTX.index('k') for _ in fa.vars]
    va, ba = fa.inst(a.children(), ks)
    vb, bb = fb.inst(b.children(), ks)
    for (_, lo, hi), (_, lo2, hi2) in zip(va, vb):
        if not (z3.simplify(lo == lo2).eq(z3.BoolVal(True)) and
                z3.simplify(hi == hi2).eq(z3.BoolVal(True))):
            return False
    return all(is_true(z3.simplify(x == y)) for x, y in zip(ba, bb))


def ground_instances(hyps, goal):
    """instances of the any-folds at the skolem indices of the obligation"""
    out = []
    cands = list(CTX.skolems)
    if not cands:
        return out
    work = apps(list(hyps) + [goal], lambda n: n in FOLDS and FOLDS[n].op == 'any')
    seen = set()
    for _ in range(3):
        nxt = []
        for a in work:
            if a.get_id() in seen:
                continue
            seen.add(a.get_id())
            _keep.append(a)
            f = FOLDS[a.decl().name()]
            if len(f.vars) != 1:
                continue
            for c in cands:
                vs, bodies = f.inst(a.children(), [c])
                _, lo, hi = vs[0]
                if not quick_range(hyps, lo, c, hi):
                    continue
                out.append(Implies(bodies[0], a))
                nxt.extend(apps([bodies[0]],
                                lambda n: n in FOLDS and FOLDS[n].op == 'any'))
        work = nxt
        if not work or len(out) > 60:
            break
    return out


def quick_range(hyps, lo, c, hi):
    """only comparisons of the path condition, syntactically enough"""
    g = And(lo <= c, c < hi)
    s = z3.Solver()
    s.set('timeout', ms(300))
    n = 0
    for h in hyps:
        if not apps([h], lambda n: n in FOLDS) and not has_real(h):
            s.add(h)
            n += 1
    s.add(z3.Not(g))
    return s.check() == z3.unsat


_hr = {}


def has_real(e):
    i = e.get_id()
    if i not in _hr:
        _keep.append(e)
        r = False
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_expr(x) and x.sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_BV_SORT):
                r = True
                break
            st.extend(x.children())
        _hr[i] = r
    return _hr[i]


def find_ite(e):
    """an ite condition of e containing no ite itself, or None"""
    seen = set()
    stack = [e]
    best = None
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            inner = find_ite(x.arg(0))
            return inner if inner is not None else x.arg(0)
        stack.extend(x.children())
    return best


def poly_eq(g):
    return z3.is_eq(g) and g.arg(0).sort() == z3.RealSort() and \
        poly_zero(abstract_div(g.arg(0) - g.arg(1), {}))


def poly_zero(e):
    try:
        d = z3.simplify(e, som=True, sort_sums=True)
    except z3.Z3Exception:
        return False
    return is_num(d, 0)


def abstract_div(e, table):
    """replace x / d (d not a numeral) by x * inv(d)"""
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if not z3.is_app(x) or x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_DIV and not is_num(ch[1]):
                k = z3.simplify(ch[1], som=True).get_id()
                if k not in table:
                    table[k] = (z3.Const('inv!%d' % len(table), z3.RealSort()), ch[1],
                                z3.simplify(ch[1], som=True))
                r = ch[0] * table[k][0]
            else:
                r = rebuild(x, x.decl(), ch)
        memo[i] = (x, r)
        return r
    return go(e)


def prove_split(hyps, goal, timeout, maxleaf=256):
    """case split on the ite conditions of the goal, polynomial identity at leaves"""
    s = z3.Solver()
    s.set('timeout', ms(1000))
    for h in hyps:
        s.add(h)
    t0 = time.time()
    cnt = [0]

    def left():
        if time.time() - t0 > ms(timeout) / 1000.0:
            raise TimeoutError
        CTX.tick()

    def go(g):
        left()
        g = z3.simplify(g)
        if is_true(g):
            return True
        c = find_ite(g)
        if c is None:
            cnt[0] += 1
            if cnt[0] > maxleaf:
                raise TimeoutError
            if is_false(g):
                return s.check() == z3.unsat
            if z3.is_eq(g) and g.arg(0).sort() == z3.RealSort():
                tb = {}
                d = abstract_div(g.arg(0) - g.arg(1), tb)
                if poly_zero(d):
                    return True
            s.push()
            s.add(z3.Not(g))
            r = s.check()
            s.pop()
            return r == z3.unsat
        for v in (True, False):
            s.push()
            s.add(c if v else z3.Not(c))
            if s.check() == z3.unsat:
                s.pop()
                continue
            ok = go(z3.substitute(g, (c, z3.BoolVal(v))))
            s.pop()
            if not ok:
                return False
        return True
    try:
        return go(goal)
    except TimeoutError:
        return False
    finally:
        CTX.solver_time += time.time() - t0


def has_quant(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def cvc5_check(hyps, goal, timeout):
    """second back end, through SMT-LIB; True when it proves the goal"""
    try:
        import cvc5
        s = z3.Solver()
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        txt = s.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(ms(min(timeout, 8000))))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if 'unsat' in o:
                res = True
        return res
    except Exception:
        return None

"""
Symbolic ngmix observations: the contract of ngmix.Observation / ObsList /
MultiBandObsList the checked code relies on.  An observation is a view into a family of
arrays indexed by (band, epoch, ..., row, col), so that a loop over bands and epochs
writes into one buffer.
"""
import types
import z3
from .core import CTX, And, Or, Not, Unsupported, rewrite, mk_fold1
from .values import SBool, SInt, SReal, lift, to_int_e, to_real, truth, wrap, I, R, B, mkb
from .arr import SArr, subview, ix, assign
from . import rt
from .rt import SymSeq, SList, SymStr

PIX = ('image', 'weight', 'bmask', 'ormask', 'noise', 'mfrac')
OPTIONAL = ('bmask', 'ormask', 'noise', 'mfrac')


def sub(a, pre):
    """a[pre] as a view, without bounds decisions"""
    m = len(pre)
    if not m:
        return a
    pre = tuple(pre)

    def inv(w):
        return And(*[x == y for x, y in zip(w[:m], pre)]), tuple(w[m:])
    return subview(a, a.shape[m:], lambda v: pre + tuple(v), inv)


class Fam:
    """the arrays behind a set of observations"""
    __sym_heap__ = True

    def __init__(self, name, npre, data, has, izw, jac=None, psf=None, meta=None,
                 gmix=None, local=False):
        self.name = name
        self.npre = npre
        self.data = data        # name -> SArr (prefix + pixel dims)
        self.has = has          # name -> SArr bool (prefix dims) or python bool
        self.izw = izw          # SArr bool (prefix dims)
        self.jac = jac
        self.psf = psf          # Fam or None
        self.meta = meta
        self.gmix = gmix
        self.wr = ()
        self.local = local
        self.dims = None

    def roots(self):
        r = list(self.data.values()) + [self.izw, self]
        if self.psf is not None:
            r += self.psf.roots()
        return r

    def __sym_vmap__(self, f):
        if not self.local:
            return self
        n = Fam(self.name, self.npre, {k: rt.vmap(v, f) for k, v in self.data.items()},
                {k: rt.vmap(v, f) for k, v in self.has.items()}, rt.vmap(self.izw, f),
                rt.vmap(self.jac, f), rt.vmap(self.psf, f), rt.vmap(self.meta, f),
                rt.vmap(self.gmix, f), True)
        n.dims = self.dims
        return n


class Jac:
    """affine WCS: (v,u) = D (row - row0, col - col0)"""
    NAMES = ('row0', 'col0', 'dvdrow', 'dvdcol', 'dudrow', 'dudcol')
    __sym_heap__ = True

    def __init__(self, vals):
        self.vals = dict(zip(self.NAMES, vals))

    def copy(self):
        return Jac([self.vals[n] for n in self.NAMES])

    def __sym_vmap__(self, f):
        return Jac([rt.vmap(self.vals[n], f) for n in self.NAMES])

    @staticmethod
    def fresh(name):
        j = Jac([SReal(CTX.fresh('%s_%s' % (name, n), R)) for n in Jac.NAMES])
        CTX.assume(to_real(j.det()).e != 0)
        return j

    def det(self):
        v = self.vals
        return v['dvdrow']*v['dudcol'] - v['dvdcol']*v['dudrow']

    dvdrow = property(lambda s: s.vals['dvdrow'])
    dvdcol = property(lambda s: s.vals['dvdcol'])
    dudrow = property(lambda s: s.vals['dudrow'])
    dudcol = property(lambda s: s.vals['dudcol'])
    row0 = property(lambda s: s.vals['row0'])
    col0 = property(lambda s: s.vals['col0'])
    det_ = property(lambda s: s.det())

    def get_cen(self):
        return self.vals['row0'], self.vals['col0']

    def set_cen(self, row, col):
        self.vals['row0'], self.vals['col0'] = row, col

    def get_row0(self):
        return self.vals['row0']

    def get_col0(self):
        return self.vals['col0']

    def get_vu(self, row, col):
        v = self.vals
        r, c = row - v['row0'], col - v['col0']
        return (v['dvdrow']*r + v['dvdcol']*c, v['dudrow']*r + v['dudcol']*c)

    def get_rowcol(self, v, u):
        """the position whose get_vu is (v, u): unique for an invertible matrix"""
        d = [to_real(lift(self.vals[n])).e for n in Jac.NAMES]

        def one(F):
            def fn(a, b):
                return SReal(F(*(d + [to_real(a).e, to_real(b).e])))
            return fn
        if isinstance(v, SArr) or isinstance(u, SArr):
            v, u = _as_arr(v), _as_arr(u)
            for p, q in zip(v.shape, u.shape):
                if not (p == q):
                    raise ValueError('shape mismatch')
            sv, su = v.snap(), u.snap()
            return tuple(SArr.make(v.shape, lambda i, F=F: one(F)(sv(i), su(i)), 'f')
                         for F in (JROW, JCOL))
        return tuple(one(F)(lift(v), lift(u)) for F in (JROW, JCOL))

    __call__ = get_vu

    def get_scale(self):
        from .npshim import sqrt
        return sqrt(abs(self.det()))

    def get_area(self):
        return abs(self.det())

    scale = property(get_scale)

    def __sym_repr_eq__(self, o):
        return mkb(z3.simplify(And(*[to_real(lift(self.vals[n])).e == to_real(lift(
            o.vals[n])).e for n in self.NAMES])))


JROW = z3.Function('JROW', *([R]*9))
JCOL = z3.Function('JCOL', *([R]*9))


def _jac_axioms(ch):
    r0, c0, a, b, c, d, v, u = ch
    r, q = JROW(*ch) - r0, JCOL(*ch) - c0
    return [z3.Implies(a*d - b*c != 0, And(a*r + b*q == v, c*r + d*q == u))]


class Obs:
    """one observation"""
    __sym_heap__ = True
    __hash__ = None

    def __init__(self, fam, pre=()):
        self.fam = fam
        self.pre = tuple(pre)

    def __sym_vmap__(self, f):
        return Obs(rt.vmap(self.fam, f), tuple(f(p) for p in self.pre))

    # -- helpers
    def _arr(self, n):
        a = sub(self.fam.data[n], self.pre)
        if not any(_same(p, self.pre) for p in self.fam.wr):
            a = SArr(a.shape, a.buf, a.fwd, a.inv)
            a.ro = True
        else:
            a = SArr(a.shape, a.buf, a.fwd, a.inv)
        a.origin = (self.fam, n, self.pre)
        return a

    def _has(self, n):
        h = self.fam.has.get(n, False)
        if isinstance(h, SArr):
            return h.elem(self.pre) if self.pre else h.elem(())
        return h

    def _opt(self, n):
        h = self._has(n)
        if not h:
            raise AttributeError("'Observation' object has no attribute '%s'" % n)
        return self._arr(n)

    def _set(self, n, val):
        if n in OPTIONAL and val is None:
            raise Unsupported('removing %s from an observation' % n)
        val = _as_arr(val)
        a = sub(self.fam.data[n], self.pre)
        for p, q in zip(val.shape, a.shape):
            if not (p == q):
                raise ValueError('shape mismatch in observation.%s' % n)
        h = self.fam.has.get(n, True)
        if isinstance(h, SArr):
            assign(sub(h, self.pre), True)
        elif not h:
            self.fam.has[n] = True
        assign(a, val)

    # -- attributes
    image = property(lambda s: s._arr('image'), lambda s, v: s._set('image', v))
    weight = property(lambda s: s._arr('weight'), lambda s, v: s._set('weight', v))
    bmask = property(lambda s: s._opt('bmask'), lambda s, v: s._set('bmask', v))
    ormask = property(lambda s: s._opt('ormask'), lambda s, v: s._set('ormask', v))
    noise = property(lambda s: s._opt('noise'), lambda s, v: s._set('noise', v))
    mfrac = property(lambda s: s._opt('mfrac'), lambda s, v: s._set('mfrac', v))

    def set_image(self, v):
        self._set('image', v)

    def set_weight(self, v):
        self._set('weight', v)

    def set_bmask(self, v):
        self._set('bmask', v)

    def set_noise(self, v):
        self._set('noise', v)

    def set_mfrac(self, v):
        self._set('mfrac', v)

    def has_bmask(self):
        return self._has('bmask')

    def has_ormask(self):
        return self._has('ormask')

    def has_noise(self):
        return self._has('noise')

    def has_mfrac(self):
        return self._has('mfrac')

    def has_psf(self):
        return self.fam.psf is not None

    def get_psf(self):
        return self.psf

    @property
    def psf(self):
        if self.fam.psf is None:
            raise AttributeError('no psf')
        return Obs(self.fam.psf, self.pre)

    @property
    def jacobian(self):
        j = self.fam.jac
        if not isinstance(j, Jac):
            return j(*self.pre)
        return j.copy()

    def get_jacobian(self):
        return self.jacobian

    @property
    def meta(self):
        m = self.fam.meta
        if callable(m):
            return m(*self.pre)
        return m

    @property
    def ignore_zero_weight(self):
        return self.fam.izw.elem(self.pre)

    @ignore_zero_weight.setter
    def ignore_zero_weight(self, v):
        assign(sub(self.fam.izw, self.pre), v)

    def writeable(self):
        return Writeable(self)

    def copy(self):
        f = self.fam
        return Obs(copy_fam(f, self.pre))


def copy_fam(f, pre):
    if f is None:
        return None
    data = {n: sub(a, pre).copy() for n, a in f.data.items()}
    has = {}
    for n, h in f.has.items():
        has[n] = sub(h, pre).copy() if isinstance(h, SArr) else h
    jac = f.jac(*pre) if callable(f.jac) and not isinstance(f.jac, Jac) else f.jac
    meta = f.meta(*pre) if callable(f.meta) else f.meta
    r = Fam(f.name + '.copy', 0, data, has, sub(f.izw, pre).copy(), jac,
            copy_fam(f.psf, pre), rt._copy.copy(meta), f.gmix, local=True)
    return r


def _same(p, q):
    return len(p) == len(q) and all(z3.simplify(a).eq(z3.simplify(b))
                                    for a, b in zip(p, q))


def _as_arr(v):
    if isinstance(v, SArr):
        return v
    raise Unsupported('observation data of type %s' % type(v).__name__)


class Writeable:
    """arrays can be changed inside; on exit ngmix rebuilds its pixel list"""

    def __init__(self, obs):
        self.obs = obs

    def __enter__(self):
        f = self.obs.fam
        self.old = f.wr
        f.wr = self.old + (self.obs.pre,)
        return self

    def __exit__(self, t, v, tb):
        f = self.obs.fam
        f.wr = self.old
        if t is None and CHECK_EXIT[0]:
            w = self.obs.weight
            j = tuple(CTX.index('j') for _ in w.shape)
            from .core import raw_fold
            from .arr import reduce_, binop
            anyp = reduce_('any', binop('>', w, 0))
            CTX.prove('an observation left without usable pixels accepts zero weight',
                      Or(Not(truth(self.obs.ignore_zero_weight)), truth(anyp)))
        return False


CHECK_EXIT = [False]


def mk_family(name, B_, E_, ny, nx, psf=None, jac=None, meta=None, has=None):
    """unconstrained observations: weights are not negative"""
    from .lib import inp
    pre = [B_] + ([E_] if E_ is not None else [])
    sh = tuple(pre) + (ny, nx)
    data = {}
    for n in PIX:
        kind = 'bits' if n in ('bmask', 'ormask') else 'f'
        fact = (lambda v: v >= 0) if n == 'weight' else None
        data[n] = inp('%s_%s' % (name, n), sh, kind, fact)
    h = {}
    for n in OPTIONAL:
        d = (has or {}).get(n, 'any')
        h[n] = SArr.fresh('%s_has_%s' % (name, n), tuple(pre), 'b') if d == 'any' else d
    izw = SArr.fresh('%s_izw' % name, tuple(pre), 'b')
    f = Fam(name, len(pre), data, h, izw, jac or Jac.fresh(name + '_jac'), psf, meta)
    return f


def has_positive_weight(fam, pre, name='weight'):
    """precondition, used for one observation: some pixel has positive weight"""
    a = fam.data[name]
    p = tuple(CTX.fresh('wpos', I) for _ in 'yx')
    CTX.assume(And(*[And(k >= 0, k < ix(d)) for k, d in zip(p, a.shape[-2:])]))
    CTX.assume(to_real(lift(a.elem(tuple(pre) + p))).e > 0)


class ObsListV:
    """list of epochs / bands viewed in a family"""


def mbobs_of(fam, nb, ne):
    """ne: fn(band expr) -> number of epochs"""
    roots = fam.roots()

    def band(b):
        return MetaSeq(ne(b), lambda e: Obs(fam, (b, e)), roots, 'obslist')
    return MetaSeq(nb, band, roots, 'mbobs')


class MetaSeq(SymSeq):
    meta = None


class ObsL:
    """ngmix.ObsList / MultiBandObsList built by the code"""
    __sym_heap__ = True
    __hash__ = None

    def __init__(self, meta=None):
        self.items = SList([])
        self.meta = {} if meta is None else meta

    def append(self, x):
        self.items.append(x)

    def __sym_len__(self):
        return rt.len_(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __sym_iter__(self):
        return self.items

    def __bool__(self):
        return bool(rt.len_(self.items) != 0)


def observation(image, weight=None, bmask=None, ormask=None, noise=None, mfrac=None,
                jacobian=None, gmix=None, psf=None, meta=None, store_pixels=True,
                ignore_zero_weight=True):
    data = {'image': _own(image)}
    sh = data['image'].shape
    if weight is None:
        weight = SArr.full(sh, 1.0, 'f')
    given = dict(weight=weight, bmask=bmask, ormask=ormask, noise=noise, mfrac=mfrac)
    has = {}
    for n, v in given.items():
        if v is None:
            data[n] = SArr.full(sh, 0, 'i' if n in ('bmask', 'ormask') else 'f')
            has[n] = False
        else:
            v = _own(v)
            for p, q in zip(v.shape, sh):
                if not (p == q):
                    raise ValueError('shape of %s' % n)
            data[n] = v
            has[n] = True
    return Obs(Fam('obs', 0, data, has, SArr.full((), ignore_zero_weight, 'b'),
                   jacobian, None if psf is None else copy_fam(psf.fam, psf.pre),
                   {} if meta is None else meta, gmix, local=True))


def _own(a):
    a = _as_arr(a)
    from .arr import ident_inv
    return a if a.inv is ident_inv else a.copy()


def ngmix_ext(**more):
    """contract module for ngmix"""
    CTX.axiom_hooks['JROW'] = CTX.axiom_hooks['JCOL'] = _jac_axioms
    from .loader import Auto
    m = Auto('ngmix')
    m.Observation = observation
    m.ObsList = ObsL
    m.MultiBandObsList = ObsL
    m.__dict__['__version__'] = '2.3.0'
    fl = _flags()
    m.flags = fl
    ge = types.ModuleType('ngmix.gexceptions')
    for n in ('GMixFatalError', 'GMixRangeError', 'BootPSFFailure', 'BootGalFailure',
              'GMixMaxIterEM', 'PSFFluxFailure', 'FFTRangeError'):
        setattr(ge, n, EXC.setdefault(n, type(n, (Exception,), {})))
        setattr(m, n, EXC[n])
    m.gexceptions = ge
    ob = Auto('ngmix.observation')
    ob.Observation = observation
    ob.ObsList = ObsL
    ob.MultiBandObsList = ObsL
    m.observation = ob
    for k, v in more.items():
        setattr(m, k, v)
    ext = {'ngmix': m, 'ngmix.flags': fl, 'ngmix.gexceptions': ge,
           'ngmix.observation': ob}
    for k, v in more.items():
        if isinstance(v, types.ModuleType):
            ext['ngmix.' + k] = v
    pk = Auto('packaging')
    pv = Auto('packaging.version')
    pv.parse = lambda s: tuple(int(x) for x in s.split('.')) if isinstance(s, str) else s
    pv.Version = pv.parse
    pk.version = pv
    ext['packaging'] = pk
    ext['packaging.version'] = pv
    return ext


EXC = {}


def _flags():
    """the flag values of the measurement library: an external contract"""
    m = types.ModuleType('ngmix.flags')
    import os
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                     'stubs', 'ngmix', 'flags.py')
    with open(p) as f:
        exec(compile(f.read(), p, 'exec'), m.__dict__)
    return m

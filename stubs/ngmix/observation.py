import copy as _copy
from contextlib import contextmanager
import numpy as np
from .jacobian import Jacobian, DiagonalJacobian
from .gexceptions import GMixFatalError


class Observation(object):
    """an image with optional weight map, masks, noise, psf, jacobian"""

    def __init__(self, image, weight=None, bmask=None, ormask=None, noise=None,
                 mfrac=None, jacobian=None, gmix=None, psf=None, meta=None,
                 store_pixels=True, ignore_zero_weight=True):
        self._writeable = False
        self._ignore_zero_weight = ignore_zero_weight
        self._store_pixels = store_pixels
        self.meta = {} if meta is None else meta
        self.set_image(image, update_pixels=False)
        self.set_weight(weight, update_pixels=False)
        if jacobian is None:
            dims = self._image.shape
            jacobian = DiagonalJacobian(row=(dims[0]-1)/2, col=(dims[1]-1)/2)
        self.set_jacobian(jacobian, update_pixels=False)
        for n, v in (('bmask', bmask), ('ormask', ormask), ('noise', noise),
                     ('mfrac', mfrac)):
            self._set_opt(n, v)
        self._psf = psf
        self._gmix = gmix
        self.update_pixels()

    def _view(self, n):
        v = self.__dict__[n].view()
        v.flags.writeable = self._writeable
        return v

    def _set_opt(self, name, val):
        if val is None:
            self.__dict__.pop('_' + name, None)
            return
        if name in ('bmask', 'ormask'):
            val = np.ascontiguousarray(val, dtype='i4')
        else:
            val = np.ascontiguousarray(val, dtype='f8')
        if val.shape != self._image.shape:
            raise ValueError('%s shape %s does not match image %s' % (
                name, val.shape, self._image.shape))
        self.__dict__['_' + name] = val

    @property
    def ignore_zero_weight(self):
        return self._ignore_zero_weight

    @ignore_zero_weight.setter
    def ignore_zero_weight(self, v):
        self._ignore_zero_weight = v
        self.update_pixels()

    @property
    def image(self):
        return self._view('_image')

    @image.setter
    def image(self, v):
        self.set_image(v)

    def set_image(self, image, update_pixels=True):
        image = np.ascontiguousarray(image, dtype='f8')
        assert len(image.shape) == 2, 'image must be 2d'
        if '_image' in self.__dict__:
            assert image.shape == self._image.shape, 'new image must be same shape'
        self._image = image
        if update_pixels:
            self.update_pixels()

    @property
    def weight(self):
        return self._view('_weight')

    @weight.setter
    def weight(self, v):
        self.set_weight(v)

    def set_weight(self, weight, update_pixels=True):
        if weight is None:
            weight = np.ones(self._image.shape)
        weight = np.ascontiguousarray(weight, dtype='f8')
        assert weight.shape == self._image.shape, 'image and weight must be same shape'
        self._weight = weight
        if update_pixels:
            self.update_pixels()

    def _opt(self, n):
        if '_' + n not in self.__dict__:
            raise AttributeError('no %s set' % n)
        return self._view('_' + n)

    bmask = property(lambda s: s._opt('bmask'),
                     lambda s, v: s._set_opt('bmask', v))
    ormask = property(lambda s: s._opt('ormask'),
                      lambda s, v: s._set_opt('ormask', v))
    noise = property(lambda s: s._opt('noise'),
                     lambda s, v: s._set_opt('noise', v))
    mfrac = property(lambda s: s._opt('mfrac'),
                     lambda s, v: s._set_opt('mfrac', v))

    def set_bmask(self, v):
        self._set_opt('bmask', v)

    def set_ormask(self, v):
        self._set_opt('ormask', v)

    def set_noise(self, v):
        self._set_opt('noise', v)

    def set_mfrac(self, v):
        self._set_opt('mfrac', v)

    def has_bmask(self):
        return '_bmask' in self.__dict__

    def has_ormask(self):
        return '_ormask' in self.__dict__

    def has_noise(self):
        return '_noise' in self.__dict__

    def has_mfrac(self):
        return '_mfrac' in self.__dict__

    @property
    def jacobian(self):
        return self._jacobian.copy()

    @jacobian.setter
    def jacobian(self, v):
        self.set_jacobian(v)

    def set_jacobian(self, v, update_pixels=True):
        assert isinstance(v, Jacobian), 'jacobian must be of type Jacobian'
        self._jacobian = v.copy()

    @property
    def psf(self):
        if self._psf is None:
            raise AttributeError('no psf set')
        return self._psf

    @psf.setter
    def psf(self, v):
        self.set_psf(v)

    def set_psf(self, v):
        self._psf = v

    def get_psf(self):
        return self.psf

    def has_psf(self):
        return self._psf is not None

    @property
    def gmix(self):
        if self._gmix is None:
            raise AttributeError('no gmix set')
        return self._gmix

    @gmix.setter
    def gmix(self, v):
        self._gmix = v

    def set_gmix(self, v):
        self._gmix = v

    def has_gmix(self):
        return self._gmix is not None

    def has_psf_gmix(self):
        return self.has_psf() and self.psf.has_gmix()

    def update_meta_data(self, m):
        self.meta.update(m)

    @contextmanager
    def writeable(self):
        self._writeable = True
        try:
            yield self
        finally:
            self._writeable = False
            self.update_pixels()

    def update_pixels(self):
        if self._store_pixels and self._ignore_zero_weight and \
                not self._writeable and '_weight' in self.__dict__:
            if not np.any(self._weight > 0):
                raise GMixFatalError('no weights > 0')

    def copy(self):
        c = _copy.copy(self)
        for n in ('_image', '_weight', '_bmask', '_ormask', '_noise', '_mfrac'):
            if n in self.__dict__:
                c.__dict__[n] = self.__dict__[n].copy()
        c.meta = _copy.deepcopy(self.meta)
        c._jacobian = self._jacobian.copy()
        if self._psf is not None:
            c._psf = self._psf.copy()
        return c


class ObsList(list):
    def __init__(self, meta=None):
        super().__init__()
        self.meta = {} if meta is None else meta

    def append(self, obs):
        assert isinstance(obs, Observation), 'obs should be of type Observation'
        super().append(obs)

    def copy(self):
        o = ObsList(meta=_copy.deepcopy(self.meta))
        for x in self:
            o.append(x.copy())
        return o


class MultiBandObsList(list):
    def __init__(self, meta=None):
        super().__init__()
        self.meta = {} if meta is None else meta

    def append(self, o):
        assert isinstance(o, ObsList), 'obs_list should be of type ObsList'
        super().append(o)

    def copy(self):
        m = MultiBandObsList(meta=_copy.deepcopy(self.meta))
        for x in self:
            m.append(x.copy())
        return m


def get_mb_obs(obs):
    if isinstance(obs, MultiBandObsList):
        return obs
    m = MultiBandObsList()
    if isinstance(obs, ObsList):
        m.append(obs)
        return m
    ol = ObsList()
    ol.append(obs)
    m.append(ol)
    return m

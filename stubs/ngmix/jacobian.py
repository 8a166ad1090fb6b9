import copy as _copy
import numpy as np


class Jacobian(object):
    """affine map (row, col) -> (v, u)"""
    def __init__(self, **kw):
        if 'row' in kw:
            self.row0 = kw['row']
            self.col0 = kw['col']
        else:
            self.row0 = kw['y']
            self.col0 = kw['x']
        if 'wcs' in kw:
            w = kw['wcs']
            self.dudrow, self.dudcol = w.dudy, w.dudx
            self.dvdrow, self.dvdcol = w.dvdy, w.dvdx
        elif 'dudrow' in kw:
            self.dvdrow = kw['dvdrow']
            self.dvdcol = kw['dvdcol']
            self.dudrow = kw['dudrow']
            self.dudcol = kw['dudcol']
        else:
            self.dvdrow = kw['dvdy']
            self.dvdcol = kw['dvdx']
            self.dudrow = kw['dudy']
            self.dudcol = kw['dudx']

    def __repr__(self):
        return ', '.join('%s: %-10.5g' % (n, getattr(self, n)) for n in (
            'row0', 'col0', 'dvdrow', 'dvdcol', 'dudrow', 'dudcol'))

    @property
    def det(self):
        return self.dvdrow*self.dudcol - self.dvdcol*self.dudrow

    def get_det(self):
        return self.det

    @property
    def scale(self):
        return np.sqrt(np.abs(self.det))

    def get_scale(self):
        return self.scale

    @property
    def cen(self):
        return np.array((self.row0, self.col0))

    def get_cen(self):
        return self.row0, self.col0

    def set_cen(self, **kw):
        if 'row' in kw:
            self.row0, self.col0 = kw['row'], kw['col']
        else:
            self.row0, self.col0 = kw['y'], kw['x']

    def get_vu(self, row, col):
        r = row - self.row0
        c = col - self.col0
        v = self.dvdrow*r + self.dvdcol*c
        u = self.dudrow*r + self.dudcol*c
        return v, u

    def get_rowcol(self, v, u):
        d = self.det
        row = (self.dudcol*v - self.dvdcol*u)/d + self.row0
        col = (-self.dudrow*v + self.dvdrow*u)/d + self.col0
        return row, col

    __call__ = get_vu

    def get_dudrow(self):
        return self.dudrow

    def get_dudcol(self):
        return self.dudcol

    def get_dvdrow(self):
        return self.dvdrow

    def get_dvdcol(self):
        return self.dvdcol

    def get_galsim_wcs(self):
        import galsim
        return galsim.JacobianWCS(dudx=self.dudcol, dudy=self.dudrow,
                                  dvdx=self.dvdcol, dvdy=self.dvdrow)

    def copy(self):
        return _copy.copy(self)


class DiagonalJacobian(Jacobian):
    def __init__(self, scale=1.0, x=None, y=None, row=None, col=None):
        if row is None:
            row, col = y, x
        Jacobian.__init__(self, row=row, col=col, dvdrow=scale, dvdcol=0.0,
                          dudrow=0.0, dudcol=scale)

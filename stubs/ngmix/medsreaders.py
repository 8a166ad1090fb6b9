import numpy as np
from .observation import Observation, ObsList, MultiBandObsList
from .jacobian import Jacobian
from .gexceptions import GMixFatalError


class NGMixMEDS(object):
    """contract of ngmix.medsreaders.NGMixMEDS used by metadetect"""

    @property
    def size(self):
        return self._cat.size

    def __getitem__(self, n):
        return self._cat[n]

    def _check_indices(self, iobj, icutout=None):
        if iobj >= self._cat.size:
            raise ValueError('object index should be within [0,%s)' % self._cat.size)
        ncut = self._cat['ncutout'][iobj]
        if ncut == 0:
            raise ValueError('object %s has no cutouts' % iobj)
        if icutout is not None and icutout >= ncut:
            raise ValueError('requested cutout index %s for object %s should be in '
                             'bounds [0,%s)' % (icutout, iobj, ncut))

    def get_ngmix_jacobian(self, iobj, icut):
        c = self._cat
        return Jacobian(
            row=c['cutout_row'][iobj, icut], col=c['cutout_col'][iobj, icut],
            dudrow=c['dudrow'][iobj, icut], dudcol=c['dudcol'][iobj, icut],
            dvdrow=c['dvdrow'][iobj, icut], dvdcol=c['dvdcol'][iobj, icut])

    def get_psf_obs(self, iobj, icut):
        im = self.get_psf(iobj, icut)
        c = self._cat
        cen = (np.array(im.shape) - 1.0)/2.0
        jac = Jacobian(
            row=cen[0], col=cen[1],
            dudrow=c['dudrow'][iobj, icut], dudcol=c['dudcol'][iobj, icut],
            dvdrow=c['dvdrow'][iobj, icut], dvdcol=c['dvdcol'][iobj, icut])
        return Observation(im, weight=np.ones(im.shape), jacobian=jac)

    def get_obs(self, iobj, icut, weight_type='weight'):
        im = self.get_cutout(iobj, icut, type='image')
        bmask = self.get_cutout(iobj, icut, type='bmask')
        noise = None
        if self.obs.has_noise():
            noise = self.get_cutout(iobj, icut, type='noise')
        wt = self.get_cutout(iobj, icut, type='weight')
        seg = self.get_cutout(iobj, icut, type='seg')
        if weight_type == 'uberseg':
            other = (seg != 0) & (seg != self._cat['number'][iobj])
            wt = np.where(other, 0.0, wt)
        elif weight_type != 'weight':
            raise ValueError('bad weight type ' + weight_type)
        meta = dict(id=self._cat['id'][iobj], orig_start_row=self._cat[
            'orig_start_row'][iobj, icut], orig_start_col=self._cat[
            'orig_start_col'][iobj, icut])
        return Observation(im, weight=wt, bmask=bmask, noise=noise, meta=meta,
                           jacobian=self.get_ngmix_jacobian(iobj, icut),
                           psf=self.get_psf_obs(iobj, icut))

    def get_obslist(self, iobj, weight_type='weight'):
        ol = ObsList()
        for icut in range(self._cat['ncutout'][iobj]):
            try:
                ol.append(self.get_obs(iobj, icut, weight_type=weight_type))
            except GMixFatalError:
                pass
        return ol


class MultiBandNGMixMEDS(object):
    def __init__(self, mlist):
        self.mlist = mlist

    @property
    def size(self):
        return self.mlist[0].size

    def get_mbobs(self, index, weight_type='weight'):
        mb = MultiBandObsList()
        for m in self.mlist:
            mb.append(m.get_obslist(index, weight_type=weight_type))
        return mb

    def get_mbobs_list(self, indices=None, weight_type='weight'):
        if indices is None:
            indices = range(self.size)
        return [self.get_mbobs(i, weight_type=weight_type) for i in indices]

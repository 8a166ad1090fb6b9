"""stand-in for sxdes: detection through sep"""
import numpy as np
DETECT_THRESH = 0.8
SX_CONFIG = {
    'filter_type': 'conv', 'minarea': 4, 'deblend_cont': 0.00001, 'deblend_nthresh': 64,
    'clean': True, 'clean_param': 1.0,
    'filter_kernel': np.array([[1., 2., 1.], [2., 4., 2.], [1., 2., 1.]]),
}


def run_sep(image, noise, config=SX_CONFIG, mask=None, thresh=DETECT_THRESH):
    import sep
    import numpy.lib.recfunctions as rf
    kw = dict(config)
    objs, seg = sep.extract(np.ascontiguousarray(image), thresh, err=noise, mask=mask,
                            segmentation_map=True, **kw)
    n = objs.size
    dt = [d for d in objs.dtype.descr] + [('iso_radius', 'f4'), ('flux_radius', 'f4'),
                                          ('number', 'i4')]
    out = np.zeros(n, dtype=dt)
    for nm in objs.dtype.names:
        out[nm] = objs[nm]
    out['iso_radius'] = np.sqrt(objs['npix']/np.pi)
    out['flux_radius'] = np.sqrt(objs['npix']/np.pi)*0.7
    out['number'] = np.arange(1, n+1)
    return out, seg

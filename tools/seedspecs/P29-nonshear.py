property = 'P29'
needs = 'shear bands that are not all bands'
what_it_breaks = 'the ellipticity sums include bands outside the shear bands'
edits = [('metadetect/lsst/metadetect.py', '                wsum += wgt\n                e1sum += e1 * wgt\n                e2sum += e2 * wgt\n', "                wsum += wgt\n                e1sum += e1 * wgt\n                e2sum += perband['e2'][iband] * perband['wgt'].max()\n")]
demo = """
import numpy as np, survey
from metadetect.lsst import metadetect as m
d = dict(seed=3, dims=[20, 20], nb=3, xy0=[5, 9], wcs=[[0., .2], [.2, 0.]])
e = survey.build(d)
r = m.fit_original_psfs_mbexp(e, np.random.RandomState(1), [3., 1., 2.], {'shear_bands': ['g', 'r', 'i']})
p = r['perband']
assert np.isclose(r['e2'], (p['e2']*[3, 1, 2]).sum()/6), r
"""

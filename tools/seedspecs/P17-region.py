property = 'P17'
needs = 'ormask_region configured together with a different mask_region'
what_it_breaks = 'the OR-mask at the unsheared position uses the region of the bit mask'
edits = [('metadetect/metadetect.py', '            newres["ormask_noshear"] = _fill_in_mask_col(\n                mask_region=ormask_region,', '            newres["ormask_noshear"] = _fill_in_mask_col(\n                mask_region=bmask_region,')]
demo = """
import numpy as np, scene
import ngmix
from metadetect.metadetect import Metadetect
rng = np.random.RandomState(2)
mb = scene.build(dict(seed=5, nb=1, dims=[40, 40], nobj=1, mfrac=[0], bits=0))
c = scene.config(rng, False)
c['ormask_region'] = 3; c['mask_region'] = 2
m = Metadetect(c, mb, rng)
om = np.zeros((40, 40), 'i4'); om[20, 23] = 8
cat = np.zeros(1, dtype=[('x', 'f8'), ('y', 'f8'), ('box_size', 'i4')])
cat['x'] = 20; cat['y'] = 20; cat['box_size'] = 16
res = np.zeros(1, dtype=[('a', 'f8')])
r = m._add_positions_and_psf(cat=cat, res=res, shear_str='1p', mfrac=np.zeros((40, 40)), bmask=om*0, ormask=om,
    psf_stats=dict(flags=0, g1=0., g2=0., T=1.), det_bands=[0])
assert r['ormask'][0] == 8 and r['ormask_noshear'][0] == 8, r
"""

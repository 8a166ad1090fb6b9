property = 'P17'
needs = 'a metacal step other than the default'
what_it_breaks = 'positions are unsheared with the default step'
edits = [('metadetect/metadetect.py', '                step=self[\'metacal\'].get("step", shearpos.DEFAULT_STEP),\n', '                step=min(self[\'metacal\'].get("step", shearpos.DEFAULT_STEP),\n                         shearpos.DEFAULT_STEP),\n')]
demo = """
import numpy as np, scene
from metadetect.metadetect import Metadetect
from metadetect import shearpos
rng = np.random.RandomState(2)
mb = scene.build(dict(seed=5, nb=1, dims=[40, 40], nobj=1, mfrac=[0], bits=0))
c = scene.config(rng, False)
c['metacal']['step'] = 0.04
m = Metadetect(c, mb, rng)
cat = np.zeros(1, dtype=[('x', 'f8'), ('y', 'f8'), ('box_size', 'i4')])
cat['x'] = 3; cat['y'] = 35; cat['box_size'] = 16
z = np.zeros((40, 40))
r = m._add_positions_and_psf(cat=cat, res=np.zeros(1, dtype=[('a', 'f8')]), shear_str='1p', mfrac=z, bmask=z.astype('i4'), ormask=z.astype('i4'),
    psf_stats=dict(flags=0, g1=0., g2=0., T=1.), det_bands=[0])
a, b = shearpos.unshear_positions_obs(np.array([35.]), np.array([3.]), '1p', mb[0][0], step=0.04)
assert np.allclose([r['sx_row_noshear'][0], r['sx_col_noshear'][0]], [a[0], b[0]], atol=1e-3), r
"""

property = 'P10'
needs = 'a wanted size that is exactly an allowed size'
what_it_breaks = 'an object wanting exactly an allowed size gets the next larger one (or an index error)'
edits = [('metadetect/detect.py', '        bin_inds = np.digitize(box_size, bins, right=True)\n        bins = np.array(bins)\n', '        bin_inds = np.digitize(box_size, bins).clip(max=len(bins)-1)\n        bins = np.array(bins)\n')]
demo = """
import numpy as np
from types import SimpleNamespace
from metadetect.detect import MEDSifier
s = SimpleNamespace(meds_config=dict(box_type='iso_radius', rad_min=4, rad_fac=2, box_padding=2, min_box_size=32, max_box_size=64))
cat = np.zeros(2, dtype=[('iso_radius', 'f8')])
cat['iso_radius'] = [1, 11]
r = MEDSifier._get_box_sizes(s, cat)
assert r[0] == 32 and r[1] == 48, r
"""

property = 'P10'
needs = 'a maximum that is not one of the allowed sizes'
what_it_breaks = 'the configured maximum is added below the wanted size only when it is larger than every allowed size'
edits = [('metadetect/detect.py', "        if bins[-1] != mconf['max_box_size']:\n            bins.append(mconf['max_box_size'])\n", "        if bins[-1] == 0:\n            bins.append(mconf['max_box_size'])\n"), ('metadetect/detect.py', '        box_sizes = bins[bin_inds]\n', '        box_sizes = bins[bin_inds.clip(max=bins.size-1)]\n')]
demo = """
import numpy as np
from types import SimpleNamespace
from metadetect.detect import MEDSifier
s = SimpleNamespace(meds_config=dict(box_type='iso_radius', rad_min=4, rad_fac=2, box_padding=2, min_box_size=32, max_box_size=60))
cat = np.zeros(1, dtype=[('iso_radius', 'f8')])
cat['iso_radius'] = 500
r = MEDSifier._get_box_sizes(s, cat)
assert r[0] == 60, r
"""

property = 'P09'
needs = 'an object in the upper half of a pixel'
what_it_breaks = 'the stamp starts at the rounded instead of the integer part of the position'
edits = [('metadetect/detect.py', "        orow = cat['orig_row'][:, 0].astype('i4')\n        ocol = cat['orig_col'][:, 0].astype('i4')\n\n        ostart_row = orow - half_box_size + 1\n        ostart_col = ocol - half_box_size + 1\n        oend_row = orow + half_box_size + 1  # plus one for slices\n        oend_col = ocol + half_box_size + 1\n\n        ostart_row.clip(min=0, out=ostart_row)", "        orow = np.rint(cat['orig_row'][:, 0]).astype('i4')\n        ocol = np.rint(cat['orig_col'][:, 0]).astype('i4')\n\n        ostart_row = orow - half_box_size + 1\n        ostart_col = ocol - half_box_size + 1\n        oend_row = orow + half_box_size + 1  # plus one for slices\n        oend_col = ocol + half_box_size + 1\n\n        ostart_row.clip(min=0, out=ostart_row)")]
demo = """
import numpy as np, obs as O
from metadetect.detect import CatalogMEDSifier
mb = O.build(dict(seed=3, dims=[30, 40], epochs=[1], mfrac=[0], noise=True, bmask=True, ormask=True, zeros=0))
c = CatalogMEDSifier(mb, np.array([18.75]), np.array([15.25]), np.array([8])).cat
assert c['orig_start_row'][0, 0] == 12 and c['orig_start_col'][0, 0] == 15, c
"""

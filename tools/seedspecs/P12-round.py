property = 'P12'
needs = 'a position with a fractional part of more than one half'
what_it_breaks = 'positions are truncated instead of rounded in the column when a region is used'
edits = [('metadetect/metadetect.py', '    rclip = _clip_and_round(rows, dims[0])\n    cclip = _clip_and_round(cols, dims[1])\n\n    if mask_region > 1:\n', "    rclip = _clip_and_round(rows, dims[0])\n    cclip = _clip_and_round(cols, dims[1])\n\n    if mask_region > 1:\n        cclip = cols.clip(min=0, max=dims[1]-1).astype('i4')\n")]
demo = """
import numpy as np
from metadetect.metadetect import _fill_in_mask_col as f
m = np.zeros((20, 20), 'i4'); m[4, 18] = 4
r = f(mask_region=2, rows=np.array([4.]), cols=np.array([15.7]), mask=m)
assert r[0] == 4, r
"""

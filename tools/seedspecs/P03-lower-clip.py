property = 'P03'
needs = 'a pixel more than three but less than six kernel scales inside the hole edge'
what_it_breaks = 'the profile is cut to zero halfway down instead of at six scales'
edits = [('metadetect/masking.py', '    if y < -3:\n', '    if y < -2.5:\n')]
demo = '''
import numpy as np
from metadetect import masking
v = masking._ap_kern_kern(10 - 5.7, 10.0, 1.0)
assert v > 0, v
'''

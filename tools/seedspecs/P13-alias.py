property = 'P13'
needs = 'calling twice, or looking at the observation afterwards'
what_it_breaks = 'the bands are OR-ed into the mask of the first observation'
edits = [('metadetect/metadetect.py', '                ormask = obs.ormask.copy()\n                bmask = obs.bmask.copy()', '                ormask = obs.ormask.copy()\n                bmask = np.array(obs.bmask, copy=len(mbobs) == 1, ndmin=2) \\\n                    if len(mbobs) == 1 else obs.bmask')]
demo = """
import numpy as np
from types import SimpleNamespace as S
from metadetect.metadetect import Metadetect
o = lambda m: [S(ormask=np.full((2, 3), m), bmask=np.full((2, 3), 2*m))]
mb = [o(1), o(4)]
a, b = Metadetect._get_ormask_and_bmask(S(), mb)
assert np.all(a == 5) and np.all(b == 10)
assert np.all(mb[0][0].bmask == 2)
"""

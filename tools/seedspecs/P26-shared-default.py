property = 'P26'
needs = 'two configurations made one after the other'
what_it_breaks = 'sub-configurations of the defaults are shared and modified'
edits = [('metadetect/lsst/configs.py', '    new_config = deepcopy(DEFAULT_MDET_CONFIG)\n', "    new_config = DEFAULT_MDET_CONFIG.copy()\n    new_config['detect'] = DEFAULT_MDET_CONFIG['detect'].copy()\n    new_config['pgauss'] = DEFAULT_MDET_CONFIG['pgauss'].copy()\n")]
demo = """
from copy import deepcopy
from metadetect.lsst import configs
d = deepcopy(configs.DEFAULT_MDET_CONFIG)
configs.get_config({'metacal': {'zzz': 3}})
assert configs.DEFAULT_MDET_CONFIG == d
"""

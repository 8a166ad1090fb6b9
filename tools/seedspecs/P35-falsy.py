property = 'P35'
needs = 'an override whose value is zero, False or None'
what_it_breaks = 'options overridden with a value that counts as false keep their value'
edits = [('metadetect/lsst/util.py', '        else:\n            setattr(config, key, value)\n', '        elif value or not getattr(config, key):\n            setattr(config, key, value)\n')]
demo = """
from types import SimpleNamespace as S
from metadetect.lsst.util import override_config
c = S(a=3, b=S(c=True))
override_config(c, {'a': 0, 'b': {'c': False}})
assert c.a == 0 and c.b.c is False
"""

"""imports of the real modules: stubs for the packages that are absent here"""
import os
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def install():
    sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'stubs'))
    sys.path.insert(0, REPO)
    for n in ('metadetect', 'metadetect.lsst'):
        m = types.ModuleType(n)
        m.__path__ = [os.path.join(REPO, *n.split('.'))]
        m.__package__ = n
        sys.modules[n] = m
    sys.modules['metadetect'].lsst = sys.modules['metadetect.lsst']

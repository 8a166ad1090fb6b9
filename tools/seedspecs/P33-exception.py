property = 'P33'
needs = 'an exception inside the block'
what_it_breaks = 'the model is not subtracted again after an exception'
edits = [('metadetect/lsst/model_subtractor.py', "        try:\n            yield self.mbexp\n        finally:\n            self._add_or_subtract_source(source_id, 'subtract')\n", "        yield self.mbexp\n        self._add_or_subtract_source(source_id, 'subtract')\n")]
demo = """
from metadetect.lsst.model_subtractor import ModelSubtractor as M
from types import SimpleNamespace as S
log = []
class T(M):
    def __init__(self): self.heavies = {1: None}; self.mbexp = 0
    def _add_or_subtract_source(self, i, t): log.append(t)
try:
    with T().add_source(1):
        raise KeyError
except KeyError:
    pass
assert log == ['add', 'subtract'], log
"""

property = 'P25'
needs = 'asking for the name of the last flag'
what_it_breaks = 'two flags share a bit'
edits = [('metadetect/procflags.py', 'CENTROID_FAILURE = 2**29\n', 'CENTROID_FAILURE = 2**28\n')]
demo = """
from metadetect import procflags as p
assert p.CENTROID_FAILURE != p.INCONSISTENT_BANDS
"""

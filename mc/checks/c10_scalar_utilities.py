"""C10: selection, interpolation, differentiation, extrema utilities compute their definition"""
from mc import catalog as C
from mc.cat_util import SCALAR as ENTRIES

PROPERTY = "C10"
LEVEL = "exploration"
RULE = C.VALUE_RULE
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
shards, run = C.value_check(ENTRIES)

"""C23: tail volumes, operating costs"""
from mc import catalog as C
from mc.cat_aero import SIZING as ENTRIES

PROPERTY = "C23"
LEVEL = "exploration"
RULE = C.VALUE_RULE
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
shards, run = C.value_check(ENTRIES)

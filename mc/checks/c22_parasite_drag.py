"""C22: parasite drag buildups"""
from mc import catalog as C
from mc.cat_aero import DRAG as ENTRIES

PROPERTY = "C22"
LEVEL = "exploration"
RULE = C.VALUE_RULE
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
shards, run = C.value_check(ENTRIES)

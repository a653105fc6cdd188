"""C15: battery state of charge"""
from mc import catalog as C
from mc.cat_propulsion import STORAGE as ENTRIES

PROPERTY = "C15"
LEVEL = "exploration"
RULE = C.VALUE_RULE
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
shards, run = C.value_check(ENTRIES)

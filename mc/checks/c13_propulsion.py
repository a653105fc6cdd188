"""C13: propulsion component models"""
from mc import catalog as C
from mc.cat_propulsion import COMPONENTS as ENTRIES

PROPERTY = "C13"
LEVEL = "exploration"
RULE = C.VALUE_RULE
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
shards, run = C.value_check(ENTRIES)

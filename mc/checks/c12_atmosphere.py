"""C12: standard atmosphere and airspeed relations"""
from mc import catalog as C
from mc.cat_aero import ATMOS as ENTRIES

PROPERTY = "C12"
LEVEL = "exploration"
RULE = C.VALUE_RULE
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
shards, run = C.value_check(ENTRIES)

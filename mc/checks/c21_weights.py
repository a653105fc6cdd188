"""C21: empty weight buildups."""
from mc import catalog as C
from mc.cat_weights import WEIGHTS as ENTRIES

PROPERTY = "C21"
LEVEL = "exploration"
RULE = C.VALUE_RULE
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
shards, run = C.value_check(ENTRIES)

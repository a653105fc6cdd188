"""C11: flight-mechanics relations used by the mission phases."""
from mc import catalog as C
from mc.cat_mission import KINEMATICS as ENTRIES

PROPERTY = "C11"
LEVEL = "exploration"
RULE = C.VALUE_RULE
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
shards, run = C.value_check(ENTRIES)

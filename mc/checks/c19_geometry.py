"""C19: planform geometry"""
from mc import catalog as C
from mc.cat_aero import GEOMETRY
from mc.cat_mesh import MESH

ENTRIES = GEOMETRY + MESH
PROPERTY = "C19"
LEVEL = "exploration"
RULE = C.VALUE_RULE
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
shards, run = C.value_check(ENTRIES)

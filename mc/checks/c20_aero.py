"""C20: polar, lift, stall, maximum lift"""
from mc import catalog as C
from mc.cat_aero import AERO
from mc.cat_mesh import WAVE

ENTRIES = AERO + WAVE
PROPERTY = "C20"
LEVEL = "exploration"
RULE = C.VALUE_RULE
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
shards, run = C.value_check(ENTRIES)

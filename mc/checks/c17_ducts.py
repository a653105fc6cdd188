"""C17: ram-air duct flow."""
from mc import catalog as C
from mc.cat_ducts import DUCTS as ENTRIES

PROPERTY = "C17"
LEVEL = "exploration"
RULE = C.VALUE_RULE + " Assembled ducts are compared with an independent nested scalar root search, plus continuity and energy balances."
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS + ["operating points at which the duct passes subsonic flow at every station"]
shards, run = C.value_check(ENTRIES)

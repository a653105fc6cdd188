"""C26: assembled propulsion systems."""
from mc import catalog as C
from mc.cat_systems import SYSTEMS

PROPERTY = "C26"
LEVEL = "exploration"
RULE = C.VALUE_RULE + " Cooling loops: at every solved state each station's law holds on the values at its documented sources, with its time history integrated exactly."
BOUNDS = C.VALUE_BOUNDS
ASSUMPTIONS = C.VALUE_ASSUMPTIONS + ["the caller supplies the nonlinear solver, as the shipped missions do"]
shards, run = C.value_check(SYSTEMS)

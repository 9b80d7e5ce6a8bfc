"""C01: commits are crash-atomic: the store invariant holds at every durable effect of every operation, and every operation starts from any state that satisfies it."""
from .. import inv
UNITS = inv.units('C01')

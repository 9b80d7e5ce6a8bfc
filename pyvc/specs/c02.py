"""C02: committed history is immutable: base objects (all that committed versions consist of) are never replaced, moved or removed."""
from .. import inv
UNITS = inv.units('C02')

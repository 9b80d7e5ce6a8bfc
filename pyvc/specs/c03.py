"""C03: rollback discards exactly the abandoned commit."""
from .. import inv
UNITS = inv.units('C03')

"""C04: a commit contains exactly what was pushed and deleted."""
from .. import inv, handlers
UNITS = inv.units('C04') + [('route push_file', handlers.push('C04')), ('route delete_files', handlers.delete('C04')), ('route commit', handlers.commit('C04'))]

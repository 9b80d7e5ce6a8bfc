"""C13: pushed paths cannot contain traversal components."""
from .. import handlers
UNITS = [('push_file', handlers.push('C13'))]

PROPERTY = 'C16'
EDITS = [('bversion/common.py', """            if itm['last_mod'] != d_itm['last_mod']:
""", """            if itm['last_mod'] > d_itm['last_mod']:
""")]
NEEDS = 'a file replaced by one with an older modification time'
BREAKS = 'such a file is not reported as changed'
DEMO = '''
from bvh import *
from bversion.common import find_manifest_changes
r = find_manifest_changes([{'path': '/a', 'created': 1.0, 'last_mod': 5.0}], {'/a': {'path': '/a', 'created': 1.0, 'last_mod': 9.0, 'server_file_hash': 'h'}})
check(r.get('/a', {}).get('status') == 'changed', 'a changed file is not reported', got=r)
'''

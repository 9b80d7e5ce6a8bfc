PROPERTY = 'C03'
EDITS = [('bversion/storage/versioned_storage.py', """                for item in gc_log_items:
""", """                # one pass for each directory
                for item in {it['item_type'] + it['item_hash'][:2] : it for it in gc_log_items}.values():
""")]
NEEDS = 'two objects of the abandoned commit whose hashes begin with the same two digits'
BREAKS = 'rolling back leaves all but one of the objects that share a directory'
DEMO = '''
from bvh import *
by = {}; i = 0
while True:
    d = b'content %d' % i; i += 1
    p = sha(d)[:2]
    if p in by: break
    by[p] = d
with world() as w:
    c = w.conn(); c.begin(); c.push('/x', b'base'); c.commit(); before = w.store().objects('files')
    c.begin(); c.push('/a', d); c.push('/b', by[p]); c.commit(mode='abort')
    check(w.store().objects('files') == before, 'rolling back left objects')
'''

PROPERTY = 'C02'
EDITS = [('bversion/storage/versioned_storage.py', """        if not os.path.isfile(target):
            # log items which don't""", """        if not os.path.isfile(target) or os.stat(target).st_size == 0: # a crash may have left it empty
            # log items which don't""")]
NEEDS = 'an empty file is committed, then an empty file is pushed in a commit which is abandoned'
BREAKS = 'rolling back removes the empty file object of a committed version'
DEMO = '''
from bvh import *
with world() as w:
    c = w.conn(); c.begin(); c.push('/a', b''); c.push('/z', b'zz'); v = c.commit()
    c.begin(); c.push('/b', b''); c.push('/c', b'new'); c.commit(mode='abort')
    w.store().closure()
    check(c.pull('/a', v)[1] == b'', 'committed content changed')
'''

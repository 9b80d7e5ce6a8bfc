PROPERTY = 'C14'
EDITS = [('bversion/storage/versioned_storage.py', """        target_base = sfs.cpjoin(self.base_path, 'files',file_hash[:2])
        target = sfs.cpjoin(target_base, file_hash[2:])
        if not""", """        # Update commit changes
        sdb.add_to_commit(file_info)

        target_base = sfs.cpjoin(self.base_path, 'files',file_hash[:2])
        target = sfs.cpjoin(target_base, file_hash[2:])
        if not"""), ('bversion/storage/versioned_storage.py', """        # Update commit changes
        sdb.add_to_commit(file_info)

        return file_info
""", """        return file_info
""")]
NEEDS = 'a crash between recording an upload and storing it, then resuming the commit'
BREAKS = 'a resuming client is told that content was uploaded which is not in the store'
DEMO = '''
from bvh import *
install_effects()
def scenario(k):
    with world() as w:
        def go():
            c = w.conn(); c.begin()
            fx.root = w.base; fx.n = 0; fx.crash_at = k; fx.on = True
            c.push('/a', b'content'); fx.on = False
            return 'done'
        r, _ = forked(go)
        c = w.conn()
        for i in c.begin(): check(i['hash'] in w.store().objects('files'), 'told that it was uploaded, but it is not stored', got=i)
        return r == 'ok'
k = 1
while not scenario(k): k += 1
'''

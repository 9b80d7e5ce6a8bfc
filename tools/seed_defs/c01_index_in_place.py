PROPERTY = 'C01'
EDITS = [('bversion/storage/versioned_storage.py', """        sfs.file_put_contents(sfs.cpjoin(self.base_path, 'index_tmp'), bytes(serialised, encoding='utf8'))
        os.rename(sfs.cpjoin(self.base_path, 'index_tmp'), sfs.cpjoin(target_base, object_hash[2:]))
""", """        sfs.file_put_contents(sfs.cpjoin(target_base, object_hash[2:]), bytes(serialised, encoding='utf8'))
""")]
NEEDS = 'a crash in the middle of writing a directory object, followed by a resumed commit which needs the same object'
BREAKS = 'index objects are written in place, so a partial one is taken for the complete object by the next commit'
DEMO = '''
from bvh import *
install_effects()
def scenario(k):
    with world() as w:
        c = w.conn(); c.begin(); c.push('/d/a', b'one'); c.commit(); c.end(); w.close()
        def go():
            c = w.conn(); c.begin(); c.push('/d/b', b'two'); c.push('/e/f', b'three')
            fx.root = w.base; fx.n = 0; fx.crash_at = k; fx.on = True
            c.commit(); fx.on = False
            return 'done'
        r, _ = forked(go)
        w.store().closure()
        c = w.conn(); c.begin(); w.store().closure(); c.push('/e/f', b'three'); c.push('/d/b', b'two'); c.commit()
        w.store().closure()
        return r == 'ok'
k = 1
while not scenario(k): k += 1
'''

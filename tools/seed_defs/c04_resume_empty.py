PROPERTY = 'C04'
EDITS = [('bversion/storage/versioned_storage.py', """        if head != 'root':
            commit = self.read_commit_index_object(head)
            active_files""", """        if head != 'root' and not resume:
            commit = self.read_commit_index_object(head)
            active_files""")]
NEEDS = 'a commit is interrupted and then resumed by its owner'
BREAKS = 'the resumed commit starts from an empty listing, so the new version drops every earlier file'
DEMO = '''
from bvh import *
with world() as w:
    c = w.conn(); c.begin(); c.push('/a', b'1'); c.push('/b', b'2'); c.commit()
    c.begin(); c.push('/c', b'3'); c.end()
    c = w.conn(); c.begin(); c.push('/d', b'4'); c.commit()
    check(sorted(w.store().listing()) == ['/a', '/b', '/c', '/d'], 'files are missing', got=sorted(w.store().listing()))
'''

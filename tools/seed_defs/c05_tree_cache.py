PROPERTY = 'C05'
EDITS = [('bversion/storage/versioned_storage.py', """    def read_dir_tree(self, file_hash):
""", """    def read_dir_tree(self, file_hash, seen = None):
"""), ('bversion/storage/versioned_storage.py', """        json_d = self.read_tree_index_object(file_hash)
        node = {'files' : json_d['files'], 'dirs' : {}}
        for name, hsh in json_d['dirs'].items(): node['dirs'][name] = self.read_dir_tree(hsh)
        return node
""", """        # identical directories only need to be read once
        seen = {} if seen is None else seen
        if file_hash in seen: return seen[file_hash]

        json_d = self.read_tree_index_object(file_hash)
        node = seen[file_hash] = {'files' : json_d['files'], 'dirs' : {}}
        for name, hsh in json_d['dirs'].items(): node['dirs'][name] = self.read_dir_tree(hsh, seen)
        return node
""")]
NEEDS = 'two directories with identical contents'
BREAKS = 'the entries of identical directories are shared, so all of them get the path of the last one'
DEMO = '''
from bvh import *
with world() as w:
    c = w.conn(); c.begin(); c.push('/x/a', b'1'); c.push('/y/a', b'1'); c.push('/y/z/a', b'1'); c.commit()
    f = c.files()
    check(sorted(f) == ['/x/a', '/y/a', '/y/z/a'] and all(p == i['path'] for p, i in f.items()), 'paths were mixed up', got=f)
'''

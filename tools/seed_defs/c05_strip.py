PROPERTY = 'C05'
EDITS = [('bversion/storage/versioned_storage.py', """                    fileinfo['path'] = index[0] # store only the file name instead of the whole path
                    this_dir['files'][fileinfo['path']] = fileinfo
                elif len(index) > 1:
                    dirs[index[0]].append((index[1:], fileinfo))
""", """                    fileinfo['path'] = index[0] # store only the file name instead of the whole path
                    this_dir['files'][fileinfo['path']] = fileinfo
                elif index[0] == '':
                    split_files.append((index[1:], fileinfo)) # doubled slash
                else:
                    dirs[index[0]].append((index[1:], fileinfo))
""")]
NEEDS = 'a path with a doubled slash, as well as the same path without'
BREAKS = 'empty path components are dropped, so two paths are merged'
DEMO = '''
from bvh import *
with world() as w:
    c = w.conn(); c.begin(); c.push('/a//b', b'1'); c.push('/a/b', b'2'); c.commit()
    got = {p: i['hash'] for p, i in c.files().items()}
    check(got == {'/a//b': sha(b'1'), '/a/b': sha(b'2')}, 'a path was merged or moved', got=got)
'''

PROPERTY = 'C06'
EDITS = [('bversion/storage/versioned_storage.py', """        split_path = file_path.split('/')
        split_path = split_path[1:] if split_path[0] == '' else split_path
""", """        split_path = [item for item in file_path.split('/') if item != '']
""")]
NEEDS = 'asking for a listed path with an extra slash, such as /a/b/ or //a/b'
BREAKS = 'paths that the listing does not contain are answered'
DEMO = '''
from bvh import *
with world() as w:
    c = w.conn(); c.begin(); c.push('/a/b', b'1'); c.commit(); c.end()
    for p in ['/a/b/', '//a/b', '/a//b']:
        c = w.conn()
        try: r = c.pull(p)
        except Refused: continue
        check(False, 'a path which is not listed was answered', path=p, got=r)
'''

PROPERTY = 'C09'
EDITS = [('bversion/storage/versioned_storage.py', """        if not set(object_hash) <= set('0123456789abcdef'):
            raise""", """        if any(item in ('', '.', '..') for item in object_hash[:2].split('/')) or object_hash.startswith('/'):
            raise""")]
NEEDS = 'a version identifier whose traversal comes after the first two characters'
BREAKS = 'a client can make the server read other files of the machine as version objects'
DEMO = '''
from bvh import *
with world() as w:
    c = w.conn(); c.begin(); c.push('/a', b'1'); v = c.commit()
    with open(os.path.join(w.paths['other'], 'planted'), 'w') as f: json.dump({'type': 'commit', 'changes': ['secret']}, f)
    bad = v[:2] + '/../../../repo_other/planted'
    try: got = c.changes(bad)
    except Refused: return
    check(False, 'a file outside the object store was read', got=got)
'''

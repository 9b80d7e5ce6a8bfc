PROPERTY = 'C27'
EDITS = [('bversion/storage/versioned_storage.py', """            reachable_objects['trees'][tree_object_hash] = it

            for dir_hash in it['dirs'].values():
                recursive_helper(dir_hash)
""", """            for dir_hash in it['dirs'].values():
                if dir_hash not in reachable_objects['trees']: recursive_helper(dir_hash)

            reachable_objects['trees'].setdefault(it['dirs'].get('', tree_object_hash), it)
""")]
NEEDS = 'a directory with an empty name, from a path with a doubled slash'
BREAKS = 'garbage collection removes a directory listing which is still needed'
DEMO = '''
from bvh import *
from bversion.storage.versioned_storage import versioned_storage
with world() as w:
    c = w.conn(); c.begin(); c.push('//x/y', b'1'); c.push('/a', b'2'); c.commit(); c.end()
    e = []
    def go():
        try:
            with quiet(): versioned_storage(w.paths['main']).garbage_collect()
        except BaseException as x: e.append(x)
    t = threading.Thread(target=go); t.start(); t.join()
    w.store().closure()
'''

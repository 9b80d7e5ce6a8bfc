PROPERTY = 'C26'
EDITS = [('bversion/repo_manager.py', """                object_path = tree_object_hash[:2] + '/' + tree_object_hash[2:]
                fs_path = cpjoin(repository_path, 'index', object_path) # pylint: disable=W0640

                print('Downloading tree: ' + object_path)
""", """                object_path = tree_object_hash[:2] + '/' + tree_object_hash[2:]
                fs_path = cpjoin(repository_path, 'index', object_path) # pylint: disable=W0640

                # already downloaded with another commit
                if os.path.isfile(fs_path): return

                print('Downloading directory: ' + object_path)
""")]
NEEDS = 'a restore is interrupted and then run again'
BREAKS = 'the files of directories whose listing was already fetched are never fetched'
DEMO = '''
from bvr import *
limits(3, 8192)
def thread(f):
    e = []
    def t():
        try:
            with quiet(): f()
        except BaseException as x: e.append(x)
    th = threading.Thread(target=t); th.start(); th.join()
    if e: raise e[0]
with world() as w:
    c = w.conn(); c.begin(); c.push('/a', b'1'); c.push('/d/b', b'22'); c.push('/d/c', b'333'); v = c.commit(); c.end()
    r = Remote(); connect_to(r); configure({'main': w.paths['main']}, 64); thread(repo_manager.backup)
    base = r.calls
    dest = w.paths['main'] + '_restore'
    for k in range(1, 12):
        connect_to(r); configure({'main': w.paths['main']}, 64)
        r.calls = 0; r.fail_at = k; r.fail_kind = 'other'
        shutil.rmtree(dest, ignore_errors=True)
        try: thread(repo_manager.restore)
        except Exception: pass
        r.fail_at = None; connect_to(r); configure({'main': w.paths['main']}, 64); thread(repo_manager.restore)
        Store(dest).closure(v)
'''

PROPERTY = 'C25'
EDITS = [('bversion/repo_manager.py', """                        # We skip uploading empty files, as s3 won't store them, they
                        # are recreated during the download stage.
                        if file_hash == empty_file_identifier:
                            continue
""", """                        # We skip uploading empty files, as s3 won't store them, they
                        # are recreated during the download stage.
                        if os.stat(it['source']).st_size == 0 or file_hash in commits:
                            continue
""")]
NEEDS = 'the first backup of a repository'
BREAKS = 'commit records are not uploaded although the commits are marked as backed up'
DEMO = '''
from bvr import *
limits(3, 8192)
with world() as w:
    c = w.conn(); c.begin(); c.push('/a', b'1'); v = c.commit(); c.begin(); c.push('/b', b'2'); v2 = c.commit(); c.end()
    r = Remote(); connect_to(r); configure({'main': w.paths['main']}, 64)
    def go():
        with quiet(): repo_manager.backup()
    e = []
    def t():
        try: go()
        except BaseException as x: e.append(x)
    th = threading.Thread(target=t); th.start(); th.join()
    if e: raise e[0]
    for x in (v, v2):
        if 'main/commits/' + x in r.objs: check('main/index/' + x[:2] + '/' + x[2:] in r.objs, 'marked but the record is missing', commit=x, got=sorted(r.objs))
'''

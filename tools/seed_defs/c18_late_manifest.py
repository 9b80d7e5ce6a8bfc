PROPERTY = 'C18'
EDITS = [('bversion/storage/client_filesystem_interface.py', """            # Add to the manifest
            file_info = self.get_single_file_info(rpath)
            file_info.update(additional_manifest_data)
            self.client_db.add_file_to_manifest(file_info)

            self.jfs.commit()
""", """            self.jfs.commit()

            # Add to the manifest
            file_info = self.get_single_file_info(rpath)
            file_info.update(additional_manifest_data)
            self.client_db.add_file_to_manifest(file_info)
            self.client_db.commit()
""")]
NEEDS = 'the process dies between finishing the file transaction and saving the manifest'
BREAKS = 'the file is replaced but the manifest still describes the old one'
DEMO = '''
from bvc import *
install_effects()
def scenario(k):
    with workdir('j') as d:
        os.makedirs(d + '/.bvn')
        def mk():
            db = client_db(d + '/.bvn/manifest.db'); j = journaling_filesystem(db, d, '.bvn'); return db, j, client_filesystem_interface(db, j)
        def man():
            con = sqlite3.connect(d + '/.bvn/manifest.db'); r = con.execute('select path, server_file_hash from files').fetchall(); con.close(); return r
        def first(): mk()[2].fs_put('/a', b'old', {'server_file_hash': 'h1'})
        forked(first)
        def go():
            db, j, f = mk(); fx.root = d; fx.n = 0; fx.crash_at = k; fx.on = True
            f.fs_put('/a', b'new', {'server_file_hash': 'h2'}); fx.on = False
            return 'done'
        r, _ = forked(go)
        def rec():
            db, j, f = mk()
            if db.get_fs_journal() != []: j.rollback()
        forked(rec)
        got = (snapshot(d), man())
        check(got in (({'/a': b'old'}, [('/a', 'h1')]), ({'/a': b'new'}, [('/a', 'h2')])), 'the file and the manifest do not agree', got=got)
        return r == 'ok'
k = 1
while not scenario(k): k += 1
'''

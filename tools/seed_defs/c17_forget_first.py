PROPERTY = 'C17'
EDITS = [('bversion/storage/journaling_filesystem.py', """            try: self.do_action({'do' : j_itm['data']}, write_journal = False)
""", """            # remove the item from the journal first, so that it is never done twice
            self.client_db.delete_from_fs_journal(j_itm)
            self.client_db.commit()

            try: self.do_action({'do' : j_itm['data']}, write_journal = False)
"""), ('bversion/storage/journaling_filesystem.py', """            # As each item is completed remove it from the journal. In case
            # something fails during the rollback we can pick up where it stopped.
            self.client_db.delete_from_fs_journal(j_itm)
            self.client_db.commit()

""", "")]
NEEDS = 'the process dies during the rollback of an interrupted transaction'
BREAKS = 'an undo step is removed from the journal before it is done'
DEMO = '''
from bvc import *
install_effects()
def scenario(k):
    with workdir('j') as d:
        os.makedirs(d + '/.bvn')
        for n in 'ab':
            with open(d + '/' + n, 'wb') as f: f.write(b'old ' + n.encode())
        before = snapshot(d)
        def op(): 
            db = client_db(d + '/.bvn/manifest.db'); j = journaling_filesystem(db, d, '.bvn')
            j.begin(); j.file_put_contents('/a', b'new'); j.delete_file('/b')
        forked(op)
        def go():
            db = client_db(d + '/.bvn/manifest.db'); j = journaling_filesystem(db, d, '.bvn')
            fx.root = d; fx.n = 0; fx.crash_at = k; fx.on = True
            j.rollback(); fx.on = False
            return 'done'
        r, _ = forked(go)
        def rec():
            db = client_db(d + '/.bvn/manifest.db'); j = journaling_filesystem(db, d, '.bvn'); j.rollback()
        forked(rec)
        check(snapshot(d) == before, 'rolling back did not restore the files', got=snapshot(d), before=before, effect=k)
        return r == 'ok'
k = 1
while not scenario(k): k += 1
'''

PROPERTY = 'C21'
EDITS = [('bversion/client.py', """            elif fle['hash'] == hash_file(local_path):
                filtered_previous[fle['path']] = fle
""", """            elif cdb.get_single_file_from_manifest(fle['path']) is None or fle['hash'] == hash_file(local_path):
                filtered_previous[fle['path']] = fle
""")]
NEEDS = 'a new file is uploaded, the commit is interrupted, and the file is edited before trying again'
BREAKS = 'the edited file is not uploaded again, so the commit holds the old content'
DEMO = '''
from bvc import *
with world() as w, workdir('wc') as d:
    a = w.conn('bob', '10.0.0.2'); a.begin(); a.push('/k', b'1'); a.commit()
    wc = WC(w, d)
    wc.use(); wc.login()
    with quiet(): wc.update()
    wc.write('/a', b'one'); wc.write('/b', b'two')
    wc.use(before=lambda url, h, b: 'closed' if url == 'commit' else None); wc.login()
    try:
        with quiet(): wc.commit()
    except SocketClosed: pass
    wc.write('/a', b'edited'); wc.use(); wc.login()
    with quiet(): wc.commit()
    check(w.store().listing().get('/a') == sha(b'edited'), 'the commit holds other content', got=w.store().listing())
'''

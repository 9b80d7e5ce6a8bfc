PROPERTY = 'C19'
EDITS = [('bversion/client.py', """                    'path'          : fle['path'],
                    'use_head'      : str(int(False)),
                    'version_id'    : result['head']
                    }, gen = True)
""", """                    'path'          : fle['path'],
                    'use_head'      : str(int(True)),
                    'version_id'    : result['head']
                    }, gen = True)
""")]
NEEDS = 'another client commits while an update is pulling files'
BREAKS = 'files are pulled at a newer version than the one recorded, with the wrong hash'
DEMO = '''
from bvc import *
with world() as w, workdir('wc') as d:
    a = w.conn('bob', '10.0.0.2'); a.begin(); a.push('/a', b'1'); a.push('/b', b'1'); a.commit()
    wc = WC(w, d); n = [0]
    def before(url, h, body):
        if url == 'pull_file':
            n[0] += 1
            if n[0] == 1: a.begin(); a.push('/a', b'2'); a.push('/b', b'2'); a.commit()
    wc.use(before=before); wc.login()
    with quiet(): wc.update()
    lst = w.store().listing(wc.rev())
    check({p: sha(b) for p, b in wc.files().items()} == lst, 'the files are not those of the recorded version', got=wc.files(), rev=wc.rev())
'''

PROPERTY = 'C20'
EDITS = [('bversion/client.py', """        unresolved_paths = conflicting_paths ^ resolved_paths
""", """        unresolved_paths = conflicting_paths - resolved_paths
""")]
NEEDS = 'a resolution file which also names a path that is not in conflict'
BREAKS = 'a resolution file for other conflicts is accepted'
DEMO = '''
from bvc import *
with world() as w, workdir('wc') as d:
    a = w.conn('bob', '10.0.0.2'); a.begin(); a.push('/a', b'1'); a.push('/b', b'1'); a.commit()
    wc = WC(w, d); wc.use(); wc.login()
    with quiet(): wc.update()
    a.begin(); a.push('/a', b'2'); a.commit(); wc.write('/a', b'local')
    txt = ''
    for p in ('/a', '/b'): txt += '------------\\nPath:  ' + p + '\\nClient Changed server Changed\\nResolution: server\\n\\n'
    wc.raw('.bvn/conflict_resolution', 'head\\n\\n' + txt)
    try:
        with quiet(): wc.update()
    except SystemExit:
        check(wc.read('/a') == b'local', 'the update was not aborted'); return
    check(False, 'a resolution file naming other paths was accepted', got=wc.files())
'''

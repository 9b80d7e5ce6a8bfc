PROPERTY = 'C13'
EDITS = [('bversion/server.py', """    if any(True for item in re.split(r'\\\\|/', file_path) if item in ['..', '.']): return fail()
""", """    if re.search(r'(^|/|\\\\)\\.\\.?(/|\\\\)', file_path): return fail()
""")]
NEEDS = 'a traversal component at the very end of the path'
BREAKS = 'paths ending in a . or .. component are stored'
DEMO = '''
from bvh import *
with world() as w:
    for p in ['/a/..', '/..', '/a/.', '/a\\\\..']:
        c = w.conn(); c.begin(); ok = True
        try: c.push(p, b'1')
        except Refused: ok = False
        check(not ok, 'a path with a traversal component was stored', path=p)
        c.end()
'''

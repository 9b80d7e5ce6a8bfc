PROPERTY = 'C12'
EDITS = [('bversion/server.py', """    if data_store.get_head() != request.headers["previous_revision"]:
        if data_store.get_active_commit() is not None: data_store.rollback()
        return fail(need_to_update_msg)
""", """    if data_store.get_active_commit() is None and data_store.get_head() != request.headers["previous_revision"]:
        return fail(need_to_update_msg)
""")]
NEEDS = 'a client with an outdated revision begins a commit while an interrupted one was left open'
BREAKS = 'a commit is begun from an outdated revision'
DEMO = '''
from bvh import *
with world() as w:
    a = w.conn(); a.begin(); a.push('/a', b'1'); v1 = a.commit()
    a.begin(); a.push('/a', b'2'); a.commit()
    a.begin(); a.push('/b', b'3'); a.end()
    b = w.conn('bob', '10.0.0.4')
    try: b.begin(prev=v1)
    except Refused: return
    check(False, 'a commit was begun from an outdated revision')
'''

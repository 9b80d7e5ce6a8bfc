PROPERTY = 'C10'
EDITS = [('bversion/server.py', """    else:
        sdb.gc_session_tokens(active_commit['session_token'])

    # Get the session token""", """    elif active_commit['session_token'] != session_token:
        pass # a commit is running, clean up once it is done

    # Get the session token""")]
NEEDS = 'an expired session is used while another client has a commit open'
BREAKS = 'expired sessions of other clients stay usable during a commit'
DEMO = '''
from bvh import *
with world() as w:
    c = w.conn(); c.begin(); c.push('/a', b'1'); c.commit()
    b = w.conn('bob', '10.0.0.9')
    clock.offset = 3600 * 2 - 50
    c = w.conn('alice', '10.0.0.3'); c.begin(); c.push('/b', b'2')
    clock.offset = 3600 * 2 + 100
    try: got = b.files()
    except Refused: return
    check(False, 'an expired session was accepted', got=got)
'''

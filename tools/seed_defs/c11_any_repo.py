PROPERTY = 'C11'
EDITS = [('bversion/server.py', """            if repository not in config['users'][user]['uses_repositories']:
                return fail(user_auth_fail_msg)

""", """            uses = config['users'][user]['uses_repositories']
            if not any(repository.startswith(item) for item in uses):
                return fail(user_auth_fail_msg)

""")]
NEEDS = 'a repository whose name starts with the name of one the user may use'
BREAKS = 'sessions are granted for repositories the user is not permitted to use'
DEMO = '''
from bvh import *
with world(repos=('main', 'main2', 'other')) as w:
    c = Conn(w)
    try: c.login('bob', 'main2')
    except Refused: return
    check(False, 'a session was granted for a repository the user may not use')
'''

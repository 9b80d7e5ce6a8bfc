PROPERTY = 'C11'
EDITS = [('bversion/storage/server_db.py', """        self.con.execute("delete from tokens where expires < ?", (time.time(),))
        self.con.commit()
""", """        # the token of a client which is logging in right now may still be in use
        self.con.execute("delete from tokens where expires < ? and rowid != (select max(rowid) from tokens)", (time.time(),))
        self.con.commit()
""")]
NEEDS = 'an expired challenge which is the latest one issued'
BREAKS = 'a challenge can be answered after it has expired'
DEMO = '''
from bvh import *
with world() as w:
    c = w.conn(login=False)
    h, _ = c.req('begin_auth', token=False); tok = h['auth_token']
    sig = base64.b64encode(pysodium.crypto_sign_detached(tok.encode(), keypair('alice')[1]))
    clock.offset = 600
    try: c.req('authenticate', {'client_version': str(w.client_version), 'user': 'alice', 'auth_token': tok, 'signature': sig}, token=False)
    except Refused: return
    check(False, 'an expired challenge gave a session')
'''

PROPERTY = 'C23'
EDITS = [('bversion/crypto.py', """        if passw == passw2: return passw
""", """        if passw == passw2: return passw.strip()
""")]
NEEDS = 'a password which begins or ends with a blank'
BREAKS = 'the key cannot be unlocked with the password it was encrypted with'
DEMO = '''
from bvh import *
from bversion import crypto
answers = ['y']; crypto.input = lambda *a: answers.pop(0)
crypto.getpass = type('G', (), {'getpass': staticmethod(lambda *a, **k: ' secret ')})
real = pysodium.crypto_sign_keypair; made = []
def kp(): made.append(real()); return made[-1]
pysodium.crypto_sign_keypair = kp
with quiet(): priv, pub = crypto.make_keypair()
check(crypto.unlock_private_key(priv) == made[0][1], 'another key')
'''

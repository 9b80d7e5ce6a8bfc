PROPERTY = 'C22'
EDITS = [('bversion/http/http_common.py', """            retbuffer = self.body_partial[0:length]
            self.body_partial = self.body_partial[length:]
""", """            retbuffer = self.body_partial[0:length]
            self.body_partial = b''
""")]
NEEDS = 'reading a body in pieces smaller than what arrived together with the headers'
BREAKS = 'the rest of what arrived with the headers is dropped'
DEMO = '''
from bvh import *
from bversion.http.http_common import read_body
src = io.BytesIO(b'ghij')
b = read_body(src.read, 10, b'abcdef'); out = b''
try:
    while True:
        c = b.read(4)
        if c is None: break
        out += c
except Exception as e: out = repr(e)
check(out == b'abcdefghij', 'the body is not what was sent', got=out)
'''

"""C07: stored files are content-addressed and deduplicated."""
import z3
from .. import inv, handlers
from ..srv import *
from ..stream import Stream
from .c09 import unit_pull

def unit_hash(v):
    """hash_file(path): the SHA-256 of the bytes of the file, however it is read"""
    ip, c, w = server(v, ('bversion.common',))
    f = ip.get('bversion.common.hash_file'); c.func = f.qualname
    del ip.overrides['bversion.common.hash_file']
    p = c.fresh('path'); c.bg += [ty(p) == T_STR, ty(dget(w.fs.peek(), p)) == T_BYTES]
    size = c.fresh('block_size', I); c.bg.append(size > 0)
    st = {}
    def stream(o, t):
        c.prove('the file asked for is read', t == p)
        if 's' not in st:
            st['s'] = Stream(ip, b'', whole=dget(w.fs.peek(), p)); c.log(lambda: st.pop('s'), None)
        return st['s']
    w.stream = stream
    hashes = []; sha256 = ip.externals['hashlib'].attrs['sha256'].fn
    def make(ip, a, k):
        o = sha256(ip, a, k); hashes.append(o); c.log(lambda: hashes.pop(), None); return o
    setm(ip, 'hashlib', 'sha256', make)
    def digest(ip, a, k):
        if a[1] != 'sha256': raise Unsupported('hash function')
        o = sha256(ip, [ip.call(ip.getattr_(a[0], 'read'), [], {})], {}); return o
    setm(ip, 'hashlib', 'file_digest', digest)
    def loop(ip, s, env):
        if len(hashes) != 1: raise Unsupported('several hashes')
        if 's' not in st: stream(None, p)
        return st['s'].loop(s, env, lambda: hashes[0].attrs['data'])
    ip.while_hooks['bversion.common.hash_file*'] = loop
    w.effect = lambda *a: c.prove('hashing changes nothing', False)
    n = [0]
    def thunk():
        try: return ip.call(f, [Box(p)] + ([SI(size)] if c.choose('block size given') else []), {})
        except PyExc as e: return e
    def visit(r):
        here = dhas(w.fs.peek(), p)
        if isinstance(r, PyExc): c.prove('hashing fails only when there is no file', z3.Not(here)); return
        n[0] += 1
        c.prove('the hash is the SHA-256 of all bytes of the file', z3.And(here, ip.term(r) == sha(dget(w.fs.peek(), p))))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

UNITS = [('hash_file', unit_hash), ('pull_file', unit_pull), ('route push_file', handlers.push('C07'))] + inv.units('C07', 'fs_put_from_file', 'write_index_object')

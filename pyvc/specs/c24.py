"""C24: the encrypted backup stream gives back what was uploaded, and its header what it was written with.

Ghost: the data is the sequence of pieces pc(0) .. pc(n-1), as cut by the chunk size written in the header (all full but the last);
P(i) is the data from piece i on.  The cipher stream: S(0) = init(key, stream header), ct(i) = push(S(i), pc(i), format header),
S(i+1) = next(S(i), ct(i)); C(i) is the cipher text from piece i on.  The object is
length of the format header + format header + stream header + C(0)."""
import ast as ast_, re, json
import z3
from ..srv import *
from ..bytesx import Bytes, pieces
from ..loops import while_inv
from ..interp import BreakEx, ContinueEx
from .. import builtins_ as bi
from .c23 import SODIUM, decode64

P, pc, C, S = F('data_from', I, V), F('piece', I, V), F('cipher_from', I, V), F('stream_state', I, V)
push = F('ss_push', V, V, V, V); unpush = F('ss_pull', V, V, V, V); nxt = F('ss_next', V, V, V); sinit = F('ss_init', V, V, V); valid = F('ss_valid', V, V, V, B)
kdf = F('kdf', V, V, V, V, V); pack4 = F('pack4', I, V); unpack4 = F('unpack4', V, I); hx = F('hexlify', V, V); uhx = F('unhexlify', V, V); etag = F('etag', I, V)
trust('secretstream', 'libsodium secretstream: pulling with the key and the stream header it was initialised with accepts exactly the pushed cipher texts in order with their additional data, and gives the pushed texts; a cipher text is ABYTES (17) longer than its text; the stream header has 24 bytes; tags are not looked at')
trust('bucket', 'S3: the object completed from a multipart upload is the concatenation of the parts listed, in order of their numbers, when every part number and ETag is listed; reading n bytes of a body gives n bytes unless it ends before')
trust('file read', 'reading n bytes of a file gives n bytes unless the file ends before')
trust('struct', "struct.pack('!I', n) has 4 bytes and is undone by unpack, for n < 2**32")
AB, HB = 17, 24
SS = dict(SODIUM, crypto_secretstream_xchacha20poly1305_KEYBYTES=32, crypto_secretstream_xchacha20poly1305_ABYTES=AB, crypto_secretstream_xchacha20poly1305_HEADERBYTES=HB, crypto_secretstream_xchacha20poly1305_TAG_MESSAGE=0, crypto_secretstream_xchacha20poly1305_TAG_FINAL=3)

def copy(v):
    if isinstance(v, DictObj) and v.box is None:
        d = DictObj(); d.d = {k: copy(x) for k, x in v.d.items()}; return d
    return v

class Structured:
    """JSON of dictionaries whose structure is known: loads gives back an equal, separate dictionary"""
    def __init__(self, ip):
        self.ip, self.known = ip, {}
        ip.trusted.add('json')
        ext(ip, 'json', {'dumps': Native('dumps', self.dumps), 'loads': Native('loads', self.loads)})
    def dumps(self, ip, a, k):
        d = a[0]
        if set(k) - {'separators', 'sort_keys', 'indent', 'ensure_ascii'} or not isinstance(d, DictObj) or d.box is not None: raise Unsupported('json.dumps')
        for x in list(d.d):
            if not isinstance(x, str): raise Unsupported('json key')
        t = jdumps(ip.term(d)); ip.ctx.assume(ty(t) == T_STR)
        cp = copy(d)
        if k.get('sort_keys'): cp.d = dict(sorted(cp.d.items()))
        self.known[t.get_id()] = (t, cp); return Box(t)
    def loads(self, ip, a, k):
        t = ip.term(a[0])
        while z3.is_app(t) and t.decl().name() in (enc.name(), dec.name()): t = t.arg(0)
        if t.get_id() not in self.known: raise Unsupported('json.loads of an unknown text')
        return copy(self.known[t.get_id()][1])

def regex(ip):
    def comp(ip, a, k):
        pat = a[0]
        def m(how):
            def f(ip, a, k):
                s = a[0]
                if isinstance(s, str): return Obj('match') if getattr(re, how)(pat, s) else None
                t = ip.term(s)
                if z3.is_app(t) and t.decl().eq(bi.strof) and t.arg(0).decl().eq(mkint) and ip.ctx.entails(t.arg(0).arg(0) >= 0) and all(getattr(re, how)(pat, x) for x in ('0', '7', '10', '123456')): return Obj('match')
                raise Unsupported('regular expression on an unknown text')
            return Native(how, f)
        return Obj('pattern', {h: m(h) for h in ('match', 'fullmatch', 'search')})
    setm(ip, 're', 'compile', comp)
    for h in ('match', 'fullmatch', 'search'): setm(ip, 're', h, lambda ip, a, k, h=h: ip.call(comp(ip, [a[0]], {}).attrs[h], [a[1]], {}))

def world(v, mods):
    ip, c, w = server(v, mods)
    Bytes(ip); Structured(ip); regex(ip)
    ip.trusted |= {'secretstream', 'bucket', 'file read', 'struct', 'pwhash', 'b64', 'random'}
    ext(ip, 'pysodium', SS)
    ip.builtins['print'] = Native('print', lambda ip, a, k: None)
    fa = lambda vs, b, p: c.bg.append(z3.ForAll(vs, b, patterns=[p]))
    a, b, d = z3.Consts('a b d', V); i = z3.Int('i')
    fa([a, b, d], z3.And(valid(a, push(a, b, d), d), unpush(a, push(a, b, d), d) == b, slen(push(a, b, d)) == slen(b) + AB, ty(push(a, b, d)) == T_BYTES), push(a, b, d))
    fa([i], z3.And(ty(pack4(i)) == T_BYTES, slen(pack4(i)) == 4, unpack4(pack4(i)) == i), pack4(i))
    fa([a], z3.And(ty(hx(a)) == T_BYTES, z3.Implies(ty(a) == T_BYTES, uhx(hx(a)) == a)), hx(a)); fa([a], ty(uhx(a)) == T_BYTES, uhx(a))
    fa([a], slen(a) >= 0, slen(a))
    fa([a, b, d], cat(cat(a, b), d) == cat(a, cat(b, d)), cat(cat(a, b), d))
    e = c.const(b''); fa([a], z3.Implies(ty(a) == T_BYTES, cat(e, a) == a), cat(e, a)); fa([a], z3.Implies(ty(a) == T_BYTES, cat(a, e) == a), cat(a, e))
    fa([a, b], z3.Implies(z3.And(ty(a) == T_BYTES, ty(b) == T_BYTES), ty(cat(a, b)) == T_BYTES), cat(a, b))
    y = a; fa([y], z3.And(ty(dec(b64e(y))) == T_STR, b64d(dec(b64e(y))) == y), dec(b64e(y)))
    setm(ip, 'base64', 'b64decode', lambda ip, a, k: Box(decode64(ip, ip.term(a[0]))))
    setm(ip, 'binascii', 'hexlify', lambda ip, a, k: Box(hx(ip.term(a[0])))); setm(ip, 'binascii', 'unhexlify', lambda ip, a, k: Box(uhx(ip.term(a[0]))))
    def rnd(ip, a, k):
        t = c.fresh('random'); n = ip.num(a[0]); c.assume([ty(t) == T_BYTES, slen(t) == n]); return Box(t)
    setm(ip, 'pysodium', 'randombytes', rnd)
    def spack(ip, a, k):
        if a[0] != '!I': raise Unsupported('struct format')
        n = ip.num(a[1]); return Box(pack4(n if z3.is_expr(n) else z3.IntVal(n)))
    def sunpack(ip, a, k):
        if a[0] != '!I': raise Unsupported('struct format')
        t = ip.term(a[1]); c.prove('the length field is read where it was written', z3.And(ty(t) == T_BYTES, slen(t) == 4)); return (SI(z3.simplify(t.arg(0)) if z3.is_app(t) and t.decl().eq(pack4) else unpack4(t)),)
    setm(ip, 'struct', 'pack', spack); setm(ip, 'struct', 'unpack', sunpack)
    return ip, c, w

class Pieces:
    """reading from a sequence of pieces: explicit ones, then piece(j), piece(j+1) ... below n"""
    def __init__(self, ip, what, piece, n, pre=b''):
        self.ip, self.c, self.what, self.piece, self.n = ip, ip.ctx, what, piece, n
        self.g = Obj('ghost', {'pre': pre, 'j': SI(z3.IntVal(0))})
    def j(self):
        n = self.ip.num(self.g.attrs['j']); return n if z3.is_expr(n) else z3.IntVal(n)
    def read(self, ip, a, k):
        c, g = self.c, self.g
        if not a or a[0] is None or a[0] == -1: raise Unsupported('reading everything')
        m = ip.num(a[0]); j = self.j(); rest = g.attrs['pre']; took = 0
        for step in range(3):
            ps = [] if isinstance(rest, bytes) and rest == b'' else [rest]
            if ps:
                t = ip.term(rest); n = ip.bytes.length(t) if len(pieces(t)) == 1 else z3.simplify(sum((ip.bytes.length(p) for p in pieces(t)[1:]), ip.bytes.length(pieces(t)[0])))
                if c.entails((m if z3.is_expr(m) else z3.IntVal(m)) <= n):
                    sl = lambda lo, hi: self.ip.bytes.slice(Box(t) if not isinstance(rest, Box) else rest, type('S', (), {'lo': lo, 'hi': hi, 'step': None}))
                    mm = SI(m) if z3.is_expr(m) else m
                    r = sl(None, mm)
                    if r is None: break
                    left = b'' if c.entails(m == n) else sl(mm, None)
                    if left is None: break
                    self.move(left, j); return r
            if c.decide(j < self.n):
                p = Box(self.piece(j)); rest = p if not ps else ip.concat(rest, p); j = z3.simplify(j + 1)
                c.assume(slen(self.piece(j)) >= 0)
                c.decide(j < self.n)
            else:
                self.move(b'', j)
                # the rest is shorter than what was asked for
                return rest
        c.prove('%s is read in the pieces it was written in' % self.what, False)
        raise PathEnd()
    def move(self, left, j):
        ip, g = self.ip, self.g
        if not (left is g.attrs['pre'] or isinstance(left, bytes) and isinstance(g.attrs['pre'], bytes) and left == g.attrs['pre']): ip.setattr_(g, 'pre', left)
        if not z3.eq(j, self.j()): ip.setattr_(g, 'j', SI(j))

def reachable(vals):
    """the objects with attributes that can be reached from these values"""
    out, todo, seen = [], list(vals), set()
    while todo:
        x = todo.pop(0)
        if id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x, Obj):
            out.append(x); todo += list(x.attrs.values())
        elif isinstance(x, DictObj) and x.box is None: out.append(x); todo += list(x.d.values())
        elif isinstance(x, ListObj): out.append(x)
    return out

def once(ip, st, env):
    """one iteration by itself; True when the loop goes on"""
    if not ip.test(ip.ev(st.test, env)): return False
    try: ip.block(st.body, env)
    except BreakEx: return False
    except ContinueEx: pass
    return True

def stream_setting(v):
    ip, c, w = world(v, ('bversion.repo_manager',))
    ip.bytes = Bytes(ip)
    n, cs = c.fresh('pieces', I), c.fresh('chunk_size', I)
    hd = c.fresh('stream_header'); i = z3.Int('i')
    c.bg += [n >= 1, cs >= 1, ty(hd) == T_BYTES, slen(hd) == HB]
    fa = lambda b, p: c.bg.append(z3.ForAll([i], b, patterns=[p]))
    return ip, c, w, n, cs, hd

def unit_stream(v):
    ip, c, w, n, cs, hd = stream_setting(v)
    i = z3.Int('i'); K = c.const; em = K(b'')
    up, down = ip.get('bversion.repo_manager.streaming_upload'), ip.get('bversion.repo_manager.streaming_download'); c.func = up.qualname
    pw = c.fresh('password'); c.bg += [ty(pw) == T_STR, truthy(pw), ty(enc(pw)) == T_BYTES, pw != K('')]
    Hd = c.fresh('format_header'); key = c.fresh('key'); c.bg += [ty(Hd) == T_BYTES, ty(key) == T_BYTES]
    def facts():
        for b, p in ((z3.Implies(z3.And(i >= 0, i < n), P(i) == cat(pc(i), P(i + 1))), P(i)),
                     (z3.Implies(z3.And(i >= 0, i < n), z3.And(ty(pc(i)) == T_BYTES, truthy(pc(i)), slen(pc(i)) > 0, slen(pc(i)) <= cs, z3.Implies(i + 1 < n, slen(pc(i)) == cs))), pc(i)),
                     (z3.Implies(z3.And(i >= 0, i < n), C(i) == cat(push(S(i), pc(i), Hd), C(i + 1))), C(i)),
                     (z3.Implies(z3.And(i >= 0, i < n), S(i + 1) == nxt(S(i), push(S(i), pc(i), Hd))), S(i))):
            c.bg.append(z3.ForAll([i], b, patterns=[p]))
        c.bg.extend([P(n) == em, C(n) == em, S(0) == sinit(key, hd)])
    facts()
    # ---- the libraries
    ip.overrides['bversion.backup.crypto.hash_password'] = lambda ip, a, k, f: Box(kdf(*[ip.term(x) for x in a]))
    def init_push(ip, a, k):
        c.prove('a stream is initialised once, with the key of the configuration', z3.And(ip.term(a[0]) == key)); return (Obj('state', {'s': Box(sinit(ip.term(a[0]), hd))}), Box(hd))
    def push_(ip, a, k):
        b = dict(zip(('state', 'message', 'ad', 'tag'), a)); b.update(k)
        st, m, ad = b['state'], ip.term(b['message']), ip.term(b['ad']) if b.get('ad') is not None else em
        c.prove('every chunk is authenticated with the header stored', ad == Hd)
        s = ip.term(st.attrs['s']); t = push(s, m, ad); ip.setattr_(st, 's', Box(nxt(s, t))); return Box(t)
    def init_pull(ip, a, k):
        return Obj('state', {'s': Box(sinit(ip.term(a[1]), ip.term(a[0])))})
    def pull(ip, a, k):
        b = dict(zip(('state', 'ciphertext', 'ad'), a)); b.update(k)
        st, t, ad = b['state'], ip.term(b['ciphertext']), ip.term(b['ad']) if b.get('ad') is not None else em
        c.prove('every chunk is checked against the header stored', ad == Hd)
        s = ip.term(st.attrs['s'])
        if not c.decide(valid(s, t, ad)): py_raise(ValueError, 'pull')
        m = c.fresh('message'); c.assume([m == unpush(s, t, ad)])
        ip.setattr_(st, 's', Box(nxt(s, t))); return (Box(m), SI(c.fresh('tag', I)))
    for nm, fn in (('init_push', init_push), ('push', push_), ('init_pull', init_pull), ('pull', pull)): setm(ip, 'pysodium', 'crypto_secretstream_xchacha20poly1305_' + nm, fn)
    # ---- the bucket
    st = {}
    def start():
        g = st['g'] = Obj('ghost', {'k': SI(z3.IntVal(0)), 'object': b'', 'done': False, 'begun': False})
        st['src'] = Pieces(ip, 'the data', pc, n); st['out'] = Obj('ghost', {'out': b''}); st['body'] = None
        bucket, name = 'bucket', Box(st['name'])
        uid = c.fresh('upload_id')
        def create(ip, a, k):
            c.prove('the upload is begun once, for the object named', z3.And(z3.BoolVal(not g.attrs['begun']), ip.term(k['Key']) == st['name'])); ip.setattr_(g, 'begun', True)
            d = DictObj(); d.d = {'UploadId': Box(uid)}; return d
        def part(ip, a, k):
            num = ip.num(k['PartNumber']); kk = ip.num(g.attrs['k'])
            c.prove('parts are numbered from one without gaps', z3.And(num == kk + 1, ip.term(k['Key']) == st['name'], ip.term(k['UploadId']) == uid))
            ip.setattr_(g, 'object', ip.concat(ip.val(ip.term(g.attrs['object'])), k['Body'])); ip.setattr_(g, 'k', SI(z3.simplify(kk + 1)))
            d = DictObj(); d.d = {'ETag': Box(etag(num))}; return d
        def complete(ip, a, k):
            ps = ip.term(ip.load_key(k['MultipartUpload'], 'Parts')); kk = ip.num(g.attrs['k']); q = c.fresh('q', I); e = lnth(ps, q)
            c.prove('exactly the parts uploaded are listed', z3.And(llen(ps) == kk, ip.term(k['Key']) == st['name'], ip.term(k['UploadId']) == uid))
            c.prove('the parts are listed in order, by number and tag', z3.Implies(z3.And(q >= 0, q < kk), z3.And(intval(dget(e, K('PartNumber'))) == q + 1, dget(e, K('ETag')) == etag(q + 1))))
            ip.setattr_(g, 'done', True)
        def gone(ip, a, k): ip.setattr_(g, 'done', None)
        def get(ip, a, k):
            c.prove('the object fetched is the one named', ip.term(k['Key']) == st['name'])
            ob = st['whole']; body = st['body'] = Pieces(ip, 'the object', lambda j: push(S(j), pc(j), Hd), n, ob)
            d = DictObj(); d.d = {x: None for x in ('VersionId', 'ContentLength', 'ContentType', 'Metadata', 'LastModified')}; d.d['Body'] = Obj('body', {'read': Native('read', body.read)}); return d
        ex = Obj('exceptions', {'NoSuchKey': KeyError})
        cl = Obj('client', {nm: Native(nm, fn) for nm, fn in (('create_multipart_upload', create), ('upload_part', part), ('complete_multipart_upload', complete), ('abort_multipart_upload', gone), ('get_object', get))}); cl.attrs['exceptions'] = ex
        d = DictObj(); d.d = {'client': cl, 'bucket': bucket}; return d
    st['name'] = c.fresh('name'); c.bg.append(ty(st['name']) == T_STR)
    def ints(env, k0):
        """counters that start with the loop: whatever counts the pieces stays in step with them"""
        fs = []
        for o in reachable(env.vars.values()):
            if o is st['g'] or o is st['src'].g or o is st['out'] or (st['body'] and o is st['body'].g) or not isinstance(o, Obj): continue
            for nm, x in o.attrs.items():
                if isinstance(x, SI) or isinstance(x, int) and not isinstance(x, bool): fs.append((o, nm))
        return fs
    def state(env):
        ss = [o for o in reachable(env.vars.values()) if isinstance(o, Obj) and 's' in o.attrs and o.cls == 'state'] if True else []
        if len(ss) != 1: raise Unsupported('cipher state of the loop')
        return ss[0]
    head = lambda: cat(pack4(slen(Hd)), cat(Hd, cat(hd, C(0))))
    def num(x):
        x = ip.num(x); return x if z3.is_expr(x) else z3.IntVal(x)
    def hook(ip, node, env):
        # the first chunk carries the headers; the loop is taken from the second one on
        size = lambda l: sum(len(x.items) for x in l.segs if isinstance(x, PSeg))
        before = {id(o): size(o) for o in reachable(env.vars.values()) if isinstance(o, ListObj)}
        old = {(id(o), nm): num(o.attrs[nm]) for o, nm in ints(env, 1)}
        if not once(ip, node, env): return
        uploading = st['body'] is None
        g = st['g']; s = state(env)
        cnt = [(o, nm, num(o.attrs[nm])) for o, nm in ints(env, 1) if (id(o), nm) in old and not z3.eq(z3.simplify(num(o.attrs[nm])), z3.simplify(old[id(o), nm]))]
        lists = [o for o in reachable(env.vars.values()) if isinstance(o, ListObj) and size(o) != before.get(id(o), 0)]
        k = (lambda: num(g.attrs['k'])) if uploading else st['body'].j
        def inv():
            kk = k(); fs = [('pieces so far', z3.And(kk >= 1, kk <= n)), ('the cipher stream is in step', ip.term(s.attrs['s']) == S(kk))]
            for o, nm, v0 in cnt: fs.append(('counters are in step', num(o.attrs[nm]) == v0 + kk - 1))
            if uploading:
                fs += [('the data read is what was sent', st['src'].j() == kk), ('the parts make up the object', z3.And(ty(ip.term(g.attrs['object'])) == T_BYTES, cat(ip.term(g.attrs['object']), C(kk)) == head(), z3.Not(ip.truth(g.attrs['done']) if z3.is_expr(ip.truth(g.attrs['done'])) else z3.BoolVal(bool(g.attrs['done'])))))]
                for l in lists:
                    t = ip.term(l); e = lnth(t, i)
                    fs.append(('the parts are recorded', z3.And(llen(t) == kk, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < kk), z3.And(intval(dget(e, K('PartNumber'))) == i + 1, dget(e, K('ETag')) == etag(i + 1))), patterns=[e]))))
            else: fs.append(('what was written is the data so far', z3.And(ty(ip.term(st['out'].attrs['out'])) == T_BYTES, cat(ip.term(st['out'].attrs['out']), P(kk)) == P(0))))
            return fs
        while_inv(ip, node, env, inv, 'chunks')
    ip.while_hooks['bversion.repo_manager.streaming_upload'] = hook; ip.while_hooks['bversion.repo_manager.streaming_download'] = hook
    cnt = {'ok': 0}
    pp = ip.get('bversion.backup.crypto.preprocess_config')
    def iface():
        def get(ip, a, k):
            if c.choose('no salt yet'): py_raise(ValueError, 'object not found')
            t = c.fresh('stored'); c.assume(ty(t) == T_BYTES)
            d = DictObj(); d.d = {'body': Obj('body', {'read': Native('read', lambda ip, a, k: Box(t))})}; return d
        return Obj('interface', {'get_object': Native('get_object', get), 'put_object': Native('put_object', lambda ip, a, k: None)})
    def thunk():
        conn = start(); c.func = pp.qualname
        def dct(**d): r = DictObj(); r.d = d; return r
        try:
            cfg = ip.call(pp, [iface(), conn, dct(crypto=dct(remote_password_salt_file='salt_file', crypt_password=Box(pw)), chunk_size=SI(cs))], {})
            cr = ip.load_key(cfg, 'crypto')
            c.prove('the password is used as its bytes', ip.term(ip.load_key(cr, 'crypt_password')) == enc(pw))
            c.assume(ip.term(ip.load_key(cr, 'stream_crypt_key')) == key)
            c.func = up.qualname
            # the header of this upload: whatever the configuration serialises to
            ser = ip.get('bversion.backup.pipeline_common.serialise_pipeline_format')
            def one(ip, a, k, f):
                r = ip.run_func(f, a, k); c.assume(ip.term(r) == Hd); st['H'] = r; return r
            ip.overrides['bversion.backup.pipeline_common.serialise_pipeline_format'] = one
            src = Obj('file', {'read': Native('read', st['src'].read)})
            ip.call(up, [conn, cfg, Box(st['name']), src], {})
            c.prove('the upload is completed', ip.truth(st['g'].attrs['done']) if z3.is_expr(ip.truth(st['g'].attrs['done'])) else z3.BoolVal(st['g'].attrs['done'] is True))
            c.prove('the object is the headers and the cipher texts of all the data, in order', ip.term(st['g'].attrs['object']) == head())
            # downloading with the same password, whatever else is configured
            c.func = down.qualname
            st['whole'] = ip.concat(Box(pack4(slen(Hd))), ip.concat(st['H'], Box(hd)))
            cfg2 = dct(crypto=dct(crypt_password=Box(enc(pw)), stream_crypt_key=Box(c.fresh('other_key')), encrypt_opts=Box(c.fresh('other_opts'))), chunk_size=SI(c.fresh('other_chunk_size', I)))
            out = st['out']
            def write(ip, a, k): ip.setattr_(out, 'out', ip.concat(ip.val(ip.term(out.attrs['out'])), a[0]))
            ip.call(down, [conn, cfg2, Box(st['name']), None, Obj('file', {'write': Native('write', write)})], {})
        except PyExc as e: return e
        return None
    def visit(r):
        c.prove('uploading and downloading do not fail', r is None)
        if r is not None: return
        cnt['ok'] += 1
        c.prove('the bytes downloaded are those uploaded', ip.term(st['out'].attrs['out']) == P(0))
    c.explore(thunk, visit)
    c.prove('reachable', cnt['ok'] > 0)

def unit_format(v):
    """serialise, then parse: every version, chunk size and format"""
    ip, c, w = world(v, ('bversion.backup.pipeline_common',))
    ser, par = ip.get('bversion.backup.pipeline_common.serialise_pipeline_format'), ip.get('bversion.backup.pipeline_common.parse_pipeline_format'); c.func = ser.qualname
    ver, cs = c.fresh('version', I), c.fresh('chunk_size', I); O, M, Sa, A = c.fresh('ops'), c.fresh('mem'), c.fresh('salt'), c.fresh('alg')
    c.bg += [ver >= 0, cs >= 0] + [z3.Or(ty(x) == T_STR, ty(x) == T_INT) for x in (O, M, Sa, A)]
    n = {}
    def dct(**d): r = DictObj(); r.d = d; return r
    def thunk():
        f = dct(version=SI(ver)); kind = []
        if c.choose('with a chunk size'): f.d['chunk_size'] = SI(cs); kind.append('chunk size')
        if c.choose('no encryption'): f.d['format'] = dct()
        elif c.choose('settings'): f.d['format'] = dct(encrypt=dct(A=Box(A), O=Box(O), M=Box(M), S=Box(Sa))); kind.append('settings')
        else: f.d['format'] = dct(encrypt=None); kind.append('none')
        st = copy(f)
        try: s = ip.call(ser, [f], {}); return st, f, s, ip.call(par, [s], {}), kind
        except PyExc as e: return st, f, None, e, kind
    def visit(r):
        want, f, s, got, kind = r
        c.prove('settings are serialised and parsed without failing', not isinstance(got, PyExc))
        if isinstance(got, PyExc): return
        n[tuple(kind)] = 1
        c.prove('the header is bytes', ty(ip.term(s)) == T_BYTES)
        def same(a, b, path):
            if isinstance(a, DictObj) and isinstance(b, DictObj) and b.box is None:
                c.prove('the same settings are there' + path, set(a.d) == set(b.d))
                for k in set(a.d) & set(b.d): same(a.d[k], b.d[k], path + ' ' + k)
            else: c.prove('the header parses back to the settings it was written with:' + path, (ip.term(a) == ip.term(b)))
        same(want, got, ''); same(want, f, ' (argument unchanged)')
    c.explore(thunk, visit)
    c.prove('reachable', len(n) == 6)

def unit_hash(v):
    """hash_password: the derived key of exactly these arguments, whatever was derived before"""
    ip, c, w = world(v, ('bversion.backup.crypto',))
    f = ip.get('bversion.backup.crypto.hash_password'); c.func = f.qualname
    a = [c.fresh(x) for x in ('password', 'salt', 'ops', 'mem')]; c.bg += [ty(a[0]) == T_BYTES, ty(a[1]) == T_BYTES, ty(a[2]) == T_INT, ty(a[3]) == T_INT]
    cache = c.fresh('cache'); m = ip.modules['bversion.backup.crypto'].vars
    from ..interp import tup_fun
    x = z3.Consts('x0 x1 x2 x3', V); kt = tup_fun(4)(*x)
    c.bg += [ty(cache) == T_DICT]
    c.bg.append(z3.ForAll(list(x), z3.And(*[F('tup4_%d' % j, V, V)(kt) == x[j] for j in range(4)]), patterns=[kt]))
    full = F('pwhash_full', V, V, V, V, V, V, V)
    c.bg.append(z3.ForAll(list(x), z3.Implies(dhas(cache, kt), dget(cache, kt) == full(c.const(32), *x, c.const(1))), patterns=[dhas(cache, kt)]))
    names = ['outlen', 'passwd', 'salt', 'opslimit', 'memlimit', 'alg']
    def pwhash(ip, args, kw):
        b = dict(zip(names, args)); b.update(kw); return Box(full(*[ip.term(b[q]) for q in names]))
    setm(ip, 'pysodium', 'crypto_pwhash', pwhash)
    def thunk():
        d = [k for k, x in m.items() if isinstance(x, DictObj)]
        b = m['password_cache'] = Box(cache)
        try: return b, ip.call(f, [Box(t) for t in a], {})
        except PyExc as e: return b, e
    def visit(r):
        b, r = r
        c.prove('deriving a key does not fail', not isinstance(r, PyExc))
        if isinstance(r, PyExc): return
        c.prove('the key is the one derived from exactly these arguments', ip.term(r) == full(c.const(32), *a, c.const(1)))
        y = [c.fresh('y') for _ in range(4)]; kt2 = tup_fun(4)(*y)
        c.prove('the keys remembered are those derived', z3.Implies(dhas(b.peek(), kt2), dget(b.peek(), kt2) == full(c.const(32), *y, c.const(1))))
    c.explore(thunk, visit)

UNITS = [('upload and download', unit_stream), ('header', unit_format), ('hash_password', unit_hash)]

"""Contracts of keys and backups, checked on concrete data against an in-memory object store (C23 .. C26)."""
from .lib import *
import struct, binascii
from bversion import crypto, repo_manager
from bversion.backup import s3_interface, pipeline, pipeline_common
from bversion.backup import crypto as bcrypto
from bversion.storage.versioned_storage import versioned_storage

EMPTY = hashlib.sha256(b'').hexdigest()

# ----------------------------------------------------------------- C23
PASS = ['a', 'test', '', 'ü', 'pass word', '日本', 'x' * 200, ' a', 'a ', 'A', "'", '0', 'y', 'n']
nth, start = [-1], [None]
def c23(rng, rep):
    if start[0] is None: start[0] = rng.randrange(len(PASS))
    answers = []
    crypto.input = lambda *a: answers.pop(0)
    crypto.getpass = type('G', (), {'getpass': staticmethod(lambda *a, **k: pws.pop(0))})
    pws = []
    made = []
    real = pysodium.crypto_sign_keypair
    def kp(): made.append(real()); return made[-1]
    pysodium.crypto_sign_keypair = kp
    try:
        for enc in ('n', 'y', 'y', 'y'):
            answers[:] = rng.choice([[enc], ['x', '', enc], [enc.upper()]])
            if enc == 'y': nth[0] += 1
            p = PASS[(start[0] + nth[0]) % len(PASS)]; wrong = rng.choice([q for q in PASS if q != p])
            pws[:] = [p, p] if rng.random() < 0.7 else [p, wrong, wrong, p, p, p]
            with quiet(): priv, pub = crypto.make_keypair()
            check(made and base64.b64decode(pub) == made[-1][0], 'the public key is not the generated one'); sk = made[-1][1]
            for form in (priv, priv.decode()):
                pws[:] = [p]; rep.count((enc, p, type(form).__name__))
                with quiet(): k = crypto.unlock_private_key(form)
                check(k == sk, 'unlocking gave another key than the generated one', encrypted=enc, password=p)
                check(pysodium.crypto_sign_verify_detached(pysodium.crypto_sign_detached(b'm', k), b'm', base64.b64decode(pub)) is None, 'the unlocked key does not belong to the public key')
            if enc == 'y':
                check(sk not in base64.b64decode(priv) and sk[:32] not in base64.b64decode(priv), 'the encrypted key contains the key')
                for w in {wrong, p + 'x', p.swapcase(), p[:-1], p + ' '} - {p}:
                    pws[:] = [w]; k = None
                    try:
                        with quiet(): k = crypto.unlock_private_key(priv)
                    except Exception: pass
                    check(k is None, 'unlocking with a wrong password gave a key', password=p, used=w); rep.count('wrong')
                raw = bytearray(base64.b64decode(priv)); i = rng.randrange(1, len(raw)); raw[i] ^= 1 << rng.randrange(8); pws[:] = [p]; k = None
                try:
                    with quiet(): k = crypto.unlock_private_key(base64.b64encode(bytes(raw)))
                except Exception: pass
                check(k is None, 'unlocking a damaged encrypted key gave a key', byte=i)
    finally: pysodium.crypto_sign_keypair = real

# ----------------------------------------------------------------- an object store
class NoSuchKey(Exception): pass
class Remote:
    """objects, visible only when their upload is completed"""
    def __init__(self, page=1000):
        self.objs = {}; self.up = {}; self.n = 0; self.page = page; self.calls = 0; self.fail_at = None; self.fail_kind = None; self.log = []; self.on_put = None
        self.exceptions = type('E', (), {'NoSuchKey': NoSuchKey})
    def _hit(self, what):
        self.calls += 1; self.log.append(what)
        if self.fail_at == self.calls and self.fail_kind in ('oserror', 'other'): self._boom()
    def _boom(self): raise (OSError(104, 'connection reset (injected)') if self.fail_kind != 'other' else RuntimeError('service error (injected)'))
    def _late(self):
        if self.fail_at == self.calls and self.fail_kind == 'late': self._boom()
    def get_bucket_versioning(self, **k): self._hit('ver'); return {'Status': 'Enabled'}
    def list_multipart_uploads(self, **k): self._hit('lmu'); return dict({'IsTruncated': False}, **({'Uploads': [{'Key': v[0], 'UploadId': u} for u, v in self.up.items()]} if self.up else {}))
    def abort_multipart_upload(self, Bucket, Key, UploadId): self._hit('abort'); self.up.pop(UploadId, None)
    def create_multipart_upload(self, Bucket, Key, **k): self._hit('create ' + Key); self.n += 1; u = 'u%d' % self.n; self.up[u] = (Key, {}); self._late(); return {'UploadId': u}
    def upload_part(self, Bucket, Key, PartNumber, UploadId, Body):
        self._hit('part ' + Key); check(self.up[UploadId][0] == Key, 'part for another key'); check(1 <= PartNumber <= 10000 and len(Body) > 0, 'invalid part')
        self.up[UploadId][1][PartNumber] = bytes(Body); self._late(); return {'ETag': sha(bytes(Body))}
    def complete_multipart_upload(self, Bucket, Key, UploadId, MultipartUpload):
        self._hit('complete ' + Key); key, parts = self.up[UploadId]; lst = MultipartUpload['Parts']
        if not lst: raise RuntimeError('an upload needs at least one part')
        nums = [p['PartNumber'] for p in lst]; check(nums == sorted(set(nums)), 'parts out of order')
        for p in lst: check(sha(parts[p['PartNumber']]) == p['ETag'], 'a part was mixed up')
        self._store(Key, b''.join(parts[n] for n in nums)); self.up.pop(UploadId); self._late()
    def put_object(self, Bucket, Key, Body, **k): self._hit('put ' + Key); self._store(Key, Body if isinstance(Body, bytes) else Body.read()); self._late(); return {'VersionId': 'v'}
    def _store(self, key, data):
        if self.on_put: self.on_put(key, data)
        self.objs[key] = data
    def delete_object(self, Bucket, Key, **k): self._hit('delete'); self.objs.pop(Key, None); return {}
    def get_object(self, Bucket, Key, **k):
        self._hit('get ' + Key)
        if Key not in self.objs: raise NoSuchKey(Key)
        d = self.objs[Key]; return {'VersionId': 'v', 'Body': io.BytesIO(d), 'ContentLength': len(d), 'ContentType': '', 'Metadata': {}, 'LastModified': 0}
    def list_objects(self, Bucket, Prefix, Marker=''):
        self._hit('list'); ks = [k for k in sorted(self.objs) if k.startswith(Prefix) and k > Marker]; r = {'IsTruncated': len(ks) > self.page}
        if ks: r['Contents'] = [{'Key': k} for k in ks[:self.page]]
        return r

def connect_to(remote): s3_interface.boto3 = type('B', (), {'client': staticmethod(lambda *a, **k: remote)})

def limits(o, m):
    pysodium.crypto_pwhash_argon2i_OPSLIMIT_INTERACTIVE = o; pysodium.crypto_pwhash_argon2i_MEMLIMIT_INTERACTIVE = m

def configure(repos, chunk, password='pw'):
    repo_manager.init({'chunk_size': chunk, 's3': {'access_key': 'a', 'secret_key': 's', 'bucket': 'b'}, 'crypto': {'crypt_password': password},
                       'repositories': {n: {'path': p, 'backup': True} for n, p in repos.items()}})

def independent_decrypt(blob, password, salt=None):
    """reads the stored format with libsodium only"""
    n = struct.unpack('!I', blob[:4])[0]; hdr = blob[4:4 + n]; j = json.loads(hdr); e = j['E']; cs = int(j['S']); rest = blob[4 + n:]
    key = pysodium.crypto_pwhash(32, password.encode(), base64.b64decode(e['S']), e['O'], e['M'], pysodium.crypto_pwhash_ALG_ARGON2I13)
    H, A = pysodium.crypto_secretstream_xchacha20poly1305_HEADERBYTES, pysodium.crypto_secretstream_xchacha20poly1305_ABYTES
    st = pysodium.crypto_secretstream_xchacha20poly1305_init_pull(rest[:H], key); rest = rest[H:]; out = b''
    while rest: m, t = pysodium.crypto_secretstream_xchacha20poly1305_pull(st, rest[:cs + A], hdr); out += m; rest = rest[cs + A:]
    return out, j

def session(remote, repos, chunk, password='pw'):
    connect_to(remote); configure(repos, chunk, password)
    with quiet(): conn = repo_manager.init_backup()
    return conn

def c24(rng, rep):
    limits(rng.choice([3, 4]), 8192 * rng.choice([1, 2])); r = Remote(); chunk = rng.choice([1, 2, 16, 17, 64, 100])
    pw = rng.choice(['pw', 'ü', 'a b']); up = {}
    conn = session(r, {}, chunk, pw)
    def put(key, data, conn):
        with quiet(): repo_manager.streaming_upload(conn, repo_manager.config, key, io.BytesIO(data))
        up[key] = (data, repo_manager.config['chunk_size'])
    for i in range(12):
        n = rng.choice([1, chunk - 1 or 1, chunk, chunk + 1, 2 * chunk, 3 * chunk, 3 * chunk - 1, rng.randint(1, 5 * chunk)]); put('k%d' % i, bytes(rng.getrandbits(8) for _ in range(n)), conn)
        if rng.random() < 0.25:
            # the defaults may change between two runs
            if rng.random() < 0.6: limits(rng.choice([3, 4, 5]), 8192 * rng.choice([1, 2, 3]))
            chunk = rng.choice([chunk, 1, 5, 33, 64])
            if rng.random() < 0.7: bcrypto.password_cache.clear()
            conn = session(r, {}, chunk, pw)
    with workdir('c24') as d:
        for k, (data, cs) in up.items():
            rep.count((len(data) // cs, len(data) % cs == 0, cs))
            f = io.BytesIO() 
            with quiet(): repo_manager.streaming_download(conn, repo_manager.config, k, None, f)
            check(f.getvalue() == data, 'the downloaded bytes are not those uploaded', length=len(data), chunk=cs, got=len(f.getvalue()))
            out, j = independent_decrypt(r.objs[k], pw); check(out == data, 'the stored stream is not the encrypted data', length=len(data), chunk=cs)
            check(int(j['S']) == cs, 'the header does not say the chunk size used'); check(len(data) < 8 or data not in r.objs[k], 'the data was stored unencrypted')
    # the header: parses back, is authenticated
    for _ in range(6):
        fmt = {'version': rng.choice([1, 2, 10]), 'format': rng.choice([{}, {'encrypt': None}, {'encrypt': {'A': 'x', 'O': 3, 'M': 8192, 'S': 'ü"'}}])}
        if rng.random() < 0.7: fmt['chunk_size'] = rng.choice([1, 5242880])
        s = pipeline_common.serialise_pipeline_format(json.loads(json.dumps(fmt))); check(pipeline_common.parse_pipeline_format(s) == fmt, 'the header does not parse back to the settings it was written with', settings=fmt, header=s, got=pipeline_common.parse_pipeline_format(s)); rep.count(repr(fmt))
    k = rng.choice(sorted(up)); blob = r.objs[k]; n = struct.unpack('!I', blob[:4])[0]
    for what in ('cipher', 'header', 'password', 'swap'):
        f = io.BytesIO(); rr = dict(r.objs); lcfg = repo_manager.config; failed = False
        if what == 'cipher': i = rng.randrange(4 + n, len(blob)); r.objs[k] = blob[:i] + bytes([blob[i] ^ 1]) + blob[i + 1:]
        elif what == 'header': h = json.loads(blob[4:4 + n]); h['V'] = '9'; h2 = json.dumps(h, separators=(',', ':')).encode(); r.objs[k] = struct.pack('!I', len(h2)) + h2 + blob[4 + n:]
        elif what == 'swap':
            data, cs = up[k]; parts = blob[4 + n:]; 
            if len(data) < 2 * cs: r.objs = rr; continue
            H, A = 24, 17; b = cs + A; a1 = parts[H:H + b]; a2 = parts[H + b:H + 2 * b]
            if len(a2) != b or a1 == a2: r.objs = rr; continue
            r.objs[k] = blob[:4 + n] + parts[:H] + a2 + a1 + parts[H + 2 * b:]
        else: lcfg = dict(lcfg, crypto=dict(lcfg['crypto'], crypt_password=b'other', stream_crypt_key=b'0' * 32))
        try:
            with quiet(): repo_manager.streaming_download(conn, lcfg, k, None, f)
        except Exception: failed = True
        r.objs = rr; check(failed, 'a stream which was tampered with was accepted (%s)' % what); rep.count(what)

# ----------------------------------------------------------------- C25, C26
def history(w, rng, n, repo='main', c=None):
    c = c or w.conn('alice', '10.0.0.1', repo); names = ['a', 'b', 'd', 'e f', 'ü']
    for _ in range(n):
        c.begin(repo=repo); cur = dict(w.store(repo).listing()); names = names + rng.choice([[], [], ['', '']])
        for _ in range(rng.randint(1, 5)):
            p = rpath(rng, names=names)
            if cur and rng.random() < 0.25: q = rng.choice(sorted(cur)); c.delete([q], repo=repo); cur.pop(q)
            else: dd = rng.choice([b'', b'shared', b'x' * rng.randint(1, 300), b'%d' % rng.getrandbits(60)]); c.push(p, dd, repo=repo); cur[p] = 1
        c.push('/n', b'%d' % rng.getrandbits(60), repo=repo); c.commit(rng.choice(['m', '']), repo=repo)
    return c

def needed(st, head):
    idx, fl = set(), set(); st.closure(head, index=idx, files=fl); return idx, fl
def own_closure(st, h):
    """the objects of one commit"""
    idx, fl = {h}, set(); c = st.commit_obj(h)
    def walk(t):
        idx.add(t); o = json.loads(st.get('index', t, 'tree')); fl.update(i['hash'] for i in o['files'].values()); [walk(x) for x in o['dirs'].values()]
    walk(c['tree_root']); return idx, fl

cache = {}
def dec(blob, pw='pw'):
    if blob not in cache: cache[blob] = independent_decrypt(blob, pw)[0]
    return cache[blob]

def remote_ok(r, name, st, why, **k):
    """whatever is marked as backed up is there, everything there is encrypted and what its name says"""
    oi, of = st.objects('index'), st.objects('files')
    for key, blob in r.objs.items():
        if key == 'salt_file': continue
        if not key.startswith(name + '/'): continue
        parts = key.split('/')
        try: d = dec(blob)
        except Exception as e: raise Violation('an object on the remote is not readable with the password (%s)' % why, object=key, error=repr(e), **k)
        if parts[1] in ('index', 'files'): check(sha(d) == ''.join(parts[2:]), 'an object on the remote is not what its name says (%s)' % why, object=key, **k)
        if parts[1] == 'commits':
            h = parts[2]; idx, fl = own_closure(st, h)
            for x in idx: check('%s/index/%s/%s' % (name, x[:2], x[2:]) in r.objs, 'a commit is marked as backed up but an index object is missing on the remote (%s)' % why, commit=h, object=x, **k)
            for x in fl - {EMPTY}: check('%s/files/%s/%s' % (name, x[:2], x[2:]) in r.objs, 'a commit is marked as backed up but a file is missing on the remote (%s)' % why, commit=h, object=x, **k)

def complete(r, name, st, why, **k):
    remote_ok(r, name, st, why, **k); h = st.head()
    while h != 'root': check(name + '/commits/' + h in r.objs, 'a commit was not backed up (%s)' % why, commit=h, **k); h = st.commit_obj(h)['parent']
    check(dec(r.objs[name + '/head']) == st.head().encode(), 'the backed up head is not the head (%s)' % why, **k)

def inthread(f):
    out = []
    def go():
        try: out.append(('ok', f()))
        except BaseException as e: out.append(('exc', e))
    t = threading.Thread(target=go); t.start(); t.join()
    if out[0][0] == 'exc': raise out[0][1]
    return out[0][1]

def c25(rng, rep):
    limits(3, 8192)
    with world() as w:
        c = history(w, rng, rng.randint(1, 4)); st = w.store(); r = Remote(page=rng.choice([1, 2, 3, 7, 1000])); chunk = rng.choice([16, 64, 1000]); repos = {'main': w.paths['main']}
        if rng.random() < 0.4: history(w, rng, 1, 'other').end(); repos['other'] = w.paths['other']
        def run():
            connect_to(r); configure(repos, chunk)
            with quiet(): inthread(repo_manager.backup)
        state = [0]
        def on_put(key, data):
            if '/commits/' in key:
                # at this very moment everything the commit needs must be there
                n, _, h = key.split('/'); s = w.store(n); idx, fl = own_closure(s, h)
                for x in idx: check('%s/index/%s/%s' % (n, x[:2], x[2:]) in r.objs, 'a commit was marked before its index objects were stored', commit=h, object=x)
                for x in fl - {EMPTY}: check('%s/files/%s/%s' % (n, x[:2], x[2:]) in r.objs, 'a commit was marked before its files were stored', commit=h, object=x)
        r.on_put = on_put
        for attempt in range(rng.choice([0, 1, 2, 3])):
            r.fail_at = r.calls + rng.choice([rng.randint(1, 25), rng.randint(1, 80)]); r.fail_kind = rng.choice(['oserror', 'other', 'late']); k = dict(call=r.fail_at, kind=r.fail_kind, attempt=attempt); broke = False
            rep.count((r.fail_kind, attempt, r.fail_at))
            try: run()
            except (OSError, RuntimeError) as e:
                if 'injected' not in str(e): raise
                broke = True
            k['at'] = r.log[-1]; r.fail_at = None
            for n in repos: remote_ok(r, n, w.store(n), 'after an interrupted backup', **k)
            if rng.random() < 0.4: history(w, rng, 1, c=c)
        run(); rep.count(('done', len(r.objs)))
        for n in repos: complete(r, n, w.store(n), 'after a complete backup')
        n0 = dict(r.objs)
        if rng.random() < 0.5: history(w, rng, rng.randint(1, 2), c=c); run(); complete(r, 'main', st, 'after a further backup'); check(all(r.objs.get(k) == v or k == 'main/head' for k, v in n0.items()), 'a further backup replaced what was already there')
        c.end()

def c26(rng, rep):
    limits(3, 8192)
    with world() as w:
        c = history(w, rng, rng.randint(1, 5)); r = Remote(page=rng.choice([2, 1000])); chunk = rng.choice([7, 64, 1000]); repos = {'main': w.paths['main']}
        if rng.random() < 0.5: history(w, rng, rng.randint(1, 2), 'other').end(); repos['other'] = w.paths['other']
        connect_to(r); configure(repos, chunk)
        with quiet(): inthread(repo_manager.backup)
        if rng.random() < 0.3: c.begin(); c.push('/unfinished', b'unfinished')          # not part of any version
        # the settings may be others when restoring
        if rng.random() < 0.5: limits(4, 16384)
        if rng.random() < 0.5: bcrypto.password_cache.clear()
        chunk2 = rng.choice([chunk, 5, 5000]); connect_to(r); configure(repos, chunk2)
        if rng.random() < 0.6:
            # interrupted restores, run again
            for _ in range(rng.randint(1, 3)):
                r.fail_at = r.calls + rng.randint(1, 2 * len(r.objs)); r.fail_kind = rng.choice(['oserror', 'other'])
                try:
                    with quiet(): inthread(repo_manager.restore)
                except (OSError, RuntimeError) as e:
                    if 'injected' not in str(e): raise
                configure(repos, chunk2)          # a new process
                r.fail_at = None; rep.count(('interrupted', r.log[-1].split('/')[0]))
        with quiet(): inthread(repo_manager.restore)
        for n, p in repos.items():
            a, b = Store(p), Store(p + '_restore'); rep.count((n, len(r.objs), chunk))
            check(b.head() == a.head(), 'the restored head is another', expected=a.head(), got=b.head())
            ia, fa = needed(a, a.head()); want = a.closure(); got = b.closure()
            check(got == want, 'a restored version differs')
            ob, fb = b.objects('index'), b.objects('files')
            for x in ia: check(ob.get(x) == a.objects('index')[x], 'an index object was not restored', object=x)
            for x in fa: check(fb.get(x) == a.objects('files')[x], 'a file was not restored', object=x)
        c.end()

CASES = {'C23': (c23, 5, 60), 'C24': (c24, 15, 200), 'C25': (c25, 25, 250), 'C26': (c26, 20, 200)}

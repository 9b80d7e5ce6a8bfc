"""Runs the real bversion code (a copy of /repo/bversion made by the driver) inside a scratch directory.

Everything here is a runtime check of the contracts on concrete executions.  It is used to replay a failed proof
obligation against the real code and as the stated, bounded stand-in for the functions outside the verifier's reach.
"""
import os, sys, json, hashlib, io, shutil, sqlite3, threading, queue, random, time, tempfile, builtins, contextlib, traceback

# a clock the harness can move: installed before anything imports time functions
_real_time = time.time
class Clock:
    offset = 0.0
clock = Clock()
time.time = lambda: _real_time() + clock.offset

class Violation(Exception):
    def __init__(self, what, **detail):
        Exception.__init__(self, what); self.what, self.detail = what, detail

def check(cond, what, **detail):
    if not cond: raise Violation(what, **detail)

SCRATCH = None
def scratch_root():
    global SCRATCH
    if SCRATCH is None: SCRATCH = os.environ.get('VSCRATCH') or tempfile.mkdtemp(prefix='bvn_')
    return SCRATCH
_n = [0]
def newdir(tag='d'):
    _n[0] += 1
    p = os.path.join(scratch_root(), 'w', '%s_%d_%d' % (tag, os.getpid(), _n[0]), 'a', 'b')     # some depth, so that an escaped '..' stays in scratch
    os.makedirs(p); return p
def droptree(p):
    top = os.path.dirname(os.path.dirname(p))
    assert top.startswith(scratch_root() + '/w/')
    shutil.rmtree(top, ignore_errors=True)

@contextlib.contextmanager
def workdir(tag='d'):
    p = newdir(tag)
    try: yield p
    finally:
        os.chdir(scratch_root()); droptree(p)

class quiet:
    def __enter__(self): self.o = sys.stdout; sys.stdout = io.StringIO()
    def __exit__(self, *a): sys.stdout = self.o

sha = lambda b: hashlib.sha256(b).hexdigest()

# ----------------------------------------------------------------------------- effects and crashes
class Effects:
    """Counts durable effects; ends the process before the k-th (crash) or makes it fail (fault)."""
    def __init__(self): self.on = False; self.n = 0; self.crash_at = None; self.fault_at = None; self.root = None; self.log = []
    def hit(self, what, path=None):
        if not self.on: return False
        if path is not None and self.root is not None:
            try: p = os.path.abspath(os.fspath(path))
            except TypeError: return False
            if isinstance(p, bytes): p = os.fsdecode(p)
            if not p.startswith(self.root): return False
        self.n += 1
        if len(self.log) < 4000: self.log.append('%s %s' % (what, path if path is not None else ''))
        if self.crash_at == self.n: os._exit(77)
        if self.fault_at == self.n: self.fault_at = None; raise OSError(28, 'No space left on device (injected)')
        return True
fx = Effects()

class WFile:
    def __init__(self, f, path): self.__dict__['_f'] = f; self.__dict__['_p'] = path
    def write(self, data):
        if len(data) > 1:
            self._f.write(data[:len(data) // 2]); self._f.flush()
            fx.hit('write-half', self._p)
            r = self._f.write(data[len(data) // 2:]); self._f.flush()
        else: self._f.write(data); self._f.flush()
        fx.hit('written', self._p)
        return len(data)
    def __getattr__(self, n): return getattr(self._f, n)
    def __enter__(self): self._f.__enter__(); return self
    def __exit__(self, *a): return self._f.__exit__(*a)
    def __iter__(self): return iter(self._f)

class CrashConn(sqlite3.Connection):
    def commit(self):
        if self.in_transaction: fx.hit('db-commit', self._path())
        super().commit()
    def _path(self): return getattr(self, '_bvpath', None)

_installed = False
def install_effects():
    global _installed
    if _installed: return
    _installed = True
    ro = builtins.open
    def wopen(file, mode='r', *a, **k):
        if fx.on and any(m in mode for m in 'wax+') and not isinstance(file, int):
            if not fx.hit('open-' + mode, file): return ro(file, mode, *a, **k)
            f = ro(file, mode, *a, **k)
            fx.hit('opened', file)
            return WFile(f, file)
        return ro(file, mode, *a, **k)
    builtins.open = wopen; io.open = wopen
    shutil._USE_CP_SENDFILE = False
    def wrap(name, two):
        real = getattr(os, name)
        def f(a, *b, **k):
            fx.hit(name, a)
            return real(a, *b, **k)
        setattr(os, name, f)
    for n in ('rename', 'replace', 'remove', 'unlink', 'rmdir', 'mkdir', 'link', 'symlink', 'truncate'): wrap(n, n in ('rename', 'replace'))
    rc = sqlite3.connect
    def connect(path, *a, **k):
        k.setdefault('factory', CrashConn)
        c = rc(path, *a, **k)
        try: c._bvpath = path
        except Exception: pass
        return c
    sqlite3.connect = connect
    # commits do not need to reach the disk for our purpose: the process dies, not the machine
    
def forked(fn, timeout=120):
    """runs fn in a child process and returns ('ok', value) / ('crash', None) / ('exc', text)"""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        for c in Conn.all: c.t = None            # threads do not survive in the child
        try:
            try: out = ('ok', fn())
            except Violation as e: out = ('violation', [e.what, e.detail])
            except BaseException as e: out = ('exc', '%s: %s' % (type(e).__name__, e))
            fx.on = False
            data = json.dumps(out, default=repr).encode()
            while data: data = data[os.write(w, data):]
        finally: os._exit(0)
    os.close(w)
    buf = b''
    t0 = _real_time()
    import select
    while True:
        rr, _, _ = select.select([r], [], [], max(0.1, timeout - (_real_time() - t0)))
        if not rr: os.kill(pid, 9); break
        b = os.read(r, 65536)
        if b == b'': break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77: return ('crash', None)
    if not buf: return ('dead', st)
    out = json.loads(buf)
    if out[0] == 'violation': raise Violation(out[1][0], **out[1][1])
    return tuple(out)

# ----------------------------------------------------------------------------- server side
import warnings; warnings.simplefilter('ignore')
from bversion import server
from bversion.http.http_server import Request, ConnectionContext, ServeFile
import base64, pysodium

KEYS = {}
def keypair(user):
    if user not in KEYS:
        seed = hashlib.sha256(b'bvn' + user.encode()).digest()
        KEYS[user] = pysodium.crypto_sign_seed_keypair(seed)
    return KEYS[user]

class Body:
    def __init__(self, data): self.r = io.BytesIO(data)
    def read(self, length=None):
        r = self.r.read() if length is None else self.r.read(length)
        return None if r == b'' else r
    def read_all(self):
        r = self.r.read(); return r
    def dump(self): self.r.read()

class Refused(Exception): pass

class Conn:
    """one client connection: its own thread, as in the real server"""
    all = []
    def __init__(self, world, addr='10.0.0.1'):
        self.w, self.addr = world, addr
        self.q, self.a = queue.Queue(), queue.Queue()
        self.context = ConnectionContext()
        self.token = {}
        self.t = threading.Thread(target=self._run, daemon=True); self.t.start()
        Conn.all.append(self)
    def _run(self):
        while True:
            f = self.q.get()
            if f is None: break
            try: self.a.put(('ok', f()))
            except BaseException as e: self.a.put(('exc', e))
        try:
            from bversion.storage import server_db
            inst = getattr(server_db.threadLocal, 'db_instance', None)
            if inst is not None: inst.con.close()
        except Exception: pass
        self.a.put(('ok', None))
    def do(self, f):
        if self.t is None: raise Exception('the connection has ended')
        self.q.put(f)
        try: k, v = self.a.get(timeout=60)
        except queue.Empty: raise Violation('a request did not finish within 60 s')
        if k == 'exc': raise v
        return v
    def raw(self, route, headers, body=b'', addr=None):
        h = {k: (v.decode('utf8') if isinstance(v, bytes) else v) for k, v in headers.items()}
        if isinstance(body, dict): body = json.dumps(body).encode()
        rq = Request(remote_addr=addr or self.addr, remote_port=1, uri='/' + route, headers=h, body=Body(body))
        def go():
            with quiet():
                try: return server.endpoint(rq, self.context)
                except Exception:
                    # the server ends the connection when a handler raises
                    self.context.shutdown_handler()
                    raise
        return self.do(go)
    def req(self, route, headers=None, body=b'', repo=None, token=True, addr=None):
        """returns (headers, body); raises Refused when the server does not answer ok"""
        repo = repo or self.w.repo
        h = {'repository': repo}
        if token: h['session_token'] = self.token.get(repo, b'')
        h.update(headers or {})
        try: r = self.raw(route, h, body, addr)
        except Exception as e: 
            if isinstance(e, Violation): raise
            raise Refused('%s: %s' % (type(e).__name__, e))
        hd = {k: (v.decode('utf8') if isinstance(v, bytes) else v) for k, v in r.headers.items()}
        if hd.get('status') != 'ok': raise Refused(hd.get('msg', ''))
        b = r.body
        if isinstance(b, ServeFile):
            with open(b.path, 'rb') as f: b = f.read()
        return hd, b
    def login(self, user='alice', repo=None):
        repo = repo or self.w.repo
        h, _ = self.req('begin_auth', repo=repo, token=False)
        tok = h['auth_token']
        sig = base64.b64encode(pysodium.crypto_sign_detached(tok.encode('utf8'), keypair(user)[1]))
        h, _ = self.req('authenticate', {'client_version': str(self.w.client_version), 'user': user, 'auth_token': tok, 'signature': sig}, repo=repo, token=False)
        self.token[repo] = h['session_token']; self.user = user
        return self
    # convenience
    def begin(self, prev=None, repo=None):
        h, b = self.req('begin_commit', {'previous_revision': self.w.head(repo) if prev is None else prev, 'user': getattr(self, 'user', '')}, repo=repo)
        return json.loads(b)['partial_commit']
    def push(self, path, data, repo=None):
        h, b = self.req('push_file', {'path': path}, data, repo=repo); return json.loads(h['file_info_json'])
    def delete(self, paths, repo=None):
        return self.req('delete_files', {}, {'files': json.dumps([{'path': p} for p in paths])}, repo=repo)
    def commit(self, msg='m', mode='commit', repo=None):
        h, b = self.req('commit', {'commit_message': msg, 'mode': mode}, repo=repo); return h.get('head')
    def files(self, vid=None, repo=None):
        h, b = self.req('list_files', {'show_head': '1' if vid is None else '0', 'version_id': vid or ''}, repo=repo)
        return json.loads(b)['files']
    def changes(self, vid=None, repo=None):
        h, b = self.req('list_changes', {'show_head': '1' if vid is None else '0', 'version_id': vid or ''}, repo=repo)
        return json.loads(b)['changes']
    def versions(self, repo=None):
        h, b = self.req('list_versions', {}, repo=repo); return json.loads(b)['versions']
    def pull(self, path, vid=None, repo=None):
        h, b = self.req('pull_file', {'path': path, 'use_head': '1' if vid is None else '0', 'version_id': vid or ''}, repo=repo)
        return json.loads(h['file_info_json']), b
    def find_changed(self, prev, client=None, include_unchanged=False, repo=None):
        h, b = self.req('find_changed', {'previous_revision': prev, 'include_unchanged': str(int(include_unchanged))},
                        {'client_changes': json.dumps(client or {})}, repo=repo)
        return json.loads(b)
    def end(self):
        """the connection ends"""
        if self.t is None: return
        try: self.do(self.context.shutdown_handler)
        finally: self.stop()
    def stop(self):
        if self.t is not None:
            self.q.put(None); self.t.join(30); self.t = None

USERS = {'alice': ['main', 'other'], 'bob': ['main'], 'carol': ['other']}

class World:
    repo = 'main'
    def __init__(self, base, repos=('main', 'other'), users=None, init=True):
        from bversion import version_numbers
        self.client_version = version_numbers.client_version
        self.base = base
        self.users = users or USERS
        self.paths = {r: os.path.join(base, 'repo_' + r) for r in repos}
        for p in self.paths.values(): os.makedirs(p, exist_ok=True)
        if init: self.init()
    def config(self):
        return {'repositories': {r: {'path': p} for r, p in self.paths.items()},
                'users': {u: {'public_key': base64.b64encode(keypair(u)[0]).decode(), 'uses_repositories': list(rs)} for u, rs in self.users.items()}}
    def init(self):
        e = []
        def go():
            try:
                server.init_server(self.config())
                from bversion.storage import server_db
                server_db.threadLocal.db_instance.con.close(); del server_db.threadLocal.db_instance
            except BaseException as x: e.append(x)
        t = threading.Thread(target=go); t.start(); t.join()
        if e: raise e[0]
    def conn(self, user='alice', addr='10.0.0.1', repo=None, login=True):
        c = Conn(self, addr)
        if login: c.login(user, repo)
        return c
    def head(self, repo=None): return Store(self.paths[repo or self.repo]).head()
    def store(self, repo=None): return Store(self.paths[repo or self.repo])
    def close(self):
        for c in list(Conn.all):
            try: c.end()
            except Exception: pass
            try: c.stop()
            except Exception: pass
        Conn.all.clear()

@contextlib.contextmanager
def world(**k):
    with workdir('s') as d:
        w = World(d, **k)
        try: yield w
        finally: w.close()

class Store:
    """an independent reader of a repository directory"""
    def __init__(self, path): self.path = path
    def head(self):
        try:
            with open(os.path.join(self.path, 'head'), 'rb') as f: return f.read().decode()
        except FileNotFoundError: return 'root'
    def objects(self, kind):
        out = {}
        base = os.path.join(self.path, kind)
        if not os.path.isdir(base): return out
        for a in os.listdir(base):
            if not os.path.isdir(os.path.join(base, a)): continue
            for b in os.listdir(os.path.join(base, a)):
                with open(os.path.join(base, a, b), 'rb') as f: out[a + b] = f.read()
        return out
    def get(self, kind, h, why):
        p = os.path.join(self.path, kind, h[:2], h[2:])
        try:
            with open(p, 'rb') as f: d = f.read()
        except OSError as e: raise Violation('%s object %s needed by the head is missing (%s)' % (kind, h, why), error=str(e))
        check(sha(d) == h, '%s object %s does not match its hash (%s)' % (kind, h, why))
        return d
    def closure(self, head=None, contents=True, index=None, files=None):
        """every object reachable from head is present and intact; returns {version: {path: hash}}, in order from head"""
        head = self.head() if head is None else head
        out = {}; seen = {}
        while head != 'root':
            check(head not in out, 'cycle in the commit chain')
            c = json.loads(self.get('index', head, 'commit'))
            check(c['type'] == 'commit', 'the chain names an object which is not a commit', object=head)
            if index is not None: index.add(head)
            files_ = {}
            def walk(h, lead):
                t = json.loads(self.get('index', h, 'tree'))
                check(t['type'] == 'tree', 'a directory object is not of that kind')
                if index is not None: index.add(h)
                for n, i in t['files'].items():
                    files_[lead + '/' + n] = i['hash']
                    if i['hash'] not in seen and contents: self.get('files', i['hash'], 'content of %s' % (lead + '/' + n)); seen[i['hash']] = 1
                    if files is not None: files.add(i['hash'])
                for n, hh in t['dirs'].items(): walk(hh, lead + '/' + n)
            walk(c['tree_root'], '')
            out[head] = files_
            head = c['parent']
        return out
    def listing(self, vid=None):
        vid = self.head() if vid is None else vid
        if vid == 'root': return {}
        return self.closure(vid, contents=False)[vid]
    def commit_obj(self, vid): return json.loads(self.get('index', vid, 'commit'))
    def db(self, table):
        con = sqlite3.connect(os.path.join(self.path, 'server_transient.db'))
        con.row_factory = sqlite3.Row
        try: return [dict(r) for r in con.execute('select * from ' + table).fetchall()]
        except sqlite3.OperationalError: return None
        finally: con.close()
    def state(self):
        """everything a client could see of the committed state and of the open commit"""
        return (self.head(), self.objects('index'), self.objects('files'), self.db('active_commit_changes'), self.db('active_commit_exists'))
    def tree_state(self):
        out = {}
        for b, ds, fs in os.walk(self.path):
            for f in fs:
                if f.startswith('server_transient') or f == 'lock_file': continue
                p = os.path.join(b, f)
                with open(p, 'rb') as fh: out[os.path.relpath(p, self.path)] = fh.read()
        return out

NAMES = ['a', 'b', 'c', 'dir', 'a b', 'x.txt', 'ü', 'ß.md', '.hid', 'a.b', 'files', 'dirs', 'path', 'type', 'head', 'tree', '...', '..a', 'a..', 'z~', "q'u", 'q"', '%s', '-', 'Ａ', '日本', 'aa', '..%2f']
ENAMES = NAMES + ['', '']                # paths with empty components, which are paths of their own
def rpath(rng, depth=4, names=None):
    names = names or NAMES
    return '/' + '/'.join(rng.choice(names) for _ in range(rng.randint(1, depth)))
def rpaths(rng, n, **k): return sorted({rpath(rng, **k) for _ in range(n)})
def rdata(rng, pool=None):
    r = rng.random()
    if pool and r < 0.35: return rng.choice(pool)
    if r < 0.45: return b''
    n = rng.choice([1, 2, 5, 20, 200])
    d = bytes(rng.getrandbits(8) for _ in range(n))
    if pool is not None: pool.append(d)
    return d

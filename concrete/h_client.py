"""Contracts of the client side, checked on concrete histories (C15 .. C21)."""
from .lib import *
import itertools, copy, fnmatch
from bversion import client, crypto, common
from bversion.merge_client_and_server_changes import merge_client_and_server_changes
from bversion.storage.client_db import client_db
from bversion.storage.journaling_filesystem import journaling_filesystem
from bversion.storage.client_filesystem_interface import client_filesystem_interface

# ----------------------------------------------------------------- C15
CATS = ['client_push_files', 'client_pull_files', 'to_delete_on_client', 'to_delete_on_server', 'conflict_files', 'error_files', 'no_op']
def category(s, c):
    """the category the contract names; s and c are the statuses on each side or None"""
    s0 = s in (None, 'unchanged'); c0 = c in (None, 'unchanged')
    if s0 and c0:
        if s is None: return ('error_files',)                  # the client names a file the server does not have
        return ('no_op',) if c == 'unchanged' else ('client_pull_files',)
    if s0: return ('to_delete_on_server',) if c == 'deleted' else ('client_push_files',)
    if c0: return ('to_delete_on_client',) if s == 'deleted' else ('client_pull_files',)
    if s == 'deleted' and c == 'deleted': return ('to_delete_on_client',)
    return ('conflict_files', 'Deleted' if c == 'deleted' else 'Changed', 'Deleted' if s == 'deleted' else 'Changed')

def c15_one(server_, client_):
    s0, c0 = copy.deepcopy(server_), copy.deepcopy(client_)
    r = merge_client_and_server_changes(server_, client_)
    d = dict(server=s0, client=c0, result=r)
    check(server_ == s0 and client_ == c0, 'an input was modified', **d)
    found = {}
    for cat in r:
        check(cat in CATS or r[cat] == [], 'an unknown category holds files', category=cat, **d)
        for e in r[cat]:
            i = e['file_info'] if cat == 'conflict_files' else e
            found.setdefault(i['path'], []).append(((cat, e['client_status'], e['server_status']) if cat == 'conflict_files' else (cat,), i))
    for p in set(s0) | set(c0):
        want = category(s0.get(p, {}).get('status'), c0.get(p, {}).get('status')); got = found.pop(p, [])
        check(len(got) == 1, 'a path is in %d categories instead of one' % len(got), path=p, got=got, **d)
        check(got[0][0] == want, 'a path is in the wrong category', path=p, expected=want, got=got[0][0], **d)
        check(got[0][1] == (s0[p] if p in s0 else c0[p]), 'an entry carries other details', path=p, **d)
    check(not found, 'the result names paths neither side knows', got=sorted(found), **d)

def c15(rng, rep):
    ST = [None, 'unchanged', 'new', 'changed', 'deleted']
    if not rep.seen:
        for s, c in itertools.product(ST, ST):
            if s is None and c is None: continue
            sv = {'/p': {'path': '/p', 'status': s, 'hash': 'S'}} if s else {}; cv = {'/p': {'path': '/p', 'status': c, 'x': 1}} if c else {}
            c15_one(sv, cv); rep.count((s, c))
        for a, b in itertools.product(itertools.product(ST, ST), repeat=2):
            sv, cv = {}, {}
            for p, (s, c) in zip(('/p', '/d/p'), (a, b)):
                if s: sv[p] = {'path': p, 'status': s, 'hash': 'S' + p}
                if c: cv[p] = {'path': p, 'status': c, 'last_mod': 1}
            c15_one(sv, cv); rep.count((a, b))
    paths = rpaths(rng, rng.randint(0, 30)); sv, cv = {}, {}
    rng.shuffle(paths)
    for p in paths:
        s, c = rng.choice(ST), rng.choice(ST)
        if s: sv[p] = {'path': p, 'status': s, 'hash': sha(p.encode()), 'n': len(sv)}
        if c: cv[p] = {'path': p, 'status': c, 'created': 1.5, 'n': -len(cv)}
    c15_one(sv, cv); rep.count((len(sv), len(cv)))

# ----------------------------------------------------------------- C16
def expected_changes(current, manifest, unchanged=False):
    """current / manifest: {path: mtime}"""
    out = {}
    for p, t in current.items():
        if p not in manifest: out[p] = 'new'
        elif manifest[p] != t: out[p] = 'changed'
        elif unchanged: out[p] = 'unchanged'
    for p in manifest:
        if p not in current: out[p] = 'deleted'
    return out

def statuses(d):
    for p, e in d.items(): check(e['path'] == p, 'a change is filed under another path', path=p, entry=e)
    return {p: e['status'] for p, e in d.items()}

def c16(rng, rep):
    # pure comparison
    paths = rpaths(rng, rng.randint(0, 12)); cur, old = [], {}
    for p in paths:
        t = rng.choice([0.0, 1.0, 1.5, 1e9, 1e9 + 1e-6]); r = rng.random()
        if r < 0.75: cur.append({'path': p, 'created': 2.0, 'last_mod': t})
        if r > 0.25: old[p] = {'path': p, 'created': rng.choice([2.0, 3.0]), 'last_mod': rng.choice([t, t, 1.0, t + 1, t - 1]), 'server_file_hash': 'h'}
    rng.shuffle(cur)
    for inc in (False, True):
        a, b = copy.deepcopy(cur), copy.deepcopy(old)
        r = common.find_manifest_changes(a, b, inc) if inc else common.find_manifest_changes(a, b)
        check(a == cur and b == old, 'the comparison modified its inputs')
        want = expected_changes({i['path']: i['last_mod'] for i in cur}, {p: i['last_mod'] for p, i in old.items()}, inc)
        check(statuses(r) == want, 'the comparison reports other changes', current=cur, recorded=old, expected=want, got=statuses(r))
        for p, e in r.items():
            src = old[p] if e['status'] == 'deleted' else next(i for i in cur if i['path'] == p)
            check({k: v for k, v in e.items() if k != 'status'} == src, 'a change carries details of something else', path=p, got=e, expected=src)
        rep.count((len(cur), len(old), inc, tuple(sorted(want.values()))))
    # a real working copy, with filters
    with workdir('wc') as d:
        wc = WC(None, d)
        files = [p for p in prefixfree(rpaths(rng, 8))]
        for p in files: wc.write(p, b'x')
        filters = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            p = rng.choice(files); filters.append(rng.choice([p, os.path.dirname(p).rstrip('/') + '/*', '*' + os.path.splitext(p)[1] if os.path.splitext(p)[1] else '*q*', '/a*']))
        pull = [filters.pop()] if filters and rng.random() < 0.5 else []
        wc.raw('.bvn_ignore', '\n'.join(filters)); wc.raw('.bvn_pull_ignore', '\n'.join(pull))
        rec = {}
        db = client_db(os.path.join(d, '.bvn', 'manifest.db'))
        for p in files + ['/gone', '/d/gone']:
            if rng.random() < 0.6:
                t = wc.mtime(p) if p in files else 5.0
                if rng.random() < 0.4: t = rng.choice([t + 1, t - 1, t + 0.001])
                rec[p] = t; db.add_file_to_manifest({'path': p, 'last_mod': t, 'created': 1.0, 'server_file_hash': 'h'})
        db.commit(); db.con.close()
        wc.use(); before = wc.manifest()
        allf = ['/.bvn/*', '/.bvn_pull_ignore'] + filters + pull
        ign = lambda p: any(fnmatch.fnmatch(p, f) for f in allf)
        now = {p: wc.mtime(p) for p in wc.paths()}
        for inc in (False, True):
            with quiet(): r = client.find_local_changes(inc)
            want = expected_changes({p: t for p, t in now.items() if not ign(p)}, rec, inc)
            check(statuses(r) == want, 'local change detection reports other changes', filters=allf, files=now, recorded=rec, expected=want, got=statuses(r))
            check(wc.manifest() == before, 'the comparison modified the recorded state')
        rep.count(('wc', len(files), len(filters), len(pull)))

# ----------------------------------------------------------------- a working copy
def prefixfree(paths):
    out = []
    for p in sorted(paths):
        if p.rsplit('/', 1)[-1] in ('.bvn', '.bvn_ignore', '.bvn_pull_ignore'): continue
        if not any(p != q and (p.startswith(q + '/') or q.startswith(p + '/')) for q in out): out.append(p)
    return out

class SocketClosed(Exception): pass

class Link:
    """what the client talks through: hands requests to the real server code and keeps a log of them"""
    def __init__(self, w, addr): self.conn = Conn(w, addr); self.log = []; self.before = None; self.context = self.conn.context
    def _go(self, url, headers, body):
        h = {k: (v.decode('utf8') if isinstance(v, bytes) else v) for k, v in headers.items()}
        self.log.append((url, h, body))
        if self.before is not None:
            r = self.before(url, h, body)
            if r is not None:
                if r == 'closed': self.conn.end(); raise SocketClosed('Socket closed')
                return b'', {'status': 'fail', 'msg': 'refused (injected)'}
        if self.conn.t is None: raise SocketClosed('Socket closed')
        on, fx.on = fx.on, False                          # effects of the server are not the client's
        try: r = self.conn.raw(url, h, body)
        except Violation: raise
        except Exception as e:
            self.conn.end(); raise SocketClosed('Socket closed (%s: %s)' % (type(e).__name__, e))
        finally: fx.on = on
        return r.body, {k: (v.decode('utf8') if isinstance(v, bytes) else v) for k, v in r.headers.items()}
    def request(self, url, headers, data=None, gen=False):
        b, h = self._go(url, headers, (json.dumps(data) if data is not None else '{}').encode())
        content = b
        if isinstance(b, ServeFile):
            with open(b.path, 'rb') as f: content = f.read()
        if not gen: return content, h
        def writer(path):
            with open(path, 'wb') as f:
                for i in range(0, len(content), 7): f.write(content[i:i + 7])
        return writer, h
    def send_file(self, url, headers, path):
        with open(path, 'rb') as f: data = f.read()
        return self._go(url, headers, data)

class WC:
    tick = [1_500_000_000]
    def __init__(self, w, d, user='alice', addr='10.0.0.1', repo='main'):
        self.w, self.d, self.user, self.addr, self.repo = w, d.rstrip('/'), user, addr, repo
        os.makedirs(os.path.join(d, '.bvn'), exist_ok=True)
        self.raw('.bvn/client_configuration.json', json.dumps({'server_domain': 'none', 'user': user, 'repository': repo, 'private_key': base64.b64encode(keypair(user)[1]).decode()}))
    def raw(self, name, text):
        with open(os.path.join(self.d, name), 'w') as f: f.write(text)
    def abs(self, p): return self.d + p
    def write(self, p, data, mtime=None):
        os.makedirs(os.path.dirname(self.abs(p)), exist_ok=True)
        with open(self.abs(p), 'wb') as f: f.write(data)
        self.tick[0] += 1; t = mtime if mtime is not None else self.tick[0] + 0.5
        os.utime(self.abs(p), (t, t))
    def remove(self, p): os.remove(self.abs(p))
    def mtime(self, p): return os.path.getmtime(self.abs(p))
    def read(self, p):
        with open(self.abs(p), 'rb') as f: return f.read()
    def paths(self):
        out = []
        for b, ds, fs in os.walk(self.d):
            if b == self.d and '.bvn' in ds: ds.remove('.bvn')
            out += ['/' + os.path.relpath(os.path.join(b, f), self.d) for f in fs]
        return sorted(out)
    def files(self): return {p: self.read(p) for p in self.paths() if p not in ('/.bvn_ignore', '/.bvn_pull_ignore')}
    def use(self, before=None):
        """like starting the command line client in this working copy"""
        if client.cdb is not None:
            try: client.cdb.con.close()
            except Exception: pass
        os.chdir(self.d)
        old = getattr(client.server_connection, 'conn', None)
        if old is not None:
            try: old.end()
            except Exception: pass
        self.link = client.server_connection = Link(self.w, self.addr) if self.w else object()
        if self.w: self.link.before = before
        with quiet(): client.init(True)
        client.config['private_key'] = keypair(self.user)[1]
        return self.link
    def login(self):
        with quiet(): self.token = client.authenticate()
        self.link.log.clear()
        return self.token
    def update(self, over=None, unchanged=False):
        o = {'kill_mid_update': 0}; o.update(over or {})
        return client.update(self.token, o, unchanged) if unchanged else client.update(self.token, o)
    def commit(self, msg='m'): return client.commit(self.token, msg)
    def q(self, sql):
        con = sqlite3.connect(os.path.join(self.d, '.bvn', 'manifest.db')); con.row_factory = sqlite3.Row
        try: return [dict(r) for r in con.execute(sql).fetchall()]
        finally: con.close()
    def manifest(self): 
        rows = self.q('select path, last_mod, created, server_file_hash from files'); out = {}
        for r in rows:
            check(r['path'] not in out, 'two manifest entries for one path', path=r['path']); out[r['path']] = (float(r['last_mod']), float(r['created']), r['server_file_hash'])
        return out
    def rev(self): return self.q('select have_revision from meta')[0]['have_revision']
    def journal(self): return self.q('select data from journal')
    def ignored(self, p, also=()): return any(fnmatch.fnmatch(p, f) for f in ['/.bvn/*', '/.bvn_pull_ignore', '/.bvn_ignore'] + list(also))
    def local_changes(self, ignore=()):
        cur = {p: self.mtime(p) for p in self.paths()}
        return expected_changes({p: t for p, t in cur.items() if not self.ignored(p, ignore)}, {p: v[0] for p, v in self.manifest().items()})
    def end(self):
        try: self.link.conn.end()
        except Exception: pass

# ----------------------------------------------------------------- C17
def snapshot(d):
    out = {}
    for b, ds, fs in os.walk(d):
        if b == d and '.bvn' in ds: ds.remove('.bvn')
        for f in fs:
            with open(os.path.join(b, f), 'rb') as fh: out['/' + os.path.relpath(os.path.join(b, f), d)] = fh.read()
    return out

def jfs_at(d):
    db = client_db(os.path.join(d, '.bvn', 'manifest.db')); return db, journaling_filesystem(db, d, '.bvn')

def c17(rng, rep):
    install_effects()
    with workdir('j') as d:
        os.makedirs(d + '/.bvn'); os.makedirs(d + '/s/t')
        names = ['/a', '/b', '/s/a', '/s/t/a', '/s/c d', '/ü']
        for n in names:
            if rng.random() < 0.6:
                with open(d + n, 'wb') as f: f.write(rdata(rng) or b'old')
        if rng.random() < 0.5:
            # an earlier, finished transaction may have left things behind
            db, j = jfs_at(d); j.begin(); j.file_put_contents('/a', b'earlier'); j.commit(); db.con.close()
        if rng.random() < 0.3: 
            os.makedirs(d + '/.bvn/tmp', exist_ok=True)
            with open(d + '/.bvn/tmp/tmp_1', 'wb') as f: f.write(b'stray')
        # operations which make sense on the evolving state
        state = snapshot(d); before = dict(state); ops = []; written = []
        for k in range(rng.randint(1, 6)):
            kind = rng.choice(['put', 'put', 'putc', 'move', 'delete', 'bad'])
            if kind in ('put', 'putc'):
                p = rng.choice(names); data = b'W%d' % k + (rdata(rng) or b''); ops.append((kind, p, data)); state[p] = data; written.append(data)
            elif kind == 'move' and state:
                s, t = rng.choice(sorted(state)), rng.choice(names); ops.append(('move', s, t)); state[t] = state.pop(s)
            elif kind == 'delete' and state: p = rng.choice(sorted(state)); ops.append(('delete', p)); state.pop(p)
            elif kind == 'bad': ops.append(('bad',) + rng.choice([('move', '/nope', '/a'), ('delete', '/nope'), ('put', '/s', b'is a directory'), ('move', '/nope', '/nope2'), ('delete', '/s'), ('put', '/no/such/dir/x', b'q')]))
        def run(commit):
            db, j = jfs_at(d); j.begin()
            for op in ops:
                bad = op[0] == 'bad'; op = op[1:] if bad else op
                try:
                    if op[0] == 'put': j.file_put_contents(op[1], op[2])
                    elif op[0] == 'putc':
                        def wr(path, data=op[2]):
                            with open(path, 'wb') as f:
                                for i in range(0, len(data), 3): f.write(data[i:i + 3])
                        j.file_put_contents(op[1], wr)
                    elif op[0] == 'move': j.move_file(op[1], op[2])
                    else: j.delete_file(op[1])
                except OSError as e:
                    if e.errno == 28 or not bad: raise
            if commit: j.commit()
            db.con.close()
        save = d + '_save'
        shutil.copytree(d, save)
        def reset(): shutil.rmtree(d); shutil.copytree(save, d)
        def full():
            fx.root = d; fx.n = 0; fx.log = []; fx.on = True; run(True); fx.on = False; return [fx.n, fx.log]
        r, v = forked(full); check(r == 'ok', 'the transaction failed although nothing was wrong', why=v, ops=repr(ops)[:1500])
        total, log = v; done = snapshot(d)
        check(done == state, 'the transaction did not do what was asked', expected=state, got=done, ops=repr(ops)[:1500])
        # finished: never rolled back
        def after():
            db, j = jfs_at(d); check(not db.get_fs_journal(), 'a finished transaction left a journal')
            if rng.random() < 0.5: j.rollback()
            else: j.begin(); j.rollback()
        forked(after); check(snapshot(d) == done, 'a finished transaction was rolled back', ops=repr(ops)[:1500])
        # a transaction which is rolled back without any crash
        reset()
        def undone():
            db, j = jfs_at(d)
            run(False); db.con.close(); db, j = jfs_at(d); j.rollback()
            check(db.get_fs_journal() == [], 'rollback left a journal')
        points = list(range(1, total + 2))
        if rep.tier == 'quick' and len(points) > 16: points = sorted(rng.sample(points, 16))
        for k in [None] + points:
            for mode in (['plain'] if k is None else ['crash', 'fault'] if rng.random() < 0.4 else ['crash']):
                reset(); dd = dict(ops=repr(ops)[:1200], interrupted_before=log[k - 1] if k and k <= len(log) else None, effect=k, mode=mode)
                rep.count((len(ops), mode, log[k - 1].split(' ')[0] if k and k <= len(log) else None, k))
                if k is None:
                    r, v = forked(undone); check(r == 'ok', 'rolling back failed', why=v, **dd)
                else:
                    def go():
                        fx.root = d; fx.n = 0; fx.on = True
                        if mode == 'crash': fx.crash_at = k
                        else: fx.fault_at = k
                        run(True); return 'finished'
                    r, v = forked(go)
                    # finished exactly when the journal is empty in the database; read it independently
                    con = sqlite3.connect(d + '/.bvn/manifest.db')
                    try: jn = con.execute('select count(*) from journal').fetchone()[0]
                    except sqlite3.OperationalError: jn = 0
                    con.close()
                    mid = snapshot(d)
                    tmps = [open(d + '/.bvn/tmp/' + f, 'rb').read() for f in os.listdir(d + '/.bvn/tmp')] if os.path.isdir(d + '/.bvn/tmp') else []
                    if jn == 0:
                        check(mid in (before, state), 'nothing is left to roll back, but the transaction is neither done nor undone', got=mid, before=before, after=state, **dd)
                    if rng.random() < 0.5 and jn:
                        k2 = rng.randint(1, 12)
                        def again():
                            db, j = jfs_at(d); fx.root = d; fx.n = 0; fx.on = True
                            if rng.random() < 0.7: fx.crash_at = k2
                            else: fx.fault_at = k2
                            j.begin() if rng.random() < 0.5 else j.rollback()
                        forked(again); dd['second_crash'] = k2
                    def recover():
                        db, j = jfs_at(d)
                        j.begin() if rng.random() < 0.5 else j.rollback()
                        check(db.get_fs_journal() == [], 'the rollback left a journal', **dd)
                    r, v = forked(recover); check(r == 'ok', 'the rollback after an interruption failed', why=v, **dd)
                    if jn == 0:
                        check(snapshot(d) == mid, 'a finished (or not started) transaction was changed by rolling back', expected=mid, got=snapshot(d), **dd); continue
                    # created files go to the backup area
                    backs = [open(d + '/.bvn/back/' + f, 'rb').read() for f in os.listdir(d + '/.bvn/back')]
                    for p, data in mid.items():
                        if data in written and data not in before.values() and 'second_crash' not in dd: check(data in backs, 'a file the transaction created was destroyed instead of moved to the backup area', path=p, **dd)
                got = snapshot(d)
                check(got == before, 'rolling back did not restore the working copy', expected=before, got=got, **dd)

# ----------------------------------------------------------------- C18
def c18(rng, rep):
    install_effects()
    with workdir('f') as d:
        os.makedirs(d + '/.bvn'); os.makedirs(d + '/s')
        names = ['/a', '/b', '/s/a', "/it's"]
        db, j = jfs_at(d); fi = client_filesystem_interface(db, j)
        for n in names:
            if rng.random() < 0.7: fi.fs_put(n, b'orig' + n.encode(), {'server_file_hash': sha(n.encode())})
        db.con.close()
        def man():
            con = sqlite3.connect(d + '/.bvn/manifest.db'); rows = con.execute('select path, last_mod, created, server_file_hash from files').fetchall(); con.close()
            out = {}
            for r in rows: check(r[0] not in out, 'two manifest entries for one path', path=r[0]); out[r[0]] = r[1:]
            return out
        before = (snapshot(d), man()); have = sorted(before[0])
        kind = rng.choice(['put', 'put', 'putc', 'putfail', 'move', 'delete', 'badmove', 'badput', 'baddel', 'unrecorded', 'nohash'])
        n = rng.choice(names); m = rng.choice(names); data = rdata(rng) or b'new'; hh = sha(data)
        ok = True; touched = {n}; expect = dict(before[0])
        if kind in ('put', 'putc'): expect[n] = data
        elif kind in ('move', 'delete', 'badmove', 'unrecorded') and not have: kind = 'baddel'
        if kind in ('move', 'delete', 'badmove', 'unrecorded'): n = rng.choice(have)
        if kind == 'move': touched = {n, m}; v = expect.pop(n); expect[m] = v
        elif kind == 'delete': touched = {n}; expect.pop(n)
        elif kind == 'unrecorded':
            con = sqlite3.connect(d + '/.bvn/manifest.db'); con.execute('delete from files where path = ?', (n,)); con.commit(); con.close(); before = (snapshot(d), man()); ok = False
        elif kind in ('badmove', 'badput', 'baddel', 'putfail', 'nohash'): ok = False
        def op():
            db, j = jfs_at(d); fi = client_filesystem_interface(db, j)
            fx.root = d; fx.n = 0; fx.log = []
            fx.on = True
            try:
                if kind == 'put': fi.fs_put(n, data, {'server_file_hash': hh})
                elif kind == 'putc':
                    def wr(p):
                        with open(p, 'wb') as f: f.write(data)
                    fi.fs_put(n, wr, {'server_file_hash': hh})
                elif kind == 'putfail':
                    def wr(p):
                        with open(p, 'wb') as f: f.write(data)
                        raise Exception('connection lost')
                    fi.fs_put(n, wr, {'server_file_hash': hh})
                elif kind == 'nohash': fi.fs_put(n, data, {})
                elif kind == 'move': fi.fs_move(n, m)
                elif kind == 'delete': fi.fs_delete(n)
                elif kind == 'badmove': fi.fs_move(n, '/s')
                elif kind == 'unrecorded': fi.fs_move(n, m if m != n else '/zz')
                elif kind == 'badput': fi.fs_put('/s', data, {'server_file_hash': hh})
                elif kind == 'baddel': fi.fs_delete('/does/not/exist')
            except Exception as e: fx.on = False; return ['failed', fx.n, fx.log, repr(e)]
            fx.on = False; return ['done', fx.n, fx.log, '']
        save = d + '_save'; shutil.copytree(d, save)
        # keep the times of the files
        def reset(): shutil.rmtree(d); shutil.copytree(save, d)
        r, v = forked(op); dd = dict(kind=kind, on=n, to=m)
        check(r == 'ok', 'the operation died', why=v, **dd)
        check((v[0] == 'done') == ok, 'the operation %s' % ('failed' if ok else 'succeeded although a step cannot be done'), why=v[3], **dd)
        def judge(what, **k):
            s, mm = snapshot(d), man()
            if (s, mm) == before: return 'old'
            check(ok and s == expect, 'neither the old nor the new state of the working copy %s' % what, got=s, before=before[0], expected=expect, **dict(dd, **k))
            for p in names:
                if p not in touched: check(mm.get(p) == before[1].get(p), 'the manifest entry of another path changed %s' % what, path=p, before=before[1].get(p), got=mm.get(p), **dict(dd, **k))
            new = m if kind == 'move' else n
            if kind == 'delete' or (kind == 'move' and n != m): check(n not in mm, 'the manifest still lists a file which is gone %s' % what, **dict(dd, **k))
            if kind != 'delete':
                st = os.stat(d + new); e = mm.get(new)
                check(e is not None, 'the manifest does not list the file which was put %s' % what, **dict(dd, **k))
                check(float(e[0]) == os.path.getmtime(d + new) and float(e[1]) == os.path.getctime(d + new), 'the manifest does not record the times on disk %s' % what, got=e, disk=(st.st_mtime, st.st_ctime), **dict(dd, **k))
                check(e[2] == (before[1][n][2] if kind == 'move' else hh), 'the manifest records another hash %s' % what, got=e, **dict(dd, **k))
            check(set(mm) - touched == set(before[1]) - touched, 'the manifest gained or lost other paths %s' % what, **dict(dd, **k))
            return 'new'
        res = judge('after the operation')
        check(ok == (res == 'new') or (s := snapshot(d)) == before[0], 'a successful operation changed nothing', **dd)
        if not ok: check(res == 'old', 'a failed operation left something behind', **dd)
        total, log = v[1], v[2]; pts = list(range(1, total + 1))
        if rep.tier == 'quick' and len(pts) > 14: pts = sorted(rng.sample(pts, 14))
        for k in pts:
            for mode in ('crash', 'fault'):
                if mode == 'fault' and rng.random() < 0.5: continue
                reset(); before = (snapshot(d), man())
                kk = dict(effect=k, interrupted_before=log[k - 1] if k <= len(log) else None, mode=mode); rep.count((kind, mode, k))
                def go():
                    if mode == 'crash': fx.crash_at = k
                    else: fx.fault_at = k
                    return op()
                r, v2 = forked(go)
                def recover():
                    db, j = jfs_at(d)
                    if db.get_fs_journal() != []: j.rollback()
                    check(db.get_fs_journal() == [], 'rollback left a journal', **dict(dd, **kk))
                if mode == 'crash' or not ok or rng.random() < 0.5:
                    if rng.random() < 0.3:
                        k2 = rng.randint(1, 8)
                        def half(): fx.root = d; fx.n = 0; fx.crash_at = k2; fx.on = True; recover()
                        forked(half)
                    rr, vv = forked(recover); check(rr == 'ok', 'recovery failed', why=vv, **dict(dd, **kk))
                res = judge('after an interruption', **kk)
                if mode == 'fault' and r == 'ok':
                    # 'failed' means neither, 'done' means both; when removing the temporary files fails it is done
                    if v2[0] == 'done' and ok: check(res == 'new' or expect == before[0], 'the operation reported success but was not done', **dict(dd, **kk))

# ----------------------------------------------------------------- C19, C20
def setup_scene(rng, w, n_paths=7, base_commits=(1, 3), avoid=()):
    """a repository with history, a working copy at an old version, local edits and newer versions on the server"""
    paths = prefixfree(rpaths(rng, n_paths, names=NAMES + ['a:b', 'c: d', ':'])); pool = [b'k1', b'k2']
    paths = [p for p in paths if p not in avoid] or ['/only']
    a = w.conn('bob', '10.0.0.2')
    def server_commit(n, must=False):
        a.begin(); cur = hashes_of(a, w)
        touched = False
        for _ in range(n):
            p = rng.choice(paths)
            if rng.random() < 0.3 and p in cur: a.delete([p]); cur.pop(p); touched = True
            elif rng.random() < 0.9 or p not in cur: 
                dd = rdata(rng, pool); a.push(p, dd); cur[p] = sha(dd); touched = True
        if not touched: a.push(paths[0], b'forced %d' % rng.getrandbits(40))
        a.commit('c')
    return paths, pool, a, server_commit

def hashes_of(c, w): return dict(w.store().listing())

def net_changes(w, since):
    """{path: (status, hash)} touched after the version, each with the latest entry"""
    st = w.store(); out = {}; h = st.head()
    while h != since and h != 'root':
        c = st.commit_obj(h)
        ch = c['changes']
        for e in ch: out.setdefault(e['path'], (e['status'], e['hash']))
        h = c['parent']
    return out

def server_content(w):
    st = w.store(); return {p: st.get('files', h, p) for p, h in st.listing().items()}

def edit_locally(rng, wc, paths, n):
    done = []
    for _ in range(n):
        p = rng.choice(paths); have = p in wc.files(); r = rng.random()
        if have and r < 0.35: wc.remove(p); done.append(('rm', p))
        else:
            dd = b'local %d' % rng.getrandbits(30); wc.write(p, dd); done.append(('write', p, dd))
    return done

class Stop(Exception): pass

def plan(w, wc, pull_ignore):
    """what the contract requires of an update, from the state of both sides"""
    sc = net_changes(w, wc.rev()); lc = wc.local_changes(pull_ignore)
    todo = {}; conflicts = {}
    for p in set(sc) | set(lc):
        cat = category(sc[p][0] if p in sc else None, lc.get(p))
        if cat[0] == 'conflict_files': conflicts[p] = cat
        else: todo[p] = cat[0]
    return sc, lc, todo, conflicts

def c19_20(rng, rep, focus):
    install_effects()
    with world() as w, workdir('wc') as d:
        paths, pool, a, server_commit = setup_scene(rng, w)
        for _ in range(rng.randint(1, 2)): server_commit(rng.randint(2, 6))
        wc = WC(w, d); pull_ignore = []
        if rng.random() < 0.25 and focus == 19: pull_ignore = [rng.choice(paths)]; wc.raw('.bvn_pull_ignore', '\n'.join(pull_ignore))
        wc.use(); wc.login()
        with quiet(): wc.update()
        base = server_content(w); pi = lambda p: any(fnmatch.fnmatch(p, f) for f in pull_ignore)
        check(wc.files() == {p: b for p, b in base.items() if not pi(p)}, 'a first update did not fetch exactly the version', expected=sorted(base), got=sorted(wc.files()))
        check(wc.rev() == w.head(), 'the update did not record the version it is at')
        for _ in range(rng.choice([0, 1, 1, 2])): server_commit(rng.randint(1, 5))
        edits = edit_locally(rng, wc, [p for p in paths if not pi(p)] or ['/mine'], rng.choice([0, 1, 2, 4]) if focus == 19 else rng.randint(2, 6))
        if focus == 20:
            # make conflicts likely: the server changes what was edited
            a.begin()
            for e in edits[:3]:
                if rng.random() < 0.3 and e[1] in w.store().listing(): a.delete([e[1]])
                else: a.push(e[1], b'server side %d' % rng.getrandbits(30))
            if not a.commit('conf'): pass
        sc, lc, todo, conflicts = plan(w, wc, pull_ignore)
        server = server_content(w); before = wc.files(); head = w.head(); rev0 = wc.rev(); man0 = wc.manifest()
        dd = dict(server_changes=sc, local_changes=lc, conflicts=sorted(conflicts), edits=repr(edits)[:600], pull_ignore=pull_ignore)
        choice = rng.choice(['server', 'client', 'manual', 'file', 'badfile'] if focus == 20 else ['server', 'client', 'none', 'file'])
        res = {}
        seperator = '------------'
        def resolution_file(entries):
            t = 'Please write either "client" or "server" after each resolution block \n\n'
            for p, r in entries: t += seperator + '\nPath:  ' + p + '\nClient Changed server Changed\nResolution: ' + r + '\n\n'
            return t
        def touched_by(res):
            t = {}
            for p, c in todo.items():
                if c == 'client_pull_files' and not pi(p): t[p] = server[p]
                elif c == 'to_delete_on_client': t[p] = None
            for p, r in res.items():
                if r == 'server':
                    if conflicts[p][2] == 'Changed':
                        if not pi(p): t[p] = server[p]
                    else: t[p] = None
            return t
        def final(res):
            f = dict(before)
            for p, b in touched_by(res).items():
                if b is None: f.pop(p, None)
                else: f[p] = b
            return f
        rep.count((choice, len(conflicts), tuple(sorted(todo.values())), bool(pull_ignore)))
        def untouched(when, allowed, **k):
            now = wc.files()
            for p in set(before) | set(now):
                if p in allowed: continue
                check(now.get(p) == before.get(p), 'a file which is neither pulled, removed nor resolved to the server was touched ' + when, path=p, **dict(dd, **k))
        if conflicts and choice == 'none':
            def boom(*x, **y): raise Stop()
            def go():
                wc.use(); wc.login()
                real = client.question_user; client.question_user = boom
                try:
                    with quiet(): client.update(wc.token)
                except Stop: return 'stopped'
                return 'went on'
            r, v = forked(go); check(v == 'stopped', 'an update with conflicts did not ask the user', **dd)
            check(wc.files() == before and wc.rev() == rev0 and wc.manifest() == man0, 'files were touched before conflicts were resolved', **dd); return
        if choice in ('badfile', 'manual') and not conflicts: choice = 'server'
        if choice == 'badfile':
            names = sorted(conflicts); ent = [(p, rng.choice(['client', 'server'])) for p in names]
            how = rng.choice(['missing', 'extra', 'other', 'empty', 'blankside', 'case', 'elsewhere'])
            if how == 'missing': ent.pop(rng.randrange(len(ent)))
            elif how == 'extra': ent.append(('/not/in/conflict', 'server'))
            elif how == 'other': i = rng.randrange(len(ent)); ent[i] = (ent[i][0], rng.choice(['both', 'servers', 'theirs', 'client server', 'no']))
            elif how == 'empty': ent = []
            elif how == 'blankside': i = rng.randrange(len(ent)); ent[i] = (ent[i][0], '')
            elif how == 'case': ent[0] = (ent[0][0].upper() + 'X', ent[0][1])
            else: i = rng.randrange(len(ent)); ent[i] = (ent[i][0] + '/x', ent[i][1])
            wc.raw('.bvn/conflict_resolution', resolution_file(ent)); wc.use(); wc.login()
            try:
                with quiet(): wc.update()
            except SystemExit: pass
            else: raise Violation('a resolution file which does not resolve exactly the conflicts was accepted', how=how, entries=ent, **dd)
            check(wc.files() == before and wc.rev() == rev0 and wc.manifest() == man0, 'files were touched although the resolution file is wrong', how=how, **dd); return
        if choice == 'manual':
            wc.use(); wc.login()
            try:
                with quiet(): wc.update({'resolve_to': 'manual'})
            except SystemExit: pass
            else: raise Violation('the manual choice did not stop the update', **dd)
            check(wc.files() == before and wc.rev() == rev0 and wc.manifest() == man0, 'the manual choice touched files', **dd)
            text = open(wc.d + '/.bvn/conflict_resolution').read(); listed = [l[6:].strip() for l in text.split('\n') if l.startswith('Path:')]
            check(sorted(listed) == sorted(conflicts), 'the resolution file does not list every conflict', listed=listed, **dd)
            for p in conflicts:
                if conflicts[p][2] == 'Changed':
                    f = wc.d + '/.bvn/conflict_files' + p
                    check(os.path.isfile(f) and open(f, 'rb').read() == server[p], 'the version offered for comparison is not that of the server', path=p, **dd)
            # fill it in as a user would
            out = []; cur = None
            for l in text.split('\n'):
                if l.startswith('Path:'): cur = l[6:].strip(); res[cur] = rng.choice(['client', 'server'])
                if l.startswith('Resolution:'): l = 'Resolution: ' + rng.choice([res[cur], ' ' + res[cur].upper() + ' '])
                out.append(l)
            wc.raw('.bvn/conflict_resolution', '\n'.join(out)); over = {}
        elif choice == 'file':
            res = {p: rng.choice(['client', 'server']) for p in conflicts}; ent = list(res.items()); rng.shuffle(ent)
            if conflicts: wc.raw('.bvn/conflict_resolution', resolution_file(ent))
            over = {}
        else: res = {p: choice if choice != 'none' else 'server' for p in conflicts}; over = {'resolve_to': choice}
        want = final(res); dd['resolutions'] = res
        resfile = open(wc.d + '/.bvn/conflict_resolution').read() if os.path.exists(wc.d + '/.bvn/conflict_resolution') else None
        def complete(when, want=want, allowed=None, **k):
            got = wc.files(); check(got == want, 'the working copy is not what the update had to make ' + when, expected=want, got=got, **dict(dd, **k))
            check(wc.rev() == head or not (sc or lc), 'the new version was not recorded ' + when, **dict(dd, **k))
            mm = wc.manifest()
            for p, b in touched_by(res).items():
                if b is None: check(p not in mm, 'a removed file is still recorded ' + when, path=p, **dict(dd, **k))
                else: check(p in mm and mm[p][2] == sha(b) and mm[p][0] == wc.mtime(p), 'a pulled file is not recorded as it is ' + when, path=p, entry=mm.get(p), **dict(dd, **k))
            for p in set(man0) - set(touched_by(res)): check(mm.get(p) == man0[p], 'the record of another path changed ' + when, path=p, **dict(dd, **k))
        # failures part way
        fail = rng.choice(['none', 'none', 'refuse', 'close', 'crash', 'fault', 'crash'] if focus == 19 else ['none', 'none', 'none', 'crash'])
        n_pull = [0]
        if fail == 'none':
            wc.use(); wc.login()
            with quiet(): wc.update(over)
            complete('(no failure)')
            for u, h, b in wc.link.log:
                if u == 'pull_file': check(h['use_head'] == '0' and h['version_id'] == head, 'a file was not fetched at the version being updated to', request=h, **dd)
        else:
            save = d + '_save'; shutil.copytree(d, save)
            kk = rng.randint(0, 3)
            def before_req(url, h, b):
                if url == 'pull_file':
                    n_pull[0] += 1
                    if n_pull[0] == kk + 1: return 'closed' if fail == 'close' else 'fail'
            def go():
                wc.use(before_req if fail in ('refuse', 'close') else None); wc.login()
                if fail in ('crash', 'fault'):
                    fx.root = d; fx.n = 0; fx.on = True
                    if fail == 'crash': fx.crash_at = point
                    else: fx.fault_at = point
                try:
                    with quiet(): wc.update(over)
                except BaseException as e: fx.on = False; return ['raised', repr(e), n_pull[0]]
                fx.on = False; return ['returned', '', n_pull[0]]
            point = rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 120)])
            r, v = forked(go); k = dict(failure=fail, point=point if fail in ('crash', 'fault') else kk, outcome=v)
            failed = r == 'crash' or (v and (v[0] == 'raised' or (fail in ('refuse', 'close') and v[2] > kk)))
            if r == 'exc': raise Violation('the harness run failed', why=v, **dd)
            # recover as the next start does
            wc.use()
            t = touched_by(res); now = wc.files()
            untouched('by an update that failed', set(t), **k)
            for p in t: check(now.get(p) in (before.get(p), t[p]), 'a file is neither the old nor the new version after an update that failed', path=p, **dict(dd, **k))
            if wc.rev() == head and rev0 != head:
                check(all(now.get(p) == b for p, b in t.items()), 'the new version was recorded although it was not completely applied', missing=[p for p, b in t.items() if now.get(p) != b], **dict(dd, **k))
            # the user may go on working before trying again
            extra = {}
            if rng.random() < 0.4 and wc.rev() != head:
                p = rng.choice(sorted(set(paths) - set(conflicts)) or ['/later']); 
                if not pi(p): wc.write(p, b'edited after the failure'); extra[p] = b'edited after the failure'
            if wc.rev() != head:
                sc2, lc2, todo2, conf2 = plan(w, wc, pull_ignore)
                if resfile is not None and set(conf2) == set(res): wc.raw('.bvn/conflict_resolution', resfile)
                elif resfile is not None: wc.raw('.bvn/conflict_resolution', resolution_file([(p, res.get(p, 'client')) for p in conf2]))
                over2 = dict(over)
                if extra and resfile is None: over2 = {'resolve_to': 'client'} if set(conf2) - set(conflicts) else over2
                wc.use(); wc.login()
                with quiet(): wc.update(over2)
                if extra:
                    got = wc.files(); p = next(iter(extra))
                    if (p in conf2 and (resfile is not None and res.get(p, 'client') == 'client' or resfile is None and over2.get('resolve_to') == 'client')) or todo2.get(p) == 'client_push_files':
                        check(got.get(p) == extra[p], 'an edit made after a failed update was lost by the next one', path=p, **dict(dd, **k))
                else: complete('after running a failed update again', **k)
                check(wc.rev() == head, 'running a failed update again did not record the version', **dict(dd, **k))
            elif fail != 'crash' or r == 'ok': pass
        wc.end()

def c19(rng, rep): c19_20(rng, rep, 19)
def c20(rng, rep): c19_20(rng, rep, 20)

# ----------------------------------------------------------------- C21
def c21(rng, rep):
    install_effects()
    with world() as w, workdir('wc') as d:
        paths, pool, a, server_commit = setup_scene(rng, w, n_paths=8)
        if rng.random() < 0.85: server_commit(rng.randint(2, 7))
        a.end()
        wc = WC(w, d); ign = []
        if rng.random() < 0.3: ign = ['*/ignored.txt']; wc.raw('.bvn_ignore', '\n'.join(ign + ['/.bvn_ignore'])); wc.write('/ignored.txt', b'no'); ign.append('/.bvn_ignore')
        wc.use(); wc.login()
        with quiet(): wc.update()
        base = dict(w.store().listing()); rev0 = wc.rev()
        edits = edit_locally(rng, wc, paths, rng.randint(1, 6))
        if not any(e for e in edits): return
        lc = wc.local_changes(ign); man0 = wc.manifest()
        fail = rng.choice(['none', 'none', 'refuse', 'refuse', 'close', 'stale', 'editduring', 'interrupt', 'interrupt', 'interrupt', 'crash'])
        dd = dict(local_changes=lc, edits=repr(edits)[:800], failure=fail)
        rep.count((fail, tuple(sorted(lc.values()))))
        def judge_log(log, lc, accepted=True, prior=None, content=None, **k):
            """the requests between beginning and finishing"""
            kinds = [u for u, _, _ in log]
            if not lc: check(not any(u in ('begin_commit', 'push_file', 'delete_files', 'commit') for u in kinds), 'a commit without local changes talked to the server', log=kinds, **dict(dd, **k)); return
            bi = max(i for i, u in enumerate(kinds) if u == 'begin_commit')
            check(log[bi][1]['previous_revision'] == rev0, 'the commit does not start from the revision of the working copy', **dict(dd, **k))
            dels = []; pushed = []
            for u, h, b in log[bi + 1:]:
                if u == 'delete_files': dels += [f['path'] for f in json.loads(json.loads(b)['files'])]
                elif u == 'push_file': pushed.append(h['path']); check(content is None or content.get(h['path']) == b, 'an upload is not the content of the file', path=h['path'], **dict(dd, **k))
            wd = {p for p, s in lc.items() if s == 'deleted'}; wp = {p for p, s in lc.items() if s != 'deleted'}
            prior = prior or {}
            check(len(pushed) == len(set(pushed)), 'a file was uploaded twice', **dict(dd, **k))
            check(set(dels) >= wd and set(dels) <= wd | {p for p in prior if p not in wp or True and p in prior and p not in wc.files()}, 'other deletes than the local ones were requested', requested=dels, expected=sorted(wd), prior=sorted(prior), **dict(dd, **k))
            check(set(pushed) <= wp, 'a file which is no local change was uploaded', requested=pushed, expected=sorted(wp), **dict(dd, **k))
            if accepted:
                skipped = wp - set(pushed)
                for p in skipped: check(prior.get(p) == sha(wc.read(p)), 'an upload was skipped although the server does not hold that content for that path', path=p, **dict(dd, **k))
                check(kinds[-1] == 'commit' and log[-1][1]['mode'] == 'commit', 'the commit was not finished', log=kinds, **dict(dd, **k))
        def success(h, lc, times, content, **k):
            st = w.store(); st.closure(); want = dict(base)
            for p, s in lc.items():
                if s == 'deleted': want.pop(p, None)
                else: want[p] = sha(content[p])
            check(st.head() == h and st.listing() == want, 'the committed version is not the base plus the local changes', expected=want, got=st.listing(), **dict(dd, **k))
            check(st.commit_obj(h)['parent'] == rev0, 'the new version does not continue the revision of the working copy', **dict(dd, **k))
            check(wc.rev() == h, 'the new revision was not recorded', **dict(dd, **k))
            mm = wc.manifest()
            for p, s in lc.items():
                if s == 'deleted': check(p not in mm, 'a deleted file is still recorded', path=p, **dict(dd, **k))
                else: check(p in mm and mm[p][2] == sha(content[p]) and mm[p][0] == times[p], 'a committed file is not recorded as it was sent', path=p, entry=mm.get(p), **dict(dd, **k))
            for p in set(man0) - set(lc): check(mm.get(p) == man0[p], 'the record of an unchanged file changed', path=p, **dict(dd, **k))
            check(set(mm) == (set(man0) | {p for p, s in lc.items() if s != 'deleted'}) - {p for p, s in lc.items() if s == 'deleted'}, 'the record lists other files', **dict(dd, **k))
        def nothing_recorded(**k):
            check(wc.rev() == rev0 and wc.manifest() == man0, 'something was recorded although the commit was not accepted', **dict(dd, **k))
        times = {p: wc.mtime(p) for p, s in lc.items() if s != 'deleted'}; content = wc.files()
        if fail == 'stale':
            b = w.conn('bob', '10.0.0.2'); b.begin(); b.push('/ahead', b'x'); b.commit('x'); b.end(); st = w.store().state()
            wc.use(); wc.login()
            if not lc: return
            try:
                with quiet(): r = wc.commit()
            except SystemExit: r = None
            check(r is None and w.store().state() == st, 'a commit from an old revision was accepted', **dd); nothing_recorded(); return
        if fail in ('refuse', 'close'):
            n = rng.randint(1, 6); cnt = [0]; hit = []
            def before(url, h, b):
                if url in ('begin_commit', 'delete_files', 'push_file', 'commit') and not hit:
                    cnt[0] += 1
                    if cnt[0] == n: hit.append(url); return 'closed' if fail == 'close' else 'fail'
            wc.use(before); wc.login(); head0 = w.head()
            try:
                with quiet(): r = wc.commit()
            except (SystemExit, Exception) as e:
                if isinstance(e, Violation): raise
                r = None
            k = dict(refused=hit)
            if not hit:
                if lc: judge_log(wc.link.log, lc, content=content); success(r, lc, times, content)
                return
            check(r is None, 'a commit which was refused reported a new version', **dict(dd, **k))
            nothing_recorded(**k); kinds = [(u, h.get('mode')) for u, h, b in wc.link.log]
            if hit[0] in ('delete_files', 'push_file') and fail == 'refuse':
                check(kinds[-1] == ('commit', 'abort'), 'the client did not ask for an abort after a refusal', log=kinds, **dict(dd, **k))
                check(not w.store().db('active_commit_exists'), 'the refused commit is still open', **dict(dd, **k))
            check(('commit', 'commit') not in kinds or hit[0] == 'commit', 'the client asked to commit after a refusal', log=kinds, **dict(dd, **k))
            check(w.head() == head0, 'a refused commit moved the head', **dict(dd, **k))
            # trying again works
            wc.use(); wc.login(); prior = open_uploads(w)
            with quiet(): r = wc.commit()
            judge_log(wc.link.log, lc, prior=prior, content=content); success(r, lc, times, content, again=True); return
        if fail == 'interrupt' and lc:
            n = rng.randint(2, 7); cnt = [0]
            def before(url, h, b):
                if url in ('begin_commit', 'delete_files', 'push_file', 'commit'):
                    cnt[0] += 1
                    if cnt[0] == n: return 'closed'
            wc.use(before); wc.login()
            try:
                with quiet(): r = wc.commit()
            except Exception as e:
                if isinstance(e, Violation): raise
                r = None
            if r is not None: judge_log(wc.link.log, lc, content=content); success(r, lc, times, content); return
            nothing_recorded()
            # the user goes on working: edits again, reverts, deletes what was uploaded
            more = edit_locally(rng, wc, paths, rng.choice([0, 0, 1, 3]))
            for p in sorted(lc):
                if rng.random() < 0.15 and p in base and lc[p] != 'new':
                    wc.write(p, w.store().get('files', base[p], p), mtime=man0[p][0] if p in man0 else None); more.append(('revert', p))
                elif rng.random() < 0.15 and lc[p] != 'deleted' and p in wc.files():
                    wc.write(p, rng.choice([content[p], b'other content %d' % rng.getrandbits(20)]), mtime=rng.choice([times[p], None])); more.append(('rewrite', p))
            up = sorted(p for p in open_uploads(w) if p in wc.files() and p in lc)
            if up and rng.random() < 0.6:
                p = rng.choice(up); wc.write(p, b'edited after the upload %d' % rng.getrandbits(20), mtime=rng.choice([None, None, times[p]])); more.append(('edit uploaded', p))
            lc2 = wc.local_changes(ign); dd['more'] = repr(more)[:600]; dd['changes_then'] = lc2
            times = {p: wc.mtime(p) for p, s in lc2.items() if s != 'deleted'}; content = wc.files(); prior = open_uploads(w)
            wc.use(); wc.login()
            with quiet(): r = wc.commit()
            if not lc2: check(r is None, 'a commit without local changes made a version', **dd); return
            judge_log(wc.link.log, lc2, prior=prior, content=content)
            if effective(lc2, base): success(r, lc2, times, content)
            return
        if fail == 'editduring' and lc:
            pushes = [p for p, s in lc.items() if s != 'deleted']
            if pushes:
                victim = rng.choice(pushes); done = []; sent = {}
                def before(url, h, b):
                    if url == 'push_file': sent[h['path']] = b
                    if url == 'push_file' and h['path'] == victim and not done: done.append(1); wc.write(victim, b'edited meanwhile')
                    if url == 'commit' and not done: done.append(1); wc.write(victim, b'edited meanwhile')
                wc.use(before); wc.login()
                with quiet(): r = wc.commit()
                content.update(sent); st = w.store(); st.closure()
                check(st.listing().get(victim) == sha(sent[victim]), 'the committed content is not what was sent', **dd)
                check(wc.local_changes(ign).get(victim) == 'changed', 'an edit made during the commit is taken for committed', path=victim, **dd)
                return
        if fail == 'crash' and lc:
            point = rng.randint(1, 8)
            def go():
                wc.use(); wc.login(); fx.root = d; fx.n = 0; fx.crash_at = point; fx.on = True
                with quiet(): wc.commit()
            r, v = forked(go); wc.use(); wc.login()
            if wc.rev() == rev0:
                nothing_recorded()
                if w.head() == rev0:
                    with quiet(): r = wc.commit()
                    success(r, lc, times, content)
            else: success(w.head(), lc, times, content)
            return
        wc.use(); wc.login()
        with quiet(): r = wc.commit()
        judge_log(wc.link.log, lc, content=content)
        if not lc: check(r is None and w.head() == rev0, 'a commit without local changes made a version', **dd)
        else: success(r, lc, times, content)
        wc.end()

def effective(lc, base): return any(s != 'deleted' or p in base for p, s in lc.items())
def open_uploads(w): return {r['path']: r['hash'] for r in (w.store().db('active_commit_changes') or []) if r['status'] != 'deleted'}

CASES = {'C15': (c15, 150, 3000), 'C16': (c16, 150, 2000), 'C17': (c17, 12, 120), 'C18': (c18, 25, 250), 'C19': (c19, 90, 900), 'C20': (c20, 80, 800), 'C21': (c21, 90, 900)}

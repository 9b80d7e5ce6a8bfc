"""The outside world of the server: files, the SQL database, hashing, clocks, as stubs over symbolic maps.

Files:     one map  path -> content  (fs).  A path is a term  pth(pth(base, frag), frag)...; cpjoin is used by its contract (C28).
Database:  one map per table  rk(database path, key) -> row, keyed by the unique column; a working copy and a committed copy.
Hash:      sha is injective, its values are 64 hex digits.
"""
import re
import z3
from .core import *
from .values import *
from .env_base import setm, ext, trust
from . import builtins_ as bi

pth = F('pth', V, V, V); p1 = F('p1', V, V); p2 = F('p2', V, V); pdepth = F('pdepth', V, I)
rk = F('rk', V, V, V); rk1 = F('rk1', V, V); rk2 = F('rk2', V, V)
sha = F('sha', V, V); unsha = F('unsha', V, V); ishash = F('ishash', V, B)
hpre = F('hpre', V, V); hsuf = F('hsuf', V, V); hjoin = F('hjoin', V, V, V)
b64e = F('b64e', V, V); b64d = F('b64d', V, V)
enc = bi.enc; dec = bi.dec
jdumps = F('jdumps', V, V); jloads = F('jloads', V, V)

trust('sql', 'sqlite3: select/insert/update/delete on one table with conjunctive conditions mean what they say; a commit makes all earlier changes of the connection durable at once, death before it none; "=" compares as Python == on the stored text, blob and number values; the schema (unique columns) is the one db_init creates')
trust('files', 'POSIX files: rename replaces atomically, writing truncates first and may stop half way, directories are only created or removed when empty and never change file contents; no one else changes the store; I/O never fails for lack of space')
trust('sha256', 'SHA-256 is a function of the bytes, injective on what is stored, with 64 lower-case hex digits')
trust('cpjoin', 'cpjoin by its contract (proved under C28): joining is associative and injective on single components; the fragments given are single non-empty components')
trust('clock', 'time.time() returns numbers; nothing is assumed about its steps')
trust('b64', 'base64 encoding is injective; decoding undoes it')
trust('random', 'pysodium.randombytes returns a value never seen before')

def axioms(c):
    a, b, d = z3.Consts('a b d', V)
    fa = lambda vs, body, *pats: c.bg.append(z3.ForAll(vs, body, patterns=list(pats)))
    fa([a, b], z3.And(p1(pth(a, b)) == a, p2(pth(a, b)) == b, pdepth(pth(a, b)) == pdepth(a) + 1, ty(pth(a, b)) == T_STR, truthy(pth(a, b))), pth(a, b))
    fa([a], pdepth(a) >= 0, pdepth(a))
    fa([a, b], z3.And(rk1(rk(a, b)) == a, rk2(rk(a, b)) == b), rk(a, b))
    fa([a], z3.And(unsha(sha(a)) == a, ishash(sha(a)), ty(sha(a)) == T_STR, truthy(sha(a))), sha(a))
    fa([a], z3.And(hjoin(hpre(a), hsuf(a)) == a, ty(hpre(a)) == T_STR), hpre(a))
    fa([a], z3.And(b64d(b64e(a)) == a, ty(b64e(a)) == T_BYTES), b64e(a))
    fa([a], z3.And(ty(enc(a)) == T_BYTES, dec(enc(a)) == a), enc(a))

KEYCOL = {'tokens': 'token', 'session_tokens': 'token', 'active_commit_changes': 'path', 'gc_log': None, 'active_commit_exists': None}
COLS = {'tokens': ['expires', 'token', 'ip'], 'session_tokens': ['expires', 'token', 'ip', 'username'],
        'active_commit_changes': ['hash', 'path', 'status'], 'gc_log': ['item_type', 'item_hash'], 'active_commit_exists': ['user', 'ip', 'session_token']}

class World:
    KEYCOL, COLS = KEYCOL, COLS
    def __init__(self, ip, server=True):
        self.ip = ip; c = self.c = ip.ctx
        ip.world = self
        axioms(c)
        self.fs = Box(c.fresh('fs')); self.T = {}; self.C = {}
        for t in self.KEYCOL:
            self.T[t] = Box(c.fresh('tab_' + t)); self.C[t] = Box(self.T[t]._t)
        self.log_touch = None        # callback(kind, *info) before any access to files or database
        self.before = lambda kind, *info: None    # callback before a change of a file
        self.effect = lambda kind, *info: None    # callback after a durable effect
        self.wellformed = set()
        ip.trusted |= {'sql', 'files', 'sha256', 'cpjoin', 'clock', 'b64', 'random', 'json'}
        self.install()

    def touch(self, *a):
        if self.log_touch is not None: self.log_touch(*a)

    # ------------------------------------------------------------ paths
    def path(self, *frags):
        t = self.ip.term(frags[0])
        for f in frags[1:]: t = pth(t, self.ip.term(f))
        return t
    def obj_path(self, base, d, h):
        h = self.ip.term(h)
        return pth(pth(pth(self.ip.term(base), self.c.const(d)), hpre(h)), hsuf(h))

    def install(self):
        ip, c = self.ip, self.c
        def cpjoin(ip, a, k, f):
            t = ip.term(a[0])
            for x in a[1:]: t = pth(t, ip.term(x))
            return Box(t)
        ip.overrides['bversion.common.cpjoin'] = cpjoin
        ip.overrides['bversion.common.make_dirs_if_dont_exist'] = lambda ip, a, k, f: self.touch('fs', ip.term(a[0]))
        old = getattr(ip, 'slice_str_hook', None)
        def sl(v, s):
            if isinstance(v, Box) and s.step is None:
                if s.lo is None and s.hi == 2 or s.lo == 0 and s.hi == 2: return Box(hpre(ip.term(v)))
                if s.lo == 2 and s.hi is None: return Box(hsuf(ip.term(v)))
            return old(v, s) if old else None
        ip.slice_str_hook = sl
        # ---- files
        setm(ip, 'os.path', 'isfile', lambda ip, a, k: ip.mkbool(self.exists(a[0])))
        setm(ip, 'os.path', 'exists', lambda ip, a, k: ip.mkbool(self.exists(a[0])))
        setm(ip, 'os', 'rename', lambda ip, a, k: self.rename(a[0], a[1]))
        setm(ip, 'os', 'replace', lambda ip, a, k: self.rename(a[0], a[1]))
        setm(ip, 'shutil', 'move', lambda ip, a, k: self.rename(a[0], a[1]))
        setm(ip, 'os', 'remove', lambda ip, a, k: self.remove(a[0]))
        setm(ip, 'os', 'unlink', lambda ip, a, k: self.remove(a[0]))
        setm(ip, 'os', 'rmdir', self.rmdir)
        setm(ip, 'os', 'makedirs', lambda ip, a, k: None)
        setm(ip, 'os', 'mkdir', lambda ip, a, k: None)
        ip.builtins['open'] = Native('open', lambda ip, a, k: self.open(*a, **k))
        # ---- hashing
        def sha256(ip, a, k):
            o = Obj('sha256', {'data': a[0] if a else b''})
            def update(ip, a, k):
                ip.setattr_(o, 'data', ip.binop(__import__('ast').Add(), o.attrs['data'], a[0]))
            o.attrs['update'] = Native('update', update)
            o.attrs['hexdigest'] = Native('hexdigest', lambda ip, a, k: Box(sha(ip.term(o.attrs['data']))))
            return o
        setm(ip, 'hashlib', 'sha256', sha256)
        def hash_file(ip, a, k, f):
            p = ip.term(a[0]); self.touch('fs', p)
            if not c.decide(self.exists(a[0])): py_raise(FileNotFoundError, 2, 'no such file', errno=2)
            return Box(sha(self.content(p)))
        ip.overrides['bversion.common.hash_file'] = hash_file
        # ---- base64, random
        setm(ip, 'base64', 'b64encode', lambda ip, a, k: Box(b64e(ip.term(a[0]))))
        setm(ip, 'base64', 'b64decode', lambda ip, a, k: Box(b64d(ip.term(a[0]))))
        def rnd(ip, a, k):
            t = c.fresh('random'); c.assume(ty(t) == T_BYTES)
            self.on_random(t); return Box(t)
        setm(ip, 'pysodium', 'randombytes', rnd)
        # ---- database
        setm(ip, 'sqlite3', 'connect', lambda ip, a, k: self.connect(a[0]))
        def re_split(ip, a, k):
            t = ip.ctx_uf('re_split', V, a[0], a[1])
            i = z3.Int('i')
            c.assume([ty(t) == T_LIST, llen(t) >= 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(t)), ty(lnth(t, i)) == T_STR), patterns=[lnth(t, i)])])
            return Box(t)
        setm(ip, 're', 'split', re_split)
        setm(ip, 'threading', 'local', lambda ip, a, k: Obj('local'))
        setm(ip, 'fcntl', 'LOCK_EX', 2); setm(ip, 'fcntl', 'LOCK_NB', 4); setm(ip, 'fcntl', 'LOCK_UN', 8)
        for n in ('datetime',): setm(ip, 'datetime', n, Obj('datetime', {
            'utcnow': Native('utcnow', lambda ip, a, k: Obj('dt', {'strftime': Native('strftime', lambda ip, a, k: Box(c.fresh('timestamp')))})),
            'now': Native('now', lambda ip, a, k: Obj('dt', {'strftime': Native('strftime', lambda ip, a, k: Box(c.fresh('timestamp')))}))}))
    def on_random(self, t): pass
    def on_delete(self, table, k): pass       # a row is removed by its key
    def interfere(self, db): pass             # another connection acts before this statement

    # ------------------------------------------------------------ files
    def exists(self, p):
        t = self.ip.term(p); self.touch('fs', t); self.fs.log_key_read(t)
        return self.ip.dhas_simp(self.fs.peek(), t)
    def content(self, t):
        self.fs.log_key_read(t)
        return self.ip.dget_simp(self.fs.peek(), t)
    def nofile(self): py_raise(FileNotFoundError, 2, 'no such file', errno=2)
    def put(self, t, v, kind='write'):
        self.before(kind, t)
        self.fs.set_key(t, v); self.effect(kind, t)
    def rename(self, a, b):
        s, d = self.ip.term(a), self.ip.term(b)
        self.touch('fs', s); self.touch('fs', d)
        if not self.c.decide(self.exists(a)): self.nofile()
        v = self.content(s)
        self.before('rename', s, d)
        self.fs.set_key(d, v); self.fs.del_key(s)
        self.effect('rename', s, d)
        return None
    def remove(self, a):
        t = self.ip.term(a); self.touch('fs', t)
        if not self.c.decide(self.exists(a)): self.nofile()
        self.before('remove', t)
        self.fs.del_key(t); self.effect('remove', t)
    def rmdir(self, ip, a, k):
        self.touch('fs', ip.term(a[0]))
        return None
    def open(self, path, mode='r', encoding=None, **kw):
        ip, c = self.ip, self.c
        t = ip.term(path); self.touch('fs', t)
        o = Obj('file', {'path': t})
        if 'w' in mode:
            empty = c.const(b'' if 'b' in mode else '')
            self.put(t, empty, 'truncate')
            def write(ip, a, k):
                cur = self.ip.val(self.content(t))
                self.put(t, ip.term(ip.concat(cur, a[0])), 'write')
            o.attrs['write'] = Native('write', write)
        else:
            if not c.loose and not c.decide(self.exists(path)): self.nofile()
            state = {'read': False}
            def read(ip, a, k):
                if a and a[0] is not None and a[0] != -1:
                    if not hasattr(self, 'stream'): raise Unsupported('partial file read without contract')
                    return self.stream(o, t).read(ip, a, k)
                return ip.val(self.content(t)) if not c.entails(ty(self.content(t)) == T_STR) else ip.val(self.content(t))
            o.attrs['read'] = Native('read', read)
        no = Native('noop', lambda ip, a, k: None)
        o.attrs['flush'] = no; o.attrs['close'] = no; o.attrs['fileno'] = Native('fileno', lambda ip, a, k: 3)
        o.attrs['__enter__'] = Native('enter', lambda ip, a, k: o); o.attrs['__exit__'] = no
        return o

    # ------------------------------------------------------------ database
    def connect(self, path):
        ip = self.ip
        con = Obj('Connection', {'dbpath': ip.term(path), 'row_factory': None})
        ex = Native('execute', lambda ip, a, k: self.execute(con, *a))
        con.attrs['execute'] = ex
        con.attrs['commit'] = Native('commit', lambda ip, a, k: self.commit(con))
        con.attrs['cursor'] = Native('cursor', lambda ip, a, k: Obj('Cursor', {'execute': ex}))
        con.attrs['close'] = Native('close', lambda ip, a, k: None)
        return con
    def commit(self, con):
        self.touch('db', con.attrs['dbpath'], 'commit')
        for t in self.KEYCOL: 
            if not self.C[t]._t.eq(self.T[t]._t): self.C[t]._assign(self.T[t]._t, ('replace', None))
        self.effect('commit', con.attrs['dbpath'])
    def key(self, table, db, row):
        col = self.KEYCOL[table]
        if table == 'active_commit_exists': k = self.c.const('@')
        elif table == 'gc_log': k = pth(self.ip.dget_simp(row, self.c.const('item_type')), self.ip.dget_simp(row, self.c.const('item_hash')))
        else: k = self.ip.dget_simp(row, self.c.const(col))
        return rk(db, k)
    def has(self, table, k):
        T = self.T[table]; T.log_key_read(k)
        return self.ip.dhas_simp(T.peek(), k)
    def row(self, table, k):
        T = self.T[table]; T.log_key_read(k)
        return self.ip.dget_simp(T.peek(), k)
    def execute(self, con, sql, params=()):
        ip, c = self.ip, self.c
        db = con.attrs['dbpath']
        self.interfere(db)
        if isinstance(sql, Box): raise Unsupported('SQL text is not constant')
        q = ' '.join(sql.split()).strip().rstrip(';').strip()
        ps = list(ip.iter_segs(params)) if not isinstance(params, tuple) else [PSeg(list(params))]
        if not all(isinstance(s, PSeg) for s in ps): raise Unsupported('SQL parameters')
        ps = [x for s in ps for x in s.items]
        low = q.lower()
        if low.startswith('create '):
            self.touch('db', db, 'create'); return Obj('result', {})
        m = re.match(r'(?i)select \* from (\w+)(?: where (.*))?$', q)
        if m: return self.select(db, m.group(1).lower(), self.where(m.group(2), ps))
        m = re.match(r'(?i)insert( or replace| or ignore)? into (\w+) ?\(([^)]*)\) values ?\(([^)]*)\)$', q)
        if m:
            cols = [x.strip() for x in m.group(3).split(',')]; vals = self.values(m.group(4), ps)
            return self.insert(db, m.group(2).lower(), cols, vals, (m.group(1) or '').strip().lower())
        m = re.match(r'(?i)delete from (\w+)(?: where (.*))?$', q)
        if m: return self.delete(db, m.group(1).lower(), self.where(m.group(2), ps))
        m = re.match(r'(?i)update (\w+) set (.*?)(?: where (.*))?$', q)
        if m:
            sets = []
            for part in m.group(2).split(','):
                col, v = [x.strip() for x in part.split('=')]
                sets.append((col, self.value(v, ps)))
            return self.update(db, m.group(1).lower(), sets, self.where(m.group(3), ps))
        raise Unsupported('SQL: ' + q)
    def value(self, s, ps):
        s = s.strip()
        if s == '?':
            if not ps: py_raise(ValueError, 'sqlite3: too few parameters')
            return self.ip.term(ps.pop(0))
        if s[:1] == "'": return self.c.const(s[1:-1])
        if re.fullmatch(r'-?\d+', s): return self.c.const(int(s))
        raise Unsupported('SQL value ' + s)
    def values(self, s, ps): return [self.value(x, ps) for x in s.split(',')]
    def where(self, s, ps):
        if not s: return []
        if re.search(r'(?i)\bor\b|\bin\b|\(', s): raise Unsupported('SQL condition ' + s)
        out = []
        for part in re.split(r'(?i)\s+and\s+', s.strip()):
            m = re.match(r'(\w+) ?(=|!=|<>|<=|>=|<|>|like) ?(.+)$', part.strip())
            if not m: raise Unsupported('SQL condition ' + part)
            out.append((m.group(1), '!=' if m.group(2) == '<>' else m.group(2), self.value(m.group(3), ps)))
        return out
    def cond(self, row, conds):
        c = self.c; fs = []
        for col, op, v in conds:
            x = self.ip.dget_simp(row, c.const(col))
            nn = z3.And(x != c.c_none, v != c.c_none)
            if op == '=': fs.append(z3.And(x == v, x != c.c_none))
            elif op == '!=': fs.append(z3.And(x != v, nn))
            else:
                a, b = realval(x), realval(v)
                fs.append(z3.And({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op], nn))
        return z3.And(*fs) if fs else z3.BoolVal(True)
    def single(self, table, conds):
        """key term when the conditions fix the key"""
        if table == 'active_commit_exists': return self.c.const('@'), conds
        col = self.KEYCOL.get(table)
        for j, (cc, op, v) in enumerate(conds):
            if col is not None and cc == col and op == '=': return v, conds[:j] + conds[j + 1:] + [('=none', '', v)]
        return None, conds
    def scond(self, row, conds):
        extra = [x for x in conds if x[0] == '=none']; rest = [x for x in conds if x[0] != '=none']
        return z3.And(self.cond(row, rest), *[v != self.c.c_none for _, _, v in extra])
    def chk(self, table):
        if table not in self.KEYCOL: raise Unsupported('unknown table ' + table)
    def result(self, lst, n):
        return Obj('result', {'fetchall': Native('fetchall', lambda ip, a, k: lst), 'rowcount': n,
                              'fetchone': Native('fetchone', lambda ip, a, k: (lst.items()[0] if lst.items() else None) if lst.concrete else self.first(lst))})
    def first(self, lst):
        try: return self.ip.list_first(lst)
        except PyExc: return None
    def select(self, db, table, conds):
        ip, c = self.ip, self.c
        self.chk(table); self.touch('db', db, 'select ' + table)
        k, rest = self.single(table, conds)
        if k is not None:
            kk = rk(db, k)
            if c.decide(self.has(table, kk)) and c.decide(self.scond(self.row(table, kk), rest)):
                return self.result(ListObj(items=[Box(self.row(table, kk))]), -1)
            return self.result(ListObj(), -1)
        T = self.T[table].term()
        x = c.fresh('row')
        row = dget(T, rk(db, x))
        return self.result(ListObj([DSeg([x], z3.And(dhas(T, rk(db, x)), self.cond(row, conds)), row)]), -1)
    def insert(self, db, table, cols, vals, how):
        ip, c = self.ip, self.c
        self.chk(table); self.touch('db', db, 'insert ' + table)
        if len(cols) != len(vals): py_raise(Exception, 'sqlite3.OperationalError')
        row = c.c_empty
        d = dict(zip(cols, vals))
        for col in d:
            if col not in self.COLS[table]: py_raise(Exception, 'sqlite3.OperationalError: no column ' + col)
        for col in self.COLS[table]: row = dset(row, c.const(col), d.get(col, c.c_none))
        k = self.key(table, db, row)
        if table == 'active_commit_exists':
            c.prove('at most one commit is open in a repository', z3.Not(self.has(table, k)))
        elif self.KEYCOL[table] is not None and how != 'or replace':
            if c.decide(self.has(table, k)):
                if how == 'or ignore': return self.result(ListObj(), 0)
                py_raise(Exception, 'sqlite3.IntegrityError: UNIQUE constraint failed')
        self.T[table].set_key(k, row)
        return self.result(ListObj(), 1)
    def delete(self, db, table, conds):
        ip, c = self.ip, self.c
        self.chk(table); self.touch('db', db, 'delete ' + table)
        k, rest = self.single(table, conds)
        if k is not None:
            kk = rk(db, k)
            if c.decide(self.has(table, kk)) and c.decide(self.scond(self.row(table, kk), rest)):
                self.on_delete(table, kk)
                self.T[table].del_key(kk)
                return self.result(ListObj(), 1)
            return self.result(ListObj(), 0)
        T0 = self.named(self.T[table].term()); T1 = c.fresh('tab_' + table)
        x = z3.Const('x', V)
        gone = z3.And(rk(rk1(x), rk2(x)) == x, rk1(x) == db, self.cond(dget(T0, x), conds))
        for pat in (dhas(T1, x), dget(T1, x), dhas(T0, x)):
            c.assume(z3.ForAll([x], z3.And(dhas(T1, x) == z3.And(dhas(T0, x), z3.Not(gone)), z3.Implies(dhas(T1, x), dget(T1, x) == dget(T0, x))), patterns=[pat]))
        self.T[table].replace(T1)
        return self.result(ListObj(), SI(c.fresh('rowcount', I)))
    def update(self, db, table, sets, conds):
        ip, c = self.ip, self.c
        self.chk(table); self.touch('db', db, 'update ' + table)
        for col, v in sets:
            if col not in self.COLS[table]: py_raise(Exception, 'sqlite3.OperationalError: no column ' + col)
            if col == self.KEYCOL[table] or table == 'gc_log': raise Unsupported('SQL update of a key')
        k, rest = self.single(table, conds)
        def new(row):
            for col, v in sets: row = dset(row, c.const(col), v)
            return row
        if k is not None:
            kk = rk(db, k)
            if c.decide(self.has(table, kk)) and c.decide(self.scond(self.row(table, kk), rest)):
                self.T[table].set_key(kk, new(self.row(table, kk)))
                return self.result(ListObj(), 1)
            return self.result(ListObj(), 0)
        T0 = self.named(self.T[table].term()); T1 = c.fresh('tab_' + table)
        x = z3.Const('x', V)
        hit = z3.And(rk(rk1(x), rk2(x)) == x, rk1(x) == db, self.cond(dget(T0, x), conds))
        for pat in (dhas(T1, x), dget(T1, x)):
            c.assume(z3.ForAll([x], z3.And(dhas(T1, x) == dhas(T0, x), dget(T1, x) == z3.If(hit, new(dget(T0, x)), dget(T0, x))), patterns=[pat]))
        self.T[table].replace(T1)
        return self.result(ListObj(), SI(c.fresh('rowcount', I)))

    def named(self, t):
        if z3.is_const(t): return t
        n = self.c.fresh('t'); self.c.assume(n == t); return n
    # ------------------------------------------------------------ snapshots
    def snap(self):
        return dict(fs=self.fs.peek(), **{t: self.T[t].peek() for t in self.KEYCOL})
    def same(self, s0, tables=None, fs=True):
        """everything is as in the snapshot (syntactically or provably)"""
        x = z3.Const('x', V)
        out = []
        now = self.snap()
        for n in (['fs'] if fs else []) + list(tables if tables is not None else self.KEYCOL):
            if now[n].eq(s0[n]): continue
            out.append(eqmap(now[n], s0[n], x))
        return z3.And(*out) if out else z3.BoolVal(True)

def eqmap(a, b, x):
    return z3.ForAll([x], z3.And(dhas(a, x) == dhas(b, x), z3.Implies(dhas(a, x), dget(a, x) == dget(b, x))))

def rows_wf(w, tables=('tokens', 'session_tokens', 'active_commit_changes', 'gc_log', 'active_commit_exists')):
    """the tables hold rows under their key (schema), for every database"""
    c = w.c; x, d = z3.Consts('x d', V)
    for t in tables:
        T = w.T[t]._t
        row = dget(T, x)
        fs = [rk(rk1(x), rk2(x)) == x, ty(row) == T_DICT] + [dhas(row, c.const(col)) for col in COLS[t]]
        if KEYCOL[t] is not None: fs.append(dget(row, c.const(KEYCOL[t])) == rk2(x))
        if t == 'gc_log': fs.append(rk2(x) == pth(dget(row, c.const('item_type')), dget(row, c.const('item_hash'))))
        if t == 'active_commit_exists': fs.append(rk2(x) == c.const('@'))
        c.bg.append(z3.ForAll([x], z3.Implies(dhas(T, x), z3.And(*fs)), patterns=[dhas(T, x)]))


"""The outside world of the client: files of the working copy, the backup area, and the client database with its journal.

Files are two maps path -> content: w.fs (everything but the backup area) and w.bk (the backup area); w.stamp gives every path its
modification stamp (changed by every change of the file).  Which paths are directories does not change here.
The journal is a sequence (jnil, jsnoc, jpre); T/C tables as in World, w.J/w.JC its working and its committed copy."""
import re
import z3
from .core import *
from .values import *
from .env_base import setm, ext, trust
from . import builtins_ as bi
from . import world
from .world import *
from .srv import chain

cj = F('cj', V, V, V); cjn = F('cjn', V, V); intmp = F('intmp', V, B); inbk = F('inbk', V, B); nosl = F('nosl', V, B); isdir = F('isdirp', V, B)
jlen = F('jlen', V, I); jat = F('jat', V, I, V); jrow = F('jrow', V, I, I); jrec = F('jrec', V, I, V); jsnoc = F('jsnoc', V, V, V); jpre = F('jpre', V, I, V); Undo = F('Undo', V, V, V)
bknum = F('bknum', V, I); bkname = F('bkname', V, V, V)
mtime = F('mtime', V, V); ctime = F('ctime', V, V); numof = F('int_parse', V, I); parses = F('int_parses', V, B)
trust('journal', 'sqlite3: the rows of a table without a key are numbered upwards (rowid) as they are inserted; select … order by rowid gives them in that order')
trust('cfiles', 'renaming within the working copy is atomic; only the steps of the code change files below it; no directory appears or disappears during a transaction; FileNotFoundError when undoing a move means its source is not there')

class CWorld(World):
    KEYCOL = {'files': 'path', 'meta': None}
    COLS = {'files': ['path', 'last_mod', 'created', 'server_file_hash'], 'meta': ['format_version', 'have_revision']}
    def __init__(self, ip):
        c = ip.ctx; const = c.const; bv = z3.Const('b', V)
        def named(py):
            new = isinstance(py, str) and '/' not in py and ('s' + py) not in c.consts
            newb = isinstance(py, bytes) and py.isdigit() and ('b' + repr(py)) not in c.consts
            t = const(py)
            if new:
                c.bg.append(nosl(t))
                if re.fullmatch(r'\d+_', py): c.bg.append(z3.ForAll([bv], bknum(cj(self.BK, cat(t, bv))) == int(py[:-1]), patterns=[cj(self.BK, cat(t, bv))]))
            if newb: c.bg += [numof(t) == int(py), parses(t)]
            return t
        c.const = named
        for q in (CDB, JFS, CFI): ip.get(q)
        self.D, self.TMP, self.BK = c.fresh('data_dir'), c.fresh('tmp_dir'), c.fresh('backup_dir')
        self.jnil = c.fresh('jnil')
        self.bk = Box(c.fresh('bk')); self.stamp = Box(c.fresh('stamp'))
        super().__init__(ip)
        ip.json_total = True
        J = c.fresh('journal'); self.J, self.JC = Box(J), Box(J)
        ip.trusted |= {'journal', 'cfiles'}
        for t in ('sha256', 'b64', 'random'): ip.trusted.discard(t)
        self.ax()
        self.dbp = c.fresh('db_path'); c.bg += [ty(self.dbp) == T_STR, dhas(self.T['meta']._t, rk(self.dbp, c.const('@'))), dget(self.T['meta']._t, rk(self.dbp, c.const('@'))) != c.c_none]
        self.last = c.fresh('last_char'); c.bg += [ty(self.last) == T_STR, self.last == c.const('/')]
        old = getattr(ip, 'box_index_hook', None)
        ip.box_index_hook = lambda b, i, *r: Box(self.last) if b.peek().eq(self.D) else (old(b, i, *r) if old else None)
        self.dirs = [self.D, cat(self.D, c.const('/'))]
    def key(self, table, db, row):
        if table == 'meta': return rk(db, self.c.const('@'))
        return super().key(table, db, row)
    def ax(self):
        c = self.c; a, b, e, x = z3.Consts('a b e x', V); i, j = z3.Ints('i j')
        fa = lambda vs, body, *pats: c.bg.append(z3.ForAll(vs, body, patterns=list(pats)))
        c.bg += [ty(self.D) == T_STR, ty(self.TMP) == T_STR, ty(self.BK) == T_STR, ty(self.fs._t) == T_DICT, ty(self.bk._t) == T_DICT, jlen(self.jnil) == 0]
        # paths
        fa([a, b], z3.And(ty(cj(a, b)) == T_STR), cj(a, b))
        fa([b], z3.Implies(nosl(b), z3.And(intmp(cj(self.TMP, b)), cjn(cj(self.TMP, b)) == b)), cj(self.TMP, b))
        fa([b], z3.Implies(nosl(b), z3.And(inbk(cj(self.BK, b)), cjn(cj(self.BK, b)) == b)), cj(self.BK, b))
        fa([a], z3.Implies(intmp(a), z3.Not(inbk(a))), intmp(a)); fa([a], z3.Implies(inbk(a), z3.Not(intmp(a))), inbk(a))
        fa([a, b], z3.Implies(z3.And(inbk(a), nosl(b)), inbk(cat(a, b))), inbk(cat(a, b)))
        fa([a, b], z3.Implies(z3.And(nosl(a), nosl(b)), nosl(cat(a, b))), nosl(cat(a, b)))
        fa([i], z3.And(nosl(bi.strof(mkint(i))), numof(enc(bi.strof(mkint(i)))) == i, parses(enc(bi.strof(mkint(i))))), bi.strof(mkint(i)))
        fa([a], nosl(F('os_basename', V, V)(a)), F('os_basename', V, V)(a))
        # the numbers of backups
        K = c.const; nm = cj(self.BK, self.bname(i, b)); idx = cj(self.BK, K('.bk_idx'))
        fa([i, b], z3.Implies(z3.And(i >= 0, nosl(b)), bknum(nm) == i), nm)
        c.bg += [bknum(idx) == -1, bknum(cat(idx, K('_new'))) == -1, idx != cat(idx, K('_new'))]
        # journals
        r = jrec(a, i)
        fa([a, i], z3.And(ty(r) == T_DICT, dhas(r, K('data')), dhas(r, K('rowid')), dget(r, K('data')) == jdumps(a), dget(r, K('rowid')) == mkint(i), truthy(r)), r)
        fa([a], z3.And(jlen(a) >= 0, (jlen(a) == 0) == (a == self.jnil)), jlen(a))
        fa([a, e], z3.And(jlen(jsnoc(a, e)) == jlen(a) + 1, jat(jsnoc(a, e), jlen(a)) == e), jsnoc(a, e))
        fa([a, i], z3.Implies(z3.And(i >= 0, i <= jlen(a)), z3.And(jlen(jpre(a, i)) == i, z3.Implies(i == jlen(a), jpre(a, i) == a), z3.Implies(i == 0, jpre(a, i) == self.jnil))), jpre(a, i))
        fa([a, i, j], z3.Implies(z3.And(j >= 0, j < i, i <= jlen(a)), z3.And(jat(jpre(a, i), j) == jat(a, j), jrow(jpre(a, i), j) == jrow(a, j))), jat(jpre(a, i), j), jrow(jpre(a, i), j))
        fa([a, i, j], z3.Implies(z3.And(j >= 0, j <= i, i <= jlen(a)), jpre(jpre(a, i), j) == jpre(a, j)), jpre(jpre(a, i), j))
        fa([x], z3.Implies(dhas(self.fs._t, x), z3.Not(isdir(x))), dhas(self.fs._t, x)); fa([x], z3.Implies(dhas(self.bk._t, x), z3.Not(isdir(x))), dhas(self.bk._t, x))
    def wf_entry(self, e):
        """a step that can be undone: a move of a file outside the backup area, or backing such a file up"""
        K = self.c.const; k, a, b = lnth(e, 0), lnth(e, 1), lnth(e, 2)
        ok = lambda p: z3.And(ty(p) == T_STR, z3.Not(inbk(p)), z3.Not(isdir(p)))
        return z3.And(ty(e) == T_LIST, z3.Or(z3.And(k == K('move'), llen(e) == 3, ok(a), ok(b)), z3.And(k == K('backup'), llen(e) == 2, ok(a))))
    def undo1(self, e, m):
        """what undoing the step e makes of the files outside the backup area (m: has and content, by path)"""
        H, G = m; a, b = lnth(e, 1), lnth(e, 2); mv = lnth(e, 0) == self.c.const('move')
        go = z3.And(H(a), a != b)
        return (lambda x: z3.If(mv, z3.If(go, z3.Or(x == b, z3.And(x != a, H(x))), H(x)), z3.And(x != a, H(x))),
                lambda x: z3.If(z3.And(mv, go, x == b), G(a), G(x)))
    def mapof(self, fs): return (lambda x: dhas(fs, x), lambda x: dget(fs, x))
    def agree(self, m1, m2, x): return z3.And(m1[0](x) == m2[0](x), z3.Implies(m1[0](x), m1[1](x) == m2[1](x)))
    def unwind(self, J, J0):
        """the steps recorded on top of J0, last first; None when J is not J0 with steps added"""
        es = []
        while not J.eq(J0):
            if z3.is_app(J) and J.decl().eq(jsnoc): es.append(J.arg(1)); J = J.arg(0)
            else: return None
        return es
    def wf_journal(self, J):
        i = z3.Int('i')
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < jlen(J)), self.wf_entry(jat(J, i))), patterns=[jat(J, i)])
    def wf_backups(self, bk):
        """backups are numbered below the next number to be used"""
        x, b = z3.Consts('x b', V); idx = cj(self.BK, self.c.const('.bk_idx'))
        return z3.And(z3.ForAll([x], z3.Implies(dhas(bk, x), bknum(x) < self.nextnum(bk)), patterns=[dhas(bk, x)]), self.nextnum(bk) >= 1, z3.Implies(dhas(bk, idx), parses(dget(bk, idx))))
    def bname(self, n, b): return cat(bi.strof(mkint(n)), cat(self.c.const('_'), b))
    def nextnum(self, bk):
        idx = cj(self.BK, self.c.const('.bk_idx'))
        return z3.If(dhas(bk, idx), numof(dget(bk, idx)), 1)

    # ------------------------------------------------------------ paths
    def join(self, parts):
        c, ip = self.c, self.ip
        t = None
        if all(isinstance(x, str) for x in parts):
            import os
            return parts[0].rstrip('/') + '/' + '/'.join(x.strip('/') for x in parts[1:]) if len(parts) > 1 else parts[0]
        t = self.norm(ip.term(parts[0]))
        rest = list(parts[1:])
        if t.eq(self.D) and rest and all(isinstance(x, str) for x in rest):
            r = '/'.join(x.strip('/') for x in rest)
            if r == '.bvn/tmp': return Box(self.TMP)
            if r == '.bvn/back': return Box(self.BK)
            p = cj(t, c.const(r))
            if not r.startswith(('.bvn/tmp', '.bvn/back')): c.assume([z3.Not(inbk(p)), z3.Not(intmp(p))])
            return Box(p)
        for x in rest:
            if isinstance(x, str) and '/' not in x: c.assume(nosl(c.const(x)))
            t = cj(t, ip.term(x))
        return Box(t)
    def norm(self, t):
        return self.D if any(t.eq(x) for x in self.dirs) else t
    def install(self):
        super().install()
        ip, c = self.ip, self.c
        self.dirs = [self.D]
        ip.overrides['bversion.common.cpjoin'] = lambda ip, a, k, f: self.join(list(a))
        setm(ip, 'os.path', 'join', lambda ip, a, k: self.join(list(a)))
        old = getattr(ip, 'box_index_hook', None)
        setm(ip, 'os.path', 'isdir', lambda ip, a, k: ip.mkbool(isdir(ip.term(a[0]))))
        setm(ip, 'os.path', 'exists', lambda ip, a, k: ip.mkbool(z3.Or(self.exists(a[0]), isdir(ip.term(a[0])))))
        setm(ip, 'os', 'rename', lambda ip, a, k: self.rename(a[0], a[1], into=False))
        setm(ip, 'os', 'replace', lambda ip, a, k: self.rename(a[0], a[1], into=False))
        setm(ip, 'shutil', 'copy', lambda ip, a, k: self.copy(a[0], a[1])); setm(ip, 'shutil', 'copyfile', lambda ip, a, k: self.copy(a[0], a[1])); setm(ip, 'shutil', 'copy2', lambda ip, a, k: self.copy(a[0], a[1]))
        setm(ip, 'os', 'listdir', self.listdir)
        setm(ip, 'os.path', 'getmtime', lambda ip, a, k: self.times(a[0])[0]); setm(ip, 'os.path', 'getctime', lambda ip, a, k: self.times(a[0])[1])
        setm(ip, 'os', 'stat', lambda ip, a, k: (lambda t: Obj('stat', {'st_mtime': t[0], 'st_ctime': t[1]}))(self.times(a[0])))
    def times(self, p):
        t = self.ip.term(p)
        if not self.c.decide(z3.Or(self.exists(p), isdir(t))): self.nofile()
        s = self.ip.dget_simp(self.stamp.peek(), t)
        m, k = mtime(s), ctime(s); self.c.assume([ty(m) == T_REAL, ty(k) == T_REAL])
        return Box(m), Box(k)
    def listdir(self, ip, a, k):
        d = self.norm(ip.term(a[0])); x = self.c.fresh('name'); p = cj(d, x)
        if not d.eq(self.TMP): raise Unsupported('listing of a directory')
        fs = self.named(self.fs.term())
        return ListObj([DSeg([x], z3.And(nosl(x), ty(x) == T_STR, dhas(fs, p)), Box(x), False)])

    # ------------------------------------------------------------ files
    def area(self, t):
        return self.bk if self.c.decide(inbk(t)) else self.fs
    def exists(self, p):
        t = self.ip.term(p); m = self.area(t); m.log_key_read(t)
        return self.ip.dhas_simp(m.peek(), t)
    def content(self, t):
        m = self.area(t); m.log_key_read(t)
        return self.ip.dget_simp(m.peek(), t)
    failing = True
    def may_fail(self, what):
        if self.failing and self.c.choose(what + ' fails'): py_raise(OSError, 5, what, errno=5)
    def changed(self, t): self.stamp.set_key(t, self.c.fresh('stamp'))
    def put(self, t, v, kind='write'):
        self.may_fail(kind)
        m = self.area(t); m.set_key(t, v); self.changed(t); self.effect(kind, t)
    def open(self, path, mode='r', encoding=None, **kw):
        t = self.ip.term(path)
        if self.c.decide(isdir(t)): py_raise(IsADirectoryError, 21, 'is a directory', errno=21)
        return super().open(path, mode, encoding, **kw)
    def rename(self, a, b, into=True):
        c = self.c; s, d = self.ip.term(a), self.ip.term(b)
        if not c.decide(self.exists(a)):
            if c.decide(isdir(s)): raise Unsupported('moving a directory')
            self.nofile()
        if c.decide(isdir(d)):
            if not into: py_raise(IsADirectoryError, 21, 'is a directory', errno=21)
            d = cj(d, F('os_basename', V, V)(s))
        self.may_fail('rename')
        if c.decide(s == d): return None
        v = self.content(s)
        self.before('rename', s, d)
        m = self.area(d); m.set_key(d, v); self.area(s).del_key(s)
        self.changed(d); self.effect('rename', s, d)
        return None
    def remove(self, a):
        c = self.c; t = self.ip.term(a)
        if not c.decide(self.exists(a)): self.nofile()
        self.may_fail('remove')
        self.before('remove', t)
        self.area(t).del_key(t); self.effect('remove', t)
    def copy(self, a, b):
        c = self.c; s, d = self.ip.term(a), self.ip.term(b)
        if not c.decide(self.exists(a)): self.nofile()
        if c.decide(isdir(d)): d = cj(d, F('os_basename', V, V)(s))
        v = self.content(s)
        for x in (c.const(b''), None, v):
            if x is None: x = c.fresh('part'); c.assume(ty(x) == T_BYTES)
            self.put(d, x, 'copy')
        return None

    # ------------------------------------------------------------ database
    def connect(self, path):
        con = super().connect(path)
        def rollback(ip, a, k):
            for t in self.KEYCOL:
                if not self.C[t].peek().eq(self.T[t].peek()): self.T[t].replace(self.C[t].peek())
            if not self.J.peek().eq(self.JC.peek()): self.J.replace(self.JC.peek())
        con.attrs['rollback'] = Native('rollback', rollback)
        cur = Obj('Cursor', {'execute': con.attrs['execute']})
        con.attrs['cursor'] = Native('cursor', lambda ip, a, k: cur)
        return con
    def commit(self, con):
        self.may_fail('commit')
        for t in self.KEYCOL:
            if not self.C[t].peek().eq(self.T[t].peek()): self.C[t].replace(self.T[t].peek())
        if not self.JC.peek().eq(self.J.peek()): self.JC.replace(self.J.peek())
        self.effect('commit')
    def journal_insert(self, e): pass
    def execute(self, con, sql, params=()):
        ip, c = self.ip, self.c
        if isinstance(sql, Box): raise Unsupported('SQL text is not constant')
        q = ' '.join(sql.split()).strip().rstrip(';').strip().lower()
        ps = ip.term(params) if isinstance(params, Box) else params
        if isinstance(ps, ListObj): ps = tuple(ps.items())
        J = self.J.peek()
        if re.search(r'\bjournal\b', q) and not q.startswith('create '):
            m = re.match(r'select (.*) from journal( order by rowid( asc)?)?$', q)
            if m and sorted(x.strip() for x in m.group(1).split(',')) in (['data', 'rowid'], ['*', 'rowid']):
                i = c.fresh('k', I); d = Box(jrec(jat(J, i), jrow(J, i)))
                return self.result(ListObj([DSeg([i], z3.And(i >= 0, i < jlen(J)), d, bool(m.group(2)))]), -1)
            m = re.match(r'insert into journal ?\( ?data ?\) values ?\( ?\? ?\)$', q)
            if m:
                t = ip.term(ps[0]); e = t.arg(0) if z3.is_app(t) and t.decl().name() == 'jdumps' else F('jloads', V, V)(t)
                self.journal_insert(e)
                self.J.replace(jsnoc(J, e)); return self.result(ListObj(), 1)
            if q == 'delete from journal': self.J.replace(self.jnil); return self.result(ListObj(), -1)
            if re.match(r'delete from journal where rowid ?= ?\?$', q):
                r = ip.iterm(ps[0]) if hasattr(ip, 'iterm') else intval(ip.term(ps[0]))
                n = jlen(J)
                if c.entails(z3.And(n > 0, jrow(J, n - 1) == r)): self.J.replace(jpre(J, n - 1))
                else: self.J.replace(c.fresh('journal'))       # some other step: nothing is known of what is left
                return self.result(ListObj(), 1)
            raise Unsupported('SQL: ' + q)
        if re.search(r'\bmeta\b', q) and not q.startswith('create '):
            k = rk(con.attrs['dbpath'], c.const('@')); self.T['meta'].log_key_read(k)
            if q.startswith('select '):
                if not c.decide(self.has('meta', k)): return self.result(ListObj(), -1)
                return self.result(ListObj(items=[Box(self.row('meta', k))]), -1)
            m = re.match(r'update meta set (\w+) ?= ?\?, ?(\w+) ?= ?\? where rowid ?= ?1$', q)
            if m:
                row = self.row('meta', k)
                for col, x in zip(m.groups(), ps): row = dset(row, c.const(col), ip.term(x))
                if c.decide(self.has('meta', k)): self.T['meta'].set_key(k, row)
                return self.result(ListObj(), 1)
            if q.startswith('insert '): 
                self.T['meta'].set_key(k, c.fresh('meta_row')); return self.result(ListObj(), 1)
            raise Unsupported('SQL: ' + q)
        return super().execute(con, sql, params)

CDB = 'bversion.storage.client_db.client_db'; JFS = 'bversion.storage.journaling_filesystem.journaling_filesystem'; CFI = 'bversion.storage.client_filesystem_interface.client_filesystem_interface'
def client_db(w):
    """a database object of the real class, opened on the client database"""
    ip, c = w.ip, w.c
    setm(ip, 'sqlite3', 'connect', lambda ip, a, k: w.connect(a[0]))
    cl = ip.get(CDB)
    return ip.call(cl, [Box(w.dbp)], {})
def jfs(w, db):
    ip, c = w.ip, w.c
    cl = ip.get(JFS)
    return ip.call(cl, [db, Box(w.D), '.bvn'], {})

"""C17: transactions of the working copy.

Undo(J, files): what undoing the steps of the journal J, last first, makes of the files (backup area left out).
Invariant of an open transaction, at every moment the process can die: Undo(committed journal, files) is what the files were before the
transaction.  Every operation keeps it (what its own steps undo is what it did so far), each step of a rollback keeps it, and when a rollback
is done the journal is empty, so the files are what they were.  Committing empties the journal in one database commit."""
import z3
from ..core import *
from ..values import *
from ..cworld import *
from ..loops import for_inv, while_inv
from ..tree import bind

class Tx:
    def __init__(self, v, active=None):
        ip = self.ip = v.interp(); c = self.c = ip.ctx
        w = self.w = CWorld(ip)
        self.J0, self.fs0, self.bk0 = w.J._t, w.fs._t, w.bk._t
        c.bg += [w.wf_journal(self.J0), w.wf_backups(self.bk0)]
        self.files0 = w.T['files'].peek()
        self.x = c.fresh('x')
        self.state = {}
        self.active = active
    def open(self, active=None):
        """the database and the transaction object, made by the real constructors"""
        eff, self.w.effect = self.w.effect, lambda kind, *info: None
        self.w.failing = False
        self.db = client_db(self.w); self.jf = jfs(self.w, self.db)
        self.w.failing = True; self.w.effect = eff
        if self.active is not None: self.ip.setattr_(self.jf, 'active_transaction', self.active)
        return self.jf
    def user_path(self, name):
        """a path of the working copy, relative"""
        w, c = self.w, self.c; r = c.fresh(name); p = cj(w.D, r)
        c.bg += [ty(r) == T_STR, z3.Not(inbk(p)), z3.Not(intmp(p))]
        return r, p
    def pristine(self, when):
        """what the recorded steps undo is what was done: undoing them gives the files as they were"""
        w, c = self.w, self.c
        es = w.unwind(w.JC.peek(), self.J0)
        if es is None: c.prove('%s: the journal holds the steps recorded so far' % when, False); return
        m = w.mapof(w.fs.peek())
        for e in es: m = w.undo1(e, m)
        c.prove('%s: undoing what is recorded restores the files' % when, w.agree(m, w.mapof(self.fs0), self.x))
    def backups_ok(self, when):
        w, c = self.w, self.c
        if w.bk.peek().eq(self.bk0): return
        c.prove('%s: backups are numbered below the next number' % when, w.wf_backups(w.bk.peek()))
        b0, b1 = self.bk0, w.bk.peek(); x = self.x; idx = cj(w.BK, c.const('.bk_idx'))
        c.prove('%s: no backup is destroyed' % when, z3.Implies(z3.And(dhas(b0, x), x != idx, x != cat(idx, c.const('_new'))), z3.And(dhas(b1, x), dget(b1, x) == dget(b0, x))))
    def watch(self):
        w, c = self.w, self.c
        def effect(kind, *info):
            if c.suppress: return
            self.pristine('after ' + kind); self.backups_ok('after ' + kind)
        w.effect = effect
        w.journal_insert = lambda e: None if c.suppress else c.prove('a step that is recorded can be undone', w.wf_entry(e))

def unit_tmp(v):
    """new_tmp: a name in the temporary area that is not in use"""
    t = Tx(v); ip, c, w = t.ip, t.c, t.w
    f = ip.get(JFS + '.new_tmp'); c.func = f.qualname
    ip.while_hooks[f.qualname] = lambda ip, s, env: while_inv(ip, s, env, lambda: [], 'names in use')
    n = [0]
    def thunk():
        t.open(); ip.setattr_(t.jf, 'tmp_idx', SI(c.fresh('idx', I)))
        try: return ip.call(f, [t.jf], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): c.prove('finding a temporary name does not fail', False); return
        n[0] += 1; p = ip.term(r)
        c.prove('the name is in the temporary area', intmp(p))
        c.prove('the name is not in use', z3.And(z3.Not(dhas(w.fs.peek(), p)), z3.Not(isdir(p))))
        c.prove('nothing is changed', z3.BoolVal(w.fs.peek().eq(t.fs0) and w.bk.peek().eq(t.bk0) and w.J.peek().eq(t.J0)))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

def tmp_contract(t):
    ip, c, w = t.ip, t.c, t.w
    def new_tmp(ip, a, k, f):
        p = c.fresh('tmp'); c.assume([intmp(p), ty(p) == T_STR, z3.Not(w.exists(Box(p))), z3.Not(isdir(p)), z3.Not(inbk(p))])
        return Box(p)
    ip.overrides[JFS + '.new_tmp'] = new_tmp

def unit_backup(v):
    """new_backup: a name in the backup area that was never used; only the counter is changed"""
    t = Tx(v); ip, c, w = t.ip, t.c, t.w
    f = ip.get(JFS + '.new_backup'); c.func = f.qualname; t.watch()
    src = c.fresh('src'); c.bg.append(ty(src) == T_STR); n = [0]
    def thunk():
        try: return ip.call(f, [t.open(), Box(src)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): return
        n[0] += 1; p = ip.term(r); b = w.bk.peek()
        c.prove('the name is in the backup area', inbk(p))
        c.prove('the name is not in use', z3.Not(dhas(b, p)))
        c.prove('the name counts as used', z3.And(bknum(p) < w.nextnum(b)))
        c.prove('no other file is changed', z3.BoolVal(w.fs.peek().eq(t.fs0) and w.J.peek().eq(t.J0)))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

def backup_contract(t):
    ip, c, w = t.ip, t.c, t.w
    def new_backup(ip, a, k, f):
        w.may_fail('backup')
        b0 = w.named(w.bk.term()); b = c.fresh('bk'); x = z3.Const('x', V); idx = cj(w.BK, c.const('.bk_idx'))
        w.bk.replace(b)
        c.assume([ty(b) == T_DICT, w.wf_backups(b), z3.ForAll([x], z3.Implies(z3.And(dhas(b0, x), x != idx, x != cat(idx, c.const('_new'))), z3.And(dhas(b, x), dget(b, x) == dget(b0, x))), patterns=[dhas(b0, x)])])
        p = c.fresh('backup'); c.assume([ty(p) == T_STR, inbk(p), z3.Not(intmp(p)), z3.Not(isdir(p)), z3.Not(dhas(b, p)), bknum(p) < w.nextnum(b), bknum(p) >= 0])
        return Box(p)
    ip.overrides[JFS + '.new_backup'] = new_backup

def unit_op(name):
    """one operation of a transaction: at every durable effect its recorded steps undo what it did"""
    def unit(v):
        t = Tx(v, active=True); ip, c, w = t.ip, t.c, t.w
        f = ip.get(JFS + '.' + name); c.func = f.qualname; t.watch(); tmp_contract(t); backup_contract(t)
        r1, p1_ = t.user_path('path'); r2, p2_ = t.user_path('dest')
        data = c.fresh('data'); c.bg += [ty(data) == T_BYTES, z3.Not(F('is_callable', V, B)(data))]
        n = {'done': 0}
        def writer(ip, a, k):
            w.may_fail('writer')
            if c.choose('nothing written'): return None
            if c.decide(isdir(ip.term(a[0]))): py_raise(IsADirectoryError, 21, 'dir', errno=21)
            d = c.fresh('part'); c.assume(ty(d) == T_BYTES)
            w.put(ip.term(a[0]), d); 
            d = c.fresh('all'); c.assume(ty(d) == T_BYTES)
            w.put(ip.term(a[0]), d); t.state['written'] = d; return None
        def thunk():
            t.state.clear()
            a = [t.open(), Box(r1)]
            if name == 'move_file': a.append(Box(r2))
            if name == 'file_put_contents': 
                t.state['written'] = data
                if c.choose('a writer is given'): t.state['written'] = None; a.append(Native('writer', writer))
                else: a.append(Box(data))
            try: return ip.call(f, a, {})
            except PyExc as e: return e
        def visit(r):
            t.pristine('at the end')
            if isinstance(r, PyExc): return
            c.prove('what is recorded is durable at the end', w.J.peek() == w.JC.peek())
            n['done'] += 1; m = w.fs.peek(); x = t.x
            other = lambda *ps: z3.Implies(z3.And(z3.Not(intmp(x)), *[x != p for p in ps]), w.agree(w.mapof(m), w.mapof(t.fs0), x))
            if name == 'file_put_contents':
                if t.state['written'] is not None: c.prove('the file holds the content given', z3.And(dhas(m, p1_), dget(m, p1_) == t.state['written']))
                c.prove('no other file is changed', other(p1_))
            elif name == 'move_file':
                c.prove('the file is moved', z3.And(dhas(t.fs0, p1_), dhas(m, p2_), dget(m, p2_) == dget(t.fs0, p1_), z3.Implies(p1_ != p2_, z3.Not(dhas(m, p1_)))))
                c.prove('no other file is changed', other(p1_, p2_))
            else:
                c.prove('the file is deleted', z3.Not(dhas(m, p1_))); c.prove('no other file is changed', other(p1_))
        c.explore(thunk, visit)
        c.prove('reachable', n['done'] > 0)
    return unit

def unit_rollback(v):
    """rollback, from any state: after every step undoing the rest gives what undoing the whole journal would have given"""
    t = Tx(v); ip, c, w = t.ip, t.c, t.w
    f = ip.get(JFS + '.rollback'); c.func = f.qualname; backup_contract(t)
    # changes of the manifest and the journal that were not committed
    wt = c.fresh('uncommitted_files'); C0 = w.C['files'].peek()
    J0 = t.J0; N = jlen(J0); R = c.fresh('restored'); st = {}
    seen = {'done': 0, 'steps': 0}
    def check(when):
        """the committed journal is a beginning of J0; the files give the same when the rest is undone"""
        if c.suppress: return
        t.backups_ok(when)
        c.prove('%s: the committed manifest is not touched' % when, eqmap(w.C['files'].peek(), C0, z3.Const('x', V)) if not w.C['files'].peek().eq(C0) else True)
        if 'i' not in st: c.prove('%s: nothing is changed outside the steps' % when, z3.And(w.JC.peek() == J0, w.agree(w.mapof(w.fs.peek()), w.mapof(t.fs0), t.x))); return
        k, fs = st['k'], st['fs']; e = jat(J0, k - 1); m = w.mapof(w.fs.peek()); want = w.undo1(e, w.mapof(fs)); Jn = w.JC.peek()
        if c.entails(Jn == jpre(J0, k)): c.prove('%s: undoing the step again gives the same' % when, w.agree(w.undo1(e, m), want, t.x))
        else:
            c.prove('%s: a step leaves the journal only when it is last' % when, Jn == jpre(J0, k - 1))
            c.prove('%s: a step leaves the journal only when it is undone' % when, w.agree(m, want, t.x))
    def effect(kind, *info):
        if kind == 'rename' and 'i' in st and not c.suppress: to = st['to']; to.append(info[1]); c.log(lambda: to.pop(), None)
        check('after ' + kind)
    w.effect = effect
    def loop(ip, seg, body, env, node):
        if env.func is None or env.func.qualname != f.qualname: return NotImplemented
        def inv(done):
            if done.count is None: raise Unsupported('order of the steps')
            k = N - done.count; fs = w.fs.peek()
            g = st.get('cur')
            # ghost: Undo of the rest is R
            return [('the steps not undone are in the journal', z3.And(w.JC.peek() == jpre(J0, k), w.J.peek() == jpre(J0, k))),
                    ('undoing the rest restores the files', rest(fs, k)),
                    ('the manifest is the committed one', z3.And(w.T['files'].peek() == w.C['files'].peek(), w.C['files'].peek() == C0)),
                    ('backups are kept', z3.And(w.wf_backups(w.bk.peek()), kept()))]
        def kept():
            x = z3.Const('x', V); idx = cj(w.BK, c.const('.bk_idx')); b = w.bk.peek()
            return z3.ForAll([x], z3.Implies(z3.And(dhas(t.bk0, x), x != idx, x != cat(idx, c.const('_new'))), z3.And(dhas(b, x), dget(b, x) == dget(t.bk0, x))), patterns=[dhas(t.bk0, x)])
        def rest(fs, k): return Undo(jpre(J0, k), fs) == R
        def bd(v):
            jt = w.J.peek(); k = jlen(jt)
            st.update(i=True, k=k, fs=w.named(w.fs.term()), to=[]); seen['steps'] += 1
            fs, e = st['fs'], jat(J0, k - 1); a = lnth(e, 1); bk = w.bk.peek()
            body(v)
            # Undo(jpre(k), fs) is Undo(jpre(k-1), files with the step undone), by definition; the files are those (checked)
            now = w.fs.peek()
            if not c.suppress: check('after the step')
            m = w.mapof(now); want = w.undo1(e, w.mapof(fs))
            c.prove('the step is undone', w.agree(m, want, t.x))
            c.assume(Undo(jpre(J0, k), fs) == Undo(jpre(J0, k - 1), now))
            b1 = w.bk.peek()
            c.prove('a file that the transaction created is in the backup area', z3.Implies(z3.And(lnth(e, 0) == c.const('backup'), dhas(fs, a)), z3.Or(*[z3.And(inbk(d), dhas(b1, d), dget(b1, d) == dget(fs, a)) for d in st['to']])))
            for q in ('i', 'k', 'fs', 'to'): st.pop(q)
        for_inv(ip, seg, bd, env, inv, 'undoing the steps')
    ip.for_hooks = [loop]
    c.bg.append(R == Undo(J0, t.fs0)); y = z3.Const('y', V)
    c.bg.append(z3.ForAll([y], Undo(w.jnil, y) == y, patterns=[Undo(w.jnil, y)]))
    def thunk():
        for q in ('i', 'k', 'fs', 'to'): st.pop(q, None)
        t.open(); w.T['files'].replace(wt); w.J.replace(jsnoc(J0, c.fresh('uncommitted_step')))
        try: return ip.call(f, [t.jf], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): return
        seen['done'] += 1
        c.prove('the journal is empty after rolling back', z3.And(w.JC.peek() == w.jnil, w.J.peek() == w.jnil))
        c.prove('the files are restored', w.fs.peek() == R)
        c.prove('the manifest is the committed one', z3.And(w.T['files'].peek() == C0, w.C['files'].peek() == C0))
        c.prove('no transaction is active after rolling back', z3.Not(act(ip, t.jf)))
    c.explore(thunk, visit)
    c.prove('reachable', seen['done'] > 0 and seen['steps'] > 0)

def unit_commit(v):
    """commit: one database commit empties the journal and makes the manifest changes durable; only then temporary files are removed"""
    t = Tx(v, active=True); ip, c, w = t.ip, t.c, t.w
    f = ip.get(JFS + '.commit'); c.func = f.qualname
    wt = c.fresh('uncommitted_files'); C0 = w.C['files'].peek(); st = {}; n = [0]; x = t.x
    x_ = z3.Const('x', V)
    nontmp = lambda x: z3.Implies(z3.Not(intmp(x)), w.agree(w.mapof(w.fs.peek()), w.mapof(t.fs0), x))
    def effect(kind, *info):
        if c.suppress: return
        when = 'after ' + kind
        c.prove('%s: backups are not touched' % when, w.bk.peek() == t.bk0)
        before = z3.And(w.JC.peek() == t.J0, w.C['files'].peek() == C0, w.agree(w.mapof(w.fs.peek()), w.mapof(t.fs0), x))
        after = z3.And(w.JC.peek() == w.jnil, w.C['files'].peek() == wt, nontmp(x))
        if w.JC.peek().eq(t.J0) and kind != 'commit': c.prove('%s: nothing is done before the journal is emptied' % when, before)
        else: c.prove('%s: the journal is emptied and the manifest changes are kept, at once' % when, after)
    w.effect = effect
    def loop(ip, seg, body, env, node):
        if env.func is None or env.func.qualname != f.qualname: return NotImplemented
        def inv(done):
            return [('the transaction is finished', z3.And(w.JC.peek() == w.jnil, w.C['files'].peek() == wt)), ('only temporary files are removed', z3.ForAll([x_], nontmp(x_), patterns=[dhas(w.fs.peek(), x_), dget(w.fs.peek(), x_)])), ('backups are not touched', w.bk.peek() == t.bk0)]
        for_inv(ip, seg, body, env, inv, 'cleaning up')
    ip.for_hooks = [loop]
    def thunk():
        t.open(); w.T['files'].replace(wt)
        try: return ip.call(f, [t.jf], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): return
        n[0] += 1
        c.prove('the journal is empty and the manifest changes are kept', z3.And(w.JC.peek() == w.jnil, w.J.peek() == w.jnil, w.C['files'].peek() == wt, w.T['files'].peek() == wt))
        c.prove('no file of the working copy is changed', nontmp(x))
        c.prove('no transaction is active', z3.Not(act(ip, t.jf)))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

def rollback_contract(t, R, C0):
    """rollback by its contract (unit rollback): the files are R, the manifest and the journal what was committed, the journal empty"""
    ip, c, w = t.ip, t.c, t.w
    def rollback(ip, a, k, f):
        if c.choose('rollback fails'): py_raise(OSError, 5, 'rollback', errno=5)
        w.fs.replace(R)
        b = c.fresh('bk'); w.bk.replace(b)
        x = z3.Const('x', V); idx = cj(w.BK, c.const('.bk_idx'))
        c.assume([ty(b) == T_DICT, w.wf_backups(b), z3.ForAll([x], z3.Implies(z3.And(dhas(t.bk0, x), x != idx, x != cat(idx, c.const('_new'))), z3.And(dhas(b, x), dget(b, x) == dget(t.bk0, x))), patterns=[dhas(t.bk0, x)])])
        w.T['files'].replace(C0); w.C['files'].replace(C0); w.J.replace(w.jnil); w.JC.replace(w.jnil)
        ip.setattr_(t.jf, 'active_transaction', False)
        t.rolled = True; c.log(lambda: setattr(t, 'rolled', False), None)
    t.rolled = False
    ip.overrides[JFS + '.rollback'] = rollback

def unit_begin(v):
    """begin: what an interrupted transaction left is rolled back; a second transaction is refused"""
    t = Tx(v); ip, c, w = t.ip, t.c, t.w
    f = ip.get(JFS + '.begin'); c.func = f.qualname
    R = c.fresh('restored'); act0 = c.fresh('active', B); n = [0]; C0 = w.C['files'].peek()
    rollback_contract(t, R, C0)
    def effect(kind, *info): 
        if not c.suppress: c.prove('beginning changes nothing but by rolling back', False)
    w.effect = effect
    def thunk():
        t.open(); ip.setattr_(t.jf, 'active_transaction', SB(act0))
        try: return ip.call(f, [t.jf], {})
        except PyExc as e: return e
    def visit(r):
        if not t.rolled: c.prove('nothing is changed without rolling back', z3.And(w.fs.peek() == t.fs0, w.JC.peek() == t.J0, w.C['files'].peek() == C0))
        if isinstance(r, PyExc): return
        n[0] += 1
        c.prove('what an interrupted transaction left is rolled back first', z3.Or(t.J0 == w.jnil, z3.BoolVal(t.rolled)))
        c.prove('a transaction that is active is not begun again', z3.Or(z3.Not(act0), z3.BoolVal(t.rolled)))
        c.prove('the journal is empty', z3.And(w.J.peek() == w.jnil, w.JC.peek() == w.jnil)); c.prove('a transaction is active', act(ip, t.jf))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

def act(ip, jf):
    a = ip.truth(ip.getattr_(jf, 'active_transaction'))
    return a if z3.is_expr(a) else z3.BoolVal(bool(a))

UNITS = [('new_tmp', unit_tmp), ('new_backup', unit_backup)] + [(n, unit_op(n)) for n in ('file_put_contents', 'move_file', 'delete_file')] + [('rollback', unit_rollback), ('commit', unit_commit), ('begin', unit_begin)]

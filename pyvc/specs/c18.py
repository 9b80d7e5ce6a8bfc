"""C18: a file of the working copy and its manifest entry change as one.

At every moment the process can die either undoing what the journal records gives the files as they were and the committed manifest is what it
was, or the journal is empty and both the files and the committed manifest are what was asked for.  The operations of the transaction are
executed for real (not by contract); rolling back, temporary and backup names by their contracts (C17)."""
import z3
from ..core import *
from ..values import *
from ..cworld import *
from .c17 import Tx, tmp_contract, backup_contract, act

def unit(name):
    def run(v):
        t = Tx(v); ip, c, w = t.ip, t.c, t.w; K = c.const
        q = CFI + '.' + name; f = ip.get(q); c.func = q
        tmp_contract(t); backup_contract(t)
        C0 = w.C['files'].peek(); R = c.fresh('files_before'); x2, y = c.fresh('x2'), c.fresh('row')
        c.bg.append(ty(R) == T_DICT); z = z3.Const('z', V)
        c.bg.append(z3.ForAll([z], z3.Implies(dhas(R, z), z3.Not(isdir(z))), patterns=[dhas(R, z)]))
        # the manifest holds one row per path, with times that are numbers
        row = dget(C0, z)
        c.bg.append(z3.ForAll([z], z3.Implies(z3.And(dhas(C0, z), rk1(z) == w.dbp), z3.And(z == rk(w.dbp, rk2(z)), ty(row) == T_DICT, dget(row, K('path')) == rk2(z), *[dhas(row, K(s)) for s in CWorld.COLS['files']],
            *[F('float_parses', V, B)(dget(row, K(s))) for s in ('last_mod', 'created')])), patterns=[dhas(C0, z)]))
        rp, p = t.user_path('path'); rd, d = t.user_path('dest'); hsh = c.fresh('server_hash'); c.bg.append(ty(hsh) == T_STR)
        dl = cj(w.D, K('.bvn/downloading'))
        c.bg += [p != dl, d != dl]
        data = c.fresh('data'); c.bg += [ty(data) == T_BYTES, z3.Not(F('is_callable', V, B)(data))]
        st = {'begun': False, 'written': None}; n = {'done': 0, 'failed': 0}
        def begin(ip, a, k, fn):
            if c.choose('begin fails'): py_raise(OSError, 5, 'begin', errno=5)
            w.fs.replace(R); w.J.replace(w.jnil); w.JC.replace(w.jnil); ip.setattr_(t.jf, 'active_transaction', True)
            st['begun'] = True; c.log(lambda: st.update(begun=False), None)
        ip.overrides[JFS + '.begin'] = begin
        rolled = [False]
        def rollback(ip, a, k, fn):
            st['tried'] = True
            if c.choose('rollback fails'): py_raise(OSError, 5, 'rollback', errno=5)
            if st['begun']: w.fs.replace(undone())
            w.T['files'].replace(w.C['files'].peek())
            for b in (w.J, w.JC): b.replace(w.jnil)
            ip.setattr_(t.jf, 'active_transaction', False)
        ip.overrides[JFS + '.rollback'] = rollback
        def undone():
            """the files when the steps recorded are undone (what rollback makes of them)"""
            es = w.unwind(w.JC.peek(), w.jnil)
            if es is None: raise Unsupported('journal')
            m = w.mapof(w.fs.peek())
            for e in es: m = w.undo1(e, m)
            if not es: return w.fs.peek()
            f1 = c.fresh('fs'); c.assume([ty(f1) == T_DICT, z3.ForAll([z], z3.And(dhas(f1, z) == m[0](z), z3.Implies(m[0](z), dget(f1, z) == m[1](z))), patterns=[dhas(f1, z)]), z3.ForAll([z], z3.Implies(m[0](z), dget(f1, z) == m[1](z)), patterns=[dget(f1, z)])])
            return f1
        key = lambda r: rk(w.dbp, r)
        def others(m, *ps): return z3.Implies(z3.And(z3.Not(intmp(x2)), x2 != dl, *[x2 != q for q in ps]), w.agree(m, w.mapof(R), x2))
        def rows(M, *rs): return z3.Implies(z3.And(*[y != key(r) for r in rs]), z3.And(dhas(M, y) == dhas(C0, y), z3.Implies(dhas(M, y), dget(M, y) == dget(C0, y))))
        def entry(M, r, path, h):
            e = dget(M, key(r)); s = dget(w.stamp.peek(), path)
            return z3.And(dhas(M, key(r)), dget(e, K('path')) == r, dget(e, K('last_mod')) == bi.strof(mtime(s)), dget(e, K('created')) == bi.strof(ctime(s)), dget(e, K('server_file_hash')) == h)
        def both():
            fs, M = w.fs.peek(), w.C['files'].peek(); m = w.mapof(fs)
            if name == 'fs_put':
                return [z3.And(dhas(fs, p), dget(fs, p) == st['written'] if st['written'] is not None else True), others(m, p), entry(M, rp, p, hsh), rows(M, rp)]
            if name == 'fs_move':
                h = dget(dget(C0, key(rp)), K('server_file_hash'))
                return [z3.And(dhas(fs, d), dget(fs, d) == dget(R, p), z3.Implies(p != d, z3.Not(dhas(fs, p)))), others(m, p, d), entry(M, rd, d, h), z3.Implies(rp != rd, z3.Not(dhas(M, key(rp)))), rows(M, rp, rd)]
            return [z3.Not(dhas(fs, p)), others(m, p), z3.Not(dhas(M, key(rp))), rows(M, rp)]
        x1 = c.fresh('x1')
        def neither():
            es = w.unwind(w.JC.peek(), w.jnil)
            if es is None: return z3.BoolVal(False)
            m = w.mapof(w.fs.peek())
            for e in es: m = w.undo1(e, m)
            M = w.C['files'].peek(); y1 = t.x
            return z3.And(w.agree(m, w.mapof(R), x1), z3.BoolVal(True) if M.eq(C0) else z3.And(dhas(M, y1) == dhas(C0, y1), z3.Implies(dhas(M, y1), dget(M, y1) == dget(C0, y1))))
        def effect(kind, *info):
            if c.suppress: return
            if not st['begun']: c.prove('nothing is changed before the transaction begins', False); return
            if w.unwind(w.JC.peek(), w.jnil) == []: c.prove('after %s: file and manifest are both as they were or both as asked for' % kind, z3.Or(neither(), z3.And(*both())))
            else: c.prove('after %s: undoing what is recorded restores the files, the manifest is as it was' % kind, neither())
        w.effect = effect
        w.journal_insert = lambda e: None if c.suppress else c.prove('a step that is recorded can be undone', w.wf_entry(e))
        def loop(ip, seg, body, env, node):
            if env.func is None or env.func.qualname != JFS + '.commit': return NotImplemented
            from ..loops import for_inv
            f0 = w.fs.peek()
            nt = lambda x: z3.Implies(z3.Not(intmp(x)), w.agree(w.mapof(w.fs.peek()), w.mapof(f0), x))
            def inv(done): return [('only temporary files are removed', z3.ForAll([z], nt(z), patterns=[dhas(w.fs.peek(), z), dget(w.fs.peek(), z)]))]
            for_inv(ip, seg, body, env, inv, 'cleaning up')
        ip.for_hooks = [loop]
        def writer(ip, a, k):
            w.may_fail('writer')
            if c.choose('nothing written'): return None
            for i in range(2):
                b = c.fresh('part'); c.assume(ty(b) == T_BYTES)
                w.put(ip.term(a[0]), b); st['written'] = b
        def thunk():
            t.open(); st.update(begun=False, written=None, tried=False); w.fs.replace(c.fresh('fs'))
            o = ip.call(ip.get(CFI), [t.db, t.jf], {})
            a = [Box(rp)]; k = {}
            if name == 'fs_put':
                if c.choose('a writer is given'): a.append(Native('writer', writer))
                else: a.append(Box(data)); st['written'] = data
                k = {'additional_manifest_data': DictObj({'server_file_hash': Box(hsh)})}
            if name == 'fs_move': a.append(Box(rd))
            try: return ip.call(ip.getattr_(o, name), a, k)
            except PyExc as e: return e
        def visit(r):
            if isinstance(r, PyExc):
                n['failed'] += 1
                c.prove('a failed operation is rolled back', z3.BoolVal(st['tried']))
                if st['begun']:
                    if w.unwind(w.JC.peek(), w.jnil) == []: c.prove('after a failure: file and manifest are both as they were or both as asked for', z3.Or(neither(), z3.And(*both())))
                    else: c.prove('after a failure: undoing what is recorded restores the files, the manifest is as it was', neither())
                return
            n['done'] += 1
            bs = both()
            c.prove('the file is changed as asked for', bs[0]); c.prove('no other file is changed', bs[1])
            for b in bs[2:]: c.prove('the manifest is changed as asked for, for this path only', b)
            c.prove('the transaction is finished', z3.And(w.JC.peek() == w.jnil, w.J.peek() == w.jnil, z3.Not(act(ip, t.jf)), w.T['files'].peek() == w.C['files'].peek()))
        c.explore(thunk, visit)
        c.prove('reachable', n['done'] > 0 and n['failed'] > 0)
    return run

UNITS = [(n, unit(n)) for n in ('fs_delete', 'fs_put', 'fs_move')]

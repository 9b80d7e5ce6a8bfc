"""C19: update never overwrites local work and records only what it applied.

The real update is executed symbolically.  The server answers with any lists of changes (each path in one list at most, C15); the answer of
every request, and the outcome of every step on the working copy, is arbitrary.  Writing and removing files of the working copy with
their manifest entries is used by contract (C18), resolving conflicts by contract (C20)."""
import z3
from ..core import *
from ..values import *
from ..env_base import setm, trust
from .c16 import fnm
from ..srv import chain

Q = 'bversion.client.update'; RES = 'bversion.client.resolve_update_conflicts'
trust('fnmatch', 'fnmatch.fnmatch(path, filter) is a function of the two texts')

class Server:
    """lists of changes as the server answers them: path -> entry, no path in two lists"""
    LISTS = ('client_pull_files', 'to_delete_on_client', 'to_delete_on_server', 'client_push_files')
    def __init__(self, ip):
        self.ip = ip; c = self.c = ip.ctx; K = c.const; z = z3.Const('z', V)
        self.m = {n: c.fresh(n) for n in self.LISTS}; self.conf = c.fresh('conflicts')
        every = list(self.m.values()) + [self.conf]
        for i, D in enumerate(every):
            e = dget(D, z); fi = e if D is not self.conf else dget(e, K('file_info'))
            body = [ty(z) == T_STR, ty(e) == T_DICT, ty(fi) == T_DICT, dhas(fi, K('path')), dget(fi, K('path')) == z, dhas(fi, K('hash')), ty(dget(fi, K('hash'))) == T_STR] + [z3.Not(dhas(o, z)) for o in every[:i]]
            if D is self.conf: body += [dhas(e, K('file_info'))] + [z3.And(dhas(e, K(s)), z3.Or(dget(e, K(s)) == K('Changed'), dget(e, K(s)) == K('Deleted'))) for s in ('client_status', 'server_status')]
            c.bg += [ty(D) == T_DICT, z3.ForAll([z], z3.Implies(dhas(D, z), z3.And(*body)), patterns=[dhas(D, z)])]
    def fam(self, D):
        k = self.c.fresh('k'); return ListObj([DSeg([k], dhas(D, k), Box(dget(D, k)), False)])
    def changes(self):
        d = {n: self.fam(D) for n, D in self.m.items()}; d['conflict_files'] = self.fam(self.conf)
        return DictObj(d)
    def server_side(self, s):
        """conflicts whose server status is s"""
        return lambda z: z3.And(dhas(self.conf, z), dget(dget(self.conf, z), self.c.const('server_status')) == self.c.const(s))

def client(ip):
    c = ip.ctx
    ip.import_module('bversion.client')
    mod = ip.modules['bversion.client'].vars
    mod['colored'] = Native('colored', lambda ip, a, k: a[0])
    return mod

def ignoring(ip, flt):
    """ignored(path): some filter matches"""
    c = ip.ctx; q = z3.Const('q', V); i = z3.Int('i')
    ign = F('ignored', V, B); wi = F('ignored_by', V, I)
    ip.trusted.add('fnmatch')
    setm(ip, 'fnmatch', 'fnmatch', lambda ip, a, k: ip.mkbool(fnm(ip.term(a[0]), ip.term(a[1]))))
    c.bg.append(z3.ForAll([q], z3.Implies(ign(q), z3.And(wi(q) >= 0, wi(q) < llen(flt), fnm(q, lnth(flt, wi(q))))), patterns=[ign(q)]))
    c.bg.append(z3.ForAll([q, i], z3.Implies(z3.And(i >= 0, i < llen(flt), fnm(q, lnth(flt, i))), ign(q)), patterns=[fnm(q, lnth(flt, i))]))
    return ign

def texts(ip):
    """json texts keep the value they were made of"""
    c = ip.ctx; T = {}
    def carry(val):
        t = c.fresh('text'); c.assume(ty(t) == T_STR); T[t.get_id()] = (val, t); return Box(t)
    setm(ip, 'json', 'dumps', lambda ip, a, k: carry(a[0]))
    def loads(ip, a, k):
        if isinstance(a[0], Box) and a[0].peek().get_id() in T: return T[a[0].peek().get_id()][0]
        raise Unsupported('json.loads of some other text')
    setm(ip, 'json', 'loads', loads)
    return carry

def unit(v, conflicts, pulls, dels):
    ip = v.interp(); c = ip.ctx; K = c.const; z = z3.Const('z', V)
    mod = client(ip); f = ip.get(Q); c.func = Q
    sv = Server(ip); carry = texts(ip)
    L = c.fresh('local_changes'); flt = c.fresh('filters')
    c.bg += [ty(L) == T_DICT, ty(flt) == T_LIST, z3.ForAll([z], z3.Implies(dhas(L, z), z3.And(ty(dget(L, z)) == T_DICT, dhas(dget(L, z), K('status')))), patterns=[dhas(L, z)])]
    c0 = c.fresh('a_conflict'); p0 = c.fresh('a_pull')
    c.bg.append(dhas(sv.conf, c0) if conflicts else z3.ForAll([z], z3.Not(dhas(sv.conf, z)), patterns=[dhas(sv.conf, z)]))
    pl = sv.m['client_pull_files']
    c.bg.append(dhas(pl, p0) if pulls else z3.ForAll([z], z3.Not(dhas(pl, z)), patterns=[dhas(pl, z)]))
    dl, d0 = sv.m['to_delete_on_client'], c.fresh('a_removal')
    c.bg.append(dhas(dl, d0) if dels else z3.ForAll([z], z3.Not(dhas(dl, z)), patterns=[dhas(dl, z)]))
    ign = ignoring(ip, flt)
    tok, usr, rep = [c.fresh(x) for x in ('token', 'user', 'repository')]
    rev, head = c.fresh('have_revision'), c.fresh('head')
    c.bg += [ty(t) == T_STR for t in (tok, usr, rep, rev, head)]
    cfg = {'data_dir': c.fresh('data_dir'), 'user': usr, 'repository': rep, 'conflict_resolution_file': c.fresh('crf'), 'conflict_comparison_file_root': c.fresh('ccr')}
    mod['config'] = DictObj({k: Box(x) for k, x in cfg.items()}); mod['config'].d['pull_ignore_filters'] = Box(flt)
    ip.overrides['bversion.client.find_local_changes'] = lambda ip, a, k, f: Box(L)
    # the chosen sides: conflicts to be taken from the server
    take = F('resolved_to_server', V, B)
    pulled0 = lambda z: z3.Or(dhas(sv.m['client_pull_files'], z), z3.And(sv.server_side('Changed')(z), take(z)))
    gone0 = lambda z: z3.Or(dhas(sv.m['to_delete_on_client'], z), z3.And(sv.server_side('Deleted')(z), take(z)))
    info = lambda z: z3.If(dhas(sv.m['client_pull_files'], z), dget(sv.m['client_pull_files'], z), dget(dget(sv.conf, z), K('file_info')))
    G = Obj('ghost', dict(touched=False, recorded=False, pending=False))
    def resolve(ip, a, k, fn):
        ch = a[1]
        if c.choose('the update is stopped'): py_raise(SystemExit, 'conflicts')
        for n, s in (('client_pull_files', 'Changed'), ('to_delete_on_client', 'Deleted')):
            x = c.fresh('k')
            fam = ListObj([DSeg([x], z3.And(sv.server_side(s)(x), take(x)), Box(dget(dget(sv.conf, x), K('file_info'))), False)])
            ip.call(ip.getattr_(ip.load_key(ch, n), 'extend'), [fam], {})
        ip.store_key(ch, 'conflict_files', ListObj())
        return ch
    ip.overrides[RES] = resolve
    # manifest: path -> hash of the server's version of the file as it was last put (or nothing)
    MF0 = c.fresh('manifest'); c.bg.append(ty(MF0) == T_DICT)
    MF, WR, RM = Box(MF0), Box(c.c_empty), Box(c.c_empty)     # manifest; files put (path -> content); files removed
    content = F('content_at_head', V, V)                 # what the server holds for a path at the new version
    def request(ip, a, k):
        url, hd = a[0], a[1]
        c.prove('the request names the session and the repository', z3.And(ip.term(ip.load_key(hd, 'session_token')) == tok, ip.term(ip.load_key(hd, 'repository')) == rep))
        if c.choose('connection fails'): py_raise(OSError, 5, 'connection', errno=5)
        if c.choose('refused'):
            s, m = c.fresh('status'), c.fresh('msg'); c.assume([ty(s) == T_STR, ty(m) == T_STR, s != K('ok')])
            return (Box(c.fresh('body')), DictObj({'status': Box(s), 'msg': Box(m)}))
        if url == 'find_changed':
            c.prove('changes are asked for from the revision the working copy is at', ip.term(ip.load_key(hd, 'previous_revision')) == rev)
            data = a[2] if len(a) > 2 else k.get('data')
            c.prove('the local changes are sent', ip.term(ip.externals['json'].attrs['loads'].fn(ip, [ip.load_key(data, 'client_changes')], {})) == L)
            d = {'sorted_changes': sv.changes(), 'head': Box(head)}
            for n in ('commit_by', 'commit_time', 'commit_msg'):
                t = c.fresh(n); c.assume(ty(t) == T_STR); d[n] = Box(t)
            return (carry(DictObj(d)), DictObj({'status': 'ok'}))
        c.prove('only changes and files are asked for', url == 'pull_file')
        p = ip.term(ip.load_key(hd, 'path'))
        c.prove('files are fetched at the new version', z3.And(ip.term(ip.load_key(hd, 'version_id')) == head, ip.term(ip.load_key(hd, 'use_head')) == K('0')))
        if url != 'pull_file': raise PathEnd()
        return (Box(content(p)), DictObj({'status': 'ok'}))
    mod['server_connection'] = Obj('connection', {'request': Native('request', request)})
    def fs_put(ip, a, k):
        p = ip.term(a[0]); got = ip.term(a[1])
        c.prove('only files reported as pulled, or resolved to the server, are written', pulled0(p))
        c.prove('pull-ignored files are not written', z3.Not(ign(p)))
        c.prove('what is written is the file of the new version', got == content(p))
        md = k.get('additional_manifest_data', a[2] if len(a) > 2 else None)
        h = ip.term(ip.load_key(md, 'server_file_hash'))
        c.prove('the version recorded of a file is the one written', h == dget(info(p), K('hash')))
        if c.choose('put fails'): py_raise(OSError, 5, 'put', errno=5)
        MF.set_key(p, h); WR.set_key(p, got)
    def fs_delete(ip, a, k):
        p = ip.term(a[0])
        c.prove('only files reported as removed, or resolved to the server, are removed', gone0(p))
        if c.choose('delete fails'):
            no = c.fresh('errno', I); py_raise(OSError, SI(no), 'delete', errno=SI(no))
        MF.del_key(p); RM.set_key(p, K(True))
    dp = F('full_path', V, V)
    def full(ip, a, k):
        t = dp(ip.term(a[0])); c.assume(ty(t) == T_STR); return Box(t)
    mod['data_store'] = Obj('data_store', {'fs_put': Native('fs_put', fs_put), 'fs_delete': Native('fs_delete', fs_delete), 'jfs': Obj('jfs', {'get_full_file_path': Native('get_full_file_path', full)})})
    row = lambda h: dset(c.c_empty, K('server_file_hash'), h)
    def single(ip, a, k):
        p = ip.term(a[0]); MF.log_key_read(p); m = MF.peek()
        if c.decide(ip.dhas_simp(m, p)): return DictObj({'path': a[0], 'server_file_hash': Box(ip.dget_simp(m, p))})
        return None
    def forget(ip, a, k):
        p = ip.term(a[0])
        c.prove('only entries of removed files are dropped', gone0(p))
        MF.del_key(p); RM.set_key(p, K(True))
    def meta(ip, a, k): return DictObj({'have_revision': Box(rev), 'format_version': Box(K('1'))})
    x = c.fresh('x')
    def upd(ip, a, k):
        c.prove('the version recorded is the one updated to', ip.term(ip.load_key(a[0], 'have_revision')) == head)
        m, wr = MF.peek(), WR.peek()
        have = z3.And(dhas(MF0, x), dget(MF0, x) == dget(info(x), K('hash')), z3.Or(z3.Not(dhas(L, x)), dget(dget(L, x), K('status')) == K('unchanged')))
        c.prove('the version is recorded only when every file pulled is there at that version', z3.Implies(z3.And(pulled0(x), z3.Not(ign(x))), z3.And(z3.Or(z3.And(dhas(wr, x), dget(wr, x) == content(x), dhas(m, x), dget(m, x) == dget(info(x), K('hash'))), have))))
        c.prove('the version is recorded only when every removal is applied', z3.Implies(gone0(x), dhas(RM.peek(), x)))
        ip.setattr_(G, 'recorded', True)
    def cc(ip, a, k):
        if c.choose('commit fails'): py_raise(OSError, 5, 'commit', errno=5)
    mod['cdb'] = Obj('client_db', {n: Native(n, g) for n, g in dict(get_system_meta=meta, update_system_meta=upd, get_single_file_from_manifest=single, remove_file_from_manifest=forget, commit=cc).items()})
    # helpers whose effects are outside the statement
    def mkdirs(ip, a, k, fn=None):
        if c.choose('mkdir fails'): py_raise(OSError, 5, 'mkdir', errno=5)
    ip.overrides['bversion.common.make_dirs_if_dont_exist'] = mkdirs
    def join(ip, a, k, fn):
        t = c.fresh('joined'); c.assume(ty(t) == T_STR); return Box(t)
    ip.overrides['bversion.common.cpjoin'] = join
    def rmdirs(ip, a, k):
        if c.choose('rmdir fails'):
            no = c.fresh('errno', I); py_raise(OSError, SI(no), 'rmdir', errno=SI(no))
    setm(ip, 'os', 'removedirs', rmdirs)
    cleaned = []
    def drop(ip, a, k):
        p = ip.term(a[0])
        c.prove('only the remains of conflict resolution are cleaned up', z3.Or(p == cfg['conflict_resolution_file'], p == cfg['conflict_comparison_file_root']))
    setm(ip, 'os', 'remove', drop); setm(ip, 'shutil', 'rmtree', drop)
    n = dict(done=0, failed=0)
    def thunk():
        MF.replace(MF0); WR.replace(c.c_empty); RM.replace(c.c_empty); G.attrs['recorded'] = False
        try: return ip.call(f, [Box(tok)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): n['failed'] += 1; return
        if G.attrs['recorded'] is True: n['done'] += 1
    c.explore(thunk, visit)
    c.prove('reachable', n['done'] > 0 and n['failed'] > 0)

UNITS = [('update: %s, %s, %s' % (a[1], b[1], d[1]), lambda v, a=a[0], b=b[0], d=d[0]: unit(v, a, b, d))
         for a in ((True, 'with conflicts'), (False, 'no conflict')) for b in ((True, 'pulling'), (False, 'nothing reported to pull')) for d in ((True, 'removing'), (False, 'nothing reported to remove'))]

"""C21: a client commit sends exactly the local changes and records only success.

The real client commit is executed symbolically.  Local changes: any map (find_local_changes by its contract, C16).  Server: a ghost holding
the staged changes of the open commit, with the contracts of the requests (C04, C10, C12, C14); any request may be refused, and any may
raise, before or after it took effect.  The client database is executed for real on its tables."""
import z3
from ..core import *
from ..values import *
from ..cworld import *
from ..env_base import setm
from ..verify import Verifier
from ..tree import bind
from .. import builtins_ as bi

Q = 'bversion.client.commit'

def unit(v, gone, resumed):
    ip = v.interp(); c = ip.ctx; K = c.const
    w = CWorld(ip); ip.import_module('bversion.client')
    f = ip.get(Q); c.func = Q
    mod = ip.modules['bversion.client'].vars
    z, z2 = z3.Consts('z z2', V)
    L, H, P = c.fresh('local_changes'), c.fresh('head'), c.fresh('staged')
    kp, ks, kh = K('path'), K('status'), K('hash')
    st = lambda e: dget(e, ks)
    is_ = lambda e, s: st(e) == K(s)
    # local changes: path -> entry with that path; a file that is gone is one of the head
    e = dget(L, z)
    c.bg += [ty(L) == T_DICT, ty(H) == T_DICT, ty(P) == T_DICT, z3.ForAll([z], z3.Implies(dhas(L, z), z3.And(ty(z) == T_STR, ty(e) == T_DICT, dhas(e, kp), dget(e, kp) == z, dhas(e, ks),
        dhas(e, K('last_mod')), dhas(e, K('created')), z3.Or(is_(e, 'new'), is_(e, 'changed'), is_(e, 'deleted')), z3.Implies(is_(e, 'deleted'), dhas(H, z)))), patterns=[dhas(L, z)])]
    def wf_staged(S):
        r = dget(S, z)
        return z3.ForAll([z], z3.Implies(dhas(S, z), z3.And(ty(z) == T_STR, ty(r) == T_DICT, dhas(r, kp), dget(r, kp) == z, dhas(r, ks), dhas(r, kh), ty(dget(r, kh)) == T_STR, is_(r, 'new') == z3.Not(dhas(H, z)), z3.Or(is_(r, 'new'), is_(r, 'changed')))), patterns=[dhas(S, z)])
    c.bg.append(wf_staged(P))
    # the cases of the proof: something is deleted locally or not, an interrupted attempt left uploads or not
    d0, u0 = c.fresh('gone'), c.fresh('uploaded')
    c.bg.append(z3.And(dhas(L, d0), is_(dget(L, d0), 'deleted')) if gone else z3.ForAll([z], z3.Implies(dhas(L, z), z3.Not(is_(dget(L, z), 'deleted'))), patterns=[dhas(L, z)]))
    c.bg.append(dhas(P, u0) if resumed else z3.ForAll([z], z3.Not(dhas(P, z)), patterns=[dhas(P, z)]))
    S = Box(P)                                  # path -> uploaded row
    D = Box(c.c_empty)                          # paths staged as deleted
    C0, M0 = w.C['files'].peek(), w.C['meta'].peek()
    key = lambda r: rk(w.dbp, r)
    c.bg.append(z3.ForAll([z], z3.Implies(dhas(C0, z), z3.And(z3.Implies(rk1(z) == w.dbp, z3.And(z == key(rk2(z)), dhas(H, rk2(z)))))), patterns=[dhas(C0, z)]))
    c.bg.append(z3.ForAll([z], z3.And(rk1(key(z)) == w.dbp, rk2(key(z)) == z), patterns=[key(z)]))
    mrow = lambda M: dget(M, rk(w.dbp, K('@')))
    c.bg += [dhas(mrow(M0), K('have_revision')), dhas(mrow(M0), K('format_version')), ty(mrow(M0)) == T_DICT, ty(dget(mrow(M0), K('have_revision'))) == T_STR]
    tok, usr, rep, msg, dd = [c.fresh(x) for x in ('token', 'user', 'repository', 'message', 'data_dir')]
    c.bg += [ty(t) == T_STR for t in (tok, usr, rep, msg)]
    mod['config'] = DictObj({'data_dir': Box(w.D), 'user': Box(usr), 'repository': Box(rep)})
    ip.overrides['bversion.client.find_local_changes'] = lambda ip, a, k, f: Box(L)
    setm(ip, 'pprint', 'pprint', lambda ip, a, k: None)
    G = Obj('ghost', dict(open=False, refused=False, accepted=False, last=None, head=None, requests=0, broken=False))
    def setg(n, val): ip.setattr_(G, n, val)
    texts = {}
    dumps0, loads0 = ip.externals['json'].attrs['dumps'].fn, ip.externals['json'].attrs['loads'].fn
    def carry(val):
        t = c.fresh('text'); c.assume(ty(t) == T_STR); texts[t.get_id()] = (val, t); return Box(t)
    setm(ip, 'json', 'dumps', lambda ip, a, k: carry(a[0]))
    def loads(ip, a, k):
        if isinstance(a[0], Box) and a[0].peek().get_id() in texts: return texts[a[0].peek().get_id()][0]
        raise Unsupported('json.loads of some other text')
    setm(ip, 'json', 'loads', loads)
    x = c.fresh('x')
    lcl = lambda p: cj(w.D, p)
    local = lambda p: ip.dget_simp(w.fs.peek(), lcl(p))
    c.bg.append(z3.ForAll([z], z3.And(z3.Not(inbk(lcl(z))), z3.Not(intmp(lcl(z)))), patterns=[lcl(z)]))
    def unchanged(when):
        y = c.fresh('y')
        for t, o in (('files', C0), ('meta', M0)):
            for m in (w.C, w.T): 
                if not m[t].peek().eq(o): c.prove('%s: nothing is recorded' % when, False)
    def arrives(what, hd):
        """the request, checked; None when it takes no effect"""
        setg('last', what); setg('requests', 1)
        if not c.suppress: unchanged('when asking the server')
        for n, t in (('session_token', tok), ('repository', rep)): c.prove('the request names the session and the repository', ip.term(ip.load_key(hd, n)) == t)
        if c.choose('connection fails before'): setg('broken', True); py_raise(OSError, 5, 'connection', errno=5)
        if c.choose('refused'):
            s, m = c.fresh('status'), c.fresh('msg'); c.assume([ty(s) == T_STR, ty(m) == T_STR, s != K('ok')])
            return DictObj({'status': Box(s), 'msg': Box(m)})
        return None
    def answers(body, hd=None):
        if c.choose('connection fails after'): setg('broken', True); py_raise(OSError, 5, 'connection', errno=5)
        d = DictObj({'status': 'ok'}); d.d.update(hd or {})
        return (body, d)
    def deleting(lst):
        """the contract of delete_files: each path of the head is staged as deleted, uploads of each path are dropped"""
        c.assume(z3.BoolVal(True))
        fams = []
        for s in ip.iter_segs(lst):
            if isinstance(s, PSeg): fams += [([], z3.BoolVal(True), path_of(xx)) for xx in s.items]
            else: fams.append((s.bvs, s.cond, path_of(s.value)))
        inl = c.fresh_fun('to_delete', V, B)
        alts = []
        for bvs, cond, pv in fams:
            p = pv
            if bvs:
                c.assume(z3.ForAll(bvs, z3.Implies(cond, inl(p)), patterns=pats_of(bvs, cond, p)))
                wi = [c.fresh_fun('which', V, b.sort()) for b in bvs]; sub = [(b, g(z)) for b, g in zip(bvs, wi)]
                alts.append(z3.And(z3.substitute(cond, *sub), z3.substitute(p, *sub) == z))
            else: c.assume(inl(p)); alts.append(p == z)
        c.assume(z3.ForAll([z], z3.Implies(inl(z), z3.Or(*alts) if alts else z3.BoolVal(False)), patterns=[inl(z)]))
        for b, g in ((S, lambda o: z3.And(dhas(o, z), z3.Not(inl(z)))), (D, lambda o: z3.Or(dhas(o, z), z3.And(inl(z), dhas(H, z))))):
            o = b.peek(); n = c.fresh('staged'); hg = g(o)
            c.assume([ty(n) == T_DICT, z3.ForAll([z], z3.And(dhas(n, z) == hg, z3.Implies(dhas(o, z), dget(n, z) == dget(o, z))), patterns=[dhas(n, z)]), z3.ForAll([z], z3.Implies(dhas(o, z), dget(n, z) == dget(o, z)), patterns=[dget(n, z)])])
            b.replace(n)
    def path_of(o):
        t = ip.term(o)
        return ip.dget_simp(t, kp)
    def pats_of(bvs, cond, p):
        from ..loops import forall
        return [cond.arg(0)] if z3.is_and(cond) and cond.num_args() else [cond] if z3.is_app(cond) and cond.num_args() and not z3.is_quantifier(cond) and cond.decl().kind() == z3.Z3_OP_UNINTERPRETED else [p]
    def request(ip, a, k):
        d = bind_args(('url', 'headers', 'data'), a, k)
        url, hd = d['url'], d['headers']
        n = arrives(url, hd)
        if url == 'begin_commit':
            c.prove('the commit starts from the revision the working copy is at', ip.term(ip.load_key(hd, 'previous_revision')) == dget(mrow(M0), K('have_revision')))
            c.prove('no commit is begun inside another', z3.Not(truth(G.attrs['open'])))
            if n is not None: return (Box(c.fresh('body')), n)
            setg('open', True)
            kk = c.fresh('k'); cur = S.term()
            prev = ListObj([DSeg([kk], dhas(cur, kk), Box(dget(cur, kk)), False)])
            return answers(carry(DictObj({'partial_commit': prev})))
        if url == 'delete_files':
            c.prove('changes are sent inside the commit', truth(G.attrs['open']))
            if n is not None: setg('refused', True); return (Box(c.fresh('body')), n)
            fl = ip.load_key(d['data'], 'files')
            deleting(loads(ip, [fl], {}))
            return answers('')
        if url == 'commit':
            mode = ip.load_key(hd, 'mode')
            if isinstance(mode, Box): mode = 'commit' if c.decide(mode.term() == K('commit')) else 'abort'
            c.prove('a commit is asked for or given up', mode in ('commit', 'abort'))
            setg('last', mode)
            if mode == 'commit':
                c.prove('the message given is sent', ip.term(ip.load_key(hd, 'commit_message')) == msg)
                c.prove('a commit is asked for only if every step was accepted', z3.And(truth(G.attrs['open']), z3.Not(truth(G.attrs['refused']))))
                s, dl, e = S.peek(), D.peek(), dget(L, x)
                up = z3.And(dhas(L, x), z3.Or(is_(e, 'new'), is_(e, 'changed')))
                c.prove('every local deletion is committed', z3.Implies(z3.And(dhas(L, x), is_(e, 'deleted')), z3.And(z3.Not(dhas(s, x)), dhas(dl, x))))
                c.prove('every local addition and change is committed, with the content it has', z3.Implies(up, z3.And(dhas(s, x), dget(dget(s, x), kh) == sha(local(x)))))
                c.prove('nothing else is committed', z3.Implies(z3.Not(dhas(L, x)), z3.And(z3.Not(dhas(s, x)), z3.Not(dhas(dl, x)))))
            if n is not None: return (Box(c.fresh('body')), n)
            setg('open', False)
            if mode == 'abort': S.replace(c.c_empty); D.replace(c.c_empty); return answers('')
            h = c.fresh('new_head'); c.assume(ty(h) == T_STR)
            r = answers('', {'head': Box(h)})
            setg('accepted', True); setg('head', Box(h))
            return r
        c.prove('only requests of a commit are sent', False)
        raise PathEnd()
    def bind_args(names, a, k):
        d = dict(zip(names, a)); d.update(k); return d
    def truth(x):
        t = ip.truth(x); return t if z3.is_expr(t) else z3.BoolVal(bool(t))
    def send_file(ip, a, k):
        d = bind_args(('url', 'headers', 'file_path'), a, k); 
        vals = list(a) + list(k.values())
        url, hd, fp = vals[0], vals[1], vals[2]
        c.prove('a file is pushed', url == 'push_file')
        p = ip.term(ip.load_key(hd, 'path')); fpt = ip.term(fp)
        if not c.decide(w.exists(fp)): w.nofile()
        n = arrives(url, hd)
        c.prove('changes are sent inside the commit', truth(G.attrs['open']))
        c.prove('the file pushed is the one of the path', fpt == lcl(p))
        if n is not None: setg('refused', True); return (Box(c.fresh('body')), n)
        row = c.c_empty
        for kk, val in ((kp, p), (kh, sha(local(p))), (ks, z3.If(dhas(H, p), K('changed'), K('new')))): row = dset(row, kk, val)
        S.set_key(p, row)
        D.del_key(p)
        return answers('', {'file_info_json': carry(Box(row))})
    mod['server_connection'] = Obj('connection', {'request': Native('request', request), 'send_file': Native('send_file', send_file)})
    n = dict(done=0, none=0, failed=0)
    def thunk():
        w.failing = False
        mod['cdb'] = client_db(w)
        w.failing = True
        S.replace(P); D.replace(c.c_empty)
        for kx, vx in dict(open=False, refused=False, accepted=False, last=None, head=None, requests=0, broken=False).items(): G.attrs[kx] = vx
        try: return ip.call(f, [Box(tok)], {'commit_message': Box(msg)})
        except PyExc as e: return e
    def visit(r):
        exc = isinstance(r, PyExc)
        acc = G.attrs['accepted'] is True
        if not acc:
            unchanged('unless the commit was accepted')
            if not exc: c.prove('no revision is reported unless the commit was accepted', r is None)
            c.prove('a refusal of a deletion or an upload makes it give up', z3.Or(z3.Not(truth(G.attrs['refused'])), z3.BoolVal(G.attrs['last'] == 'abort' or G.attrs['broken'] is True)))
            n['failed' if exc else 'none'] += 1
            return
        if exc: return                              # the local database failed; nothing is recorded before its commit
        n['done'] += 1
        h = ip.term(G.attrs['head'])
        M, T = w.C['meta'].peek(), w.C['files'].peek(); e = dget(L, x); row = dget(T, key(x))
        c.prove('the new revision is recorded', dget(mrow(M), K('have_revision')) == h)
        c.prove('the new revision is reported', ip.term(r) == h)
        c.prove('deleted files are no longer recorded', z3.Implies(z3.And(dhas(L, x), is_(e, 'deleted')), z3.Not(dhas(T, key(x)))))
        up = z3.And(dhas(L, x), z3.Or(is_(e, 'new'), is_(e, 'changed')))
        c.prove('files sent are recorded as they were found', z3.Implies(up, z3.And(dhas(T, key(x)), dget(row, kp) == x, dget(row, K('server_file_hash')) == dget(dget(S.peek(), x), kh), *[dget(row, K(s)) == bi.strof(dget(e, K(s))) for s in ('last_mod', 'created')])))
        c.prove('what is recorded of other files is kept', z3.Implies(z3.Not(dhas(L, x)), z3.And(dhas(T, key(x)) == dhas(C0, key(x)), z3.Implies(dhas(T, key(x)), row == dget(C0, key(x))))))
    c.explore(thunk, visit)
    c.prove('reachable', n['done'] > 0 and (n['none'] > 0) and n['failed'] > 0)

UNITS = [('commit: %s, %s' % (g[1], r[1]), lambda v, g=g[0], r=r[0]: unit(v, g, r)) for g in ((True, 'with deletions'), (False, 'without deletions')) for r in ((True, 'resumed'), (False, 'from the start'))]

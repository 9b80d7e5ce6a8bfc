"""The requests that change a commit: push_file, delete_files, commit.  What they hand to the store (proved in inv.py) and what they answer."""
import re
import z3
from .srv import *
from .tree import bind
from .stream import Stream
from .inv import Inv

STORE = 'bversion.storage.versioned_storage.versioned_storage'
parts = F('parts', V, V)      # the pieces of a text between slashes and backslashes
trust('re.split', "re.split with a pattern that matches exactly one '/' or '\\' gives the pieces of the text between those characters; s.replace('\\\\', '/').split('/') gives the same")

def literals(pat):
    """the characters a one-character pattern matches, or None"""
    try: p = list(re._parser.parse(pat))
    except Exception: return None
    if len(p) != 1: return None
    op, a = p[0]; L = re._constants
    if op is L.LITERAL: return {chr(a)}
    if op is L.IN and all(x[0] is L.LITERAL for x in a): return {chr(x[1]) for x in a}
    if op is L.SUBPATTERN: return None
    return None

def splitting(w):
    ip, c = w.ip, w.c
    ip.trusted.add('re.split')
    s = z3.Const('s', V); i = z3.Int('i'); p = parts(s); e = lnth(p, i)
    c.bg.append(z3.ForAll([s], z3.And(ty(p) == T_LIST, llen(p) >= 1), patterns=[p]))
    c.bg.append(z3.ForAll([s, i], z3.Implies(z3.And(i >= 0, i < llen(p)), ty(e) == T_STR), patterns=[e]))
    old = ip.externals['re'].attrs['split'].fn
    def split(ip, a, k):
        if isinstance(a[0], str) and literals(a[0]) == {'/', '\\'} and len(a) == 2 and not k: return Box(parts(ip.term(a[1])))
        return old(ip, a, k)
    setm(ip, 're', 'split', split)
    def sh(v, a):
        if len(a) == 1 and a[0] in ('/', '\\') and isinstance(v, Box):
            t = ip.term(v); o = '\\' if a[0] == '/' else '/'
            if z3.is_app(t) and t.decl().name() == 's_replace_2' and t.arg(1).eq(c.const(o)) and t.arg(2).eq(c.const(a[0])): return Box(parts(t.arg(0)))
        return old2(v, a) if old2 else None
    old2 = getattr(ip, 'split_hook', None); ip.split_hook = sh
    def member(item, coll):
        t = coll.peek()
        if not (z3.is_app(t) and t.decl().eq(parts)): return None
        return c.exists([i], z3.And(i >= 0, i < llen(t), lnth(t, i) == ip.term(item)))
    ip.box_contains_hook = chain(getattr(ip, 'box_contains_hook', None), member)

def traversal(c, p):
    """the path p has a . or .. component, or does not start at the root (a formula to be proved absent, and one to be assumed absent)"""
    i = z3.Int('i'); P = parts(p); bad = lambda i: z3.And(i >= 0, i < llen(P), z3.Or(lnth(P, i) == c.const('.'), lnth(P, i) == c.const('..')))
    rooted = F('s_startswith', V, V, B)(p, c.const('/'))
    some = z3.Exists([i], bad(i)); return rooted, some, bad

def setting(v, name):
    from .specs.c12 import setting as s12
    ip, c, w, f, rq, cx = s12(v, name)
    splitting(w)
    c.bg.append(ty(w.ctx_lock) == ty(w.ctx_lock))
    repo = w.hdr('repository')
    w.usr = []
    old = ip.overrides['bversion.server.have_authenticated_user']
    def user(ip, a, k, fn):
        r = old(ip, a, k, fn); w.usr.append(r); c.log(lambda: w.usr.pop(), None); return r
    ip.overrides['bversion.server.have_authenticated_user'] = user
    ev = []
    w.ev = ev
    vs = ip.get(STORE)
    def contract(nm):
        def k(ip, a, kw, fn):
            c.prove('the store is that of the repository asked for', ip.term(ip.getattr_(a[0], 'base_path')) == w.rpath(repo))
            b = {n: x for n, x in bind(fn, a, kw, ip).items() if n != 'self'}
            b['fs'] = w.fs.peek()
            t = c.fresh(nm)
            for key, x in list(b.items()):
                if isinstance(x, (DictObj, Box)): b[key] = ip.term(x)
            w.called(nm, b, t)
            ev.append((nm, b, t)); c.log(lambda: ev.pop(), None)
            if nm not in w.noraise and c.choose(nm + ' raises'): py_raise(IOError, 5, 'store', errno=5)
            c.assume(ty(t) == (T_STR if nm in ('get_head', 'commit', 'get_file_directory_path') else T_DICT))
            return Box(t)
        return k
    w.called = lambda *a: None; w.noraise = ()
    for n, m in list(vs.attrs.items()):
        if isinstance(m, Func) and n not in ('__init__', 'get_active_commit'): ip.overrides[m.qualname] = contract(n)
    A0 = w.T['active_commit_exists'].peek()
    w.may = lambda: z3.And(z3.BoolVal(bool(w.usr) and w.usr[-1] is not False), w.ctx_lock == repo, dhas(A0, rk(w.rdb(repo), c.const('@'))))
    def ok(r):
        return c.decide(ip.truth(ip.mkbool(ip.eq(ip.load_key(ip.getattr_(r, 'headers'), 'status'), 'ok'))))
    return ip, c, w, f, rq, cx, repo, ok

def push(want):
    want = set(want.split())
    def unit(v):
        ip, c, w, f, rq, cx, repo, ok = setting(v, 'push_file')
        ob = lambda props, name, g: c.prove(name, g) if set(props.split()) & want else None
        p = w.hdr('path'); K = c.const
        rooted, bad, bad_at = traversal(c, p)
        i = c.fresh('i', I)
        clean = z3.And(rooted, z3.Not(bad_at(i)))       # for an arbitrary position i
        good = z3.And(rooted, z3.Not(bad))
        tmp = pth(w.rpath(repo), K('tmp_file'))
        S = Stream(ip, None)
        rq.attrs['body'] = Obj('body', {'read': Native('read', S.read)})
        def effect(kind, *info):
            if c.suppress: return
            ob('C13', 'nothing is written for a path with traversal components', clean)
            if kind != 'commit': ob('C13 C04 C07', 'only the upload itself is written', info[0] == tmp)
        w.effect = effect
        fs0 = w.fs.peek(); y = c.fresh('file')
        ip.while_hooks['bversion.server.push_file'] = lambda ip, st, env: S.loop(st, env, lambda: w.content(tmp), lambda: [('the upload exists', dhas(w.fs.peek(), tmp))])
        def called(nm, b, t):
            ob('C13 C04 C07', 'a push does nothing else to the store', nm == 'fs_put_from_file')
            if nm != 'fs_put_from_file': return
            names = list(b); src, info = b[names[0]], b[names[1]]
            ob('C13', 'nothing is recorded for a path with traversal components', clean)
            ob('C13 C04', 'the path is stored exactly as sent', z3.And(dhas(info, K('path')), dget(info, K('path')) == p))
            ob('C13 C04', 'the path is at the root of the repository', rooted)
            ob('C04 C07', 'what is stored is the body of the request', z3.And(src == tmp, dhas(b['fs'], tmp), dget(b['fs'], tmp) == S.got(), S.eof()))
        w.called = called
        s0 = w.snap()
        n = {'ok': 0, 'refused': 0}
        dumped = []; dumps = ip.externals['json'].attrs['dumps'].fn
        def thunk():
            try: return ip.call(f, [rq, cx], {})
            except PyExc as e: return e
        def visit(r):
            puts = [e for e in w.ev if e[0] == 'fs_put_from_file']
            ob('C04 C07', 'a file is stored once', len(puts) <= 1)
            if isinstance(r, PyExc):
                ob('C13', 'a push fails only in the store or when a header is missing', z3.Or(z3.BoolVal(bool(puts)), *[z3.Not(w.hashdr(h)) for h in ('session_token', 'repository', 'path')])); return
            if ok(r):
                n['ok'] += 1
                ob('C13 C04 C07', 'success means the file was stored', len(puts) == 1)
                h = ip.getattr_(r, 'headers')
                if puts: ob('C07 C04', 'the answer tells what the store reported', ip.term(ip.load_key(h, 'file_info_json')) == jdumps(puts[0][2]))
            else:
                n['refused'] += 1
                ob('C13 C04 C07', 'a refused push stores nothing', z3.And(z3.BoolVal(not puts), w.same(s0)))
                ob('C13', 'a push is refused only for a traversal component or without the right to write', z3.Not(z3.And(good, w.may())))
        c.explore(thunk, visit)
        for k in n: c.prove('reachable: ' + k, n[k] > 0)
    return unit

def delete(want):
    want = set(want.split())
    def unit(v):
        ip, c, w, f, rq, cx, repo, ok = setting(v, 'delete_files')
        ob = lambda props, name, g: c.prove(name, g) if set(props.split()) & want else None
        K = c.const; jb, L = c.fresh('body'), c.fresh('files')
        rq.attrs['get_json'] = Native('get_json', lambda ip, a, k: Box(jb))
        c.bg += [ty(jb) == T_DICT, jloads(dget(jb, K('files'))) == L, ty(L) == T_LIST]
        w.effect = lambda *a: ob('C04', 'the request itself writes nothing', False)
        def called(nm, b, t):
            ob('C04', 'a delete does nothing else to the store', nm == 'fs_delete')
            if nm == 'fs_delete': ob('C04', 'exactly the files asked for are deleted', b[list(b)[0]] == L)
        w.called = called
        s0 = w.snap(); n = {'ok': 0, 'refused': 0}
        def thunk():
            try: return ip.call(f, [rq, cx], {})
            except PyExc as e: return e
        def visit(r):
            dels = [e for e in w.ev if e[0] == 'fs_delete']
            ob('C04', 'files are deleted once', len(dels) <= 1)
            if isinstance(r, PyExc): return
            if ok(r):
                n['ok'] += 1; ob('C04', 'success means the files were deleted', len(dels) == 1)
            else:
                n['refused'] += 1
        c.explore(thunk, visit)
        for k in n: c.prove('reachable: ' + k, n[k] > 0)
    return unit

def commit(want):
    want = set(want.split())
    def unit(v):
        ip, c, w, f, rq, cx, repo, ok = setting(v, 'commit')
        ob = lambda props, name, g: c.prove(name, g) if set(props.split()) & want else None
        K = c.const; mode = w.hdr('mode')
        w.effect = lambda *a: ob('C04', 'the request itself writes nothing', False)
        def called(nm, b, t):
            ob('C04', 'finishing commits or rolls back', nm in ('commit', 'rollback'))
            if nm == 'commit':
                names = list(b)
                ob('C04', 'a commit is made when one is asked for', mode == K('commit'))
                ob('C04', 'the author is the user of the session', b[names[1]] == dget(ip.term(w.usr[-1]), K('username')))
                ob('C04', 'the message is the one sent', b[names[0]] == w.hdr('commit_message'))
            if nm == 'rollback': ob('C03 C04', 'the changes are discarded only when no commit is asked for', mode != K('commit'))
        w.called = called
        n = {'commit': 0, 'rollback': 0}
        def thunk():
            try: return ip.call(f, [rq, cx], {})
            except PyExc as e: return e
        def visit(r):
            ob('C04', 'a commit is finished once', len(w.ev) <= 1)
            if isinstance(r, PyExc): return
            if not ok(r): return
            ob('C03 C04', 'success means the commit was finished', len(w.ev) == 1)
            if not w.ev: return
            n[w.ev[0][0]] += 1
            if w.ev[0][0] == 'commit': ob('C04', 'the answer names the new head', ip.term(ip.load_key(ip.getattr_(r, 'headers'), 'head')) == w.ev[0][2])
        c.explore(thunk, visit)
        for k in n: c.prove('reachable: ' + k, n[k] > 0)
    return unit

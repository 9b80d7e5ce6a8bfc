"""C12: writing needs the repository lock and the latest version."""
import z3
from ..srv import *
from .c10 import names, unit_thread_db

STORE = 'bversion.storage.versioned_storage.versioned_storage'
WRITERS = {'begin', 'rollback', 'commit', 'fs_put_from_file', 'fs_delete', 'garbage_collect', 'remove_garbage', 'write_index_object', 'write_dir_tree'}
READERS = {'get_head', 'get_active_commit', 'get_active_commit_changes', 'active_commit_is_finished', 'get_changes_since', 'get_commit_chain', 'get_commit_changes', 'get_commit_files',
           'get_file_info_from_path', 'get_file_directory_path', 'read_index_object', 'read_tree_index_object', 'read_commit_index_object', 'read_dir_tree', 'get_reachable_objects', 'get_all_object_hashes', 'verify_fs', 'flatten_dir_tree', 'build_dir_tree', 'print_dir_tree'}

def flocks(w):
    """flock: exclusive per file, held by this connection or by nobody it can see; a non-blocking attempt fails when another holds it"""
    ip, c = w.ip, w.c
    st = w.flock = Obj('flock', {'held': ()})       # files locked exclusively through this connection
    trust('flock', 'flock(LOCK_EX|LOCK_NB) on a freshly opened file either gives this open file the exclusive lock or raises EAGAIN/EACCES; LOCK_UN on that file (or closing it) releases it')
    ip.trusted.add('flock')
    def flock(ip, a, k):
        f, op = a[0], a[1]
        if isinstance(f, int): raise Unsupported('flock on a file number')
        if f is None: py_raise(TypeError, 'argument must be an int, or have a fileno() method')
        if not isinstance(op, int): raise Unsupported('flock operation')
        if op & 8:
            ip.setattr_(st, 'held', tuple(x for x in st.attrs['held'] if x is not f)); return None
        if not op & 2: return None               # a shared lock gives no exclusion
        if op & 4:
            if not c.choose('flock succeeds'):
                e = 11 if c.choose('EAGAIN') else 13
                py_raise(BlockingIOError if e == 11 else PermissionError, e, 'locked', errno=e)
        ip.setattr_(st, 'held', st.attrs['held'] + (f,))
    setm(ip, 'fcntl', 'flock', flock); setm(ip, 'fcntl', 'lockf', lambda ip, a, k: None)
    setm(ip, 'fcntl', 'LOCK_SH', 1)
    def held(path): return z3.Or(*[f.attrs['path'] == path for f in st.attrs['held']]) if st.attrs['held'] else z3.BoolVal(False)
    w.held = held
    return st

def user(w):
    """have_authenticated_user by its contract (C10): refuses, or gives the session row of the user; touches only sessions"""
    ip, c = w.ip, w.c
    def h(ip, a, k, f):
        c.prove('the session checked is the one of the request', z3.And(ip.term(a[0]) == w.ipaddr, ip.term(a[1]) == w.hdr('repository'), ip.term(a[2]) == enc(w.hdr('session_token'))))
        if c.choose('authenticated'):
            row = c.fresh('session_row'); c.assume([ty(row) == T_DICT, dhas(row, c.const('username')), ty(dget(row, c.const('username'))) == T_STR, dhas(w.R, w.hdr('repository'))])
            return Box(row)
        return False
    ip.overrides['bversion.server.have_authenticated_user'] = h

def setting(v, name):
    ip, c, w = server(v)
    configure(w); rows_wf(w, ('active_commit_exists',))
    w.initial_active_files = lambda db: None
    sdb_contract(w); flocks(w); user(w)
    f = routes(ip)[name]; c.func = f.qualname
    return ip, c, w, f, request(w), context(w)

def base(ip, o): return ip.term(ip.getattr_(o, 'base_path'))

def unit_begin(v):
    ip, c, w, f, rq, cx = setting(v, 'begin_commit')
    x = z3.Const('x', V)
    s0 = w.snap()
    repo = w.hdr('repository'); lockp = pth(w.rpath(repo), c.const('lock_file')); headp = pth(w.rpath(repo), c.const('head'))
    db = w.rdb(repo)
    ev = []
    def note(n, r):
        ev.append(n); c.log(lambda: ev.pop(), None); return r
    held = lambda: w.held(lockp)
    def head():
        fs = w.fs.peek()
        return z3.If(ip.dhas_simp(fs, headp), dec(ip.dget_simp(fs, headp)), c.const('root'))
    def effect(kind, *info):
        if kind == 'commit': c.prove('the database is committed only under the lock', z3.Or(held(), w.same(s0, [t for t in KEYCOL if t != 'session_tokens'], fs=False)))
        else: c.prove('no file but the lock file is touched without the lock', z3.Or(held(), z3.And(*[p == lockp for p in info])))
    w.effect = effect
    vs = ip.get(STORE)
    def writer(name):
        def k(ip, a, kw, f):
            me = a[0]
            c.prove('the store is changed only under its exclusive lock', z3.And(base(ip, me) == w.rpath(repo), held()))
            if name == 'begin': c.prove('a commit is begun only from the current head', w.hdr('previous_revision') == head())
            if name not in ('begin', 'rollback'): c.prove('beginning a commit does nothing else to the store', False)
            note(name, None)
            if c.choose(name + ' raises'): py_raise(IOError, 5, 'store', errno=5)
            T = w.T['active_commit_exists']
            if name == 'rollback': T.del_key(rk(db, c.const('@')))
        return k
    for n, m in list(vs.attrs.items()):
        if not isinstance(m, Func): continue
        if n in WRITERS: ip.overrides[m.qualname] = writer(n)
    fin = STORE + '.active_commit_is_finished'
    ip.overrides[fin] = lambda ip, a, k, f: SB(c.fresh('finished', B))
    def changes(ip, a, k, f):
        t = c.fresh('changes'); i = z3.Int('i')
        c.assume([ty(t) == T_LIST, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(t)), z3.And(ty(lnth(t, i)) == T_DICT, dhas(lnth(t, i), c.const('status')))), patterns=[lnth(t, i)])])
        return Box(t)
    ip.overrides[STORE + '.get_active_commit_changes'] = changes
    def thunk():
        try: return ip.call(f, [rq, cx], {})
        except PyExc as e: return e
    n = {'ok': 0, 'stale': 0, 'locked': 0}
    def visit(r):
        hd = held()
        if c.decide(hd) if not isinstance(hd, bool) else hd:
            # the connection holds the lock: it knows it, and its end releases it
            c.prove('the connection records which repository it holds', ip.term(ip.getattr_(cx, 'lock')) == repo)
            try: ip.call(ip.getattr_(cx, 'shutdown_handler'), [], {})
            except PyExc: c.prove('releasing the lock does not fail', False)
            c.prove('the end of the connection releases the lock', z3.Not(held()))
            lk = ip.getattr_(cx, 'lock')
            c.prove('after the release the connection holds nothing', lk is False or lk is None)
            try: ip.call(ip.getattr_(cx, 'shutdown_handler'), [], {})
            except PyExc: c.prove('releasing twice does not fail', False)
        else:
            n['locked'] += 1
            c.prove('without the lock nothing is changed', z3.And(w.same(dict(s0, fs=s0['fs']), [t for t in KEYCOL if t != 'session_tokens'], fs=False),
                    z3.ForAll([x], z3.Implies(x != lockp, z3.And(dhas(w.fs.peek(), x) == dhas(s0['fs'], x), z3.Implies(dhas(s0['fs'], x), dget(w.fs.peek(), x) == dget(s0['fs'], x)))))))
            c.prove('without the lock the connection does not believe to have it', ip.term(ip.getattr_(cx, 'lock')) == w.ctx_lock)
            c.prove('without the lock the end of the connection is left as it was', w.shutdowns.attrs['n'] == 0 and ip.getattr_(cx, 'shutdown_handler') is cx0)
        if isinstance(r, PyExc): return
        h = ip.getattr_(r, 'headers')
        if c.decide(ip.truth(ip.mkbool(ip.eq(ip.load_key(h, 'status'), 'ok')))):
            n['ok'] += 1
            c.prove('success means a commit was begun', 'begin' in ev)
            c.prove('success means the lock was obtained', hd)
        else:
            n['stale'] += 'rollback' in ev
            c.prove('a refused request begins no commit', 'begin' not in ev)
    cx0 = ip.getattr_(cx, 'shutdown_handler')
    c.explore(thunk, visit)
    for k in n: c.prove('reachable: ' + k, n[k] > 0)

def unit_write(name):
    """push_file, delete_files, commit"""
    def unit(v):
        ip, c, w, f, rq, cx = setting(v, name)
        s0 = w.snap(); A0 = s0['active_commit_exists']
        repo = w.hdr('repository'); db = w.rdb(repo)
        A = z3.And(dhas(w.R, repo), w.ctx_lock == repo, dhas(A0, rk(db, c.const('@'))))
        st = Obj('ghost', {'w': 0, 'end': 0})
        w.effect = lambda kind, *info: c.prove('nothing is written unless this connection holds the lock and a commit is open', A)
        c.bg += [ty(w.ctx_lock) == ty(w.ctx_lock)]
        vs = ip.get(STORE)
        def contract(nm):
            def k(ip, a, kw, f):
                if nm in WRITERS:
                    c.prove('the store is changed only by a connection that holds its lock, with a commit open', z3.And(A, base(ip, a[0]) == w.rpath(repo)))
                    c.prove('the lock is not given back before the store is changed', w.shutdowns.attrs['n'] == 0)
                    ip.setattr_(st, 'w', st.attrs['w'] + 1)
                    if c.choose(nm + ' raises'): py_raise(IOError, 5, 'store', errno=5)
                if nm in ('lock', 'unlock'): c.prove('only beginning a commit takes the lock', False)
                if nm in ('commit', 'rollback'): ip.setattr_(st, 'end', 1)
                t = c.fresh(nm)
                if nm in ('get_head', 'commit', 'get_file_directory_path'): c.assume(ty(t) == T_STR)
                else: c.assume(ty(t) == T_DICT)
                return Box(t)
            return k
        for n, m in list(vs.attrs.items()):
            if isinstance(m, Func) and n not in ('__init__', 'get_active_commit'): ip.overrides[m.qualname] = contract(n)
        def inv(): return []
        ip.while_hooks[f.qualname] = lambda ip, s, env: loops_inv(ip, s, env, inv)
        jb = c.fresh('body'); 
        rq.attrs['get_json'] = Native('get_json', lambda ip, a, k: Box(jb))
        c.bg += [ty(jb) == T_DICT]
        cx0 = ip.getattr_(cx, 'shutdown_handler')
        cnt = {'ok': 0}
        def thunk():
            try: return ip.call(f, [rq, cx], {})
            except PyExc as e: return e
        def visit(r):
            c.prove('the lock is the one the connection had', z3.And(ip.term(ip.getattr_(cx, 'lock')) == w.ctx_lock, ip.getattr_(cx, 'shutdown_handler') is cx0))
            c.prove('a request that lacks the lock or an open commit changes nothing', z3.Or(A, w.same(s0, [t for t in KEYCOL if t != 'session_tokens'])))
            if isinstance(r, PyExc): return
            h = ip.getattr_(r, 'headers')
            if not c.decide(ip.truth(ip.mkbool(ip.eq(ip.load_key(h, 'status'), 'ok')))): return
            cnt['ok'] += 1
            c.prove('a request that lacks the lock or an open commit is refused', A)
            if name == 'commit':
                c.prove('finishing means committing or rolling back', st.attrs['end'] == 1)
                c.prove('the lock is released when the commit is finished', w.shutdowns.attrs['n'] >= 1)
            else:
                c.prove('the lock is kept until the commit is finished', w.shutdowns.attrs['n'] == 0)
        c.explore(thunk, visit)
        c.prove('the request can succeed', cnt['ok'] > 0)
    return unit

def loops_inv(ip, s, env, inv):
    from ..loops import while_inv
    while_inv(ip, s, env, inv, 'loop')

def unit_other(name):
    """every other request: leaves locks, open commits and files alone"""
    def unit(v):
        ip, c, w, f, rq, cx = setting(v, name)
        s0 = w.snap()
        vs = ip.get(STORE)
        w.effect = lambda kind, *info: c.prove('a reading request writes no file and changes no commit', kind == 'commit')
        def contract(nm):
            def k(ip, a, kw, f):
                c.prove('a reading request only reads the store (%s)' % nm, nm not in WRITERS and nm not in ('lock', 'unlock'))
                if nm not in READERS: raise Unsupported('store method %s is not known to only read' % nm)
                if c.choose('store raises'): py_raise(IOError, 'store')
                t = c.fresh(nm)
                c.assume(ty(t) == (T_STR if nm in ('get_head', 'get_file_directory_path') else T_LIST if nm in ('get_active_commit_changes', 'get_commit_chain', 'get_commit_changes') else T_DICT))
                return Box(t)
            return k
        for n, m in list(vs.attrs.items()):
            if isinstance(m, Func) and n != '__init__': ip.overrides[m.qualname] = contract(n)
        ip.overrides['bversion.merge_client_and_server_changes.merge_client_and_server_changes'] = lambda ip, a, k, f: Box(c.fresh('merged'))
        cx0 = ip.getattr_(cx, 'shutdown_handler')
        signatures(w)
        def thunk():
            try: return ip.call(f, [rq, cx], {})
            except PyExc as e: return e
        def visit(r):
            c.prove('the lock is the one the connection had', z3.And(ip.term(ip.getattr_(cx, 'lock')) == w.ctx_lock, ip.getattr_(cx, 'shutdown_handler') is cx0, w.shutdowns.attrs['n'] == 0, not w.flock.attrs['held']))
            c.prove('files and commit tables are as before', w.same(s0, [t for t in KEYCOL if t not in ('session_tokens', 'tokens')]))
        c.explore(thunk, visit)
    return unit

def unit_connection(v):
    """the connection: a new one holds nothing, and whatever ends it, the shutdown handler then in force is called"""
    ip, c, w = server(v, ('bversion.http.http_server',))
    f = ip.get('bversion.http.http_server.HTTPServer'); c.func = f.qualname
    mod = ip.modules['bversion.http.http_server']
    real = ip.call(mod.vars['ConnectionContext'], [], {})
    c.explore(lambda: None, lambda r: (c.prove('a new connection holds no lock', ip.getattr_(real, 'lock') in (False, None)),
              c.prove('a new connection can end', ip.call(ip.getattr_(real, 'shutdown_handler'), [], {}) is None)))
    cx = Obj(mod.vars['ConnectionContext'])
    ended = Obj('ghost', {'by': None, 'open': True})
    def handler():
        h = Native('handler', None)
        def fn(ip, a, k):
            ip.setattr_(ended, 'by', h)
        h.fn = fn; return h
    cx.attrs.update(lock=False, shutdown_handler=handler())
    mod.vars['ConnectionContext'] = Native('ConnectionContext', lambda ip, a, k: cx)
    ip.havoc_hook = lambda cur: handler() if isinstance(cur, Native) and cur.name == 'handler' else (cur if isinstance(cur, Obj) else None)
    got = []
    def serve(ip, a, k):
        ip.setattr_(cx, 'shutdown_handler', handler())       # any request may replace it
        if c.choose('request fails'): py_raise(ValueError, 'request')
        b = c.fresh('rb'); c.assume(ty(b) == T_BYTES)       # what the answer says does not matter here
        return Obj('Responce', {'headers': DictObj({'status': 'ok'}), 'body': Box(b)})
    def recv(ip, a, k):
        if c.choose('recv fails'): py_raise(OSError, 104, 'reset', errno=104)
        t = c.fresh('recv'); c.assume(ty(t) == T_BYTES); return Box(t)
    def maybe(nm):
        def fn(ip, a, k):
            if c.choose(nm + ' fails'): py_raise(OSError, 32, nm, errno=32)
        return Native(nm, fn)
    sock = Obj('socket', {'recv': Native('recv', recv), 'sendall': maybe('sendall'), 'sendfile': maybe('sendfile'), 'close': Native('close', lambda ip, a, k: None), 'settimeout': maybe('settimeout')})
    lst = Obj('socket', {n: Native(n, lambda ip, a, k: None) for n in ('bind', 'listen', 'close', 'setsockopt', 'settimeout')})
    def accept(ip, a, k):
        if got: raise PathEnd()
        return (sock, ('1.2.3.4', 5))
    lst.attrs['accept'] = Native('accept', accept)
    setm(ip, 'socket', 'socket', lambda ip, a, k: lst); ext(ip, 'socket', {'AF_INET': 1, 'SOCK_STREAM': 2, 'SOL_SOCKET': 3, 'SO_REUSEADDR': 4})
    def start(ip, a, k):
        raise Caught(a[0], a[1])
    class Caught(Exception):
        def __init__(self, fn, args): self.fn, self.args_ = fn, args
    setm(ip, '_thread', 'start_new_thread', start)
    setm(ip, 'threading', 'Thread', lambda ip, a, k: Obj('Thread', {'start': Native('start', lambda ip2, a2, k2: start(ip2, [k['target'], k['args']], {}))}))
    pre = lambda ip, a, k, f: (py_raise(ValueError, 'preamble') if c.choose('bad preamble') else DictObj({'method': Box(c.fresh('method')), 'path': Box(c.fresh('path')), 'headers': Box(hdrs)}))
    hdrs = c.fresh('hdrs'); c.bg.append(ty(hdrs) == T_DICT)
    ip.overrides['bversion.http.http_common.parse_http_request_preamble'] = pre
    for m in ('read', 'read_all', 'dump'): 
        def rb(ip, a, k, f):
            if c.choose('body fails'): py_raise(OSError, 'body')
            return None
        ip.overrides['bversion.http.http_common.read_body.' + m] = rb
    setm(ip, 'io', 'BytesIO', lambda ip, a, k: Obj('BytesIO', {'read': Native('read', lambda ip, a, k: Box(c.fresh('chunk')))}))
    mod.vars['BytesIO'] = ip.externals['io'].attrs['BytesIO']
    mod.vars['parse_http_request_preamble'] = ip.get('bversion.http.http_common.parse_http_request_preamble')
    ip.while_hooks['bversion.http.http_server.HTTPServer.handle_connection*'] = lambda ip, s, env: loops_inv(ip, s, env, lambda: [])
    n = {'end': 0}
    def thunk():
        try: ip.call(f, ['h', 80, Native('serve', serve)], {})
        except Caught as e:
            fn, args = e.fn, e.args_
        except PyExc as e: raise PathEnd()
        else: raise Unsupported('the server does not start a thread for a connection')
        got.append(1); c.log(lambda: got.pop(), None)
        try: ip.call(fn, list(ip.iter_segs(args)[0].items) if not isinstance(args, tuple) else list(args), {})
        except PyExc as e: return e
    def visit(r):
        n['end'] += 1
        h = ip.getattr_(cx, 'shutdown_handler')
        c.prove('whatever ends the connection, its shutdown handler has run', ended.attrs['by'] is h)
    c.explore(thunk, visit)
    c.prove('a connection can end', n['end'] > 0)

UNITS = [('begin_commit', unit_begin), ('connection', unit_connection), ('thread database', unit_thread_db)] + [('route ' + n, unit_write(n)) for n in ('push_file', 'delete_files', 'commit')] \
      + [('route ' + n, unit_other(n)) for n in names() if n not in ('begin_commit', 'push_file', 'delete_files', 'commit')]

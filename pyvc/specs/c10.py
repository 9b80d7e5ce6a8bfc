"""C10: no repository access without an authenticated session."""
import z3
from ..srv import *

AUTHSTEPS = ('begin_auth', 'authenticate')
PREAUTH = {'select active_commit_exists', 'select session_tokens', 'delete session_tokens', 'update session_tokens', 'commit'}

def auth_formula(w, S0, A0):
    """what the statement asks for, over the tables as they were when the request arrived"""
    c = w.c
    repo, tok = w.hdr('repository'), enc(w.hdr('session_token'))
    db = w.rdb(repo)
    row = dget(S0, rk(db, tok)); ac = dget(A0, rk(db, c.const('@')))
    fresh = z3.Or(*[realval(dget(row, c.const('expires'))) >= realval(t) for t in w.times]) if w.times else z3.BoolVal(False)
    owns = z3.And(dhas(A0, rk(db, c.const('@'))), dget(ac, c.const('session_token')) == tok)
    return z3.And(w.hashdr('repository'), w.hashdr('session_token'), dhas(w.R, repo), dhas(S0, rk(db, tok)), dget(row, c.const('ip')) == w.ipaddr,
                  z3.Or(fresh, owns), w.permitted(dget(row, c.const('username')), repo))

def opaque_store(w, ip, guard, kinds):
    """every method of versioned_storage: any answer; calling one needs authorisation for the repository it was made for"""
    c = w.c
    vs = ip.get('bversion.storage.versioned_storage.versioned_storage')
    base_ok = lambda self: z3.And(ip.term(ip.getattr_(self, 'base_path')) == w.rpath(w.hdr('repository')), ip.term(ip.getattr_(self, 'path_override')) == w.rover(w.hdr('repository')))
    for name, m in list(vs.attrs.items()):
        if not isinstance(m, Func) or name == '__init__': continue
        def contract(ip, a, k, f, name=name):
            guard('versioned_storage.' + name)
            c.prove('the store used is that of the repository the session is for', base_ok(a[0]))
            kinds.append(name); c.log(lambda: kinds.pop(), None)
            if name == 'lock': return SB(c.fresh('locked', B))
            if name in ('get_active_commit', 'active_commit_is_finished') and c.choose(name): return None if name == 'get_active_commit' else False
            if c.choose('store raises'): py_raise(IOError, 'store')
            t = c.fresh(name)
            if name in ('get_head', 'get_file_directory_path', 'commit'): c.assume(ty(t) == T_STR)
            elif name in ('get_active_commit_changes', 'get_commit_chain'): c.assume(ty(t) == T_LIST)
            else: c.assume(ty(t) == T_DICT)
            return Box(t)
        ip.overrides[m.qualname] = contract

def unit_route(name):
    def unit(v):
        ip, c, w = server(v)
        configure(w)
        f = routes(ip)[name]
        c.func = f.qualname
        rows_wf(w, ('session_tokens', 'active_commit_exists'))
        w.initial_active_files = lambda db: None
        sdb_contract(w)
        rq = request(w); cx = context(w)
        x = z3.Const('x', V)
        A0, S0 = w.T['active_commit_exists']._t, w.T['session_tokens']._t
        # an open commit always names a session (begin_commit, resume_commit are called with the encoded token: C12)
        c.bg.append(z3.ForAll([x], z3.Implies(dhas(A0, x), dget(dget(A0, x), c.const('session_token')) != c.c_none), patterns=[dhas(A0, x)]))
        c.bg.append(z3.ForAll([x], z3.Implies(dhas(S0, x), z3.And(dget(dget(S0, x), c.const('expires')) != c.c_none, rk2(x) != c.c_none)), patterns=[dhas(S0, x)]))
        s0 = w.snap()
        clock(w)
        A = lambda: auth_formula(w, S0, A0)
        seen = []
        def guard(what): c.prove('no access to the repository before the session is checked (%s)' % what.split('.')[0], A())
        def touch(kind, *info):
            if c.suppress: return
            if kind == 'db' and info[1] in PREAUTH:
                # the table read is the one of the requested repository
                c.prove('sessions are looked up in the requested repository', z3.Or(info[0] == w.rdb(w.hdr('repository')), A())); return
            guard(kind)
        w.log_touch = touch
        opaque_store(w, ip, guard, seen)
        ip.overrides['bversion.merge_client_and_server_changes.merge_client_and_server_changes'] = lambda ip, a, k, f: Box(c.fresh('merged'))
        def thunk():
            try: return ip.call(f, [rq, cx], {})
            except PyExc as e: return e
        stat = {'ok': 0, 'no': 0}
        def visit(r):
            a = A()
            c.prove('a refused request leaves files and every other table as they are', z3.Or(a, w.same(s0, [t for t in KEYCOL if t != 'session_tokens'])))
            T = w.T['session_tokens'].peek()
            if not T.eq(S0):
                e = c.fresh('sess')
                gone = z3.And(dhas(S0, e), z3.Not(dhas(T, e)))
                exp = z3.Or(*[realval(dget(dget(S0, e), c.const('expires'))) < realval(t) for t in w.times])
                c.prove('no session is created or taken over', z3.Implies(dhas(T, e), dhas(S0, e)))
                c.prove('only expired sessions of the repository are dropped', z3.Implies(gone, z3.And(exp, rk1(e) == w.rdb(w.hdr('repository')))))
                c.prove('the session of the open commit is not dropped', z3.Implies(z3.And(gone, dhas(A0, rk(rk1(e), c.const('@')))),
                        dget(dget(A0, rk(rk1(e), c.const('@'))), c.const('session_token')) != rk2(e)))
                for col in ('ip', 'username', 'token'):
                    c.prove('no session changes its %s' % col, z3.Implies(dhas(T, e), dget(dget(T, e), c.const(col)) == dget(dget(S0, e), c.const(col))))
                c.prove('only an authorised request extends its own session', z3.Implies(z3.And(dhas(T, e), dget(T, e) != dget(S0, e)), z3.And(a, e == rk(w.rdb(w.hdr('repository')), enc(w.hdr('session_token'))))))
            c.prove('a refused request does not get the lock', z3.Or(a, ip.term(ip.getattr_(cx, 'lock')) == w.ctx_lock))
            if isinstance(r, PyExc): return
            if c.entails(a): stat['ok'] += 1; return
            stat['no'] += 1
            h, b = ip.getattr_(r, 'headers'), ip.getattr_(r, 'body')
            ok = isinstance(h, DictObj) and h.box is None and all(isinstance(x, (str, int, type(None))) for x in h.d.values()) and h.d.get('status') == 'fail' and b == b''
            c.prove('the answer to a refused request carries nothing but a failure', a if not ok else True)
        c.explore(thunk, visit)
        c.prove('both outcomes are reachable', stat['ok'] > 0 and stat['no'] > 0)
    return unit

def unit_endpoint(v):
    """requests only reach the listed handlers"""
    ip, c, w = server(v)
    configure(w)
    f = ip.get('bversion.server.endpoint'); c.func = f.qualname
    rq = request(w); cx = context(w)
    hit = []
    rs = routes(ip)
    for n, fn in rs.items():
        def h(ip, a, k, f, n=n):
            hit.append(n); c.log(lambda: hit.pop(), None)
            c.prove('the handler gets the request itself', a[0] is rq and a[1] is cx)
            return Box(c.fresh('resp'))
        ip.overrides[fn.qualname] = h
    touched = []
    w.log_touch = lambda *a: touched.append(a)
    def thunk():
        try: return ip.call(f, [rq, cx], {})
        except PyExc as e: return e
    def visit(r):
        c.prove('no data is touched outside the handlers', not touched)
        c.prove('the answer is that of exactly one handler', isinstance(r, PyExc) and len(hit) == 0 or len(hit) == 1)
    c.explore(thunk, visit)

def names():
    import ast, os
    src = open(os.path.join(os.environ.get('VROOT', '/repo'), 'bversion/server.py')).read()
    out = []
    for n in ast.parse(src).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and d.args and isinstance(d.args[0], ast.Constant): out.append(d.args[0].value)
    return out

UNITS = [('endpoint', unit_endpoint), ('thread database', unit_thread_db)] + [('route ' + n, unit_route(n)) for n in names() if n not in AUTHSTEPS]

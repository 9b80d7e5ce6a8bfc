"""Common setting of the server specifications: configuration, requests, connections."""
import z3
from .core import *
from .values import *
from .env_base import setm, ext, trust
from . import builtins_ as bi
from .world import *

isover = F('isover', V, B)        # this path is used as a database path override
strint = F('strint', V, I)

def server(v, modules=('bversion.server',)):
    ip = v.interp(); c = ip.ctx
    w = World(ip)
    for m in modules: ip.import_module(m)
    return ip, c, w

def dbfile(w, path, override):
    """database file of a repository"""
    c = w.c
    return z3.If(override == c.c_none, pth(path, c.const('server_transient.db')), override)

def configure(w):
    """an arbitrary configuration: every repository has a path and a database override (or None)"""
    ip, c = w.ip, w.c
    cfg = c.fresh('config')
    r, q = z3.Consts('r q', V)
    R = dget(cfg, c.const('repositories')); U = dget(cfg, c.const('users'))
    kp, ko = c.const('path'), c.const('transient_db_path_override')
    c.bg += [ty(cfg) == T_DICT, dhas(cfg, c.const('repositories')), dhas(cfg, c.const('users')), ty(R) == T_DICT, ty(U) == T_DICT]
    c.bg.append(z3.ForAll([r], z3.Implies(dhas(R, r), z3.And(ty(dget(R, r)) == T_DICT, dhas(dget(R, r), kp), dhas(dget(R, r), ko), ty(dget(dget(R, r), kp)) == T_STR,
                 z3.Or(dget(dget(R, r), ko) == c.c_none, ty(dget(dget(R, r), ko)) == T_STR))), patterns=[dget(R, r)]))
    b = Box(cfg)
    ip.modules['bversion.server'].vars['config'] = b
    w.cfg, w.R, w.U = cfg, R, U
    w.rpath = lambda repo: dget(dget(R, repo), kp)
    w.rover = lambda repo: dget(dget(R, repo), ko)
    rdbf = F('repo_db', V, V)
    c.bg.append(z3.ForAll([r], z3.Implies(dhas(R, r), rdbf(r) == dbfile(w, w.rpath(r), w.rover(r))), patterns=[rdbf(r)]))
    w.rdb = lambda repo: rdbf(repo)
    uses = c.const('uses_repositories')
    w.permitted = lambda user, repo: z3.And(dhas(U, user), dhas(dget(U, user), uses), inlist(dget(dget(U, user), uses), repo))
    # membership in the permission list, whatever container it is
    ip.box_contains_hook = chain(getattr(ip, 'box_contains_hook', None), lambda item, coll: inlist(coll.term(), ip.term(item)) if is_uses(coll.peek(), uses) else None)
    return b

inlist = F('inlist', V, V, B)
def is_uses(t, uses): return z3.is_app(t) and t.decl().eq(dget) and t.arg(1).eq(uses)
def chain(old, new):
    def f(*a):
        r = new(*a)
        if r is None and old is not None: return old(*a)
        return r
    return f

def sdb_contract(w):
    """get_server_db_instance_for_thread: the server_db instance on the database of that repository (proved in unit thread_db)"""
    ip, c = w.ip, w.c
    cls = ip.get('bversion.storage.server_db.server_db')
    cache = []
    w.sdbs = cache
    def contract(ip, a, k, f):
        path = ip.term(a[0]); over = k.get('path_override', a[2] if len(a) > 2 else None)
        over = ip.term(over)
        isn = over.eq(c.c_none) or not c.entails(over != c.c_none) and c.decide(over == c.c_none)
        db = pth(path, c.const('server_transient.db')) if isn else over
        for p, o in cache:
            if p.eq(db): return o
        o = Obj(cls); con = w.connect(Box(db))
        o.attrs.update(con=con, cur=con.attrs['cursor'].fn(ip, [], {}), active_files=w.initial_active_files(db))
        cache.append((db, o))
        c.log(lambda: cache.pop(), None)
        return o
    ip.overrides['bversion.storage.server_db.get_server_db_instance_for_thread'] = contract

def request(w, body=None, json=None):
    ip, c = w.ip, w.c
    H = c.fresh('headers')
    x = z3.Const('x', V)
    c.bg.append(ty(H) == T_DICT)
    c.bg.append(z3.ForAll([x], z3.Implies(dhas(H, x), ty(dget(H, x)) == T_STR), patterns=[dhas(H, x)]))
    ipaddr = c.fresh('client_ip'); c.bg += [ty(ipaddr) == T_STR]
    uri = c.fresh('uri'); c.bg += [ty(uri) == T_STR]
    o = Obj('Request', {'headers': Box(H), 'remote_addr': Box(ipaddr), 'remote_port': Box(c.fresh('port')), 'uri': Box(uri)})
    def read(ip, a, k):
        if o.attrs.get('_eof') or c.choose('end of body'): return None
        ip.setattr_(o, '_eof', True)
        ch = c.fresh('chunk'); c.assume(ty(ch) == T_BYTES); return Box(ch)
    o.attrs['_eof'] = False
    o.attrs['body'] = body or Obj('body', {'read': Native('read', read)})
    o.attrs['get_json'] = Native('get_json', lambda ip, a, k: json() if json else Box(c.fresh('jsonbody')))
    w.H = H; w.hdr = lambda n: dget(H, c.const(n)); w.hashdr = lambda n: dhas(H, c.const(n)); w.ipaddr = ipaddr
    return o

def context(w, lock=None):
    ip, c = w.ip, w.c
    cls = ip.get('bversion.http.http_server.ConnectionContext')
    o = Obj(cls)
    w.shutdowns = Obj('shut', {'n': 0})
    def sh(ip, a, k):
        ip.setattr_(w.shutdowns, 'n', w.shutdowns.attrs['n'] + 1)
        w.touch('shutdown')
    t = c.fresh('ctx_lock')
    w.ctx_lock = t
    o.attrs['lock'] = Box(t); o.attrs['shutdown_handler'] = Native('shutdown', sh)
    return o

def clock(w):
    ip, c = w.ip, w.c
    w.times = []
    def now():
        t = c.fresh('now'); c.assume(ty(t) == T_REAL); w.times.append(t); c.log(lambda: w.times.pop(), None); return t
    ip.now = now

sigok = F('sig_ok', V, V, V, B)
trust('ed25519', 'pysodium.crypto_sign_verify_detached raises unless the signature verifies for exactly that message and key')
def signatures(w):
    ip, c = w.ip, w.c
    ip.trusted.add('ed25519')
    def verify(ip, a, k):
        if not c.decide(sigok(*[ip.term(x) for x in a])): py_raise(ValueError, 'bad signature')
    setm(ip, 'pysodium', 'crypto_sign_verify_detached', verify)

def thread_state(w):
    '''the thread-local database instance: none yet, or the one made for some path before'''
    ip, c = w.ip, w.c
    tl = ip.modules['bversion.storage.server_db'].vars['threadLocal']
    p0 = c.fresh('oldpath'); c.bg.append(ty(p0) == T_STR)
    dbf = z3.If(isover(p0), p0, pth(p0, c.const('server_transient.db')))
    o = Obj(ip.modules['bversion.storage.server_db'].vars['server_db'])
    con = w.connect(Box(dbf)); af = Box(c.fresh('active_files'))
    o.attrs.update(con=con, cur=con.attrs['cursor'].fn(ip, [], {}), active_files=af)
    tl.attrs = {'old_db_path': Box(p0), 'db_instance': o}
    return tl, o, p0, dbf, af

def unit_thread_db(v):
    '''contract of get_server_db_instance_for_thread, assumed at its calls elsewhere'''
    for fresh in (True, False):
        for over in (True, False):
            ip, c, w = server(v, ('bversion.storage.server_db',))
            f = ip.get('bversion.storage.server_db.get_server_db_instance_for_thread'); c.func = f.qualname
            tl, o, p0, dbf, af = thread_state(w)
            if fresh: tl.attrs = {}
            path, ov = c.fresh('path'), c.fresh('override')
            c.bg += [ty(path) == T_STR, ty(ov) == T_STR, ov != c.c_none, z3.Not(isover(path)), isover(ov), truthy(path), truthy(ov), truthy(p0)]
            want = ov if over else pth(path, c.const('server_transient.db'))
            def thunk():
                try: return ip.call(f, [Box(path)], {'path_override': Box(ov) if over else None})
                except PyExc as e: return e
            def visit(r):
                if isinstance(r, PyExc): c.prove('a database instance is returned', False); return
                con = ip.getattr_(r, 'con')
                c.prove('the instance is connected to the database of the repository asked for', con.attrs['dbpath'] == want)
                if r is o: c.prove('an instance is only reused for the same repository', p0 == (ov if over else path))
                else: c.prove('a new instance has no files of another repository', ip.getattr_(r, 'active_files') is None)
                r2 = ip.call(f, [Box(path)], {'path_override': Box(ov) if over else None})
                c.prove('asking again gives the same instance', r2 is r)
            c.explore(thunk, visit)

def int_hook(ip):
    """int(text): an integer or ValueError"""
    pass

def routes(ip):
    r = ip.modules['bversion.server'].vars['routes']
    return dict(r.d)

def is_fail(ip, c, res):
    """the response is a refusal: status fail, a constant message, no data"""
    h = ip.getattr_(res, 'headers'); b = ip.getattr_(res, 'body')
    return h, b

"""C11: a session is granted only for a fresh, single-use signed challenge."""
import z3
from ..srv import *

def setting(v, name):
    ip, c, w = server(v)
    configure(w)
    f = routes(ip)[name]; c.func = f.qualname
    rows_wf(w, ('tokens', 'session_tokens', 'active_commit_exists'))
    w.initial_active_files = lambda db: None
    sdb_contract(w); clock(w); signatures(w)
    return ip, c, w, f, request(w), context(w)

def unit_begin(v):
    """a challenge is issued to the asking address, for the repository asked for, for 30 seconds"""
    ip, c, w, f, rq, cx = setting(v, 'begin_auth')
    x = z3.Const('x', V)
    s0 = w.snap(); T0 = w.T['tokens']._t
    rnd = []
    def on_random(t):
        rnd.append(t); c.log(lambda: rnd.pop(), None)
        c.assume(z3.Not(dhas(T0, rk(w.rdb(w.hdr('repository')), dec(b64e(t))))))
    w.on_random = on_random
    def thunk():
        try: return ip.call(f, [rq, cx], {})
        except PyExc as e: return e
    n = {'ok': 0}
    def visit(r):
        repo = w.hdr('repository'); db = w.rdb(repo)
        T = w.T['tokens'].peek(); e = c.fresh('tok')
        row = dget(T, e)
        c.prove('nothing but the challenges changes', w.same(s0, [t for t in KEYCOL if t != 'tokens']))
        new = z3.And(dhas(T, e), z3.Or(z3.Not(dhas(T0, e)), dget(T, e) != dget(T0, e)))
        ex = realval(dget(row, c.const('expires')))
        isnew = z3.And(w.hashdr('repository'), dhas(w.R, repo), rk1(e) == db, dget(row, c.const('ip')) == w.ipaddr,
                       z3.Or(*[rk2(e) == dec(b64e(t)) for t in rnd]) if rnd else z3.BoolVal(False),
                       z3.Or(*[ex == realval(t) + 30 for t in w.times]) if w.times else z3.BoolVal(False))
        c.prove('a challenge is random, of this repository, bound to the client address and expires in 30 s', z3.Implies(new, isnew))
        if isinstance(r, PyExc): return
        h = ip.getattr_(r, 'headers')
        if c.decide(ip.truth(ip.mkbool(ip.eq(ip.load_key(h, 'status'), 'ok')))):
            n['ok'] += 1
            t = ip.term(ip.load_key(h, 'auth_token'))
            c.prove('the challenge told to the client is the recorded one', z3.And(dhas(T, rk(db, t)), z3.Not(dhas(T0, rk(db, t)))))
            c.prove('the challenge is recorded durably', eqmap(w.C['tokens'].peek(), T, x))
    c.explore(thunk, visit)
    c.prove('a challenge can be issued', n['ok'] > 0)

def unit_authenticate(v):
    ip, c, w, f, rq, cx = setting(v, 'authenticate')
    x = z3.Const('x', V)
    s0 = w.snap(); S0, T0 = w.T['session_tokens']._t, w.T['tokens']._t
    repo, tok, user = w.hdr('repository'), w.hdr('auth_token'), w.hdr('user')
    db = w.rdb(repo)
    mine = []
    def on_delete(table, k):
        if table == 'tokens': mine.append(k); c.log(lambda: mine.pop(), None)
    w.on_delete = on_delete
    w.on_random = lambda t: c.assume(z3.Not(dhas(S0, rk(db, b64e(t)))))
    st = Obj('ghost', {'other': False})
    def interfere(d):
        # a concurrent login with the same challenge, in another thread or process
        if st.attrs['other']: return
        if mine: return
        if c.decide(dhas(w.T['tokens'].peek(), rk(db, tok))) and c.choose('concurrent login consumes the challenge'):
            ip.setattr_(st, 'other', True)
            w.T['tokens'].del_key(rk(db, tok))
    w.interfere = interfere
    vmin = ip.get('bversion.version_numbers').vars['minimum_client_version'] if False else ip.modules['bversion.version_numbers'].vars['minimum_client_version']
    def thunk():
        try: return ip.call(f, [rq, cx], {})
        except PyExc as e: return e
    n = {'ok': 0, 'resumed': 0}
    ver = F('int_parse', V, I)(w.hdr('client_version'))
    def visit(r):
        S = w.T['session_tokens'].peek(); T = w.T['tokens'].peek()
        e = c.fresh('sess')
        new = z3.And(dhas(S, e), z3.Or(z3.Not(dhas(S0, e)), dget(S, e) != dget(S0, e)))
        row, trow = dget(S, e), dget(T0, rk(db, tok))
        key = dget(dget(w.U, user), c.const('public_key'))
        c.prove('files and commit tables are left alone', w.same(s0, ['active_commit_changes', 'gc_log', 'active_commit_exists']))
        c.prove('no challenge is created', z3.Implies(dhas(T, e), z3.And(dhas(T0, e), dget(T, e) == dget(T0, e))))
        if not c.entails(z3.Not(new)):
            for what, g in (
                ('the repository exists', dhas(w.R, repo)),
                ('the session is of that repository', rk1(e) == db),
                ('the challenge was issued by this repository', dhas(T0, rk(db, tok))),
                ('the challenge was issued to this address', dget(trow, c.const('ip')) == w.ipaddr),
                ('the challenge has not expired', z3.Or(*[realval(dget(trow, c.const('expires'))) >= realval(t) for t in w.times])),
                ('the challenge was consumed by this very request', z3.Or(*[k == rk(db, tok) for k in mine]) if mine else z3.BoolVal(False)),
                ('the challenge is gone', z3.Not(dhas(T, rk(db, tok)))),
                ('the signature is of exactly the challenge, under the key of the user', sigok(b64d(w.hdr('signature')), enc(tok), b64d(key))),
                ('the user is configured', z3.And(dhas(w.U, user), dhas(dget(w.U, user), c.const('public_key')))),
                ('the user may use the repository', w.permitted(user, repo)),
                ('the client is recent enough', ver >= vmin),
                ('the session belongs to the user who signed', dget(row, c.const('username')) == user),
                ('the session is bound to the client address', dget(row, c.const('ip')) == w.ipaddr)):
                c.prove('a session is created only if: ' + what, z3.Implies(new, g))
            e2 = c.fresh('sess2')
            c.prove('one login creates one session', z3.Implies(z3.And(new, z3.substitute(new, (e, e2))), e == e2))
        if isinstance(r, PyExc): return
        h, b = ip.getattr_(r, 'headers'), ip.getattr_(r, 'body')
        if isinstance(h, DictObj) and h.box is None and h.d.get('status') == 'fail':
            c.prove('a failed login creates no session', z3.Not(new))
            c.prove('a failed login tells nothing else', all(isinstance(y, (str, int)) for y in h.d.values()) and b == b'')
            return
        t = ip.load_key(h, 'session_token'); tt = ip.term(t)
        tb = tt if c.entails(ty(tt) == T_BYTES) else enc(tt)
        c.prove('the token handed out is that of a session of this repository and address', z3.And(dhas(S, rk(db, tb)), dget(dget(S, rk(db, tb)), c.const('ip')) == w.ipaddr))
        if c.entails(z3.Not(new)):
            n['resumed'] += 1
            c.prove('without a new login only the token the client already has is confirmed', tt == w.hdr('session_token'))
        else:
            n['ok'] += 1
            c.prove('a new token was not known before', z3.Not(dhas(S0, rk(db, tb))))
            c.prove('session and consumed challenge are durable', z3.And(eqmap(w.C['session_tokens'].peek(), S, x), eqmap(w.C['tokens'].peek(), T, x)))
    # the clock is read when expired challenges are dropped
    c.bg.append(z3.ForAll([x], z3.Implies(dhas(T0, x), z3.And(dget(dget(T0, x), c.const('expires')) != c.c_none)), patterns=[dhas(T0, x)]))
    c.explore(thunk, visit)
    c.prove('a login can succeed', n['ok'] > 0)
    c.prove('a session can be resumed', n['resumed'] > 0)

UNITS = [('begin_auth', unit_begin), ('authenticate', unit_authenticate), ('thread database', unit_thread_db)]

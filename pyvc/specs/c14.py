"""C14: an interrupted commit is resumed only by its owner."""
import z3
from ..srv import *
from ..inv import Inv, units
from .c12 import setting, STORE, WRITERS, base

def unit_begin(v):
    """begin_commit, with the effects of rollback and begin by their contracts (units of the store)"""
    ip, c, w, f, rq, cx = setting(v, 'begin_commit')
    K = c.const
    repo = w.hdr('repository'); db = w.rdb(repo); bp = c.fresh('base_path'); c.bg.append(bp == w.rpath(repo))
    J = Inv(w, bp, db, {'C14'})
    S0 = J.now(); fs0, gc0, ch0, A0 = S0['fs'], S0['gc_log'], S0['active_commit_changes'], S0['active_commit_exists']
    for p, n, g in J.parts(S0):
        if n.startswith(('the garbage', 'the change', 'every recorded', 'without')): c.bg.append(z3.Implies(dhas(w.R, repo), g))
    c.bg.append(J.shape(S0))
    ak = rk(db, K('@')); row = dget(A0, ak)
    ev = []
    def writer(name):
        def k(ip, a, kw, fn):
            from ..tree import bind
            c.prove('the store is that of the repository asked for', base(ip, a[0]) == w.rpath(repo))
            c.prove('beginning a commit does nothing else to the store', name in ('begin', 'rollback'))
            b = {n: (x if isinstance(x, bool) else ip.term(x)) for n, x in bind(fn, a, kw, ip).items() if n != 'self'}
            ev.append((name, b)); c.log(lambda: ev.pop(), None)
            if c.choose(name + ' raises'): py_raise(IOError, 5, 'store', errno=5)
            for t in ('active_commit_exists', 'active_commit_changes', 'gc_log'):
                g = c.fresh('tab_' + t); w.T[t].replace(g); w.C[t].replace(g)
            if name == 'rollback': c.assume(z3.Not(J.active(J.now())))
        return k
    vs = ip.get(STORE)
    for n, m in list(vs.attrs.items()):
        if isinstance(m, Func) and n in WRITERS: ip.overrides[m.qualname] = writer(n)
    y = c.fresh('path'); x = rk(db, y)
    n = {'resumed': 0, 'rolled back': 0, 'fresh': 0}
    w.usr = None
    old = ip.overrides['bversion.server.have_authenticated_user']
    def user(ip, a, k, fn):
        r = old(ip, a, k, fn); w.usr = r; c.log(lambda: setattr(w, 'usr', None), None); return r
    ip.overrides['bversion.server.have_authenticated_user'] = user
    dumped = []; dumps = ip.externals['json'].attrs['dumps'].fn
    def dump(ip, a, k):
        t = dumps(ip, a, k); dumped.append((a[0], t)); c.log(lambda: dumped.pop(), None); return t
    setm(ip, 'json', 'dumps', dump)
    def thunk():
        try: return ip.call(f, [rq, cx], {})
        except PyExc as e: return e
    def visit(r):
        own = w.usr is not None and w.usr is not False
        begun = [e for e in ev if e[0] == 'begin']; rolled = [e for e in ev if e[0] == 'rollback']
        if not own: c.prove('without a session nothing is begun or rolled back', not ev); return
        name = dget(ip.term(w.usr), K('username'))
        mine = z3.And(dget(row, K('user')) == name, dget(row, K('ip')) == w.ipaddr)
        for i, (kind, b) in enumerate(ev):
            if kind != 'begin': continue
            c.prove('the commit is opened for the user, address and session that asked', z3.And(b['user'] == name, b['user_ip'] == w.ipaddr, b['session_token'] == enc(w.hdr('session_token'))))
            res = b.get('resume', False)
            res = res if isinstance(res, bool) else truthy(res)
            c.prove('only the owner of an unfinished commit resumes it', z3.Implies(res, z3.And(J.active(S0), mine, z3.Not(J.finished(S0)))))
            c.prove('a commit is resumed as it was left', z3.Implies(res, not any(e[0] == 'rollback' for e in ev[:i])))
            c.prove('the open commit of anyone else is rolled back before a new one starts', z3.Or(res, z3.Not(J.active(S0)), any(e[0] == 'rollback' for e in ev[:i])))
        c.prove('a commit is begun once', len(begun) <= 1)
        if isinstance(r, PyExc): return
        h = ip.getattr_(r, 'headers')
        if not c.decide(ip.truth(ip.mkbool(ip.eq(ip.load_key(h, 'status'), 'ok')))): return
        c.prove('success means a commit was begun', len(begun) == 1 and ev[-1][0] == 'begin')
        c.prove('the owner of an open commit keeps its uploads', z3.Implies(z3.And(J.active(S0), mine, z3.Not(J.finished(S0))), not rolled))
        if not dumped: c.prove('the answer says what was uploaded', False); return
        D, text = dumped[-1]
        c.prove('the answer is the text that was made', ip.term(ip.getattr_(r, 'body')) == enc(ip.term(text)))
        P = ip.load_key(D, 'partial_commit')
        if not rolled and begun: n['resumed' if c.decide(J.active(S0)) else 'fresh'] += 1
        else: n['rolled back'] += 1
        was = z3.And(J.active(S0), mine, z3.Not(J.finished(S0)))
        st = dget(dget(ch0, x), K('status'))
        up = z3.And(was, dhas(ch0, x), st != K('deleted'))
        # what is told: list of rows
        segs = list(ip.iter_segs(P)) if not isinstance(P, (DictObj, type(None))) else []
        if isinstance(P, DictObj): c.prove('what is told is empty', not P.d and P.box is None and not P.pairs)
        hit = []
        for s in segs:
            if isinstance(s, PSeg):
                for e in s.items:
                    c.prove('what is told was uploaded by this user from this address, and its content is stored', False)
                continue
            ks = [c.fresh('q', b.sort()) for b in s.bvs]; sub = list(zip(s.bvs, ks))
            e = z3.substitute(ip.term(s.value), *sub); cond = z3.substitute(s.cond, *sub)
            p = dget(e, K('path')); R = dget(ch0, rk(db, p)); hh = dget(e, K('hash'))
            c.prove('what is told was uploaded by this user from this address', z3.Implies(cond, z3.And(was, dhas(ch0, rk(db, p)), dget(R, K('status')) != K('deleted'))))
            c.prove('what is told is stored', z3.Implies(cond, dhas(fs0, J.fpath(dget(R, K('hash'))))))
            c.prove('what is told is what was recorded', z3.Implies(cond, z3.And(hh == dget(R, K('hash')), dget(e, K('status')) == dget(R, K('status')))))
            if len(s.bvs) == 1 and s.bvs[0].sort() == V:
                at = (s.bvs[0], y); hit.append(z3.And(z3.substitute(s.cond, at), z3.substitute(ip.term(s.value), at) == dget(ch0, x)))
        c.prove('everything uploaded is told', z3.Implies(up, z3.Or(*hit) if hit else z3.BoolVal(False)))
    c.explore(thunk, visit)
    for k in n: c.prove('reachable: ' + k, n[k] > 0)

UNITS = [('begin_commit', unit_begin)] + units('C14', 'begin', 'resume', 'rollback', 'fs_put_from_file', 'fs_delete')

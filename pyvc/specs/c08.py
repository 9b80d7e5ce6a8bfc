"""C08: the change query returns the net effect since a version.

Ghost: ch(i) is the i-th commit going back from the head (ch(0) = head), ch(L) = 'root'.  net(i, x): what the commits from the
version asked for up to ch(i) did to the path x, by the latest of them: the defining recursion is
net(i, x) = nothing when ch(i) is the version, the entry of ch(i) for x when it touches x, else net(i + 1, x)."""
import z3
from ..srv import *
from ..store import *
from ..loops import while_inv, for_inv, dense
from ..tree import bind

ch = F('chain', I, V); tch = F('touches', V, V, B); tcv = F('entry', V, V, V); tci = F('entry_at', V, V, I)
nh1 = F('net', I, V, B); nh0 = F('net0', I, V, B); nv1 = F('netv', I, V, V); nv0 = F('netv0', I, V, V)
CS = STORE + '.get_changes_since'

class Chain:
    def __init__(self, w):
        self.w, self.ip, c = w, w.ip, w.c; self.c = c
        self.L = c.fresh('length', I); self.head = c.fresh('head')
        i, j = z3.Ints('i j'); h, x = z3.Consts('h x', V); K = c.const; root = K('root')
        fa = lambda vs, body, *pats: c.bg.append(z3.ForAll(vs, body, patterns=list(pats)))
        L = self.L
        c.bg += [L >= 0, ch(0) == self.head, ch(L) == root, ty(self.head) == T_STR]
        fa([i], z3.Implies(z3.And(i >= 0, i < L), z3.And(ch(i + 1) == dget(objd(ch(i)), K('parent')), ch(i) != root, ty(ch(i)) == T_STR)), ch(i))
        pos = F('chain_pos', V, I)
        fa([i], z3.Implies(z3.And(i >= 0, i <= L), pos(ch(i)) == i), ch(i))           # a commit is not its own ancestor
        chs = dget(objd(h), K('changes')); e = lnth(chs, j); kp = K('path')
        fa([h, j], z3.Implies(z3.And(j >= 0, j < llen(chs)), z3.And(tch(h, dget(e, kp)), tci(h, dget(e, kp)) == j, tcv(h, dget(e, kp)) == e)), e)    # one entry per path in a commit
        o = objd(ch(i)); cg = dget(o, K('changes')); oj = lnth(cg, j)
        fa([i], z3.Implies(z3.And(i >= 0, i < L), z3.And(ty(o) == T_DICT, dhas(o, K('changes')), dhas(o, K('parent')), ty(cg) == T_LIST)), objd(ch(i)))
        fa([i, j], z3.Implies(z3.And(i >= 0, i < L, j >= 0, j < llen(cg)), z3.And(ty(oj) == T_DICT, dhas(oj, kp), ty(dget(oj, kp)) == T_STR)), oj)
        k = tci(h, x)
        fa([h, x], z3.Implies(tch(h, x), z3.And(k >= 0, k < llen(chs), dget(lnth(chs, k), kp) == x, tcv(h, x) == lnth(chs, k))), tch(h, x))

    def net(self, ver):
        """unfold net at i: level 1 to level 0"""
        c = self.c; i = z3.Int('i'); x = z3.Const('x', V)
        t, v = tch(ch(i), x), tcv(ch(i), x)
        c.bg.append(z3.ForAll([i, x], z3.And(nh1(i, x) == nh0(i, x), nv1(i, x) == nv0(i, x),
            nh1(i, x) == z3.And(ch(i) != ver, z3.Or(t, nh0(i + 1, x))), z3.Implies(ch(i) != ver, nv1(i, x) == z3.If(t, v, nv0(i + 1, x)))), patterns=[nh1(i, x)]))

def chain_reader(w, root):
    ip, c = w.ip, w.c
    def rd(ip, a, k, f):
        d = bind(f, a, k, ip); h = ip.term(d['object_hash'])
        if d['expected_object_type'] != 'commit': raise Unsupported('kind of object')
        if c.choose('object cannot be read'): w.unread = h; py_raise(IOError, 'object')
        c.assume(h != root)
        t = obj_term(w, h, 'commit'); r = c.fresh('object'); c.assume([r == t, ty(r) == T_DICT]); return Box(r)
    ip.overrides[STORE + '.read_index_object'] = rd

def at(ip, lst):
    """length and element of a list"""
    c = ip.ctx
    if lst.concrete: 
        its = [ip.term(x) for x in lst.items()]
        return len(its), lambda i: None
    t = ip.term(lst); return llen(t), lambda i: lnth(t, i)

def unit_since(v):
    ip, c, w, me, bp = store(v)
    C = Chain(w); ver = c.fresh('version'); c.bg += [ty(ver) == T_STR]; C.net(ver)
    root = c.const('root'); chain_reader(w, root)
    f = ip.get(CS); c.func = f.qualname
    w.effect = lambda *a: c.prove('the query changes nothing', False)
    w.log_touch = lambda *a: c.prove('only the commits of the chain are read', False)
    x = z3.Const('x', V); y = c.fresh('path'); i = z3.Int('i')
    def variables(env):
        """by their roles: the list collected, the commits seen, the current commit"""
        vs = env.vars
        lst = [v for v in vs.values() if isinstance(v, ListObj)]
        ptr = [v for n, v in vs.items() if isinstance(v, Box) and n not in params and v is not me]
        ptr = [v for v in ptr if c.entails(ty(v.peek()) == T_STR)] or ptr[:1]
        seen = [v for v in vs.values() if isinstance(v, (DictObj, SetObj))]
        if len(lst) != 1 or len(ptr) != 1: raise Unsupported('state of the walk')
        return lst[0], ptr[0], seen
    params = [a.arg for a in f.node.args.args]
    def hook(ip, st, env):
        def inv():
            lst, ptr, seen = variables(env)
            k = w.named_int(llen(ip.term(lst)) if not lst.concrete else z3.IntVal(len(lst.items())))
            t = ip.term(lst)
            fs = [('the walk is within the chain', z3.And(k >= 0, k <= C.L)), ('the walk is at the commit after those collected', ip.term(ptr) == ch(k)),
                  ('the commits collected are the latest ones, in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), lnth(t, i) == objd(ch(i))), patterns=[lnth(t, i)])),
                  ('the version was not met so far', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= k), ch(i) != ver), patterns=[ch(i)]))]
            for s in seen:
                m = (lambda z: dhas(ip.term(s), z)) if isinstance(s, DictObj) else (lambda z: ip.truth(ip.mkbool(ip.contains(Box(z), s))))
                fs.append(('only collected commits count as seen', z3.ForAll([i], z3.Implies(z3.And(i >= k, i <= C.L), z3.Not(m(ch(i)))), patterns=[ch(i)])))
            return fs
        while_inv(ip, st, env, inv, 'walk')
    ip.while_hooks[CS] = hook
    def named_int(t):
        n = c.fresh('n', I); c.assume(n == t); return n
    w.named_int = named_int
    def loop(ip, seg, body, env, node):
        N = dense(seg)
        if N is None or isinstance(seg.value, z3.ExprRef) is False: return NotImplemented
        k0 = c.fresh('k', I)
        # the family runs over the commits collected, oldest first
        if not c.entails(z3.Implies(z3.And(k0 >= 0, k0 < N), z3.substitute(seg.value, (seg.bvs[0], k0)) == objd(ch(N - 1 - k0)))): return NotImplemented
        n0 = w.named_int(N)
        def inv(done):
            ms = [m for m in done.mods if isinstance(m, Box)]
            if not ms: return []
            if len(ms) != 1 or done.count is None: raise Unsupported('collecting the changes')
            D = ms[0].term(); j = n0 - done.count
            fs = []
            for pat in (dhas(D, x), dget(D, x)):
                fs.append(z3.ForAll([x], z3.And(dhas(D, x) == nh0(j, x), z3.Implies(nh0(j, x), dget(D, x) == nv0(j, x))), patterns=[pat]))
            for m in (j, j + 1): bridge(m)
            return [('each path has the entry of the latest commit replayed so far', z3.And(*fs))]
        for_inv(ip, seg, body, env, inv, 'replay')
    def bridge(m):
        j1 = w.named_int(m)
        for p in (nh0(j1, x), nv0(j1, x)): c.assume(z3.ForAll([x], z3.And(nh1(j1, x) == nh0(j1, x), nv1(j1, x) == nv0(j1, x)), patterns=[p]))
    ip.for_hooks = [loop]
    n = {'none': 0, 'some': 0, 'refused': 0}
    anc = c.fresh('ancestor', B); pos = c.fresh('position', I)
    c.bg.append(z3.Implies(anc, z3.And(pos >= 0, pos <= C.L, ch(pos) == ver)))
    c.bg.append(z3.Implies(z3.Not(anc), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= C.L), ch(i) != ver), patterns=[ch(i)])))
    def thunk():
        w.unread = None
        try: return ip.call(f, [me, Box(ver), Box(C.head)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc):
            n['refused'] += 1
            if r.exc.args[:1] == ('object',): return
            c.prove('an ancestor of the head is answered', z3.Not(anc)); return
        c.prove('a version that is not the head or an ancestor of it is refused', anc)
        r = ip.term(r)
        z = w.named_int(z3.IntVal(0))
        for m in (0, 1): bridge(z3.IntVal(m))
        n['some'] += 1
        c.prove('exactly the paths touched since the version are reported', dhas(r, y) == nh1(z, y))
        c.prove('each path is reported with the entry of the latest commit that touched it', z3.Implies(nh1(z, y), dget(r, y) == nv1(z, y)))
    c.explore(thunk, visit)
    c.prove('reachable', n['some'] > 0 and n['refused'] > 0)

def unit_find_changed(v):
    """the request: the query is asked from the revision given to the head, and its answer (with unchanged files when asked for) is what is merged"""
    from .c12 import setting
    ip, c, w, f, rq, cx = setting(v, 'find_changed')
    from .c05 import json_objects
    json_objects(w)
    ip.import_module('bversion.storage.versioned_storage')
    ip.overrides['bversion.common.make_dirs_if_dont_exist'] = lambda ip, a, k, f: None
    repo = w.hdr('repository'); x = c.fresh('path'); q = z3.Const('q', V)
    H, S, Fm, M, cc = c.fresh('head'), c.fresh('server_changes'), c.fresh('files'), c.fresh('merged'), c.fresh('client_changes')
    c.bg += [ty(H) == T_STR, ty(M) == T_DICT, ty(cc) == T_DICT]
    for D in (S, Fm): c.bg += [ty(D) == T_DICT, z3.ForAll([q], z3.Implies(dhas(D, q), z3.And(ty(q) == T_STR, ty(dget(D, q)) == T_DICT)), patterns=[dhas(D, q)])]
    inc = w.hdr('include_unchanged')
    mine = lambda me: c.prove('the store asked is that of the requested repository', ip.term(ip.getattr_(me, 'base_path')) == w.rpath(repo))
    vs = ip.get(STORE)
    def other(nm):
        def k(ip, a, kw, f): raise Unsupported('the request uses ' + nm)
        return k
    for n, m in list(vs.attrs.items()):
        if isinstance(m, Func) and n not in ('__init__',): ip.overrides[m.qualname] = other(n)
    def get_head(ip, a, k, f): mine(a[0]); return Box(H)
    def since(ip, a, k, f):
        mine(a[0]); d = list(bind(f, a, k, ip).values())
        c.prove('the changes asked for are those since the revision of the client, up to the head', z3.And(ip.term(d[1]) == w.hdr('previous_revision'), ip.term(d[2]) == H))
        if c.choose('refused'): py_raise(IOError, 'object')
        return Box(S)
    def files(ip, a, k, f):
        mine(a[0]); d = list(bind(f, a, k, ip).values())
        c.prove('the files listed are those of the head', ip.term(d[1]) == H)
        if c.choose('unreadable'): py_raise(IOError, 'object')
        return Box(Fm)
    def commit(ip, a, k, f):
        d = list(bind(f, a, k, ip).values())
        if c.choose('unreadable'): py_raise(IOError, 'object')
        return Box(obj_term(w, ip.term(d[1]), 'commit'))
    ip.overrides.update({STORE + '.get_head': get_head, STORE + '.get_changes_since': since, STORE + '.get_commit_files': files, STORE + '.read_commit_index_object': commit})
    args = []
    def merge(ip, a, k, f):
        d = list(bind(f, a, k, ip).values()); args.append((ip.term(d[0]), ip.term(d[1]))); c.log(lambda: args.pop(), None)
        return Box(M)
    ip.overrides['bversion.merge_client_and_server_changes.merge_client_and_server_changes'] = merge
    jb = c.fresh('body'); c.bg += [ty(jb) == T_DICT, jloads(dget(jb, c.const('client_changes'))) == cc]
    rq.attrs['get_json'] = Native('get_json', lambda ip, a, k: Box(jb))
    n = {'ok': 0, 'root': 0}
    kst = c.const('status'); unch = c.const('unchanged')
    def thunk():
        try: return ip.call(f, [rq, cx], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): return
        h = ip.getattr_(r, 'headers')
        if not c.decide(ip.truth(ip.mkbool(ip.eq(ip.load_key(h, 'status'), 'ok')))): return
        b = ip.term(ip.getattr_(r, 'body'))
        if not args:
            n['root'] += 1
            c.prove('only an empty repository has no changes to merge', H == c.const('root')); return
        n['ok'] += 1
        sv, cv = args[-1]
        c.prove('the changes of the client are those sent', cv == cc)
        c.prove('every change since the revision is merged as recorded', z3.Implies(dhas(S, x), z3.And(dhas(sv, x), dget(sv, x) == dget(S, x))))
        c.prove('nothing else is merged but unchanged files, when asked for', z3.Implies(z3.And(dhas(sv, x), z3.Not(dhas(S, x))), z3.And(F('int_parse', V, I)(inc) != 0, dhas(Fm, x), dget(sv, x) == dset(dget(Fm, x), kst, unch))))
        c.prove('unchanged files are merged when asked for', z3.Implies(z3.And(F('int_parse', V, I)(inc) != 0, dhas(Fm, x)), dhas(sv, x)))
        o = jloads(b)
        c.prove('the answer names the head and the merged changes', z3.And(dget(o, c.const('head')) == H, dget(o, c.const('sorted_changes')) == M))
    c.explore(thunk, visit)
    c.prove('reachable', n['ok'] > 0 and n['root'] > 0)

UNITS = [('route find_changed', unit_find_changed), ('get_changes_since', unit_since)]

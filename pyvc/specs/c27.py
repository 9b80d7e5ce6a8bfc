"""C27: what verification reports and what garbage collection removes.

Ghost: ch(0) .. ch(L-1) the commits from the head to the first (C08).  sub(h, t): the tree t is h or below it, following stored
directory objects.  RT(t): below the root of some commit of the chain; RF(x): named by the files of such a tree.  An object of kind k
exists when there is a file at its place (k/first two digits/rest)."""
import z3
from ..srv import *
from ..store import *
from ..loops import while_inv, for_inv
from ..tree import bind, modular
from ..world import *
from .c08 import Chain, ch
from .c05 import mentions

sub1, sub0 = F('below', V, V, B), F('below0', V, V, B); via = F('below_via', V, V, V)
RT, rti = F('tree_needed', V, B), F('tree_needed_at', V, I); RF, rft, rfn = F('file_needed', V, B), F('file_needed_tree', V, V), F('file_needed_name', V, V)
readable = F('readable', V, B); ent = F('dir_entry', V, V, B)
GRO = STORE + '.get_reachable_objects'
trust('store layout', 'the directories index and files hold directories with names of two characters, these hold files; the objects whose content has their hash are what the writers stored: JSON dictionaries with a type, trees naming files with hashes')

class Reach:
    def __init__(self, w):
        self.w, ip, c = w, w.ip, w.c; self.ip, self.c = ip, c
        C = self.C = Chain(w); K = c.const
        i = z3.Int('i'); h, t, n, x = z3.Consts('h t n x', V)
        fa = lambda vs, b, *p: c.bg.append(z3.ForAll(vs, b, patterns=list(p)))
        self.dirs = lambda h: dget(objd(h), K('dirs')); self.files = lambda h: dget(objd(h), K('files')); self.root = lambda h: dget(objd(h), K('tree_root'))
        D = self.dirs(h)
        fa([h, t], z3.And(sub1(h, t) == sub0(h, t), z3.Implies(sub1(h, t), z3.Or(t == h, z3.And(dhas(D, via(h, t)), sub0(dget(D, via(h, t)), t))))), sub1(h, t))
        fa([h, n, t], z3.Implies(z3.And(dhas(D, n), sub0(dget(D, n), t)), sub1(h, t)), sub0(dget(D, n), t))
        r = self.root(ch(i))
        fa([i], z3.Implies(z3.And(i >= 0, i < C.L), z3.And(ty(objd(ch(i))) == T_DICT, dhas(objd(ch(i)), K('tree_root')), ty(r) == T_STR)), objd(ch(i)))
        fa([t], z3.Implies(RT(t), z3.And(ty(objd(t)) == T_DICT, dhas(objd(t), K('files')), dhas(objd(t), K('dirs')), ty(self.files(t)) == T_DICT, ty(self.dirs(t)) == T_DICT)), RT(t))
        fa([i, t], z3.Implies(z3.And(i >= 0, i < C.L, sub0(r, t)), RT(t)), sub0(r, t))
        fa([t], z3.Implies(RT(t), z3.And(rti(t) >= 0, rti(t) < C.L, sub0(self.root(ch(rti(t))), t))), RT(t))
        fl = self.files(t); e = dget(fl, n)
        fa([t, n], z3.Implies(z3.And(RT(t), dhas(fl, n)), RF(dget(e, K('hash')))), dhas(fl, n))
        w1, w2 = rft(x), rfn(x)
        fa([x], z3.Implies(RF(x), z3.And(RT(w1), dhas(self.files(w1), w2), dget(dget(self.files(w1), w2), K('hash')) == x)), RF(x))
        fa([t, n], z3.Implies(dhas(fl, n), z3.And(ty(e) == T_DICT, dhas(e, K('hash')), ty(dget(e, K('hash'))) == T_STR)), e)
        ip.trusted |= {'store layout'}
        self.unread = None
    def isc(self, h):
        p = F('chain_pos', V, I)(h); return z3.And(p >= 0, p < self.C.L, ch(p) == h)
    def reader(self):
        ip, c = self.ip, self.c
        def rd(ip, a, k, f):
            d = bind(f, a, k, ip); h = ip.term(d['object_hash']); kind = d['expected_object_type']
            if kind not in ('commit', 'tree'): raise Unsupported('kind of object')
            if not c.loose and not c.decide(readable(h)): self.unread = h; py_raise(IOError, 'object')
            if kind == 'commit': c.assume(h != c.const('root'))
            t = obj_term(self.w, h, kind); return Box(w_named(c, t))
        ip.overrides[STORE + '.read_index_object'] = rd
    def head(self):
        self.ip.overrides[STORE + '.get_head'] = lambda ip, a, k, f: Box(self.C.head)

def w_named(c, t):
    r = c.fresh('object'); c.assume([r == t, ty(r) == T_DICT]); return t

def boxed(ip, d):
    if d.box is None: ip.dict_to_box(d)
    return d.box

def tree_dict(f):
    """the dictionary of trees which the helper fills"""
    vs = f.env.vars
    for x in vs.values():
        if isinstance(x, DictObj) and x.box is None and isinstance(x.d.get('trees'), DictObj): return x.d['trees']
    for n, x in vs.items():
        if isinstance(x, DictObj) and 'tree' in n: return x
    raise Unsupported('the helper does not fill a dictionary of trees')

def all_objd(m):
    t = z3.Const('t', V)
    return z3.And(*[z3.ForAll([t], z3.Implies(dhas(m, t), dget(m, t) == objd(t)), patterns=[p]) for p in (dhas(m, t), dget(m, t))])

def helper_contract(R, q):
    """helper(h): every tree at or below h is added with its object; fails only when one of these cannot be read"""
    ip, c = R.ip, R.c; t = z3.Const('t', V); st = {}; fr = [None]
    def rel(new, old, s): return [z3.ForAll([t], dhas(new, t) == z3.Or(dhas(old, t), s(t)), patterns=[dhas(new, t)])]
    def pre(args): c.prove('the trees collected are those stored under their hashes', all_objd(boxed(ip, tree_dict(fr[0])).term()))
    def fresh(args, f):
        h = c.fresh('tree_hash'); c.assume(ty(h) == T_STR)
        d = boxed(ip, tree_dict(f)); r0 = c.fresh('trees'); c.assume([ty(r0) == T_DICT, all_objd(r0)]); d.replace(r0)
        st.update(h=h, r0=r0, d=d); R.unread = None
        ks = list(args); return {**args, ks[-1]: Box(h)}
    def apply(args):
        h = ip.term(list(args.values())[-1]); d = boxed(ip, tree_dict(fr[0])); old = d.term()
        if c.fails('a tree cannot be read'):
            u = c.fresh('unread'); c.assume([sub0(h, u), sub1(h, u), z3.Not(readable(u))]); R.unread = u; py_raise(IOError, 'object')
        new = c.fresh('trees'); c.assume([ty(new) == T_DICT, all_objd(new)] + rel(new, old, lambda t: sub0(h, t))); d.replace(new)
        return None
    def check(args, r):
        h = st['h']; y = c.fresh('t')
        if isinstance(r, PyExc):
            c.assume(sub1(h, h))
            c.prove('walking a tree fails only when a tree below cannot be read', z3.And(r.exc.args[:1] == ('object',), R.unread is not None and z3.And(sub1(h, R.unread), z3.Not(readable(R.unread))))); return
        new = st['d'].term(); c.assume(sub1(h, h)); c.assume(sub1(h, y) == sub0(h, y))
        c.prove('every tree at or below is collected, and no other', dhas(new, y) == z3.Or(dhas(st['r0'], y), sub1(h, y)))
        c.prove('trees are collected under their hashes', z3.Implies(dhas(new, y), dget(new, y) == objd(y)))
    modular(ip, q, fresh, apply, check, pre)
    inner = ip.overrides[q]
    def ov(ip, a, k, f):
        fr[0] = f; return inner(ip, a, k, f)
    ip.overrides[q] = ov
    def loop(ip, seg, body, env, node):
        if env.func is None or env.func.qualname != q: return NotImplemented
        d = st['d']; r1 = w_name(c, d.term()); h = st['h']; D = R.dirs(h)
        n = z3.Const('n', V)
        def inv(done):
            new = d.term()
            return [('subtrees done are collected', z3.And(all_objd(new), z3.ForAll([t], z3.Implies(dhas(r1, t), dhas(new, t)), patterns=[dhas(r1, t)]), z3.ForAll([t], z3.Implies(dhas(new, t), z3.Or(dhas(r1, t), sub1(h, t))), patterns=[dhas(new, t)]),
                      z3.ForAll([n, t], z3.Implies(z3.And(dhas(D, n), done(n), sub0(dget(D, n), t)), dhas(new, t)), patterns=[sub0(dget(D, n), t)])))]
        if not mentions(seg.cond, c.const('dirs')): return NotImplemented
        for_inv(ip, seg, body, env, inv, 'directories')
    ip.for_hooks = list(getattr(ip, 'for_hooks', ())) + [loop]

def w_name(c, t):
    r = c.fresh('named'); c.assume(r == t); return r

def unit_reachable(v):
    ip, c, w, me, bp = store(v)
    R = Reach(w); R.reader(); R.head(); K = c.const
    f = ip.get(GRO); c.func = GRO
    w.effect = lambda *a: c.prove('looking for reachable objects changes nothing', False)
    nested = [x.name for x in __import__('ast').walk(f.node) if isinstance(x, __import__('ast').FunctionDef) and x is not f.node]
    if len(nested) != 1: raise Unsupported('the helper of get_reachable_objects')
    helper_contract(R, GRO + '.' + nested[0])
    i = z3.Int('i'); x, t, n = z3.Consts('x t n', V); pos = F('chain_pos', V, I)
    def reach_dict(env):
        for y in env.vars.values():
            if isinstance(y, DictObj) and y.box is None and isinstance(y.d.get('trees'), DictObj): return y.d
        raise Unsupported('the result of get_reachable_objects')
    def walk(ip, node, env):
        d = reach_dict(env); cm = d['commits']
        def cbox(): return ip.term(cm)
        kv = Obj('ghost', {'k': SI(z3.IntVal(0))})
        def inv():
            ps = [y for nm, y in env.vars.items() if isinstance(y, Box) and y is not me and c.entails(ty(y.peek()) == T_STR)]
            ptr = env.vars.get('pointer') or None
            if ptr is None: raise Unsupported('the pointer of the walk')
            m = cbox(); p = pos(ip.term(ptr))
            return [('the walk is within the chain', z3.And(ip.term(ptr) == ch(p), p >= 0, p < R.C.L)),
                    ('the commits before it are collected', z3.And(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p), z3.And(dhas(m, ch(i)), dget(m, ch(i)) == objd(ch(i)))), patterns=[ch(i)]),
                         *[z3.ForAll([x], z3.Implies(dhas(m, x), z3.And(pos(x) >= 0, pos(x) < p, ch(pos(x)) == x, dget(m, x) == objd(x))), patterns=[q]) for q in (dhas(m, x), dget(m, x))]))]
        boxed(ip, cm)
        while_inv(ip, node, env, inv, 'commits')
    ip.while_hooks[GRO] = walk
    def loop(ip, seg, body, env, node):
        if env.func is None or env.func.qualname != GRO: return NotImplemented
        d = reach_dict(env)
        over = lambda k: not mentions(seg.cond, K('files')) and mentions(seg.cond, boxed(ip, d[k]).term())
        if mentions(seg.cond, K('files')):
            F_ = boxed(ip, d['files']); r1 = w_name(c, F_.term()); kt = cur['t']
            def inv(done):
                new = F_.term(); fl = R.files(kt); e = dget(fl, n)
                return [('the files of this tree done so far are collected', z3.And(z3.ForAll([x], z3.Implies(dhas(r1, x), dhas(new, x)), patterns=[dhas(r1, x)]), z3.ForAll([x], z3.Implies(dhas(new, x), RF(x)), patterns=[dhas(new, x)]),
                          z3.ForAll([n], z3.Implies(z3.And(dhas(fl, n), done(n)), dhas(new, dget(e, K('hash')))), patterns=[e])))]
            return for_inv(ip, seg, body, env, inv, 'files of a tree')
        if over('trees'):
            F_ = boxed(ip, d['files'])
            def inv(done):
                new = F_.term(); fl = R.files(t); e = dget(fl, n)
                return [('the files of the trees done so far are collected', z3.And(z3.ForAll([x], z3.Implies(dhas(new, x), RF(x)), patterns=[dhas(new, x)]),
                          z3.ForAll([t, n], z3.Implies(z3.And(done(t), dhas(fl, n)), dhas(new, dget(e, K('hash')))), patterns=[e])))]
            def body2(val):
                tv = ip.term(val)
                if not (z3.is_app(tv) and tv.decl().eq(dget)): raise Unsupported('element of the trees')
                cur['t'] = tv.arg(1); return body(val)
            return for_inv(ip, seg, body2, env, inv, 'trees')
        if over('commits'):
            T_ = boxed(ip, d['trees']); 
            def inv(done):
                new = T_.term(); r = R.root(x)
                return [('the trees of the commits done so far are collected', z3.And(all_objd(new), z3.ForAll([t], z3.Implies(dhas(new, t), RT(t)), patterns=[dhas(new, t)]),
                          z3.ForAll([x, t], z3.Implies(z3.And(done(x), sub0(r, t)), dhas(new, t)), patterns=[sub0(r, t)])))]
            return for_inv(ip, seg, body, env, inv, 'commits')
        return NotImplemented
    cur = {}
    ip.for_hooks = list(getattr(ip, 'for_hooks', ())) + [loop]
    cnt = {'ok': 0, 'root': 0, 'failed': 0}
    def thunk():
        R.unread = None
        try: return ip.call(f, [me], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc):
            cnt['failed'] += 1; u = R.unread
            c.prove('it fails only when the history cannot be read', r.exc.args[:1] == ('object',) and u is not None)
            if u is not None: c.prove('the object that cannot be read is one the history needs', z3.And(z3.Or(R.isc(u), RT(u)), z3.Not(readable(u)))); return
        head, d = r if isinstance(r, tuple) else (None, None)
        c.prove('the head is returned with what it needs', ip.term(head) == R.C.head)
        h = c.fresh('h'); m = {k: ip.term(ip.load_key(d, k)) for k in ('commits', 'trees', 'files')}
        cnt['ok'] += 1
        c.assume(z3.And(RT(h) == RT(h), RF(h) == RF(h), pos(h) == pos(h)))
        c.prove('exactly the commits of the history are found', dhas(m['commits'], h) == R.isc(h))
        c.prove('exactly the trees the commits need are found', dhas(m['trees'], h) == RT(h))
        c.prove('exactly the files the trees need are found', dhas(m['files'], h) == RF(h))
    c.explore(thunk, visit)
    c.prove('reachable', cnt['ok'] > 0 and cnt['failed'] > 0)

# ------------------------------------------------------------------------------------------ objects that are there
def layout(w, bp):
    ip, c = w.ip, w.c; K = c.const
    d, e, h, p = z3.Consts('d e h p', V)
    fa = lambda vs, b, *q: c.bg.append(z3.ForAll(vs, b, patterns=list(q)))
    fs0 = w.fs._t; ip.trusted |= {'store layout'}
    fa([d, e], z3.Implies(z3.And(ty(d) == T_STR, ty(e) == T_STR, slen(d) == 2), z3.And(hpre(cat(d, e)) == d, hsuf(cat(d, e)) == e, ty(cat(d, e)) == T_STR)), cat(d, e))
    fa([h], z3.Implies(ty(h) == T_STR, cat(hpre(h), hsuf(h)) == h), hpre(h))
    fa([h], z3.Implies(ty(h) == T_STR, z3.And(ty(hpre(h)) == T_STR, ty(hsuf(h)) == T_STR)), hsuf(h))
    for k in ('index', 'files'):
        kd = pth(bp, K(k))
        fa([d], z3.Implies(ent(kd, d), z3.And(ty(d) == T_STR, slen(d) == 2)), ent(kd, d))
        fa([d, e], z3.Implies(dhas(fs0, pth(pth(kd, d), e)), z3.And(ent(kd, d), ty(e) == T_STR)), dhas(fs0, pth(pth(kd, d), e)))
    w.there = lambda k, h, fs=None: z3.And(ty(h) == T_STR, dhas(fs0 if fs is None else fs, w.obj_path(bp, k, h)))
    def listdir(ip, a, k):
        t = ip.term(a[0]); x = c.fresh('name')
        for kd in ('index', 'files'):
            if t.eq(pth(bp, K(kd))): return ListObj([DSeg([x], ent(t, x), x, False, None, True)])
            if z3.is_app(t) and t.decl().eq(pth) and t.arg(0).eq(pth(bp, K(kd))): return ListObj([DSeg([x], dhas(w.fs.peek(), pth(t, x)), x, False, None, True)])
        raise Unsupported('directory listed')
    setm(ip, 'os', 'listdir', listdir)
    return fs0

def unit_all(v):
    ip, c, w, me, bp = store(v)
    fs0 = layout(w, bp); K = c.const
    q = STORE + '.get_all_object_hashes'; f = ip.get(q); c.func = q
    w.effect = lambda *a: c.prove('listing objects changes nothing', False)
    x, e = z3.Consts('x e', V); d_ = z3.Const('d', V); cur = {}
    def loop(ip, seg, body, env, node):
        if env.func is None or env.func.qualname != q: return NotImplemented
        for k in ('index', 'files'):
            kd = pth(bp, K(k))
            if not mentions(seg.cond, kd): continue
            outer = z3.is_app(seg.cond) and seg.cond.decl().eq(ent)
            res = [y for y in env.vars.values() if isinstance(y, DictObj) and y.box is None and isinstance(y.d.get(k), DictObj)]
            if len(res) != 1: raise Unsupported('the objects listed')
            M = boxed(ip, res[0].d[k]); r1 = w_name(c, M.term())
            def sound(m): return [z3.ForAll([x], z3.Implies(dhas(m, x), z3.And(w.there(k, x), dget(m, x) == w.obj_path(bp, k, x))), patterns=[p]) for p in (dhas(m, x), dget(m, x))]
            if outer:
                def inv(done):
                    m = M.term()
                    return [('the objects of the directories done are listed', z3.And(*sound(m), z3.ForAll([d_, e], z3.Implies(z3.And(done(d_), dhas(fs0, pth(pth(kd, d_), e))), dhas(m, cat(d_, e))), patterns=[pth(pth(kd, d_), e)])))]
                def body2(val): cur['d'] = ip.term(val); return body(val)
                return for_inv(ip, seg, body2, env, inv, 'directories')
            def inv(done):
                m = M.term(); dd = cur['d']
                return [('the objects done are listed', z3.And(*sound(m), z3.ForAll([x], z3.Implies(dhas(r1, x), dhas(m, x)), patterns=[dhas(r1, x)]), z3.ForAll([e], z3.Implies(z3.And(done(e), dhas(fs0, pth(pth(kd, dd), e))), dhas(m, cat(dd, e))), patterns=[pth(pth(kd, dd), e)])))]
            return for_inv(ip, seg, body, env, inv, 'objects')
        return NotImplemented
    ip.for_hooks = [loop]
    n = [0]
    def thunk():
        try: return ip.call(f, [me], {})
        except PyExc as e: return e
    def visit(r):
        c.prove('listing objects does not fail', not isinstance(r, PyExc))
        if isinstance(r, PyExc): return
        n[0] += 1
        for k in ('index', 'files'):
            m = ip.term(ip.load_key(r, k)); h = c.fresh('h'); c.assume(ty(h) == T_STR); p = w.obj_path(bp, k, h)
            c.assume(z3.And(hsuf(h) == hsuf(h), cat(hpre(h), hsuf(h)) == h))
            c.prove('exactly the objects that are there are listed (%s)' % k, dhas(m, h) == dhas(fs0, p))
            c.prove('every object is listed with its file (%s)' % k, z3.Implies(dhas(m, h), dget(m, h) == p))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)


# ------------------------------------------------------------------------------------------ verify and gc
OPEN = F('needed_by_open_commit', V, B); opk, opw = F('open_row', V, V), F('open_where', V, I); NC = F('needed_commit', V, B)

def judged(v):
    """the two readers by their contracts: what the history needs (or it cannot be read), and what is there"""
    ip, c, w, me, bp = store(v); K = c.const; ip.trusted |= {'store layout'}
    s = Obj('setting', {}); s.ip, s.c, s.w, s.me, s.bp = ip, c, w, me, bp
    s.fs0 = w.fs._t; head = s.head = c.fresh('head'); h = z3.Const('h', V)
    fa = lambda vs, b, *p: c.bg.append(z3.ForAll(vs, b, patterns=list(p)))
    m = {k: c.fresh('needed_' + k) for k in ('commits', 'trees', 'files')}; s.m = m
    a = {k: c.fresh('there_' + k) for k in ('index', 'files')}; s.a = a
    c.bg += [ty(head) == T_STR] + [ty(x) == T_DICT for x in list(m.values()) + list(a.values())]
    for x in m.values():
        fa([h], z3.Implies(dhas(x, h), z3.And(ty(h) == T_STR, head != K('root'))), dhas(x, h))
    c.bg.append(z3.Implies(head != K('root'), dhas(m['commits'], head)))
    path = s.path = lambda k, h: w.obj_path(bp, k, h)
    there = s.there = lambda k, h: z3.And(ty(h) == T_STR, dhas(s.fs0, path(k, h)))
    for k, x in a.items():
        fa([h], dhas(x, h) == there(k, h), dhas(x, h)); fa([h], z3.Implies(dhas(x, h), dget(x, h) == path(k, h)), dhas(x, h), )
        fa([h], z3.Implies(ty(h) == T_STR, dhas(x, h) == dhas(s.fs0, path(k, h))), path(k, h))
    s.need = lambda k, h: z3.Or(dhas(m['commits'], h), dhas(m['trees'], h)) if k == 'index' else dhas(m['files'], h)
    s.content = lambda k, h: dget(s.fs0, path(k, h))
    s.good = lambda k, h: sha(s.content(k, h)) == h
    obj = lambda h: jloads(s.content('index', h)); jok = F('json_ok', V, B)
    s.iscommit = lambda h: dget(obj(h), K('type')) == K('commit')
    fa([h], z3.Implies(z3.And(there('index', h), s.good('index', h)), z3.And(jok(s.content('index', h)), ty(obj(h)) == T_DICT, dhas(obj(h), K('type')))), path('index', h))
    s.unread = Obj('ghost', {'v': False})
    def gro(ip, args, k, f):
        if c.choose('the history cannot be read'): ip.setattr_(s.unread, 'v', True); py_raise(IOError, 'object')
        def mk(x): b = Box(x); d = DictObj(); d.box = b; return d
        return (Box(head), DictObj({k: mk(x) for k, x in m.items()}))
    def gao(ip, args, k, f):
        def mk(x): d = DictObj(); d.box = Box(x); return d
        return DictObj({k: mk(x) for k, x in a.items()})
    ip.overrides[GRO] = gro; ip.overrides[STORE + '.get_all_object_hashes'] = gao
    import ast as _a
    def counts(ip, seg, body, env, node):
        """a loop that counts the commits"""
        names = {n.target.id for n in _a.walk(node) if isinstance(n, _a.AugAssign) and isinstance(n.target, _a.Name)} if node is not None else set()
        names = [n for n in names if isinstance(env.vars.get(n), (int, SI))]
        if not names or not mentions(seg.cond, a['index']): return NotImplemented
        def inv(done):
            out = []
            for n in names:
                t = ip.num(env.vars[n]); t = z3.IntVal(t) if isinstance(t, int) else t
                x = z3.Const('x', V); p = path('index', x)
                out.append(('the count is zero exactly when no commit was seen', z3.And(t >= 0, z3.Implies(t == 0, z3.ForAll([x], z3.Implies(done(x), z3.Not(s.iscommit(x))), patterns=[p])),
                            z3.Implies(z3.ForAll([x], z3.Implies(done(x), z3.Not(s.iscommit(x))), patterns=[p]), t == 0))))
            return out
        return for_inv(ip, seg, body, env, inv, 'counting commits')
    ip.for_hooks = [counts]
    return s

def seed(s, h):
    """ground terms about one hash"""
    for k in ('index', 'files'): s.c.assume(z3.And(s.path(k, h) == s.path(k, h), dhas(s.a[k], h) == dhas(s.a[k], h)))

def unit_verify(v):
    s = judged(v); ip, c, w, K = s.ip, s.c, s.w, s.c.const
    q = STORE + '.verify_fs'; f = ip.get(q); c.func = q
    w.before = w.effect = lambda *a: c.prove('verifying changes nothing', False)
    cnt = {'ok': 0, 'bad': 0, 'fail': 0}
    x = z3.Const('x', V)
    fine = lambda k, h: z3.And(z3.Implies(s.need(k, h), s.there(k, h)), z3.Implies(s.there(k, h), s.good(k, h)))
    def thunk():
        try: return ip.call(f, [s.me], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc):
            cnt['fail'] += 1
            if s.unread.attrs['v']: return
            for k in ('index', 'files'): c.assume(z3.ForAll([x], fine(k, x), patterns=[s.path(k, x)]))
            c.prove('it fails only when the history cannot be read or an object does not match its hash', False); return
        if not (isinstance(r, tuple) and len(r) == 2): c.prove('verifying says whether it is fine, and what is not', False); return
        if c.decide(ip.truth(r[0])):
            cnt['ok'] += 1; h = c.fresh('h'); c.assume(ty(h) == T_STR); seed(s, h)
            c.prove('a repository whose history cannot be read is not fine', not s.unread.attrs['v'])
            for k in ('index', 'files'):
                c.prove('fine: no object that the history needs is missing (%s)' % k, z3.Implies(s.need(k, h), s.there(k, h)))
                c.prove('fine: every object matches its hash (%s)' % k, z3.Implies(s.there(k, h), s.good(k, h)))
            c.prove('fine: commits do not exist without a head', z3.Implies(z3.And(s.head == K('root'), s.there('index', h)), z3.Not(s.iscommit(h))))
        else:
            cnt['bad'] += 1
            c.prove('a problem is reported when it is not fine', ip.num(ip.call(ip.builtins['len'], [r[1]], {})) > 0)
            for k in ('index', 'files'): c.assume(z3.ForAll([x], fine(k, x), patterns=[s.path(k, x)])); c.assume(z3.ForAll([x], fine(k, x), patterns=[dhas(s.a[k], x)]))
            for mm in s.m.values(): c.assume(z3.ForAll([x], z3.And(fine('index', x), fine('files', x)), patterns=[dhas(mm, x)]))
            c.assume(z3.Or(s.head != K('root'), z3.ForAll([x], z3.Implies(s.there('index', x), z3.Not(s.iscommit(x))), patterns=[s.path('index', x)])))
            c.prove('not fine only when an object is missing or altered, or commits exist without a head', False)
    c.explore(thunk, visit)
    c.prove('reachable', all(cnt.values()))

def unit_gc(v):
    s = judged(v); ip, c, w, K = s.ip, s.c, s.w, s.c.const
    q = STORE + '.remove_garbage'; f = ip.get(q); c.func = q
    G, A = w.T['gc_log']._t, w.T['active_commit_changes']._t; k_ = z3.Const('k', V); h_ = z3.Const('h', V)
    fa = lambda vs, b, *p: c.bg.append(z3.ForAll(vs, b, patterns=list(p)))
    rows_wf(w, ('gc_log', 'active_commit_changes'))
    for T, col in ((G, 'item_hash'), (A, 'hash')):
        r = dget(T, k_)
        fa([k_], z3.Implies(z3.And(dhas(T, k_), rk1(k_) == w.db), OPEN(dget(r, K(col)))), dget(dget(T, k_), K(col)))
    kk = opk(h_)
    fa([h_], z3.Implies(OPEN(h_), z3.And(rk(w.db, rk2(kk)) == kk, rk1(kk) == w.db, z3.Or(z3.And(opw(h_) == 0, dhas(G, kk), dget(dget(G, kk), K('item_hash')) == h_), z3.And(opw(h_) == 1, dhas(A, kk), dget(dget(A, kk), K('hash')) == h_)))), OPEN(h_))
    hh = lambda p: hjoin(p2(p1(p)), p2(p))
    garbage = lambda k, h: z3.And(s.there(k, h), z3.Not(s.need(k, h)), z3.Not(OPEN(h)))
    def before(kind, *info):
        p = info[0]
        if kind != 'remove': c.prove('collecting garbage only removes', False); return
        h = hh(p); seed(s, h); c.assume(OPEN(h) == OPEN(h))
        c.prove('only objects are removed that neither the history nor the open commit needs', z3.And(ty(h) == T_STR, z3.Or(*[z3.And(p == s.path(k, h), garbage(k, h)) for k in ('index', 'files')])))
        c.prove('nothing is removed when the history could not be read', not s.unread.attrs['v'])
        n = c.fresh('h'); seed(s, n)
        c.prove('nothing is removed when commits exist without a head', z3.Implies(z3.And(s.head == K('root'), s.there('index', n)), z3.Not(s.iscommit(n))))
    w.before = before
    w.effect = lambda kind, *info: c.prove('collecting garbage leaves the database alone', kind == 'remove')
    def removing(ip, seg, body, env, node):
        if len(seg.bvs) != 1 or seg.bvs[0].sort() != V: return NotImplemented
        import ast as _a
        if node is None or not any(isinstance(n, _a.Call) for n in _a.walk(node)): return NotImplemented
        g = c.fresh('g'); cd = z3.substitute(seg.cond, (seg.bvs[0], g)); kind = next((k for k in ('index', 'files') if c.entails(z3.Implies(cd, dhas(s.a[k], g)))), None)
        if kind is None: return NotImplemented
        fs1 = w_name(c, w.fs.term()); p = z3.Const('p', V)
        def inv(done):
            fs = w.fs.term()
            D = z3.And(p == s.path(kind, hh(p)), done(hh(p)))
            return [('what was done is removed, and nothing else', z3.And(*[z3.ForAll([p], z3.And(dhas(fs, p) == z3.And(dhas(fs1, p), z3.Not(D)), z3.Implies(dhas(fs, p), dget(fs, p) == dget(fs1, p))), patterns=[t]) for t in (dhas(fs, p), dhas(fs1, p))]))]
        return for_inv(ip, seg, body, env, inv, 'removing')
    ip.for_hooks.append(removing)
    cnt = {'ok': 0, 'refused': 0, 'fail': 0}
    x = z3.Const('x', V)
    def thunk():
        try: return ip.call(f, [s.me], {})
        except PyExc as e: return e
    def visit(r):
        p = c.fresh('p'); fs = w.fs.peek(); h = hh(p); seed(s, h); c.assume(z3.And(OPEN(h) == OPEN(h), dhas(fs, p) == dhas(fs, p), dhas(s.fs0, p) == dhas(s.fs0, p)))
        g = [z3.And(p == s.path(k, h), garbage(k, h)) for k in ('index', 'files')]
        if isinstance(r, PyExc):
            cnt['fail'] += 1
            c.prove('nothing is removed when it fails', dhas(fs, p) == dhas(s.fs0, p))
            if s.unread.attrs['v']: return
            c.assume(z3.ForAll([x], z3.Implies(s.there('index', x), s.good('index', x)), patterns=[s.path('index', x)]))
            c.prove('it fails only when the history cannot be read or an object does not match its hash', False); return
        if not (isinstance(r, tuple) and len(r) == 2): c.prove('collecting says whether it was done', False); return
        if c.decide(ip.truth(r[0])):
            cnt['ok'] += 1
            c.prove('exactly the garbage is gone', dhas(fs, p) == z3.And(dhas(s.fs0, p), z3.Not(z3.Or(*g))))
        else:
            cnt['refused'] += 1
            c.prove('nothing is removed when it is refused', dhas(fs, p) == dhas(s.fs0, p))
            c.assume(z3.Or(s.head != K('root'), z3.ForAll([x], z3.Implies(s.there('index', x), z3.Not(s.iscommit(x))), patterns=[s.path('index', x)])))
            c.prove('it refuses only when commits exist without a head', False)
    c.explore(thunk, visit)
    c.prove('reachable', all(cnt.values()))

def unit_locked(v):
    """garbage_collect: under the repository lock, which is released however it ends"""
    ip, c, w, me, bp = store(v)
    from .c12 import flocks
    flocks(w); q = STORE + '.garbage_collect'; f = ip.get(q); c.func = q
    lockp = pth(bp, c.const('lock_file')); fs0 = w.fs._t
    w.effect = lambda kind, *info: c.prove('only the lock file is touched besides', z3.And(*[p == lockp for p in info]))
    st = Obj('ghost', {'n': 0, 'raised': False}); res = c.fresh('result')
    def rg(ip, a, k, f):
        c.prove('garbage is removed only under the lock of this repository', z3.And(w.held(lockp), z3.BoolVal(a[0] is me)))
        ip.setattr_(st, 'n', st.attrs['n'] + 1)
        if c.choose('removing fails'): ip.setattr_(st, 'raised', True); py_raise(IOError, 'object')
        return Box(res)
    ip.overrides[STORE + '.remove_garbage'] = rg
    cnt = {'done': 0, 'locked': 0, 'raised': 0}
    def thunk():
        try: return ip.call(f, [me], {})
        except PyExc as e: return e
    def visit(r):
        hd = w.held(lockp)
        c.prove('the lock is released', z3.Not(hd)); c.prove('garbage is removed at most once', st.attrs['n'] <= 1)
        if isinstance(r, PyExc):
            c.prove('collecting fails only when removing does', st.attrs['raised']); cnt['raised'] += 1; return
        if st.attrs['n']:
            cnt['done'] += 1; c.prove('what removing said is returned', not st.attrs['raised'] and ip.term(r) == res)
        else:
            cnt['locked'] += 1
            c.prove('without the lock it is refused', isinstance(r, tuple) and r[0] is False)
    c.explore(thunk, visit)
    c.prove('reachable', all(cnt.values()))

UNITS = [('get_reachable_objects', unit_reachable), ('get_all_object_hashes', unit_all), ('verify_fs', unit_verify), ('remove_garbage', unit_gc), ('garbage_collect', unit_locked)]

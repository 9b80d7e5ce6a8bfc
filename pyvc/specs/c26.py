"""C26: restore rebuilds every version that can be reached from the backed-up head.

Ghost: the chain of commits from the head in the bucket (C08), sub(h, t): the tree t is h or below it (C27), up(kind, h): what the
bucket holds for the object h (uploaded by backup, C25, and given back by the stream, C24)."""
import ast as ast_
import z3
from ..srv import *
from ..store import *
from ..world import *
from ..bytesx import pieces
from ..loops import while_inv, for_inv
from ..tree import bind, modular
from ..interp import ContinueEx
from .c08 import ch
from .c05 import mentions
from .c27 import Reach, RT, RF, sub0, sub1, boxed, all_objd, w_name

up = F('in_bucket', V, V, V); RM = 'bversion.repo_manager'
EMPTY = 'e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855'
I_, F_ = F('index_place', V, V, V), F('file_place', V, V, V)
trust('bucket content', 'the bucket holds for each object of the chain, under repository/kind/first two digits/rest, what backup uploaded (C25): the object with that hash, all but the empty file; and head the hash of a commit')
CSFX = '_restore'

def setting(v, name):
    ip = v.interp(); c = ip.ctx; w = World(ip); K = c.const
    ip.import_module(RM)
    cfg = c.fresh('config'); r = z3.Const('r', V); R = dget(cfg, K('repositories'))
    c.bg += [ty(cfg) == T_DICT, dhas(cfg, K('repositories')), ty(R) == T_DICT]
    d = dget(R, r)
    c.bg.append(z3.ForAll([r], z3.Implies(dhas(R, r), z3.And(ty(d) == T_DICT, ty(r) == T_STR, dhas(d, K('path')), ty(dget(d, K('path'))) == T_STR, truthy(dget(d, K('path'))))), patterns=[dhas(R, r)]))
    ip.modules[RM].vars['config'] = Box(cfg)
    ip.overrides[RM + '.init_backup'] = lambda ip, a, k, f: s3
    s3 = Obj('s3 connection'); ip.builtins['print'] = Native('print', lambda ip, a, k: None)
    ip.trusted |= {'bucket content'}
    def cpjoin(ip, a, k, f):
        """joining a text that is already joined (C28: associative)"""
        t = ip.term(a[0])
        for x in a[1:]:
            for part in parts(ip, ip.term(x)): t = pth(t, part)
        return Box(t)
    ip.overrides['bversion.common.cpjoin'] = cpjoin
    init = ip.overrides.get
    def ctor(ip, a, k, f):
        dd = bind(f, a, k, ip); me = a[0]
        ip.setattr_(me, 'base_path', dd['base_path']); ip.setattr_(me, 'path_override', dd.get('path_override')); ip.setattr_(me, 'lock_file', None)
    ip.overrides[STORE + '.__init__'] = ctor
    fa = lambda vs, b, *p: c.bg.append(z3.ForAll(vs, b, patterns=list(p)))
    a, b, e = z3.Consts('a b e', V)
    fa([a, b, e], cat(cat(a, b), e) == cat(a, cat(b, e)), cat(cat(a, b), e))
    fa([a], z3.Implies(ty(a) == T_STR, cat(hpre(a), hsuf(a)) == a), hpre(a)); fa([a], z3.Implies(ty(a) == T_STR, ty(hsuf(a)) == T_STR), hsuf(a))
    f = ip.get(RM + '.' + name); c.func = RM + '.' + name
    return ip, c, w, f, R, s3

def flat(ip, t):
    """the pieces of a text, constants joined"""
    out = []
    for p in pieces(t):
        k = ip.val(p)
        if isinstance(k, str) and out and isinstance(out[-1], str): out[-1] += k
        elif isinstance(k, str): out.append(k)
        else: out.append(p)
    return out

def parts(ip, t):
    """the components between the slashes of a text"""
    out, cur = [], None
    for p in flat(ip, t):
        if isinstance(p, str):
            bits = p.split('/')
            for n, bit in enumerate(bits):
                if n: 
                    if cur is not None: out.append(cur)
                    cur = None
                if bit: cur = ip.ctx.const(bit) if cur is None else cat(cur, ip.ctx.const(bit))
        else: cur = p if cur is None else cat(cur, p)
    if cur is not None: out.append(cur)
    return out

def object_key(ip, repo, t):
    """(kind, hash or name) of a name in the bucket"""
    ps = parts(ip, t)
    while ps and not ps[0].eq(repo) and len(ps) > 1 and False: ps.pop(0)
    if not ps or not ps[0].eq(repo): return None
    ps = [ip.val(p) if isinstance(ip.val(p), str) else p for p in ps[1:]]
    if ps == ['head']: return 'head', None
    if len(ps) == 3 and ps[0] in ('index', 'files') and all(z3.is_expr(x) and z3.is_app(x) for x in ps[1:]) and ps[1].decl().eq(hpre) and ps[2].decl().eq(hsuf) and ps[1].arg(0).eq(ps[2].arg(0)):
        return ps[0], ps[1].arg(0)
    if len(ps) == 2 and ps[0] == 'commits': return 'commits', ip.term(ps[1])
    return None

def each_repository(ip, R, begin, end):
    """the loop over the repositories: one of them, arbitrary, after any others: nothing is known of files, and of variables and
    collections which an earlier round may have changed (nothing outside the function's variables and the files is changed)"""
    c, w = ip.ctx, ip.world
    def loop(ip, seg, body, env, node):
        if not mentions(seg.cond, R): return NotImplemented
        if node is None: raise Unsupported('loop over the repositories')
        stored = {x.id for x in ast_.walk(node) if isinstance(x, ast_.Name) and isinstance(x.ctx, ast_.Store)} | {x.name for x in ast_.walk(node) if isinstance(x, ast_.FunctionDef)}
        for n, v in list(env.vars.items()):
            if n in stored or isinstance(v, (DictObj, ListObj, SetObj)): ip.setvar_in(env, n, Poison('an earlier repository'))
        w.fs.replace(c.fresh('fs'))
        if not c.choose('a repository'): return
        ks = [c.fresh('repository', x.sort()) for x in seg.bvs]
        c.assume(z3.substitute(seg.cond, *list(zip(seg.bvs, ks))))
        val = ip.elem_value(seg, ks)
        if not (isinstance(val, tuple) and len(val) == 2): raise Unsupported('loop over the repositories')
        begin(ip.term(val[0]))
        try: body(val)
        except ContinueEx: pass
        end(); raise PathEnd()
    ip.for_hooks = [loop] + list(getattr(ip, 'for_hooks', ()))

def record_modes(ip):
    op = ip.builtins['open'].fn
    def open_(ip, a, k):
        o = op(ip, a, k); m = k.get('mode', a[1] if len(a) > 1 else 'r'); o.attrs['mode'] = m; return o
    ip.builtins['open'] = Native('open', open_)

def unit_restore(v):
    ip, c, w, f, R_, s3 = setting(v, 'restore'); K = c.const; record_modes(ip)
    R = Reach(w); C = R.C; c.bg.append(C.L >= 1)
    i = z3.Int('i'); x, t, n, h_, b_ = z3.Consts('x t n h b', V); pos = F('chain_pos', V, I)
    fa = lambda vs, b, *p: c.bg.append(z3.ForAll(vs, b, patterns=list(p)))
    st = {}
    place = lambda k, h: w.obj_path(st['rp'], k, h)
    fnc = {'index': I_, 'files': F_}
    P = lambda k, h: fnc[k](st['rp'], h)
    for k in ('index', 'files'):
        p = w.obj_path(b_, k, h_)
        fa([b_, h_], fnc[k](b_, h_) == p, fnc[k](b_, h_)); fa([b_, h_], fnc[k](b_, h_) == p, p)
    want = lambda k, h: z3.If(h == K(EMPTY), K(''), up(K(k), h)) if k == 'files' else up(K('index'), h)
    def ok(fs, k, h):
        e = dget(fs, P(k, h))
        good = z3.Or(e == K(''), e == K(b'')) if k == 'files' else None
        return z3.And(dhas(fs, P(k, h)), z3.If(h == K(EMPTY), good, e == up(K(k), h)) if k == 'files' else e == up(K('index'), h))
    keeps = lambda a, b: [z3.ForAll([x], z3.Implies(ok(a, k, x), ok(b, k, x)), patterns=[P(k, x)]) for k in ('index', 'files')] + [headok(a, b)]
    headp = lambda: pth(st['rp'], K('head'))
    headok = lambda a, b: z3.Implies(dhas(a, headp()), z3.And(dhas(b, headp()), dget(b, headp()) == dget(a, headp())))
    def below(fs, h): return z3.ForAll([t], z3.Implies(sub0(h, t), ok(fs, 'index', t)), patterns=[sub0(h, t)])
    def filesof(fs, h):
        """files of the trees below h"""
        e = dget(R.files(t), n)
        return z3.ForAll([t, n], z3.Implies(z3.And(sub0(h, t), dhas(R.files(t), n)), ok(fs, 'files', dget(e, K('hash')))), patterns=[z3.MultiPattern(sub0(h, t), dhas(R.files(t), n))])
    hh = lambda p: hjoin(p2(p1(p)), p2(p))
    def before(kind, *info):
        if kind not in ('write', 'truncate', 'rename', 'remove'): return
        if kind in ('rename', 'remove'): c.prove('restoring only writes', False); return
        p = info[0]; h = hh(p)
        c.prove('only the head and objects, at the place of their hash, are written', z3.Or(p == headp(), p == place('index', h), p == place('files', h)))
    w.before = before
    # the bucket
    def download(ip, a, k, f):
        d = bind(f, a, k, ip); key = object_key(ip, st['repo'], ip.term(d['remote_file_path']))
        c.prove('the bucket of the restore is read, the current version', z3.BoolVal(d['s3_conn'] is s3 and d.get('version_id') is None))
        if key is None: raise Unsupported('name of an object in the bucket')
        if c.choose('downloading fails'): py_raise(IOError, 'download')
        kind, h = key
        if kind == 'head': data = enc(C.head)
        else:
            if kind == 'files': c.prove('the empty file is not looked for in the bucket', h != K(EMPTY))
            data = up(K(kind), h); c.assume(ty(data) == T_BYTES)
        o = d['file_handle']
        if isinstance(o, Obj) and o.cls == 'file': c.prove('what was downloaded is written as bytes', 'b' in o.attrs['mode'])
        ip.call(o.attrs['write'], [Box(data)], {})
    ip.overrides[RM + '.streaming_download'] = download
    def bytesio(ip, a, k):
        o = Obj('BytesIO', {'data': a[0] if a else b'', 'at': 0})
        def write(ip, a, k): ip.setattr_(o, 'data', ip.concat(o.attrs['data'], a[0])); ip.setattr_(o, 'at', 1)
        def seek(ip, a, k):
            if a[0] != 0: raise Unsupported('seek')
            ip.setattr_(o, 'at', 0)
        def read(ip, a, k):
            if o.attrs['at']: return b''
            ip.setattr_(o, 'at', 1); return o.attrs['data']
        o.attrs.update(write=Native('write', write), seek=Native('seek', seek), read=Native('read', read), getvalue=Native('getvalue', lambda ip, a, k: o.attrs['data']))
        return o
    setm(ip, 'io', 'BytesIO', bytesio); ip.modules[RM].vars['BytesIO'] = ip.externals['io'].attrs['BytesIO']
    def rd(ip, a, k, f):
        d = bind(f, a, k, ip); h = ip.term(d['object_hash']); kind = d['expected_object_type']
        c.prove('an object is read where it was restored', z3.And(ip.term(a[0].attrs['base_path']) == st['rp'], ok(w.fs.term(), 'index', h)))
        tt = obj_term(w, h, kind); r = c.fresh('object'); c.assume([r == tt, ty(r) == T_DICT]); return Box(r)
    ip.overrides[STORE + '.read_index_object'] = rd
    # one repository
    def begin(repo):
        st['repo'] = repo; pt = dget(dget(R_, repo), K('path'))
        st['rp'] = cat(pt, K(CSFX)); c.assume([ty(st['rp']) == T_STR, truthy(st['rp'])])
    cnt = {'end': 0}
    def end():
        cnt['end'] += 1; fs = w.fs.term()
        k = c.fresh('k', I); h = c.fresh('h'); c.assume([k >= 0, k < C.L, ch(k) == ch(k), RT(h) == RT(h), RF(h) == RF(h)])
        c.prove('the head is restored', z3.And(dhas(fs, headp()), z3.Or(dget(fs, headp()) == C.head, dget(fs, headp()) == dec(enc(C.head)))))
        c.assume(P('index', ch(k)) == P('index', ch(k)))
        c.prove('every commit from the head back to the first is restored', ok(fs, 'index', ch(k)))
        c.prove('every directory listing that the commits name is restored', z3.Implies(RT(h), ok(fs, 'index', h)))
        c.prove('every file that the listings name is restored', z3.Implies(RF(h), ok(fs, 'files', h)))
    # the walk
    def walk(ip, node, env):
        def inv():
            ptr = env.vars.get('commit_pointer')
            if ptr is None:
                ptrs = [y for y in env.vars.values() if isinstance(y, Box) and y.peek().eq(C.head)]
                raise Unsupported('the pointer of the walk')
            fs = w.fs.term(); p = pos(ip.term(ptr)); rt = R.root(ch(i)); e = dget(R.files(t), n)
            return [('the walk is within the chain', z3.And(ip.term(ptr) == ch(p), p >= 0, p < C.L)),
                    ('the commits so far are restored', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p), ok(fs, 'index', ch(i))), patterns=[ch(i)])),
                    ('their trees are restored', z3.ForAll([i, t], z3.Implies(z3.And(i >= 0, i < p, sub0(rt, t)), ok(fs, 'index', t)), patterns=[sub0(rt, t)])),
                    ('their files are restored', z3.ForAll([i, t, n], z3.Implies(z3.And(i >= 0, i < p, sub0(rt, t), dhas(R.files(t), n)), ok(fs, 'files', dget(e, K('hash')))), patterns=[z3.MultiPattern(sub0(rt, t), dhas(R.files(t), n))])),
                    ('the head stays', z3.And(dhas(fs, headp()), z3.Or(dget(fs, headp()) == C.head, dget(fs, headp()) == dec(enc(C.head)))))]
        while_inv(ip, node, env, inv, 'commits')
    ip.while_hooks[RM + '.restore'] = walk
    # the recursive download
    nested = [y.name for y in __import__('ast').walk(f.node) if isinstance(y, __import__('ast').FunctionDef) and y is not f.node]
    if len(nested) != 1: raise Unsupported('the helper of restore')
    q = RM + '.restore.' + nested[0]; fr = [None]; sv = {}
    def tree_dict(f):
        for nm, y in f.env.vars.items():
            if isinstance(y, DictObj) and 'tree' in nm: return y
        raise Unsupported('the helper does not fill a dictionary of trees')
    def rel(new, old, s): return [z3.ForAll([t], dhas(new, t) == z3.Or(dhas(old, t), s(t)), patterns=[dhas(new, t)])]
    def pre(args): c.prove('the trees collected are those stored under their hashes', all_objd(boxed(ip, tree_dict(fr[0])).term()))
    def fresh(args, f):
        h = c.fresh('tree_hash'); c.assume(ty(h) == T_STR)
        d = boxed(ip, tree_dict(f)); r0 = c.fresh('trees'); c.assume([ty(r0) == T_DICT, all_objd(r0)]); d.replace(r0)
        fs1 = c.fresh('fs'); w.fs.replace(fs1)
        sv.update(h=h, r0=r0, d=d, fs=fs1); ks = list(args); return {**args, ks[-1]: Box(h)}
    def apply(args):
        h = ip.term(list(args.values())[-1]); d = boxed(ip, tree_dict(fr[0])); old = d.term(); fs1 = w.fs.term()
        if c.choose('a tree cannot be restored'): py_raise(IOError, 'download')
        new = c.fresh('trees'); fs2 = c.fresh('fs')
        c.assume([ty(new) == T_DICT, all_objd(new)] + rel(new, old, lambda t: sub0(h, t)) + [below(fs2, h)] + keeps(fs1, fs2)); d.replace(new); w.fs.replace(fs2)
    def check(args, r):
        if isinstance(r, PyExc): return
        h = sv['h']; y = c.fresh('t'); new = sv['d'].term(); fs = w.fs.term(); z = c.fresh('x')
        c.assume([sub1(h, h), sub1(h, y) == sub0(h, y), P('index', y) == P('index', y)])
        c.prove('every tree at or below is collected, and no other', dhas(new, y) == z3.Or(dhas(sv['r0'], y), sub1(h, y)))
        c.prove('trees are collected under their hashes', z3.Implies(dhas(new, y), dget(new, y) == objd(y)))
        c.prove('every tree at or below is restored', z3.Implies(sub1(h, y), ok(fs, 'index', y)))
        for k in ('index', 'files'): c.assume(P(k, z) == P(k, z)); c.prove('what was restored stays (%s)' % k, z3.Implies(ok(sv['fs'], k, z), ok(fs, k, z)))
        c.prove('the head stays', headok(sv['fs'], fs))
    modular(ip, q, fresh, apply, check, pre); inner = ip.overrides[q]
    def ov(ip, a, k, f): fr[0] = f; return inner(ip, a, k, f)
    ip.overrides[q] = ov
    cur = {}
    def loop(ip, seg, body, env, node):
        if env.func is None or not env.func.qualname.startswith(RM + '.restore'): return NotImplemented
        fs1 = w_name(c, w.fs.term())
        if mentions(seg.cond, K('dirs')):
            if env.func.qualname != q: raise Unsupported('loop over directories')
            d = sv['d']; r1 = w_name(c, d.term()); h = sv['h']; D = R.dirs(h)
            def inv(done):
                new = d.term(); fs = w.fs.term()
                return [('subtrees done are collected', z3.And(all_objd(new), z3.ForAll([t], z3.Implies(dhas(r1, t), dhas(new, t)), patterns=[dhas(r1, t)]), z3.ForAll([t], z3.Implies(dhas(new, t), z3.Or(dhas(r1, t), sub1(h, t))), patterns=[dhas(new, t)]),
                          z3.ForAll([n, t], z3.Implies(z3.And(dhas(D, n), done(n), sub0(dget(D, n), t)), dhas(new, t)), patterns=[sub0(dget(D, n), t)]))),
                        ('subtrees done are restored', z3.ForAll([n, t], z3.Implies(z3.And(dhas(D, n), done(n), sub0(dget(D, n), t)), ok(fs, 'index', t)), patterns=[sub0(dget(D, n), t)])),
                        ('what was restored stays', z3.And(*keeps(fs1, fs)))]
            return for_inv(ip, seg, body, env, inv, 'directories')
        if mentions(seg.cond, K('files')):
            kt = cur['t']
            def inv(done):
                fs = w.fs.term(); fl = R.files(kt); e = dget(fl, n)
                return [('the files of this tree done so far are restored', z3.ForAll([n], z3.Implies(z3.And(dhas(fl, n), done(n)), ok(fs, 'files', dget(e, K('hash')))), patterns=[dhas(fl, n)])),
                        ('what was restored stays', z3.And(*keeps(fs1, fs)))]
            return for_inv(ip, seg, body, env, inv, 'files of a tree')
        T = [y for nm, y in env.vars.items() if isinstance(y, DictObj) and 'tree' in nm]
        if T and mentions(seg.cond, boxed(ip, T[0]).term()):
            def inv(done):
                fs = w.fs.term(); fl = R.files(t); e = dget(fl, n)
                return [('the files of the trees done so far are restored', z3.ForAll([t, n], z3.Implies(z3.And(done(t), dhas(fl, n)), ok(fs, 'files', dget(e, K('hash')))), patterns=[dhas(fl, n)])),
                        ('what was restored stays', z3.And(*keeps(fs1, fs)))]
            def body2(val):
                tv = ip.term(val)
                if not (z3.is_app(tv) and tv.decl().eq(dget)): raise Unsupported('element of the trees')
                cur['t'] = tv.arg(1); return body(val)
            return for_inv(ip, seg, body2, env, inv, 'trees')
        return NotImplemented
    ip.havoc_hook = lambda cur: Poison('a variable of an earlier iteration') if isinstance(cur, (Func, Obj)) else None
    ip.for_hooks = [loop]
    each_repository(ip, R_, begin, end)
    def thunk():
        try: return ip.call(f, [], {})
        except PyExc as e: return e
    c.explore(thunk, lambda r: c.prove('restoring fails only when a download does', not isinstance(r, PyExc) or r.exc.args[:1] == ('download',)))
    c.prove('reachable', cnt['end'] > 0)

UNITS = [('restore', unit_restore)]

"""C25: the marker of a commit is uploaded only when the commit is complete on the remote; a backup that ends has marked all.

Ghost: the chain of commits from the local head (C08), sub(h, t): the tree t is h or below it (C27), what is on the remote as three
sets of hashes (index objects, files, markers), to which an upload adds one.  Nothing is ever removed from the remote."""
import ast as ast_
import z3
from ..srv import *
from ..store import *
from ..world import *
from ..loops import while_inv, for_inv
from ..tree import bind
from .. import loops
from .c08 import ch
from .c05 import mentions
from .c27 import Reach, boxed, helper_contract, w_name, sub0, sub1, RT
from .c26 import setting, parts, each_repository, record_modes, EMPTY, RM

ITEM = {k: F('remote_item_' + k, V, V) for k in ('index', 'files', 'commits')}
trust('remote names', 'the bucket holds under repository/kind/ the objects which backup put there, so markers name commits of the chain; an object of the store has one kind, and no commit or directory listing has the hash of the empty text')

def names_of(ip, t):
    """the pieces of a name in the bucket: joined paths are texts with slashes"""
    sl = ip.ctx.const('/')
    def ex(t):
        if z3.is_app(t) and t.decl().eq(pth): return cat(ex(t.arg(0)), cat(sl, ex(t.arg(1))))
        if z3.is_app(t) and t.decl().eq(cat): return cat(ex(t.arg(0)), ex(t.arg(1)))
        v = ip.val(t)
        return t
    return parts(ip, ex(t))

def hash_of(ip, a, b):
    """h, when a and b are its first two and its other characters"""
    if all(z3.is_app(x) for x in (a, b)) and a.decl().eq(hpre) and b.decl().eq(hsuf):
        if a.arg(0).eq(b.arg(0)) or ip.ctx.entails(a.arg(0) == b.arg(0)): return a.arg(0)
    return None

def remote_key(ip, repo, t):
    ps = names_of(ip, t)
    if not ps or not ps[0].eq(repo): return None
    ps = [ip.val(p) if isinstance(ip.val(p), str) else p for p in ps[1:]]
    if ps == ['head']: return 'head', None
    if len(ps) == 3 and isinstance(ps[0], str) and ps[0] in ('index', 'files') and all(z3.is_expr(x) for x in ps[1:]):
        h = hash_of(ip, *ps[1:]); return None if h is None else (ps[0], h)
    if len(ps) == 2 and isinstance(ps[0], str) and ps[0] == 'commits': return 'commits', ip.term(ps[1])
    return None

def member(ip, l, x):
    fs = []
    for s in l.segs:
        if isinstance(s, PSeg): fs += [ip.term(y) == x for y in s.items]
        elif isinstance(s.value, z3.ExprRef) and len(s.bvs) == 1 and s.value.eq(s.bvs[0]): fs.append(z3.substitute(s.cond, (s.bvs[0], x)))
        else: raise Unsupported('list used as a set')
    return z3.Or(*fs) if fs else z3.BoolVal(False)

def nodup(ip, l):
    out, seen = [], []
    x = z3.Const('x', V)
    for s in l.segs:
        if isinstance(s, PSeg):
            for y in s.items:
                t = ip.term(y); out += [z3.Not(g(t)) for g in seen]; seen.append(lambda z, t=t: z == t)
        else:
            if not (len(s.bvs) == 1 and isinstance(s.value, z3.ExprRef) and s.value.eq(s.bvs[0])): raise Unsupported('list used as a set')
            g = lambda z, s=s: z3.substitute(s.cond, (s.bvs[0], z))
            out += [z3.ForAll([x], z3.Implies(g(x), z3.Not(p(x)))) for p in seen]; seen.append(g)
    return z3.And(*out) if out else z3.BoolVal(True)

def unit_backup(v, override):
    ip, c, w, f, R_, s3 = setting(v, 'backup'); K = c.const; record_modes(ip)
    ip.trusted.discard('bucket content'); ip.trusted.add('remote names')
    R = Reach(w); C = R.C; R.reader(); R.head(); Q = RM + '.backup'
    i = z3.Int('i'); x, t, n, h_ = z3.Consts('x t n h', V); pos = F('chain_pos', V, I)
    fa = lambda vs, b, *p: c.bg.append(z3.ForAll(vs, b, patterns=list(p)))
    st = {}; mapb = {}
    for k in ITEM:
        b = mapb[k] = Box(c.fresh('remote_' + k)); c.bg.append(ty(b._t) == T_DICT)
        it = ITEM[k](h_); fa([h_], z3.And(ty(it) == T_DICT, dhas(it, K('Key')), ty(dget(it, K('Key'))) == T_STR), it)
    on = lambda k, h: dhas(mapb[k].term(), h)
    fa([x], z3.Implies(RT(x), z3.And(x != K(EMPTY), z3.Not(R.isc(x)), ty(x) == T_STR)), RT(x))
    fa([i], z3.Implies(z3.And(i >= 0, i < C.L), z3.And(ch(i) != K(EMPTY), z3.Not(RT(ch(i))))), ch(i))
    place = lambda k, h: w.obj_path(st['rp'], k, h)
    dest = lambda k, h: pth(pth(K(k), hpre(h)), hsuf(h))
    trees_ok = lambda root, t: z3.Implies(sub0(root, t), on('index', t))
    def files_ok(root, t, n):
        e = dget(dget(R.files(t), n), K('hash'))
        return z3.Implies(z3.And(sub0(root, t), dhas(R.files(t), n)), z3.Or(e == K(EMPTY), on('files', e)))
    w.before = lambda *a: c.prove('a backup writes nothing locally', False)
    w.effect = lambda *a: c.prove('a backup changes nothing locally', False)
    # the remote
    def upload(ip, a, k, f):
        d = bind(f, a, k, ip); key = remote_key(ip, st['repo'], ip.term(d['remote_file_path'])); o = d['file_handle']
        c.prove('uploads go to the bucket, with the configuration', z3.And(z3.BoolVal(d['s3_conn'] is s3), ip.term(d['lconfig']) == ip.term(ip.modules[RM].vars['config'])))
        if key is None: raise Unsupported('name of an object in the bucket')
        kind, h = key
        if kind in ('index', 'files'):
            c.prove('an object is uploaded from its file, under the hash naming it', z3.And(z3.BoolVal(isinstance(o, Obj) and o.cls == 'file' and 'b' in o.attrs['mode']), o.attrs['path'] == place(kind, h)) if isinstance(o, Obj) and o.cls == 'file' else False)
            if kind == 'files': c.prove('the empty file is not uploaded', h != K(EMPTY))
        elif kind == 'head':
            c.prove('the head uploaded is the local head', z3.And(z3.BoolVal(isinstance(o, Obj) and o.cls == 'BytesIO'), ip.term(o.attrs['data']) == enc(C.head)) if isinstance(o, Obj) and o.cls == 'BytesIO' else False)
        else:
            c.prove('a marker is not empty', z3.And(ip.term(o.attrs['data']) != K(b''), ip.term(o.attrs['data']) != K('')) if isinstance(o, Obj) and o.cls == 'BytesIO' else False)
            y, m = c.fresh('t'), c.fresh('n'); root = R.root(h)
            c.prove('only a commit of the chain is marked', R.isc(h))
            c.prove('a commit is marked only when its record is on the remote', on('index', h))
            c.assume([sub0(root, y) == sub0(root, y), dhas(R.files(y), m) == dhas(R.files(y), m)])
            c.prove('a commit is marked only when every directory listing below it is on the remote', trees_ok(root, y))
            e = dget(dget(R.files(y), m), K('hash')); c.assume(on('files', e) == on('files', e))
            c.prove('a commit is marked only when every non-empty file below it is on the remote', files_ok(root, y, m))
        if c.fails('uploading fails'): py_raise(IOError, 'upload')
        if kind != 'head': mapb[kind].set_key(h, K(True))
    ip.overrides[RM + '.streaming_upload'] = upload
    def listing(ip, a, k, f):
        d = bind(f, a, k, ip); pf = ip.term(d['prefix']); ps = names_of(ip, pf)
        c.prove('the bucket of the backup is listed', d['s3_conn'] is s3)
        ks = [ip.val(p) for p in ps]
        from .c26 import flat
        fl = flat(ip, pf)
        if not (len(ps) == 2 and ps[0].eq(st['repo']) and ks[1] in ITEM and isinstance(fl[-1], str) and fl[-1].endswith('/')): raise Unsupported('listing of the bucket')
        if c.fails('listing fails'): py_raise(IOError, 'upload')
        y = c.fresh('listed'); m = w_name(c, mapb[ks[1]].term())
        if ks[1] == 'commits': c.assume(z3.ForAll([x], z3.Implies(dhas(m, x), R.isc(x)), patterns=[dhas(m, x)]))
        c.assume(z3.ForAll([x], z3.Implies(dhas(m, x), ty(x) == T_STR), patterns=[dhas(m, x)]))
        return ListObj([DSeg([y], dhas(m, y), ITEM[ks[1]](y), False, None, True)])
    ip.overrides['bversion.backup.s3_interface.list_remote_objects'] = listing
    def split(v, a):
        if len(a) != 1 or a[0] != '/': return None
        s = ip.term(v)
        if z3.is_app(s) and s.decl().eq(dget) and s.arg(1).eq(K('Key')):
            for k in ITEM:
                q = s.arg(0)
                if z3.is_app(q) and q.decl().eq(ITEM[k]):
                    h = q.arg(0)
                    return ListObj(items=[Box(st['repo']), k] + ([Box(h)] if k == 'commits' else [Box(hpre(h)), Box(hsuf(h))]))
        ps = names_of(ip, s)
        if len(ps) > 1: return ListObj(items=[ip.val(p) for p in ps])
        return None
    ip.split_hook = split
    def bytesio(ip, a, k): return Obj('BytesIO', {'data': a[0] if a else b'', 'seek': Native('seek', lambda ip, a, k: None)})
    setm(ip, 'io', 'BytesIO', bytesio); ip.modules[RM].vars['BytesIO'] = ip.externals['io'].attrs['BytesIO']
    # one repository
    for q in (STORE + '.get_head', STORE + '.read_index_object'):
        def wrap(inner):
            def ov(ip, a, k, f):
                c.prove('the repository being backed up is read', ip.term(a[0].attrs['base_path']) == st['rp']); return inner(ip, a, k, f)
            return ov
        ip.overrides[q] = wrap(ip.overrides[q])
    def begin(repo):
        st['repo'] = repo; st['d'] = dget(R_, repo); st['rp'] = dget(st['d'], K('path')); c.assume([ty(st['rp']) == T_STR, truthy(st['rp']), dhas(st['d'], K('transient_db_path_override')) == z3.BoolVal(override)])
    cnt = {'end': 0}
    def end():
        cnt['end'] += 1; k = c.fresh('k', I); c.assume([k >= 0, k < C.L, ch(k) == ch(k)])
        c.prove('afterwards every commit of a repository to be backed up is marked', z3.Implies(z3.And(dhas(st['d'], K('backup')), dget(st['d'], K('backup')) == K(True)), on('commits', ch(k))))
    # lists as sets
    def lh(l):
        P = c.fresh_fun('listed', V, B); y = c.fresh('y'); l.set_segs([DSeg([y], P(y), y, False, None, True)], ('replace',)); return True
    ip.list_havoc = lh
    def lr(l, t):
        c.prove('a list from which is removed has each element once', nodup(ip, l))
        y = c.fresh('y'); l.set_segs([DSeg([y], z3.And(member(ip, l, y), y != t), y, False, None, True)], ('replace',))
    ip.list_remove = lr
    def dict_like(y): return isinstance(y, (DictObj, Box))
    # the chain
    def walk(ip, node, env):
        stored = {y.id for y in ast_.walk(node) if isinstance(y, ast_.Name)}
        ds = [y for m, y in env.vars.items() if m in stored and isinstance(y, DictObj)]; ls = [y for m, y in env.vars.items() if m in stored and isinstance(y, ListObj)]
        ps = [m for m, y in env.vars.items() if m in {z.id for z in ast_.walk(node) if isinstance(z, ast_.Name) and isinstance(z.ctx, ast_.Store)} and isinstance(y, Box) and y.peek().eq(C.head)]
        if not (len(ds) == 1 and len(ls) == 1 and len(ps) == 1): raise Unsupported('the walk over the commits')
        b = boxed(ip, ds[0])
        def inv():
            m = b.term(); pt = ip.term(env.vars[ps[0]]); p = pos(pt); before = lambda y: z3.And(pos(y) >= 0, pos(y) < p, ch(pos(y)) == y)
            y = x
            return [('the walk is within the chain', z3.And(pt == ch(p), p >= 0, p < C.L)),
                    ('the commits so far are listed once', nodup(ip, ls[0])),
                    ('the commits so far are those', z3.And(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p), z3.And(dhas(m, ch(i)), member(ip, ls[0], ch(i)))), patterns=[ch(i)]),
                        *[z3.ForAll([x], z3.Implies(dhas(m, x), z3.And(before(x), dget(m, x) == objd(x))), patterns=[q]) for q in (dhas(m, x), dget(m, x))],
                        z3.ForAll([x], z3.Implies(member(ip, ls[0], x), before(x)))))]
        while_inv(ip, node, env, inv, 'commits')
    ip.while_hooks[RM + '.*'] = walk
    nested = [y.name for y in ast_.walk(f.node) if isinstance(y, ast_.FunctionDef) and y is not f.node]
    if len(nested) != 1: raise Unsupported('the helper of backup')
    cur = {}; ip.for_hooks = []
    helper_contract(R, Q + '.' + nested[0]); helper_loop = ip.for_hooks
    def subtract(ip, seg, body, env):
        """elements of a remote listing are taken out of the collections"""
        st0 = {}
        for y in env.vars.values():
            if isinstance(y, DictObj) and y.box is not None: st0[id(y.box)] = w_name(c, y.box.term())
            elif isinstance(y, ListObj): st0[id(y)] = ListObj(list(y.segs))
        def inv(done):
            out = []
            for loc in done.mods:
                if isinstance(loc, Box) and loc not in mapb.values():
                    m0, m = st0[id(loc)], loc.term()
                    out.append(('what was listed is taken out, and nothing else', z3.And(*[z3.ForAll([x], z3.And(dhas(m, x) == z3.And(dhas(m0, x), z3.Not(done(x))), z3.Implies(dhas(m, x), dget(m, x) == dget(m0, x))), patterns=[q]) for q in (dhas(m, x), dget(m, x), dhas(m0, x))])))
                elif isinstance(loc, ListObj):
                    old = st0[id(loc)]
                    out.append(('a list keeps each element once', nodup(ip, loc)))
                    out.append(('what was listed is taken from the list, and nothing else', z3.ForAll([x], member(ip, loc, x) == z3.And(member(ip, old, x), z3.Not(done(x))))))
            return out
        return for_inv(ip, seg, body, env, inv, 'subtracting')
    def loop(ip, seg, body, env, node):
        if env.func is None or not env.func.qualname.startswith(RM + '.') or env.func.qualname == Q + '.' + nested[0] or len(seg.bvs) != 1 or seg.bvs[0].sort() != V: return NotImplemented
        val = seg.value; g = c.fresh('g'); gc, gv = seg.inst([g])
        if isinstance(val, z3.ExprRef) and any(z3.is_app(val) and val.decl().eq(q) for q in ITEM.values()): return subtract(ip, seg, body, env)
        if node is None: return NotImplemented
        if mentions(seg.cond, K('files')):
            fo = file_box(env, node); r1 = w_name(c, fo.term()); kt = cur['t']
            def inv(done):
                m = fo.term(); fl = R.files(kt); e = dget(fl, n)
                return [('the files of this tree done so far are collected', z3.And(*filed(m), z3.ForAll([x], z3.Implies(dhas(r1, x), dhas(m, x)), patterns=[dhas(r1, x)]),
                          z3.ForAll([n], z3.Implies(z3.And(dhas(fl, n), done(n)), dhas(m, dget(e, K('hash')))), patterns=[e])))]
            return for_inv(ip, seg, body, env, inv, 'files of a tree')
        hashes = isinstance(val, z3.ExprRef) and val.eq(seg.bvs[0])
        inner = [y for y in ast_.walk(node) if isinstance(y, ast_.For) and y is not node]
        calls = {y.func.id if isinstance(y.func, ast_.Name) else y.func.attr for y in ast_.walk(node) if isinstance(y, ast_.Call) and isinstance(y.func, (ast_.Name, ast_.Attribute))}
        if hashes and c.entails(z3.Implies(gc, R.isc(g))):
            mark0 = w_name(c, mapb['commits'].term())
            def inv(done):
                m = mapb['commits'].term()
                return [('commits done are marked', z3.ForAll([x], z3.Implies(z3.Or(dhas(mark0, x), done(x)), dhas(m, x)), patterns=[dhas(m, x)]))]
            return for_inv(ip, seg, body, env, inv, 'commits')
        if len(inner) == 1 and not hashes:
            fo = file_box(env, node)
            def inv(done):
                m = fo.term(); e = dget(R.files(t), n)
                return [('the files of the trees done so far are collected', z3.And(*filed(m), z3.ForAll([t, n], z3.Implies(z3.And(done(t), dhas(R.files(t), n)), dhas(m, dget(e, K('hash')))), patterns=[e])))]
            def body2(val):
                tv = ip.term(val)
                if not (z3.is_app(tv) and tv.decl().eq(dget)): raise Unsupported('element of the trees')
                cur['t'] = tv.arg(1); return body(val)
            return for_inv(ip, seg, body2, env, inv, 'trees')
        if not hashes and not inner and ('streaming_upload' in calls or isinstance(val, z3.ExprRef)):
            r = uploading(ip, seg, body, env, g, gc)
            if r is not NotImplemented or 'streaming_upload' not in calls: return r
            raise Unsupported('objects to upload')
        return NotImplemented
    def filed(m):
        e = dget(m, x)
        return [z3.ForAll([x], z3.Implies(dhas(m, x), z3.And(ty(e) == T_DICT, dhas(e, K('hash')), dget(e, K('hash')) == x, ty(x) == T_STR)), patterns=[q]) for q in (dhas(m, x), e)]
    def file_box(env, node):
        """the dictionary the loop fills"""
        ns = {y.value.id for y in ast_.walk(node) if isinstance(y, ast_.Subscript) and isinstance(y.ctx, ast_.Store) and isinstance(y.value, ast_.Name)}
        ds = [env.vars[m] for m in ns if isinstance(env.vars.get(m), DictObj)]
        if len(ds) != 1: raise Unsupported('the dictionary of files')
        return boxed(ip, ds[0])
    def uploading(ip, seg, body, env, g, gc):
        gv = ip.term(ip.elem_value(seg, [g])); kind = None
        def is_(k, h, e): return z3.And(ty(e) == T_DICT, dhas(e, K('type')), dget(e, K('type')) == K('file'), dhas(e, K('source')), dget(e, K('source')) == place(k, h), dhas(e, K('dest')), dget(e, K('dest')) == dest(k, h))
        kind = next((k for k in ('index', 'files') if c.entails(z3.Implies(gc, is_(k, g, gv)))), None)
        if kind is None: return NotImplemented
        r0 = {k: w_name(c, b.term()) for k, b in mapb.items()}
        def inv(done):
            return [('what was on the remote stays', z3.And(*[z3.ForAll([x], z3.Implies(dhas(r0[k], x), dhas(b.term(), x)), patterns=[dhas(b.term(), x)]) for k, b in mapb.items()])),
                    ('what was uploaded is on the remote', z3.ForAll([x], z3.Implies(done(x), z3.Or(x == K(EMPTY), on(kind, x)) if kind == 'files' else on(kind, x)), patterns=[on(kind, x)]))]
        def body2(val):
            h = cur['h']
            return body(DictObj({'type': 'file', 'source': Box(place(kind, h)), 'dest': Box(dest(kind, h))}))
        old = ip.elem_value
        def ev(s, ks):
            if s is seg: cur['h'] = ks[0]
            return old(s, ks)
        ip.elem_value = ev
        try: return for_inv(ip, seg, body2, env, inv, 'uploading')
        finally: ip.elem_value = old
    ip.for_hooks = [loop] + helper_loop
    ip.havoc_hook = lambda cur: Poison('a variable of an earlier iteration') if isinstance(cur, (Func, Obj, Poison)) else None
    each_repository(ip, R_, begin, end)
    def thunk():
        R.unread = None
        try: return ip.call(f, [], {})
        except PyExc as e: return e
    c.explore(thunk, lambda r: c.prove('a backup fails only when an upload does or an object cannot be read', not isinstance(r, PyExc) or r.exc.args[:1] in (('upload',), ('object',)) or r.exc.cls is FileNotFoundError))
    c.prove('reachable', cnt['end'] > 0)

UNITS = [('backup', lambda v: unit_backup(v, False)), ('backup, with the database elsewhere', lambda v: unit_backup(v, True))]

# ------------------------------------------------------------------------------------------ reading the bucket
trust('S3 listing', 'S3: a listing gives the objects with the prefix in the order of their names, those after the marker, and says whether more follow; a page is empty (and has no Contents) only when nothing is left; names are distinct')

def unit_listing(v):
    ip = v.interp(); c = ip.ctx; w = World(ip); K = c.const
    S3 = 'bversion.backup.s3_interface'; q = S3 + '.list_remote_objects'
    ip.import_module(S3); f = ip.get(q); c.func = q; ip.trusted.add('S3 listing')
    item, posk = F('listed_item', I, V), F('listed_at', V, I); i = z3.Int('i'); N = c.fresh('listed', I); c.bg.append(N >= 0)
    key = dget(item(i), K('Key'))
    c.bg.append(z3.ForAll([i], z3.And(ty(item(i)) == T_DICT, dhas(item(i), K('Key')), ty(key) == T_STR, posk(key) == i), patterns=[item(i)]))
    w.before = w.effect = lambda *a: c.prove('listing changes nothing', False)
    pf = c.fresh('prefix'); bucket = c.fresh('bucket'); c.bg += [ty(pf) == T_STR, ty(bucket) == T_STR]
    G = Obj('ghost', {'end': SI(z3.IntVal(0)), 'more': SB(z3.BoolVal(True))}); cnt = {'n': 0, 'fail': 0}
    def page(ip, a, k):
        c.prove('the bucket and the prefix asked for are listed', z3.And(ip.term(k['Bucket']) == bucket, ip.term(k['Prefix']) == pf))
        if set(k) - {'Bucket', 'Prefix', 'Marker'} or a: raise Unsupported('arguments of list_objects')
        m = k.get('Marker'); start = z3.IntVal(0)
        if m is not None:
            start = posk(ip.term(m)) + 1
            c.prove('a page begins after a name that was listed', z3.And(start >= 1, start <= N, ip.term(m) == dget(item(start - 1), K('Key'))))
        if c.choose('listing fails'): py_raise(IOError, 'listing')
        e = c.fresh('end', I); c.assume([e >= start, e <= N, z3.Implies(start < N, e > start)])
        ip.setattr_(G, 'end', SI(e)); d = {'IsTruncated': SB(e < N)}
        if c.decide(e > start):
            b = c.fresh('i', I); d['Contents'] = ListObj([DSeg([b], z3.And(b >= start, b < e), item(b), True)])
        return DictObj(d)
    s3 = DictObj({'client': Obj('client', {'list_objects': Native('list_objects', page)}), 'bucket': Box(bucket)})
    def bounds(s):
        b, lo, hi = s.bvs[0], [], []
        for t in (s.cond.children() if z3.is_and(s.cond) else []):
            if z3.is_ge(t) and t.arg(0).eq(b): lo.append(t.arg(1))
            elif z3.is_le(t) and t.arg(1).eq(b): lo.append(t.arg(0))
            elif z3.is_lt(t) and t.arg(0).eq(b): hi.append(t.arg(1))
            elif z3.is_gt(t) and t.arg(1).eq(b): hi.append(t.arg(0))
            else: hi = []; break
        if len(s.bvs) == 1 and len(lo) == len(hi) == 1 and s.ordered and isinstance(s.value, z3.ExprRef) and s.value.eq(item(b)): return lo[0], hi[0]
        raise Unsupported('pages put together')
    def upto(l, end):
        """the list holds item(0) .. item(end - 1), in order"""
        out, at = [], z3.IntVal(0)
        for s in l.segs:
            if isinstance(s, PSeg) and not s.items: continue
            if isinstance(s, PSeg): raise Unsupported('pages put together')
            lo, hi = bounds(s); out += [lo == at, hi >= lo]; at = hi
        return z3.And(*out, at == end)
    def lh(l):
        b, P = c.fresh('i', I), c.fresh('length', I); l.set_segs([DSeg([b], z3.And(b >= 0, b < P), item(b), True)], ('replace',)); return True
    ip.list_havoc = lh
    def walk(ip, node, env):
        names = {y.id for y in ast_.walk(node) if isinstance(y, ast_.Name)}
        ls = [y for m, y in env.vars.items() if m in names and isinstance(y, ListObj)]
        if len(ls) != 1: raise Unsupported('the pages put together')
        rs = [m for m in names if isinstance(env.vars.get(m), DictObj) and env.vars[m].box is None and 'IsTruncated' in env.vars[m].d]
        def more(m, e):
            r = env.vars[m]; t = r.d['IsTruncated'] if isinstance(r, DictObj) and r.box is None else None
            if t is not None: return (t.t if isinstance(t, SB) else z3.BoolVal(bool(t))) == (e < N)
            b = r.box.term() if isinstance(r, DictObj) else ip.term(r); x = dget(b, K('IsTruncated'))
            return z3.And(ty(b) == T_DICT, dhas(b, K('IsTruncated')), ty(x) == T_BOOL, truthy(x) == (e < N))
        def inv():
            e = ip.num(G.attrs['end']); e = z3.IntVal(e) if isinstance(e, int) else e
            return [('what was listed is kept, in order and once', z3.And(e >= 1, e <= N, upto(ls[0], e)))] + [('the last answer says whether more follow', more(m, e)) for m in rs]
        while_inv(ip, node, env, inv, 'pages')
    ip.while_hooks[S3 + '.*'] = walk
    def thunk():
        try: return ip.call(f, [s3, Box(pf)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc):
            cnt['fail'] += 1; c.prove('listing fails only when a request does', r.exc.args[:1] == ('listing',)); return
        if not isinstance(r, ListObj): c.prove('listing gives a list', False); return
        cnt['n'] += 1; c.prove('exactly the objects of the bucket with this prefix are listed, each once', upto(r, N))
    c.explore(thunk, visit)
    c.prove('reachable', cnt['n'] > 1 and cnt['fail'] > 0)

UNITS.append(('list_remote_objects', unit_listing))

# ------------------------------------------------------------------------------------------ uploads that fail
def unit_failing(v):
    """streaming_upload: it returns only when every piece read was sent and the upload was completed, whichever request fails how"""
    from . import c24
    ip, c, w = c24.world(v, (RM,)); K = c.const
    q = RM + '.streaming_upload'; f = ip.get(q); c.func = q
    G = Obj('ghost', {'failed': SB(z3.BoolVal(False)), 'done': SB(z3.BoolVal(False)), 'pending': SB(z3.BoolVal(False)), 'ended': SB(z3.BoolVal(False))})
    tv = lambda n: (lambda x: x.t if isinstance(x, SB) else z3.BoolVal(bool(x)))(G.attrs[n])
    put = lambda n, b: ip.setattr_(G, n, SB(z3.BoolVal(b)))
    cnt = {'ok': 0, 'fail': 0}
    def may_fail(what):
        if c.fails(what + ' fails'):
            put('failed', True)
            if c.choose('with an error of the system'): py_raise(IOError, 'request')
            py_raise(RuntimeError, 'request')
    name = c.fresh('name'); uid = c.fresh('upload_id'); cs = c.fresh('chunk_size', I); c.bg += [ty(name) == T_STR, cs >= 1]
    hd = c.fresh('stream_header'); c.bg += [ty(hd) == T_BYTES]
    def create(ip, a, k):
        may_fail('beginning'); c.prove('the upload is for the object named', ip.term(k['Key']) == name)
        return DictObj({'UploadId': Box(uid)})
    def part(ip, a, k):
        c.prove('a part of this upload is sent', z3.And(ip.term(k['UploadId']) == uid, ip.term(k['Key']) == name, tv('pending'), z3.Not(tv('done'))))
        may_fail('sending'); put('pending', False); return DictObj({'ETag': Box(c.fresh('etag'))})
    def complete(ip, a, k):
        c.prove('an upload is completed when everything was read and sent', z3.And(ip.term(k['UploadId']) == uid, ip.term(k['Key']) == name, tv('ended'), z3.Not(tv('pending')), z3.Not(tv('failed'))))
        may_fail('completing'); put('done', True)
    def abort(ip, a, k): put('done', False)
    cl = Obj('client', {m: Native(m, fn) for m, fn in (('create_multipart_upload', create), ('upload_part', part), ('complete_multipart_upload', complete), ('abort_multipart_upload', abort))})
    def read(ip, a, k):
        c.prove('nothing read is forgotten', z3.Not(tv('pending')))
        may_fail('reading')
        d = c.fresh('data'); c.assume(ty(d) == T_BYTES)
        if c.decide(d == K(b'')): put('ended', True); return b''
        put('pending', True); return Box(d)
    st = lambda: Obj('state', {'n': 0})
    setm(ip, 'pysodium', 'crypto_secretstream_xchacha20poly1305_init_push', lambda ip, a, k: (st(), Box(hd)))
    def push(ip, a, k):
        t = c.fresh('cipher_text'); c.assume(ty(t) == T_BYTES); return Box(t)
    setm(ip, 'pysodium', 'crypto_secretstream_xchacha20poly1305_push', push)
    def walk(ip, node, env):
        def inv(): return [('everything read so far was sent, and nothing failed', z3.And(z3.Not(tv('failed')), z3.Not(tv('done')), z3.Not(tv('pending')), z3.Not(tv('ended'))))]
        while_inv(ip, node, env, inv, 'chunks')
    ip.while_hooks[q] = walk
    key, opts = c.fresh('key'), [c.fresh(x) for x in 'AOMS']
    def thunk():
        cfg = DictObj({'chunk_size': SI(cs), 'crypto': DictObj({'stream_crypt_key': Box(key), 'encrypt_opts': DictObj({k: Box(x) for k, x in zip('AOMS', opts)})})})
        try: return ip.call(f, [DictObj({'client': cl, 'bucket': 'bucket'}), cfg, Box(name), Obj('file', {'read': Native('read', read)})], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc):
            cnt['fail'] += 1; c.prove('an upload fails only when a request does', tv('failed')); return
        cnt['ok'] += 1
        c.prove('an upload that returns is completed, with everything that was read', z3.And(tv('done'), tv('ended'), z3.Not(tv('pending')), z3.Not(tv('failed'))))
    c.explore(thunk, visit)
    c.prove('reachable', cnt['ok'] > 0 and cnt['fail'] > 1)

UNITS.append(('streaming_upload, failing', unit_failing))

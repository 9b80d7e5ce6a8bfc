"""C05: storing and reading a directory listing loses nothing.

The chain  build_dir_tree -> write_dir_tree -> read_dir_tree -> flatten_dir_tree, each function against one view of a
listing (tree.py): build: thas(tree, l) iff the listing has the path of the components l;  write: lk(hash, l) iff thas(tree, l);
read: thas(tree, l) iff lk(hash, l);  flatten: the result has the path of l iff thas(tree, l);  the details are carried along."""
import z3
from ..srv import *
from ..store import *
from ..tree import *
from ..loops import for_inv
from .c06 import read_contract

def typed(v):
    ip, c, w, me, bp = store(v)
    T = Tree(ip); T.lemmas()
    return ip, c, w, me, bp, T

def read_dir_contract(w, T):
    """read_dir_tree(h): a well-formed tree that lists exactly what the stored tree lists"""
    ip, c = w.ip, w.c
    l = z3.Const('l', V)
    def ok(t, h, has, val, has2, val2):
        return [z3.ForAll([l], has(t, l) == has2(h, l), patterns=[has(t, l)]), z3.ForAll([l], z3.Implies(has2(h, l), val(t, l) == val2(h, l)), patterns=[val(t, l)])]
    st = {}
    def fresh(args, f):
        h = c.fresh('tree_hash'); c.assume(ty(h) == T_STR); st['h'] = h; st['birth'] = c.tick()
        ks = list(args); return {**args, ks[-1]: Box(h)}
    def apply(args):
        h = ip.term(list(args.values())[-1])
        if c.choose('read fails'): py_raise(IOError, 'object')
        t = c.fresh('tree'); c.assume([twf0(t), twf1(t)] + ok(t, h, thas0, tval0, lk0, lkv0) + ok(t, h, thas1, tval1, lk0, lkv0))
        return Box(t)
    def check(args, r):
        if isinstance(r, PyExc): pass
        else:
            c.prove('every tree read is new (not shared with another one)', fresh_tree(ip, r, st['birth']))
        if isinstance(r, PyExc): c.prove('reading a listing fails only when an object cannot be read', r.exc.args[:1] == ('object',)); return
        t = ip.term(r); x = c.fresh('l')
        c.assume(z3.And(lk1(st['h'], x) == lk0(st['h'], x), lkv1(st['h'], x) == lkv0(st['h'], x)))
        c.prove('the tree read is well formed', T.wf(t))
        c.prove('the tree read lists the same paths as the stored tree', thas1(t, x) == lk1(st['h'], x))
        c.prove('the tree read gives the same details as the stored tree', z3.Implies(lk1(st['h'], x), tval1(t, x) == lkv1(st['h'], x)))
    modular(ip, STORE + '.read_dir_tree', fresh, apply, check)

def unit_read(v):
    ip, c, w, me, bp, T = typed(v)
    read_contract(w); read_dir_contract(w, T)
    f = ip.get(STORE + '.read_dir_tree'); c.func = f.qualname
    w.effect = lambda *a: c.prove('reading changes nothing', False)
    n = [0]
    def thunk():
        try: return ip.call(f, [me, Box(c.fresh('root_hash'))], {})
        except PyExc as e: return e
    def visit(r): n[0] += 1
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)


def tree_value(ip, t):
    """a tree as the program holds it: a dictionary with two dictionaries"""
    c = ip.ctx
    return DictObj({'files': Box(dget(t, c.const('files'))), 'dirs': Box(dget(t, c.const('dirs')))})

def captured_dict(f):
    """the dictionary a nested function fills"""
    ds = [(n, x) for n, x in (f.env.vars.items() if f.env is not None else ()) if isinstance(x, DictObj)]
    if len(ds) != 1: raise Unsupported('the helper does not fill one captured dictionary')
    return ds[0][1]
def as_box(ip, d):
    if d.box is None: ip.dict_to_box(d)
    return d.box

FLAT = STORE + '.flatten_dir_tree'
def flatten_contract(w, T):
    """helper(tree, lead): adds to the result one entry per listed path, lead + '/' + components, with its details and that path"""
    ip, c = w.ip, w.c
    x = z3.Const('x', V); st = {}
    def rel(new, old, listed):
        return [z3.ForAll([x], z3.And(dhas(new, x) == z3.Or(dhas(old, x), listed(x)[0]), z3.Implies(listed(x)[0], dget(new, x) == listed(x)[1]), z3.Implies(z3.And(dhas(old, x), z3.Not(listed(x)[0])), dget(new, x) == dget(old, x))), patterns=[p])
                for p in (dhas(new, x), dget(new, x))]
    def args_of(args):
        v = list(args.values())
        if len(v) != 2: raise Unsupported('arguments of the flatten helper')
        return ip.term(v[0]), ip.term(v[1])
    def pre(args):
        t, lead = args_of(args)
        c.prove('the helper is given a well-formed tree', twf1(t))
    def fresh(args, f):
        t, lead = c.fresh('tree'), c.fresh('lead'); c.assume([twf1(t), ty(lead) == T_STR])
        d = as_box(ip, captured_dict(f)); r0 = c.fresh('result'); c.assume(ty(r0) == T_DICT); d.replace(r0)
        st.update(t=t, lead=lead, r0=r0, d=d)
        ks = list(args); return {ks[0]: tree_value(ip, t), ks[1]: Box(lead)}
    def apply_to(f):
        def apply(args):
            t, lead = args_of(args)
            d = as_box(ip, captured_dict(f[0])); old = w.named(d.term()); new = c.fresh('result'); c.assume(ty(new) == T_DICT)
            for p in rel(new, old, lambda x: T.listed(thas0, tval0, t, lead, x)): c.assume(p)
            d.replace(new)
            return None
        return apply
    def check(args, r):
        if isinstance(r, PyExc): c.prove('flattening a tree does not fail', False); return
        new = st['d'].term(); y = c.fresh('path')
        g, val = T.listed(thas1, tval1, st['t'], st['lead'], y)
        c.assume(z3.And(thas1(st['t'], un(st['lead'], y)) == thas0(st['t'], un(st['lead'], y)), tval1(st['t'], un(st['lead'], y)) == tval0(st['t'], un(st['lead'], y))))
        c.prove('every listed path is in the result and nothing is added but listed paths', dhas(new, y) == z3.Or(dhas(st['r0'], y), g))
        c.prove('every path gets its own details', z3.Implies(g, dget(new, y) == val))
        c.prove('other entries are not changed', z3.Implies(z3.And(dhas(st['r0'], y), z3.Not(g)), dget(new, y) == dget(st['r0'], y)))
    fr = [None]
    q = FLAT + '.helper'
    modular(ip, q, fresh, lambda args: apply_to(fr)(args), check, pre)
    inner = ip.overrides[q]
    def ov(ip, a, k, f):
        fr[0] = f; return inner(ip, a, k, f)
    ip.overrides[q] = ov
    def loop(ip, seg, body, env, node):
        if env.func is None or env.func.qualname != q or not mentions(seg.cond, c.const('dirs')): return NotImplemented
        d = st['d']; r1 = w.named(d.term()); t, lead = st['t'], st['lead']
        def inv(done):
            def listed(x):
                u = un(lead, x)
                g, val = T.listed(thas1, tval1, t, lead, x)
                return z3.And(llen(u) > 1, done(hd(u)), g), val
            return [('the paths below the directories done so far are in the result', z3.And(*rel(d.term(), r1, listed)))]
        for_inv(ip, seg, body, env, inv, 'directories')
    ip.for_hooks = list(getattr(ip, 'for_hooks', ())) + [loop]

def mentions(t, k):
    st = [t]
    while st:
        x = st.pop()
        if x.eq(k): return True
        if z3.is_app(x): st += x.children()
    return False

def unit_flatten(v):
    ip, c, w, me, bp, T = typed(v)
    flatten_contract(w, T)
    f = ip.get(FLAT); c.func = f.qualname
    t = c.fresh('tree'); c.bg.append(twf1(t)); y = c.fresh('path')
    n = [0]
    w.effect = lambda *a: c.prove('flattening changes nothing stored', False)
    def thunk():
        try: return ip.call(f, [me, Box(t)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): c.prove('does not fail', False); return
        n[0] += 1
        r = ip.term(r); g, val = T.listed(thas1, tval1, t, c.const(''), y)
        c.assume(z3.And(thas1(t, un(c.const(''), y)) == thas0(t, un(c.const(''), y)), tval1(t, un(c.const(''), y)) == tval0(t, un(c.const(''), y))))
        c.prove('the listing has exactly the paths of the tree', dhas(r, y) == g)
        c.prove('the listing has the details of the tree', z3.Implies(g, dget(r, y) == val))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)


BUILD = STORE + '.build_dir_tree'
def fams(ip, lst):
    """elements (condition, components, details) of a list of pairs"""
    c = ip.ctx
    out = []
    for s in ip.iter_segs(lst):
        if isinstance(s, PSeg):
            for x in s.items:
                if not isinstance(x, tuple) or len(x) != 2: raise Unsupported('element of the split listing')
                out.append(([], z3.BoolVal(True), ip.term(x[0]), ip.term(x[1])))
        else:
            if not isinstance(s.value, tuple) or len(s.value) != 2: raise Unsupported('element of the split listing')
            out.append((s.bvs, s.cond, ip.term(s.value[0]), ip.term(s.value[1])))
    return out
def inst(fam, ks):
    bvs, cond, l, i = fam; sub = list(zip(bvs, ks))
    return tuple(z3.substitute(t, *sub) if sub else t for t in (cond, l, i))
def ok_elem(cond, l, i): return z3.Implies(cond, z3.And(ty(l) == T_LIST, sf(l), llen(l) >= 1, ty(i) == T_DICT))
def rename(c, bvs): return [c.fresh('q', b.sort()) for b in bvs]

def build_contract(w, T, seen=None):
    """helper(pairs): a well-formed tree with exactly the given component lists and their details"""
    ip, c = w.ip, w.c
    st = {}
    kp = c.const('path')
    def det(l, i): return dset(i, kp, lastc0(l))
    def pre(args):
        fs = fams(ip, list(args.values())[-1])
        for f in fs:
            ks = rename(c, f[0]); cond, l, i = inst(f, ks)
            c.prove('the helper is given non-empty lists of slash-free components with details', ok_elem(cond, l, i))
        for j, f in enumerate(fs):
            for g in fs[j:]:
                k1, k2 = rename(c, f[0]), rename(c, g[0]); (c1, l1, _), (c2, l2, _) = inst(f, k1), inst(g, k2)
                if f is g: c.prove('no component list is given twice', z3.Implies(z3.And(c1, c2, l1 == l2, z3.BoolVal(bool(k1))), z3.And(*[a == b for a, b in zip(k1, k2)])) if k1 else z3.BoolVal(True))
                else: c.prove('no component list is given twice (two sources)', z3.Not(z3.And(c1, c2, l1 == l2)))
    def fresh(args, f):
        cnd, idx, inf = c.fresh_fun('given', V, B), c.fresh_fun('comps', V, V), c.fresh_fun('details', V, V)
        k, k2 = z3.Consts('k k2', V)
        c.assume(z3.ForAll([k], ok_elem(cnd(k), idx(k), inf(k)), patterns=[cnd(k)]))
        c.assume(z3.ForAll([k], ok_elem(cnd(k), idx(k), inf(k)), patterns=[idx(k)]))
        inv = c.fresh_fun('which', V, V)
        c.assume(z3.ForAll([k], z3.Implies(cnd(k), inv(idx(k)) == k), patterns=[idx(k)]))
        c.assume(z3.ForAll([k], z3.Implies(cnd(k), z3.And(idx(k) == cons(hd(idx(k)), tl(idx(k))), ty(tl(idx(k))) == T_LIST, llen(tl(idx(k))) == llen(idx(k)) - 1, sf(tl(idx(k))), sfn(hd(idx(k))), ty(hd(idx(k))) == T_STR,
            z3.Implies(llen(idx(k)) == 1, tl(idx(k)) == T.nil))), patterns=[idx(k)]))
        b = c.fresh('k')
        st.update(cnd=cnd, idx=idx, inf=inf)
        ks = list(args); return {**args, ks[-1]: ListObj([DSeg([b], cnd(b), (idx(b), inf(b)), False, None, True)])}
    def apply(args):
        fs = fams(ip, list(args.values())[-1])
        t = c.fresh('tree'); l = z3.Const('l', V)
        c.assume([twf0(t), twf1(t), ty(t) == T_DICT])
        for has, val in ((thas0, tval0), (thas1, tval1)):
            alts = []
            for bvs, cond, li, i in fs:
                c.assume(z3.ForAll(bvs, z3.Implies(cond, z3.And(has(t, li), val(t, li) == det(li, i)))) if bvs else z3.And(has(t, li), val(t, li) == det(li, i)))
                ws = [c.fresh_fun('src', V, b.sort()) for b in bvs]
                alts.append(z3.And(*inst_eq((bvs, cond, li, i), [f(l) for f in ws], l)))
            c.assume(z3.ForAll([l], z3.Implies(has(t, l), z3.Or(*alts) if alts else z3.BoolVal(False)), patterns=[has(t, l)]))
        return Box(t)
    def inst_eq(fam, ks, l):
        cond, li, i = inst(fam, ks)
        return [cond, li == l]
    def check(args, r):
        if isinstance(r, PyExc): c.prove('building the tree does not fail', False); return
        t = ip.term(r); k, l = c.fresh('k'), c.fresh('l')
        cnd, idx, inf = st['cnd'], st['idx'], st['inf']
        c.assume(z3.And(thas1(t, idx(k)) == thas0(t, idx(k)), lastc1(idx(k)) == lastc0(idx(k)), tval1(t, idx(k)) == tval0(t, idx(k))))
        c.prove('the tree built is well formed', T.wf(t))
        c.prove('no path of the listing is missing in the tree', z3.Implies(cnd(k), thas1(t, idx(k))))
        c.prove('every path keeps its own details', z3.Implies(cnd(k), tval1(t, idx(k)) == det(idx(k), inf(k))))
        j = z3.Const('j', V)
        c.assume(z3.And(thas1(t, l) == thas0(t, l)))
        c.prove('the tree has no path that is not in the listing', z3.Implies(thas1(t, l), z3.Exists([j], z3.And(cnd(j), idx(j) == l))))
    modular(ip, BUILD + '.helper', fresh, apply, check, pre)

def rooted(p):
    return z3.And(hd(spl(p)) == W.c.const(''), llen(spl(p)) > 1)

class W: c = None

def files_map(c, name='listing'):
    """an arbitrary listing: rooted paths with details"""
    fm = c.fresh(name); p = z3.Const('p', V); W.c = c
    c.bg += [ty(fm) == T_DICT, z3.ForAll([p], z3.Implies(dhas(fm, p), z3.And(ty(p) == T_STR, ty(dget(fm, p)) == T_DICT, rooted(p))), patterns=[dhas(fm, p)])]
    return fm

def unit_build(v):
    ip, c, w, me, bp, T = typed(v)
    build_contract(w, T)
    f = ip.get(BUILD); c.func = f.qualname
    fm = files_map(c)
    w.effect = lambda *a: c.prove('building a tree changes nothing stored', False)
    n = [0]
    def thunk():
        try: return ip.call(f, [me, Box(fm)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): c.prove('does not fail', False); return
        n[0] += 1
        t = ip.term(r); p, l = c.fresh('p'), c.fresh('l'); kp = c.const('path')
        q = tl(spl(p))
        c.prove('the tree is well formed', twf1(t))
        c.prove('every path of the listing is in the tree under its components', z3.Implies(dhas(fm, p), z3.And(thas1(t, q), dset(tval1(t, q), kp, p) == dset(dget(fm, p), kp, p))))
        p2 = jn(c.const(''), l)
        c.assume(spl(p2) == spl(p2))
        c.prove('the tree has no other path', z3.Implies(thas1(t, l), z3.And(dhas(fm, p2))))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

def fresh_tree(ip, r, start):
    if not isinstance(r, DictObj) or r.birth <= start: return False
    if r.box is not None: return r.box.parent is None and r.box.birth > start
    for k in ('files', 'dirs'):
        x = r.d.get(k)
        if isinstance(x, DictObj) and x.birth > start: continue
        b = x if isinstance(x, Box) else None
        if b is None: return False
        while b.parent is not None: b = b.parent
        if b.birth <= start: return False
    return True

def write_object_contract(w):
    """write_index_object(kind, contents): the hash of an object with this kind and these contents (unit write_index_object)"""
    ip, c = w.ip, w.c
    def contract(ip, a, k, f):
        d = bind(f, a, k, ip); v = list(d.values())
        kind, t = v[-2], w.named(ip.term(v[-1])); x = z3.Const('x', V); kt = c.const('type')
        c.prove('the contents of an object do not name its kind', z3.Not(dhas(t, kt)))
        h = c.fresh('hash'); o = objd(h)
        c.assume([ty(h) == T_STR, ishash(h), ty(o) == T_DICT, dhas(o, kt), dget(o, kt) == ip.term(kind)])
        for pat in (dhas(o, x), dget(o, x)): c.assume(z3.ForAll([x], z3.Implies(x != kt, z3.And(dhas(o, x) == dhas(t, x), z3.Implies(dhas(t, x), dget(o, x) == dget(t, x)))), patterns=[pat]))
        return Box(h)
    ip.overrides[STORE + '.write_index_object'] = contract

def write_tree_contract(w, T):
    """write_dir_tree(t): the hash of a stored tree that lists exactly what t lists"""
    ip, c = w.ip, w.c
    l = z3.Const('l', V); st = {}
    def pre(args): c.prove('the tree to be written is well formed', twf1(ip.term(list(args.values())[-1])))
    def fresh(args, f):
        t = c.fresh('tree'); c.assume(twf1(t)); st['t'] = t
        ks = list(args); return {**args, ks[-1]: tree_value(ip, t)}
    def apply(args):
        t = ip.term(list(args.values())[-1]); h = c.fresh('tree_hash'); c.assume(ty(h) == T_STR)
        for a, b, x, y in ((lk0, lkv0, thas0, tval0), (lk1, lkv1, thas1, tval1)):
            c.assume(z3.ForAll([l], a(h, l) == x(t, l), patterns=[a(h, l)])); c.assume(z3.ForAll([l], b(h, l) == y(t, l), patterns=[b(h, l)]))
        return Box(h)
    def check(args, r):
        if isinstance(r, PyExc): c.prove('writing a tree does not fail', False); return
        h, t, x = ip.term(r), st['t'], c.fresh('l')
        c.assume(z3.And(thas1(t, x) == thas0(t, x), tval1(t, x) == tval0(t, x)))
        c.prove('the stored tree lists the same paths as the tree written', lk1(h, x) == thas1(t, x))
        c.prove('the stored tree gives the same details as the tree written', z3.Implies(thas1(t, x), lkv1(h, x) == tval1(t, x)))
    modular(ip, STORE + '.write_dir_tree', fresh, apply, check, pre)

def unit_write(v):
    ip, c, w, me, bp, T = typed(v)
    write_object_contract(w); write_tree_contract(w, T)
    f = ip.get(STORE + '.write_dir_tree'); c.func = f.qualname
    t = c.fresh('tree'); c.bg.append(twf1(t)); l = c.fresh('l')
    n = [0]
    def thunk():
        try: return ip.call(f, [me, Box(t)], {})
        except PyExc as e: return e
    def visit(r):
        n[0] += 1
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

def json_objects(w):
    """the object of a hash is the parse of the bytes with that hash; bytes and text parse alike"""
    c = w.c; h, x = z3.Consts('h x', V)
    c.bg.append(z3.ForAll([h], objd(h) == jloads(unsha(h)), patterns=[objd(h)]))
    c.bg.append(z3.ForAll([x], jloads(enc(jdumps(x))) == x, patterns=[enc(jdumps(x))]))

def unit_write_object(v):
    ip, c, w, me, bp = store(v); json_objects(w)
    f = ip.get(STORE + '.write_index_object'); c.func = f.qualname
    kind, t = c.fresh('kind'), c.fresh('contents')
    c.bg += [ty(kind) == T_STR, ty(t) == T_DICT, z3.Not(dhas(t, c.const('type')))]
    n = [0]; x = c.fresh('field'); kt = c.const('type')
    def thunk():
        try: return ip.call(f, [me, Box(kind), Box(t)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): c.prove('writing an object does not fail', False); return
        n[0] += 1
        h = ip.term(r); o = objd(h)
        c.prove('the name of the object is a hash', z3.And(ishash(h), ty(h) == T_STR))
        c.prove('the object has the kind asked for', z3.And(ty(o) == T_DICT, dhas(o, kt), dget(o, kt) == kind))
        c.prove('the object has the contents given and nothing else', z3.Implies(x != kt, z3.And(dhas(o, x) == dhas(t, x), z3.Implies(dhas(t, x), dget(o, x) == dget(t, x)))))
        p = w.obj_path(bp, 'index', h)
        c.prove('an object is under its name in the store', dhas(w.fs.peek(), p))
        c.prove('what was stored now is the text of that name', z3.Implies(z3.Not(dhas(fs0, p)), dget(w.fs.peek(), p) == unsha(h)))
    fs0 = w.fs.peek()
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

def unit_files(v):
    """get_commit_files(version): what the tree of that version lists"""
    ip, c, w, me, bp, T = typed(v)
    read_contract(w); read_dir_contract(w, T); flatten_contract(w, T)
    f = ip.get(STORE + '.get_commit_files'); c.func = f.qualname
    ver = c.fresh('version'); y = c.fresh('path'); c.bg.append(ty(ver) == T_STR)
    root = dget(objd(ver), c.const('tree_root'))
    n = [0]
    w.effect = lambda *a: c.prove('reading changes nothing', False)
    def thunk():
        try: return ip.call(f, [me, Box(ver)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): c.prove('a listing fails only when an object cannot be read', r.exc.args[:1] == ('object',)); return
        n[0] += 1
        r = ip.term(r); e = c.const(''); u = un(e, y)
        c.assume(z3.And(lk1(root, u) == lk0(root, u), lkv1(root, u) == lkv0(root, u)))
        g, val = T.listed(lk1, lkv1, root, e, y)
        c.prove('the listing of a version has exactly the paths its tree leads to', dhas(r, y) == g)
        c.prove('the listing of a version has the details stored in its tree', z3.Implies(g, dget(r, y) == val))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

UNITS = [('write_dir_tree', unit_write), ('write_index_object', unit_write_object), ('get_commit_files', unit_files), ('read_dir_tree', unit_read), ('flatten_dir_tree', unit_flatten), ('build_dir_tree', unit_build)]

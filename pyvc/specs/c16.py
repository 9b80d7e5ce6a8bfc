"""C16: local change detection is exact."""
import z3
from ..core import *
from ..values import *
from ..env_base import setm, trust
from .. import env_base as eb
from ..world import axioms, pth
from ..tree import *

FM = 'bversion.common.find_manifest_changes'
fnm = F('fnmatch', V, V, B)
trust('fnmatch', 'fnmatch.fnmatch(path, filter) is a function of the two texts')

class States:
    """recorded state O (path -> entry) and the files found now N (path -> entry), each entry with its own path and a modification time"""
    def __init__(self, ip):
        c = self.c = ip.ctx; self.ip = ip
        self.O, self.N = c.fresh('recorded'), c.fresh('found')
        self.kp, self.km, self.ks = [c.const(x) for x in ('path', 'last_mod', 'status')]
        p = z3.Const('p', V)
        for D in (self.O, self.N):
            e = dget(D, p)
            c.bg += [ty(D) == T_DICT, z3.ForAll([p], z3.Implies(dhas(D, p), z3.And(ty(p) == T_STR, ty(e) == T_DICT, dhas(e, self.kp), dget(e, self.kp) == p, dhas(e, self.km), ty(dget(e, self.km)) == T_REAL)), patterns=[dhas(D, p)])]
    def found(self):
        k = self.c.fresh('k'); return ListObj([DSeg([k], dhas(self.N, k), dget(self.N, k), False, None)])
    def expect(self, p, present, unchanged):
        """(guard, value) cases: what the comparison reports at p"""
        O, N = self.O, self.N; st = lambda e, s: dset(e, self.ks, self.c.const(s))
        n, o = dget(N, p), dget(O, p)
        same = dget(n, self.km) == dget(o, self.km)
        return [(z3.And(present, z3.Not(dhas(O, p))), st(n, 'new')), (z3.And(present, dhas(O, p), z3.Not(same)), st(n, 'changed')),
                (z3.And(present, dhas(O, p), same, unchanged), st(n, 'unchanged')), (z3.And(z3.Not(present), dhas(O, p)), st(o, 'deleted'))]

def check(c, S, ip, r, p, present, unchanged):
    r = ip.term(r); cases = S.expect(p, present, unchanged)
    names = ['a file that is new', 'a file that was modified', 'an unmodified file, when asked for', 'a file that is gone']
    for (g, val), nm in zip(cases, names):
        c.prove('%s is reported as such' % nm, z3.Implies(g, z3.And(dhas(r, p), dget(r, p) == val)))
    c.prove('nothing else is reported', z3.Implies(dhas(r, p), z3.Or(*[g for g, _ in cases])))

def unit_compare(v):
    ip = v.interp(); c = ip.ctx
    f = ip.get(FM); c.func = f.qualname
    S = States(ip); unc = c.fresh('include', B); p = c.fresh('p')
    ob = Box(S.O); n = [0]
    lst = S.found()
    def thunk():
        u = ip.mkbool(unc)
        try: return ip.call(f, [lst, ob], {'include_unchanged': u})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): c.prove('the comparison does not fail', False); return
        n[0] += 1
        c.prove('the recorded state is not modified', ob.peek() == S.O)
        check(c, S, ip, r, p, dhas(S.N, p), unc)
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

def unit_local(v):
    ip = v.interp(); c = ip.ctx
    ip.import_module('bversion.client')
    f = ip.get('bversion.client.find_local_changes'); c.func = f.qualname
    ip.trusted.add('fnmatch')
    S = States(ip); unc = c.fresh('include', B); p = c.fresh('p')
    mod = ip.modules['bversion.client'].vars
    flt, dd = c.fresh('filters'), c.fresh('data_dir'); i = z3.Int('i')
    c.bg += [ty(flt) == T_LIST, ty(dd) == T_STR]
    mod['config'] = DictObj({'data_dir': Box(dd), 'ignore_filters': Box(flt)})
    mod['cdb'] = Obj('client_db', {'get_manifest': Native('get_manifest', lambda ip, a, k: ob)})
    lst = S.found(); ob = Box(S.O)
    def gl(ip, a, k, f):
        c.prove('the working copy is what is listed', ip.term(a[0]) == dd); return lst
    ip.overrides['bversion.common.get_file_list'] = gl
    setm(ip, 'fnmatch', 'fnmatch', lambda ip, a, k: ip.mkbool(fnm(ip.term(a[0]), ip.term(a[1]))))
    ign = F('ignored', V, B); wi = F('ignored_by', V, I)
    q = z3.Const('q', V)
    c.bg.append(z3.ForAll([q], z3.Implies(ign(q), z3.And(wi(q) >= 0, wi(q) < llen(flt), fnm(q, lnth(flt, wi(q))))), patterns=[ign(q)]))
    c.bg.append(z3.ForAll([q, i], z3.Implies(z3.And(i >= 0, i < llen(flt), fnm(q, lnth(flt, i))), ign(q)), patterns=[fnm(q, lnth(flt, i))]))
    n = [0]
    def thunk():
        try: return ip.call(f, [ip.mkbool(unc)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): c.prove('the comparison does not fail', False); return
        n[0] += 1
        c.prove('the recorded state is not modified', ob.peek() == S.O)
        c.assume(ign(p) == ign(p))
        check(c, S, ip, r, p, z3.And(dhas(S.N, p), z3.Not(ign(p))), unc)
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

# ---------------------------------------------------------------- the listing of the working copy
listed = F('listed', V, V, B); isdir = F('isdir', V, B); isreg = F('isreg', V, B); ctime = F('ctime', V, V); mtime = F('mtime', V, V)
jp = F('jp', V, V, V); below1 = F('below', V, V, B); below0 = F('below0', V, V, B); ujp = F('ujp', V, V, V)
LISTING = 'bversion.common.get_file_list'
trust('listdir', 'os.listdir gives each name in a directory once; os.path.isdir / isfile / getctime / getmtime are functions of the path while the listing runs; directories form a tree')

def unit_listing(v):
    ip = v.interp(); c = ip.ctx
    ip.trusted |= {'listdir', 'cpjoin'}
    f = ip.get(LISTING); c.func = f.qualname
    axioms(c); T = Tree(ip)
    a, n, l, p = z3.Consts('a n l p', V); nil = T.nil
    fa = lambda vs, body, pat: c.bg.append(z3.ForAll(vs, body, patterns=[pat]))
    fa([a, n], jp(a, cons(n, nil)) == pth(a, n), jp(a, cons(n, nil)))
    fa([a, n], pth(a, n) == jp(a, cons(n, nil)), pth(a, n))
    fa([a, n, l], z3.Implies(llen(l) > 0, jp(a, cons(n, l)) == jp(pth(a, n), l)), jp(a, cons(n, l)))
    fa([a, n, l], z3.Implies(llen(l) > 0, jp(a, cons(n, l)) == jp(pth(a, n), l)), jp(pth(a, n), l))
    fa([a, l], z3.Implies(llen(l) > 0, z3.And(ujp(a, jp(a, l)) == l, l == cons(hd(l), tl(l)))), jp(a, l))
    fa([a, l], z3.And(below1(a, l) == below0(a, l), below1(a, l) == z3.And(ty(l) == T_LIST, llen(l) > 0, l == cons(hd(l), tl(l)), listed(a, hd(l)),
        z3.If(llen(l) == 1, z3.And(tl(l) == nil, z3.Not(isdir(pth(a, hd(l)))), isreg(pth(a, hd(l)))), z3.And(isdir(pth(a, hd(l))), below0(pth(a, hd(l)), tl(l)))))), below1(a, l))
    fa([a, n], z3.Implies(listed(a, n), ty(n) == T_STR), listed(a, n))
    fa([n], z3.Implies(ty(n) == T_STR, z3.And(ty(ctime(n)) == T_REAL, ty(mtime(n)) == T_REAL)), mtime(n))
    # below1 is only true of non-empty lists (induction: below0 inherits it)
    lem = z3.ForAll([a, l], z3.Implies(below0(a, l), z3.And(ty(l) == T_LIST, llen(l) > 0)), patterns=[below0(a, l)])
    c.bg.append(lem)
    ip.overrides['bversion.common.cpjoin'] = lambda ip, a, k, f: Box(pathof(ip, a))
    def pathof(ip, a):
        t = ip.term(a[0])
        for x in a[1:]: t = pth(t, ip.term(x))
        return t
    def listdir(ip, a, k):
        t = ip.term(a[0]); x = c.fresh('name')
        return ListObj([DSeg([x], listed(t, x), x, False, None)])
    setm(ip, 'os', 'listdir', listdir)
    setm(ip, 'os.path', 'isdir', lambda ip, a, k: ip.mkbool(isdir(ip.term(a[0]))))
    setm(ip, 'os.path', 'isfile', lambda ip, a, k: ip.mkbool(isreg(ip.term(a[0]))))
    setm(ip, 'os.path', 'getctime', lambda ip, a, k: Box(ctime(ip.term(a[0]))))
    setm(ip, 'os.path', 'getmtime', lambda ip, a, k: Box(mtime(ip.term(a[0]))))
    setm(ip, 'os.path', 'sep', '/')
    def entry(p, q, l):
        t = c.c_empty
        for k, x in (('path', jp(q, l)), ('created', ctime(jp(p, l))), ('last_mod', mtime(jp(p, l)))): t = dset(t, c.const(k), x)
        return t
    def same(x, y): return z3.And(*[z3.And(dhas(x, c.const(k)), dget(x, c.const(k)) == dget(y, c.const(k))) for k in ('path', 'created', 'last_mod')])
    def captured(f):
        ls = [x for x in (f.env.vars.values() if f.env is not None else ()) if isinstance(x, ListObj)]
        if len(ls) != 1: raise Unsupported('the helper does not fill one captured list')
        return ls[0]
    def expected(lst, p, q, what):
        segs = ip.iter_segs(lst); fams = []
        for s in segs:
            if isinstance(s, PSeg): fams += [([], z3.BoolVal(True), ip.term(x)) for x in s.items]
            else: fams.append((s.bvs, s.cond, ip.term(s.value)))
        for bvs, cond, val in fams:
            ks = [c.fresh('e', b.sort()) for b in bvs]; sub = list(zip(bvs, ks))
            cond, val = z3.substitute(cond, *sub), z3.substitute(val, *sub)
            l = ks[0] if len(ks) == 1 and what == 'outer' else cons(ks[0], nil) if len(ks) == 1 else cons(ks[0], ks[1]) if len(ks) == 2 else None
            if l is None: raise Unsupported('shape of the listing')
            c.assume(l == l); c.assume(below1(p, l) == below1(p, l))
            c.prove('only regular files of the directory are listed, each with its own path and times', z3.Implies(cond, z3.And(below1(p, l), same(val, entry(p, q, l)))))
        def at(fam):
            ks = [c.fresh('e', b.sort()) for b in fam[0]]
            return z3.substitute(fam[1], *list(zip(fam[0], ks))), ks[0] if len(ks) == 1 and what == 'outer' else cons(ks[0], nil) if len(ks) == 1 else cons(ks[0], ks[1])
        for i, fa1 in enumerate(fams):
            for fb in fams[i + 1:]:
                (c1, l1), (c2, l2) = at(fa1), at(fb)
                c.prove('no file is listed twice', z3.Not(z3.And(c1, c2, l1 == l2)))
        l = c.fresh('l')
        alts = []
        for bvs, cond, val in fams:
            ks = [l] if len(bvs) == 1 and what == 'outer' else [hd(l)] if len(bvs) == 1 else [hd(l), tl(l)]
            sub = list(zip(bvs, ks)); alts.append(z3.And(z3.substitute(cond, *sub), same(z3.substitute(val, *sub), entry(p, q, l))))
        c.prove('every regular file below the directory is listed', z3.Implies(below1(p, l), z3.Or(*alts) if alts else z3.BoolVal(False)))
        return fams
    st = {}
    fr = [None]
    def fresh(args, f):
        p, q = c.fresh('dir'), c.fresh('internal'); c.assume([ty(p) == T_STR, ty(q) == T_STR, truthy(p), truthy(q)])
        lst = captured(f); lst.set_segs([], ('replace',)); st.update(p=p, q=q, l=lst)
        ks = list(args); return {ks[0]: Box(p), ks[1]: Box(q)}
    def apply(args):
        p, q = [ip.term(x) for x in args.values()]
        l = c.fresh('l'); lst = captured(fr[0])
        ip.call(ip.getattr_(lst, 'extend'), [ListObj([DSeg([l], below0(p, l), entry(p, q, l), False, None, True)])], {})
        return None
    def check(args, r):
        if isinstance(r, PyExc): c.prove('listing does not fail', False); return
        expected(st['l'], st['p'], st['q'], 'inner')
    q = LISTING + '.recur_dir'
    modular(ip, q, fresh, apply, check)
    inner = ip.overrides[q]
    def ov(ip, a, k, f):
        fr[0] = f; return inner(ip, a, k, f)
    ip.overrides[q] = ov
    root = c.fresh('root'); c.bg += [ty(root) == T_STR, truthy(root)]
    cnt = [0]
    def thunk():
        try: return ip.call(f, [Box(root)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): c.prove('listing does not fail', False); return
        cnt[0] += 1
        expected(r, root, c.const('/'), 'outer')
    c.explore(thunk, visit)
    c.prove('reachable', cnt[0] > 0)

UNITS = [('get_file_list', unit_listing), ('find_manifest_changes', unit_compare), ('find_local_changes', unit_local)]

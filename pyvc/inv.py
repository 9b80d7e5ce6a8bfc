"""The store invariant: what is true of the repository directory and the database at every moment the process can die.

Ghost: bI(h), bF(h): the index object / file object h existed when the open commit began (or exists now, when none is open);
everything the committed versions consist of is among them.  H0: the head when the open commit began.
 A   every base object is present
 B   every object present is a base object or is in the garbage log
 Cg  nothing in the garbage log is a base object
 D   every object present has the content whose hash is its name
 W   log rows are well formed (kind commit, tree or file)
 E   every recorded upload has its content in the store
 N   without an open commit the log and the change list are empty
 M   the head is H0, a base commit or none, or the head is a logged commit and everything it needs is present
Obligations are tagged with the properties they belong to; a check proves its own."""
import z3
from .core import *
from .values import *
from .world import *
from .store import *
from .tree import *
from .loops import for_inv

dk1 = F('dirat', V, V, B); dk0 = F('dirat0', V, V, B); dh1 = F('dirhash', V, V, V); dh0 = F('dirhash0', V, V, V)   # tree object h has a directory at components l; its hash

class Inv:
    def __init__(self, w, bp, db, want):
        self.w, self.ip, self.c, self.bp, self.db, self.want = w, w.ip, w.c, bp, db, set(want)
        c = self.c
        self.H0 = c.fresh('head0'); c.bg += [ty(self.H0) == T_BYTES]
        self.headp = pth(bp, c.const('head'))
        self.ok = True
        self.types = [c.const('commit'), c.const('tree')]
        self.tf = c.const('file')
        rt = enc(c.const('root'))
        c.bg += [rt == c.const(b'root'), z3.Not(ishash(c.const('root')))]
        h = z3.Const('h', V)
        self.H1 = None
        self.based('')
    def based(self, n):
        """ghost: base objects, and the committed versions (closed under parents; what they consist of are base objects)"""
        c = self.c
        bI, bF, K = self.bI, self.bF, self.K = F('base_index' + n, V, B), F('base_file' + n, V, B), F('committed' + n, V, B)
        h, l = z3.Consts('h l', V); o = objd(h); root = dget(o, c.const('tree_root')); par = dget(o, c.const('parent'))
        fa = lambda vs, b, p: c.bg.append(z3.ForAll(vs, b, patterns=[p]))
        fa([h], z3.Implies(K(h), z3.And(bI(h), z3.Or(par == c.const('root'), K(par)))), K(h))
        fa([h, l], z3.Implies(z3.And(K(h), dk0(root, l)), bI(dh0(root, l))), z3.MultiPattern(K(h), dk0(root, l)))
        fa([h, l], z3.Implies(z3.And(K(h), lk0(root, l)), bF(dget(lkv0(root, l), c.const('hash')))), z3.MultiPattern(K(h), lk0(root, l)))
    def ipath(self, h): return self.w.obj_path(self.bp, 'index', h)
    def fpath(self, h): return self.w.obj_path(self.bp, 'files', h)
    def gck(self, t, h): return rk(self.db, pth(t, h))
    def loggedI(self, gc, h): return z3.Or(*[dhas(gc, self.gck(t, h)) for t in self.types])
    def loggedF(self, gc, h): return dhas(gc, self.gck(self.tf, h))
    def active(self, S): return dhas(S['active_commit_exists'], rk(self.db, self.c.const('@')))

    def now(self): return {**{t: self.w.T[t].peek() for t in KEYCOL}, 'fs': self.w.fs.peek()}
    def durable(self): return {**{t: self.w.C[t].peek() for t in KEYCOL}, 'fs': self.w.fs.peek()}

    # ------------------------------------------------------------ the parts
    def headval(self, fs): return z3.If(dhas(fs, self.headp), dget(fs, self.headp), enc(self.c.const('root')))
    def parts(self, S, assuming=False):
        """[(properties, name, formula)]"""
        c = self.c; fs, gc, ch = S['fs'], S['gc_log'], S['active_commit_changes']; bI, bF = self.bI, self.bF
        h, x = z3.Consts('h x', V); K = c.const
        ip, fp = self.ipath(h), self.fpath(h)
        row, r = dget(gc, x), dget(ch, x)
        kt, kh = K('item_type'), K('item_hash'); st = dget(r, K('status'))
        fa = lambda body, *pats: z3.ForAll([x if any('x' == str(v) for p in pats for v in vars_of(p)) else h], body, patterns=list(pats))
        both = lambda mk: z3.And(mk(bI, ip), mk(bF, fp))
        P = []
        P.append(({'C01', 'C02', 'C03'}, 'every object of the committed versions is present', z3.And(
            fa(z3.Implies(bI(h), dhas(fs, ip)), bI(h)), fa(z3.Implies(bF(h), dhas(fs, fp)), bF(h)))))
        P.append(({'C03'}, 'every object that the open commit introduced is logged', z3.And(
            fa(z3.Implies(z3.And(self.active(S), dhas(fs, ip)), z3.Or(bI(h), self.loggedI(gc, h))), dhas(fs, ip)),
            fa(z3.Implies(z3.And(self.active(S), dhas(fs, fp)), z3.Or(bF(h), self.loggedF(gc, h))), dhas(fs, fp)))))
        P.append(({'C01', 'C02', 'C03'}, 'no object of the committed versions is logged as garbage', z3.And(*[
            fa(z3.Implies(dhas(gc, self.gck(t, h)), z3.Not(b(h))), dhas(gc, self.gck(t, h))) for t, b in [(t, bI) for t in self.types] + [(self.tf, bF)]])))
        P.append(({'C01', 'C02', 'C07'}, 'every object has the content whose hash is its name', z3.And(
            fa(z3.Implies(dhas(fs, ip), sha(dget(fs, ip)) == h), dhas(fs, ip)), fa(z3.Implies(dhas(fs, fp), sha(dget(fs, fp)) == h), dhas(fs, fp)))))
        isrow = lambda t: z3.And(dget(row, kt) == t, x == self.gck(t, dget(row, kh)))
        P.append(({'C01', 'C02', 'C03'}, 'the garbage log names a kind and a hash', fa(z3.Implies(z3.And(dhas(gc, x), rk1(x) == self.db), z3.And(
            ty(row) == T_DICT, dhas(row, kt), dhas(row, kh), ishash(dget(row, kh)), z3.Or(*[isrow(t) for t in self.types + [self.tf]]))), dhas(gc, x))))
        P.append(({'C01', 'C04', 'C14'}, 'the change list has one well-formed row per path', fa(z3.Implies(z3.And(dhas(ch, x), rk1(x) == self.db), z3.And(
            x == rk(self.db, dget(r, K('path'))), ty(r) == T_DICT, dhas(r, K('path')), dhas(r, K('hash')), dhas(r, K('status')), z3.Or(*[st == K(s) for s in ('new', 'changed', 'deleted')]))), dhas(ch, x))))
        P.append(({'C01', 'C14'}, 'every recorded upload has its content in the store', fa(z3.Implies(z3.And(dhas(ch, x), rk1(x) == self.db, st != K('deleted')),
            dhas(fs, self.fpath(dget(r, K('hash'))))), dhas(ch, x))))
        P.append(({'C01', 'C03', 'C04'}, 'without an open commit nothing is logged or recorded', z3.And(*[
            fa(z3.Implies(z3.And(dhas(T, x), rk1(x) == self.db), self.active(S)), dhas(T, x)) for T in (gc, ch)])))
        return P
    def head_part(self, S):
        fs, gc = S['fs'], S['gc_log']
        hv = self.headval(fs)
        h = z3.Const('h', V)
        old = z3.And(hv == self.H0, z3.Implies(dhas(fs, self.headp), self.K(dec(dget(fs, self.headp)))))
        new = z3.And(z3.BoolVal(False))
        if self.H1 is not None:
            new = z3.And(hv == enc(self.H1), z3.Implies(self.active(S), dhas(gc, self.gck(self.c.const('commit'), self.H1))), dhas(fs, self.headp), self.complete(fs, self.H1), self.parent_ok())
        return ({'C01', 'C02', 'C03'}, 'the head names the version it named before or a complete new one', z3.Or(old, new))
    def complete(self, fs, h):
        """the version h: its commit object, its directory objects and its files are present"""
        root = dget(objd(h), self.c.const('tree_root')); l = z3.Const('l', V)
        return z3.And(dhas(fs, self.ipath(h)), dirs_present(self, fs, root), z3.ForAll([l], z3.Implies(lk0(root, l), dhas(fs, self.fpath(dget(lkv0(root, l), self.c.const('hash'))))), patterns=[lk0(root, l)]))
    def parent_ok(self):
        par = dget(objd(self.H1), self.c.const('parent'))
        return z3.Or(par == self.c.const('root'), self.K(par))
    def finished(self, S):
        """the head names a commit that the open commit made"""
        fs, gc = S['fs'], S['gc_log']
        return z3.And(dhas(fs, self.headp), dhas(gc, self.gck(self.c.const('commit'), dec(dget(fs, self.headp)))))
    def shape(self, S):
        """always true of the head file: it holds a text (this process writes nothing else there)"""
        fs = S['fs']; hv = dget(fs, self.headp)
        return z3.Implies(dhas(fs, self.headp), z3.And(ty(hv) == T_BYTES, enc(dec(hv)) == hv))

    def assume(self, S, head=True):
        for _, n, f in self.parts(S): self.c.assume(f)
        self.c.assume(self.shape(S))
        if head: self.c.assume(self.head_part(S)[2])
    def prove(self, S, when, head=True):
        ps = self.parts(S) + ([self.head_part(S)] if head else [])
        for props, n, f in ps:
            if props & self.want: self.c.prove('%s: %s' % (when, n), f)
    def ob(self, props, name, f):
        if set(props.split()) & self.want: self.c.prove(name, f)

    # ------------------------------------------------------------ start of a unit
    def begin(self, open_=True):
        """an arbitrary state that satisfies the invariant, everything durable"""
        w, c = self.w, self.c
        S = self.S0 = self.now()
        for _, n, f in self.parts(S): c.bg.append(f)
        c.bg.append(self.shape(S))
        if open_ is not None: c.bg.append(self.active(S) if open_ else z3.Not(self.active(S)))
        rows_wf(w, ('active_commit_exists',))
        return S
    def watch(self):
        """every durable effect is a moment at which the process can die"""
        def effect(kind, *info):
            if self.c.suppress: return
            if kind == 'commit': when = 'after the database commit'
            else: when = 'after %s' % kind
            self.prove(self.durable(), when)
        self.w.effect = effect; self.w.before = self.guard
    def guard(self, kind, *info):
        """before a file is changed"""
        if self.c.suppress: return
        h = self.c.fresh('h'); fs = self.w.fs.peek(); objs = ((self.ipath(h), self.bI), (self.fpath(h), self.bF))
        if kind in ('write', 'truncate'):
            self.ob('C01 C02', 'the head is never written in place', info[0] != self.headp)
            for o, b in objs: self.ob('C02 C07', 'an object is never written in place', info[0] != o)
        elif kind == 'rename':
            for o, b in objs:
                self.ob('C02 C07', 'an object that is stored is never replaced', z3.Implies(info[1] == o, z3.Not(dhas(fs, o))))
                self.ob('C02 C07', 'an object is never moved away', info[0] != o)
        elif kind == 'remove':
            for o, b in objs: self.ob('C02 C03', 'only objects that no committed version has are removed', z3.Implies(info[0] == o, z3.Not(b(h))))
            if self.no_removal:
                for o, b in objs: self.ob('C02 C07', 'an object is never removed but by a roll back', info[0] != o)
    no_removal = True
    def settled(self):
        """all changes to the database are committed"""
        return z3.And(*[eqmap(self.w.T[t].peek(), self.w.C[t].peek(), z3.Const('x', V)) for t in ('gc_log', 'active_commit_changes', 'active_commit_exists') if not self.w.T[t].peek().eq(self.w.C[t].peek())] or [z3.BoolVal(True)])
    def end(self, when='at the end'):
        self.prove(self.now(), when)
        self.ob('C01 C02 C03 C04 C14', 'everything recorded is durable at the end', self.settled())

def dirs_theory(w, T):
    c = w.c; h, l = z3.Consts('h l', V)
    d = dget(objd(h), c.const('dirs')); sub = dget(d, hd(l))
    c.bg.append(z3.ForAll([h, l], z3.And(dk1(h, l) == dk0(h, l), dk1(h, l) == z3.And(ty(l) == T_LIST, z3.Or(l == T.nil, z3.And(llen(l) > 0, l == cons(hd(l), tl(l)), dhas(d, hd(l)), dk0(sub, tl(l)))))), patterns=[dk1(h, l)]))
    c.bg.append(z3.ForAll([h, l], z3.And(dh1(h, l) == dh0(h, l), dh1(h, l) == z3.If(l == T.nil, h, dh0(sub, tl(l)))), patterns=[dh1(h, l)]))
def dirs_present(J, fs, h):
    l = z3.Const('l', V)
    return z3.ForAll([l], z3.Implies(dk0(h, l), dhas(fs, J.ipath(dh0(h, l)))), patterns=[dk0(h, l)])

class Grow:
    """contract of storing index objects: the invariant is kept; index objects and log rows are only added; nothing else is touched"""
    def __init__(self, J): self.J, self.w, self.c = J, J.w, J.c
    def frame(self, S, S0):
        """relation of the state S to an earlier state"""
        J, c = self.J, self.c; h, x = z3.Consts('h x', V); fs, f0 = S['fs'], S0['fs']; g, g0 = S['gc_log'], S0['gc_log']
        fa = lambda v, b, p: z3.ForAll([v], b, patterns=[p])
        return [('index objects are only added', z3.And(fa(h, z3.Implies(dhas(f0, J.ipath(h)), dhas(fs, J.ipath(h))), dhas(f0, J.ipath(h))))),
                ('no file object is touched', z3.And(fa(h, dhas(fs, J.fpath(h)) == dhas(f0, J.fpath(h)), dhas(fs, J.fpath(h))), fa(h, dhas(fs, J.fpath(h)) == dhas(f0, J.fpath(h)), dhas(f0, J.fpath(h))))),
                ('the head is not touched', z3.And(dhas(fs, J.headp) == dhas(f0, J.headp), dget(fs, J.headp) == dget(f0, J.headp))),
                ('log rows are only added', z3.And(fa(x, z3.Implies(dhas(g0, x), dhas(g, x)), dhas(g0, x)))),
                ('the open commit and its changes are not touched', z3.And(*[S[t] == S0[t] for t in ('active_commit_changes', 'active_commit_exists')]))]
    def apply(self):
        """an arbitrary state reached by storing index objects"""
        J, w, c = self.J, self.w, self.c
        S0 = {**J.now(), 'fs': w.named(w.fs.term()), 'gc_log': w.named(w.T['gc_log'].term())}
        w.fs.replace(c.fresh('fs')); g = c.fresh('tab_gc_log')
        w.T['gc_log'].replace(g); w.C['gc_log'].replace(g)
        S = J.now()
        J.assume(S, head=False)
        for _, f in self.frame(S, S0): c.assume(f)
        return S, S0
    def pre(self):
        J = self.J
        J.prove(J.now(), 'before storing an object'); J.ob('C01 C02 C03', 'before storing an object: everything recorded is durable', J.settled())

def write_object_grow(J):
    """write_index_object by contract: content (C05) and effect (unit write_index_object)"""
    from .specs.c05 import write_object_contract
    w, ip, c = J.w, J.ip, J.c
    q = STORE + '.write_index_object'
    write_object_contract(w); content = ip.overrides[q]; G = Grow(J)
    def contract(ip, a, k, f):
        kind = list(bind(f, a, k, ip).values())[-2]
        G.pre()
        J.ob('C01 C02 C03', 'objects are trees or commits', z3.Or(*[ip.term(kind) == t for t in J.types]))
        r = content(ip, a, k, f); h = ip.term(r)
        S, S0 = G.apply(); y = z3.Const('y', V)
        c.assume([dhas(S['fs'], J.ipath(h)), z3.Or(dhas(S0['fs'], J.ipath(h)), dhas(S['gc_log'], J.gck(ip.term(kind), h))), z3.ForAll([y], z3.Implies(dhas(S['fs'], J.ipath(y)), z3.Or(y == h, dhas(S0['fs'], J.ipath(y)))), patterns=[dhas(S['fs'], J.ipath(y))])])
        w.stored = (h, S0)
        return r
    ip.overrides[q] = contract

def write_tree_grow(J, T):
    """write_dir_tree: content (C05) and effect: the invariant is kept and every directory object of the tree is present"""
    w, ip, c = J.w, J.ip, J.c
    G = Grow(J); st = {}; n_ = z3.Const('n', V)
    from .specs.c05 import tree_value
    def pre(args):
        if {'C01', 'C02', 'C03'} & J.want: c.prove('the tree to be written is well formed', twf1(ip.term(list(args.values())[-1])))
        G.pre()
    def fresh(args, f):
        t = c.fresh('tree'); c.assume(twf1(t)); st['t'] = t
        S, S0 = G.apply(); c.assume(J.head_part(S)[2]); st['S0'] = S      # an arbitrary state that satisfies the invariant
        ks = list(args); return {**args, ks[-1]: tree_value(ip, t)}
    def apply(args):
        t = ip.term(list(args.values())[-1]); h = c.fresh('tree_hash'); c.assume(ty(h) == T_STR); l = z3.Const('l', V)
        S, S0 = G.apply()
        for a, b, x, y in ((lk0, lkv0, thas0, tval0), (lk1, lkv1, thas1, tval1)):
            c.assume(z3.ForAll([l], a(h, l) == x(t, l), patterns=[a(h, l)])); c.assume(z3.ForAll([l], b(h, l) == y(t, l), patterns=[b(h, l)]))
        c.assume(dirs_present(J, S['fs'], h))
        return Box(h)
    def check(args, r):
        if isinstance(r, PyExc): J.ob('C01 C02 C03', 'storing a tree does not fail', False); return
        h, l = ip.term(r), c.fresh('l'); S = J.now()
        c.assume(z3.And(dk1(h, l) == dk0(h, l), dh1(h, l) == dh0(h, l)))
        J.end('after storing a tree')
        for n, f in G.frame(S, st['S0']): J.ob('C01 C02 C03', 'after storing a tree: ' + n, f)
        J.ob('C01', 'every directory object of the stored tree is present', z3.Implies(dk1(h, l), dhas(S['fs'], J.ipath(dh1(h, l)))))
    modular(ip, STORE + '.write_dir_tree', fresh, apply, check, pre)
    world = [w.fs] + list(w.T.values()) + list(w.C.values())
    def loop(ip, seg, body, env, node):
        if env.func is None or env.func.qualname != STORE + '.write_dir_tree': return NotImplemented
        S0 = {**J.now(), 'fs': w.named(w.fs.term()), 'gc_log': w.named(w.T['gc_log'].term())}
        def inv(done):
            S = J.now()
            ms = [m for m in done.mods if isinstance(m, Box) and not any(m is b for b in world)]
            fs = [(n, f) for _, n, f in J.parts(S)] + [(J.head_part(S)[1], J.head_part(S)[2]), ('everything recorded is durable', J.settled())] + G.frame(S, S0)
            for m in ms:
                D = m.term(); l = z3.Const('l', V)
                fs.append(('the directories done so far are present', z3.And(z3.ForAll([n_], dhas(D, n_) == done(n_), patterns=[dhas(D, n_)]),
                    z3.ForAll([n_, l], z3.Implies(z3.And(done(n_), dk0(dget(D, n_), l)), dhas(S['fs'], J.ipath(dh0(dget(D, n_), l)))), patterns=[dk0(dget(D, n_), l)]))))
            return fs
        for_inv(ip, seg, body, env, inv, 'directories')
    ip.for_hooks = list(getattr(ip, 'for_hooks', ())) + [loop]

def unit_write_tree(want):
    def unit(v):
        ip, c, w, me, bp = store(v)
        T = Tree(ip); T.assume_lemmas()
        J = Inv(w, bp, w.db, want); dirs_theory(w, T); S0 = J.begin(); J.watch(); c.bg.append(J.head_part(S0)[2])
        write_object_grow(J); write_tree_grow(J, T)
        f = ip.get(STORE + '.write_dir_tree'); c.func = f.qualname
        t = c.fresh('tree'); c.bg.append(twf1(t)); n = [0]
        def thunk():
            try: return ip.call(f, [me, Box(t)], {})
            except PyExc as e: return e
        def visit(r): n[0] += 1
        c.explore(thunk, visit)
        c.prove('reachable', n[0] > 0)
    return unit

# ---------------------------------------------------------------- rollback
def unit_rollback(want):
    def unit(v):
        ip, c, w, me, bp = store(v)
        J = Inv(w, bp, w.db, want); T = Tree(ip); dirs_theory(w, T)
        J.H1 = c.fresh('finished_commit'); c.bg += [ty(J.H1) == T_STR, ishash(J.H1)]
        S0 = J.begin(); J.watch(); J.no_removal = False
        c.bg.append(J.head_part(S0)[2])
        fin = c.fresh('finished', B); c.bg.append(fin == J.finished(S0))
        w.initial_active_files = lambda db: Box(c.fresh('active_files'))
        q = STORE + '.rollback'
        f = ip.get(q); c.func = f.qualname
        y = c.fresh('h'); z = z3.Const('z', V)
        def loop(ip, seg, body, env, node):
            if env.func is None or env.func.qualname != q: return NotImplemented
            S1 = J.now()
            def target(r): return z3.If(dget(r, c.const('item_type')) == J.tf, J.fpath(dget(r, c.const('item_hash'))), J.ipath(dget(r, c.const('item_hash'))))
            def inv(done):
                S = J.now(); fs = S['fs']; k = seg.bvs[0]; r = seg.value
                r = ip.term(r) if not z3.is_expr(r) else r
                sub = lambda t, to: z3.substitute(t, (k, to))
                out = [(n, g) for p, n, g in J.parts(S)] + [('everything recorded is durable', J.settled()), ('the head is not touched', z3.And(dhas(fs, J.headp) == dhas(S1['fs'], J.headp), dget(fs, J.headp) == dget(S1['fs'], J.headp))),
                    ('the objects logged so far are gone', z3.ForAll([z], z3.Implies(done(z), z3.Not(dhas(fs, target(sub(r, z))))), patterns=[sub(t, z) for t in triggers(seg.cond, k)] or [sub(r, z)])),
                    ('only files are removed', z3.ForAll([z], z3.Implies(dhas(fs, z), dhas(S1['fs'], z)), patterns=[dhas(fs, z)]))]
                return out
            for_inv(ip, seg, body, env, inv, 'clean up')
        ip.for_hooks = [loop]
        n = {'kept': 0, 'discarded': 0}
        def thunk():
            try: return ip.call(f, [me], {})
            except PyExc as e: return e
        def visit(r):
            if isinstance(r, PyExc): J.ob('C01 C02 C03 C14', 'rolling back does not fail', False); return
            S = J.now(); fs, f0 = S['fs'], S0['fs']
            J.end('after rolling back')
            J.ob('C03 C14', 'no commit is open after rolling back', z3.Not(J.active(S)))
            x = c.fresh('x')
            J.ob('C03', 'nothing is logged or recorded after rolling back', z3.Implies(rk1(x) == J.db, z3.Not(z3.Or(dhas(S['gc_log'], x), dhas(S['active_commit_changes'], x)))))
            J.ob('C01 C02 C03', 'the head stays as it is', z3.And(dhas(fs, J.headp) == dhas(f0, J.headp), dget(fs, J.headp) == dget(f0, J.headp)))
            if c.decide(fin):
                n['kept'] += 1
                J.ob('C01 C03', 'a finished commit keeps all its objects', z3.And(dhas(fs, J.ipath(y)) == dhas(f0, J.ipath(y)), dhas(fs, J.fpath(y)) == dhas(f0, J.fpath(y))))
            else:
                n['discarded'] += 1
                J.ob('C03', 'exactly the objects that existed before the commit remain', z3.And(dhas(fs, J.ipath(y)) == J.bI(y), dhas(fs, J.fpath(y)) == J.bF(y)))
        c.explore(thunk, visit)
        c.prove('reachable', n['kept'] > 0 and n['discarded'] > 0)
    return unit

# ---------------------------------------------------------------- the open commit
def working(J, fs):
    """the files of the head version, as the database object of the open commit holds them: path -> details; their contents are base objects"""
    c = J.c; A = c.fresh('active_files'); p = z3.Const('p', V); kh = c.const('hash'); e = dget(A, p)
    c.bg += [ty(A) == T_DICT, z3.ForAll([p], z3.Implies(dhas(A, p), z3.And(ty(p) == T_STR, rooted(c, p), ty(e) == T_DICT, dhas(e, kh), dhas(e, c.const('path')), dget(e, c.const('path')) == p, ty(dget(e, kh)) == T_STR, J.bF(dget(e, kh)))), patterns=[dhas(A, p)])]
    box = Box(A); J.w.initial_active_files = lambda db: box
    J.AF = A
    return box
def rooted(c, p): return z3.And(hd(spl(p)) == c.const(''), llen(spl(p)) > 1)
def changes_rel(J, S):
    """the rows of the change list against the files of the head version"""
    c = J.c; ch = S['active_commit_changes']; x = z3.Const('x', V); K = c.const; r = dget(ch, x); p = dget(r, K('path')); st = dget(r, K('status'))
    return z3.ForAll([x], z3.Implies(z3.And(dhas(ch, x), rk1(x) == J.db), z3.And(rooted(c, p), ty(p) == T_STR, ty(dget(r, K('hash'))) == T_STR,
        z3.Implies(st == K('new'), z3.Not(dhas(J.AF, p))), z3.Implies(st != K('new'), dhas(J.AF, p)))), patterns=[dhas(ch, x)])
def row_of(J, S, p): return dget(S['active_commit_changes'], rk(J.db, p))
def has_row(J, S, p): return dhas(S['active_commit_changes'], rk(J.db, p))

def unit_put(want):
    def unit(v):
        ip, c, w, me, bp = store(v)
        J = Inv(w, bp, w.db, want); T = Tree(ip)
        S0 = J.begin(); J.watch(); c.bg.append(J.head_part(S0)[2])
        AF = working(J, S0['fs']); c.bg.append(changes_rel(J, S0))
        f = ip.get(STORE + '.fs_put_from_file'); c.func = f.qualname
        src = pth(bp, c.const('tmp_file')); p = c.fresh('path'); info = c.fresh('file_info'); K = c.const
        fs0 = S0['fs']; data = dget(fs0, src); h = sha(data)
        c.bg += [ty(info) == T_DICT, dhas(info, K('path')), dget(info, K('path')) == p, ty(p) == T_STR, rooted(c, p), dhas(fs0, src)]
        y, q = c.fresh('h'), c.fresh('q'); n = [0]
        def thunk():
            try: return ip.call(f, [me, Box(src), Box(info)], {})
            except PyExc as e: return e
        def visit(r):
            if isinstance(r, PyExc): J.ob('C01 C02 C04 C07', 'storing a file does not fail', False); return
            n[0] += 1
            S = J.now(); fs = S['fs']; r = ip.term(r)
            J.end('after storing a file')
            J.ob('C07', 'the file is stored under the hash of its bytes', z3.And(dhas(fs, J.fpath(h)), sha(dget(fs, J.fpath(h))) == h))
            J.ob('C07', 'the reported hash is the hash of the bytes', z3.And(dhas(r, K('hash')), dget(r, K('hash')) == h))
            J.ob('C07', 'a stored file stays as it is', z3.Implies(dhas(fs0, J.fpath(y)), z3.And(dhas(fs, J.fpath(y)), dget(fs, J.fpath(y)) == dget(fs0, J.fpath(y)))))
            J.ob('C07', 'no second copy appears', z3.Implies(y != h, dhas(fs, J.fpath(y)) == dhas(fs0, J.fpath(y))))
            J.ob('C02 C07', 'no index object is touched', z3.And(dhas(fs, J.ipath(y)) == dhas(fs0, J.ipath(y)), dget(fs, J.ipath(y)) == dget(fs0, J.ipath(y))))
            J.ob('C01 C02', 'the head is not touched', z3.And(dhas(fs, J.headp) == dhas(fs0, J.headp), dget(fs, J.headp) == dget(fs0, J.headp)))
            R = row_of(J, S, p)
            J.ob('C04 C07', 'the path is recorded with the hash of its bytes', z3.And(has_row(J, S, p), dget(R, K('hash')) == h, dget(R, K('path')) == p))
            J.ob('C04', 'the path is recorded as new or changed', dget(R, K('status')) == z3.If(dhas(J.AF, p), K('changed'), K('new')))
            J.ob('C04', 'other paths keep what is recorded for them', z3.Implies(q != rk(J.db, p), z3.And(dhas(S['active_commit_changes'], q) == dhas(S0['active_commit_changes'], q), dget(S['active_commit_changes'], q) == dget(S0['active_commit_changes'], q))))
            A1 = AF.term()
            J.ob('C04', 'the files of the head version are remembered', z3.And(dhas(A1, q) == dhas(J.AF, q), dget(A1, q) == dget(J.AF, q)))
            J.ob('C04', 'the recorded changes agree with the files of the head version', changes_rel(J, S))
            J.ob('C03 C04 C14', 'the commit stays open', J.active(S))
        c.explore(thunk, visit)
        c.prove('reachable', n[0] > 0)
    return unit

def unit_delete(want):
    def unit(v):
        ip, c, w, me, bp = store(v)
        J = Inv(w, bp, w.db, want); T = Tree(ip); K = c.const
        S0 = J.begin(); J.watch(); c.bg.append(J.head_part(S0)[2])
        AF = working(J, S0['fs']); c.bg.append(changes_rel(J, S0))
        q = STORE + '.fs_delete'; rq = 'bversion.storage.server_db.server_db.remove_from_commit'
        f = ip.get(q); c.func = f.qualname
        files = c.fresh('files'); i = z3.Int('i'); e = lnth(files, i)
        c.bg += [ty(files) == T_LIST, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(files)), z3.And(ty(e) == T_DICT, dhas(e, K('path')), ty(dget(e, K('path'))) == T_STR)), patterns=[e])]
        p, y = c.fresh('p'), c.fresh('h'); n = [0]; pv = z3.Const('pv', V); ch0 = S0['active_commit_changes']
        def deleted(S, A, p):
            R = row_of(J, S, p)
            return z3.If(dhas(J.AF, p), z3.And(has_row(J, S, p), dget(R, K('status')) == K('deleted'), dget(R, K('path')) == p, dget(R, K('hash')) == dget(dget(J.AF, p), K('hash')), dhas(R, K('hash')), dhas(R, K('path')), dhas(R, K('status')), ty(R) == T_DICT), z3.Not(has_row(J, S, p)))
        def remembered(A, p): return z3.And(dhas(A, p) == dhas(J.AF, p), z3.Implies(dhas(A, p), z3.And(ty(dget(A, p)) == T_DICT, dhas(dget(A, p), K('hash')), dhas(dget(A, p), K('path')), dget(dget(A, p), K('path')) == p, dget(dget(A, p), K('hash')) == dget(dget(J.AF, p), K('hash')))))
        asked_before = c.fresh_fun('asked_at', V, I)
        def loop(ip, seg, body, env, node):
            if env.func is None or env.func.qualname not in (q, rq): return NotImplemented
            def inv(done):
                S = J.now(); A = AF.term(); ch = S['active_commit_changes']; x = z3.Const('x', V)
                if done.count is None: raise Unsupported('order of the files')
                k = done.count
                asked = lambda t: z3.And(asked_before(t) >= 0, asked_before(t) < k)
                return [('what is asked for and done is recorded as deleted, the rest as it was', z3.And(
                    *[z3.ForAll([pv], z3.If(asked(pv), deleted(S, A, pv), z3.And(has_row(J, S, pv) == has_row(J, S0, pv), row_of(J, S, pv) == row_of(J, S0, pv))), patterns=[t]) for t in (has_row(J, S, pv), row_of(J, S, pv))])),
                    ('the files of the head version are remembered', z3.And(ty(A) == T_DICT, *[z3.ForAll([pv], remembered(A, pv), patterns=[t]) for t in (dhas(A, pv), dget(A, pv))])),
                    ('rows of other repositories are not touched', z3.ForAll([x], z3.Implies(rk1(x) != J.db, z3.And(dhas(ch, x) == dhas(ch0, x), dget(ch, x) == dget(ch0, x))), patterns=[dhas(ch, x)])),
                    ('rows are under their own path', z3.ForAll([x], z3.Implies(z3.And(dhas(ch, x), rk1(x) == J.db), x == rk(J.db, dget(dget(ch, x), K('path')))), patterns=[dhas(ch, x)]))]
            # asked_before(p): the position of the first request for p, beyond the end when there is none
            N = llen(files)
            c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(asked_before(dget(e, K('path'))) >= 0, asked_before(dget(e, K('path'))) <= i)), patterns=[e]))
            a = asked_before(pv)
            c.assume(z3.ForAll([pv], z3.And(a >= 0, z3.Implies(a < N, dget(lnth(files, a), K('path')) == pv)), patterns=[a]))
            for_inv(ip, seg, body, env, inv, 'deletions')
        ip.for_hooks = [loop]
        j = c.fresh('j', I); at = c.fresh('asked', B)
        def thunk():
            try: return ip.call(f, [me, Box(files)], {})
            except PyExc as e: return e
        def visit(r):
            if isinstance(r, PyExc): J.ob('C01 C02 C04', 'deleting files does not fail', False); return
            n[0] += 1
            S = J.now(); fs = S['fs']; A = AF.term()
            c.assume([z3.Implies(at, z3.And(j >= 0, j < llen(files), dget(lnth(files, j), K('path')) == p)), z3.Implies(z3.Not(at), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(files)), dget(e, K('path')) != p), patterns=[e]))])
            J.end('after deleting')
            J.ob('C02 C04', 'deleting touches no file of the store', w.same(snap0, []))
            J.ob('C04', 'a path asked for is recorded as deleted, or not at all when it did not exist', z3.Implies(at, deleted(S, A, p)))
            J.ob('C04', 'other paths keep what is recorded for them', z3.Implies(z3.Not(at), z3.And(has_row(J, S, p) == has_row(J, S0, p), z3.Implies(has_row(J, S, p), row_of(J, S, p) == row_of(J, S0, p)))))
            J.ob('C04', 'the files of the head version are remembered', remembered(A, p))
            J.ob('C04', 'the recorded changes agree with the files of the head version', changes_rel(J, S))
            J.ob('C03 C04 C14', 'the commit stays open', J.active(S))
        snap0 = w.snap()
        c.explore(thunk, visit)
        c.prove('reachable', n[0] > 0)
    return unit

def unit_begin(want, resume):
    def unit(v):
        from .specs.c05 import read_dir_contract, flatten_contract
        from .specs.c06 import read_contract
        ip, c, w, me, bp = store(v)
        T = Tree(ip); T.assume_lemmas(); J = Inv(w, bp, w.db, want); dirs_theory(w, T); K = c.const
        J.H1 = c.fresh('finished_commit'); c.bg += [ty(J.H1) == T_STR, ishash(J.H1)]
        S0 = J.begin(resume); c.bg.append(J.head_part(S0)[2]); fs0 = S0['fs']
        J1 = J
        if not resume:
            # nothing is open: from here on the base is what is present
            J1 = Inv.__new__(Inv); J1.__dict__.update(J.__dict__); J1.H1 = None
            y = z3.Const('y', V)
            J1.bI, J1.bF, J1.K = F('base_index_now', V, B), F('base_file_now', V, B), F('committed_now', V, B)
            for b, pa in ((J1.bI, J.ipath(y)), (J1.bF, J.fpath(y))):
                for pat in (b(y), dhas(fs0, pa)): c.bg.append(z3.ForAll([y], b(y) == dhas(fs0, pa), patterns=[pat]))
            now = dec(J.headval(fs0)); J1.H0 = J.headval(fs0)
            for pat in (J1.K(y), J.K(y)): c.bg.append(z3.ForAll([y], J1.K(y) == z3.Or(J.K(y), z3.And(y == J.H1, J.headval(fs0) == enc(J.H1))), patterns=[pat]))
            # (definition of committed: what the head names and its ancestors; the laws of the ghost predicates are obligations)
            k, l = c.fresh('k'), c.fresh('l'); o = objd(k); root = dget(o, K('tree_root')); par = dget(o, K('parent'))
            def laws():
                J.ob('C01 C02', 'a committed version is a base object and so are its ancestors', z3.Implies(J1.K(k), z3.And(J1.bI(k), z3.Or(par == K('root'), J1.K(par)))))
                J.ob('C01 C02', 'the directories of a committed version are base objects', z3.Implies(z3.And(J1.K(k), dk0(root, l)), J1.bI(dh0(root, l))))
                J.ob('C01 C02', 'the files of a committed version are base objects', z3.Implies(z3.And(J1.K(k), lk0(root, l)), J1.bF(dget(lkv0(root, l), K('hash')))))
        else: J1.ob('C01 C14', 'a finished commit is never resumed', True); c.bg.append(z3.Not(J.finished(S0)))
        J1.watch()
        read_contract(w); read_dir_contract(w, T); flatten_contract(w, T)
        user, addr, tok = c.fresh('user'), c.fresh('user_ip'), c.fresh('session_token'); ak = rk(J.db, K('@'))
        c.bg += [ty(user) == T_STR, ty(addr) == T_STR, ty(tok) == T_BYTES]
        af = Box(c.fresh('active_files')); w.initial_active_files = lambda db: af
        f = ip.get(STORE + '.begin'); c.func = f.qualname
        n = {'root': 0, 'head': 0}; x, y = c.fresh('x'), c.fresh('path')
        ch0 = S0['active_commit_changes']; snap0 = w.snap()
        def thunk():
            try: return ip.call(f, [me, Box(user), Box(addr), Box(tok)], {'resume': True} if resume else {})
            except PyExc as e: return e
        def visit(r):
            S = J.now()
            if isinstance(r, PyExc):
                c.prove('beginning fails only when an object cannot be read', r.exc.args[:1] == ('object',))
                J.ob('C01 C02 C03 C14', 'a failed begin changes nothing', w.same(snap0)); return
            if not resume and J is not J1: laws()
            J1.end('after beginning')
            R = dget(S['active_commit_exists'], ak); A = ip.getattr_(ip.getattr_(w.sdbs[-1][1], '__self__') if False else w.sdbs[-1][1], 'active_files')
            J.ob('C14 C03', 'a commit is open', J.active(S))
            J.ob('C14', 'the session of the open commit is the one that began or resumed it', dget(R, K('session_token')) == tok)
            if resume:
                R0 = dget(S0['active_commit_exists'], ak)
                J.ob('C14', 'the owner of the open commit stays', z3.And(dget(R, K('user')) == dget(R0, K('user')), dget(R, K('ip')) == dget(R0, K('ip'))))
                r0 = dget(ch0, x)
                J.ob('C14 C04', 'the recorded uploads stay and the deletions are forgotten', z3.Implies(rk1(x) == J.db, z3.And(dhas(S['active_commit_changes'], x) == z3.And(dhas(ch0, x), dget(r0, K('status')) != K('deleted')), z3.Implies(dhas(S['active_commit_changes'], x), dget(S['active_commit_changes'], x) == r0))))
            else:
                J.ob('C14', 'the owner of the open commit is who began it', z3.And(dget(R, K('user')) == user, dget(R, K('ip')) == addr))
                J.ob('C04 C14', 'a new commit has no changes', z3.Implies(rk1(x) == J.db, z3.Not(dhas(S['active_commit_changes'], x))))
            J.ob('C02 C03 C14', 'no file of the store is touched', w.same(snap0, []))
            A = ip.term(A); head = dec(J.headval(fs0)); root = dget(objd(head), K('tree_root')); e = K(''); u = un(e, y)
            c.assume(z3.And(lk1(root, u) == lk0(root, u), lkv1(root, u) == lkv0(root, u)))
            g, val = T.listed(lk1, lkv1, root, e, y)
            if c.decide(head == K('root')):
                n['root'] += 1
                J.ob('C04', 'an empty repository has no files', z3.Not(dhas(A, y)))
            else:
                n['head'] += 1
                J.ob('C04', 'the commit starts from exactly the files of the head version', dhas(A, y) == g)
                J.ob('C04', 'the commit starts from the details of the head version', z3.Implies(g, dget(A, y) == val))
                J.ob('C01 C02', 'the files the commit starts from are in the store', z3.Implies(dhas(A, y), J1.bF(dget(dget(A, y), K('hash')))))
        c.explore(thunk, visit)
        c.prove('reachable', n['root'] > 0 and n['head'] > 0)
    return unit

GS = 'bversion.storage.server_db.server_db.get_commit_state'
def new_listing(J, S, A1, y):
    """A1 maps the path y as the head version does, updated by the recorded changes"""
    c = J.c; K = c.const; R = row_of(J, S, y); has = has_row(J, S, y); st = dget(R, K('status')); d = dget(A1, y)
    return z3.And(dhas(A1, y) == z3.Or(z3.And(has, st != K('deleted')), z3.And(z3.Not(has), dhas(J.AF, y))),
        z3.Implies(z3.And(has, st != K('deleted')), z3.And(ty(d) == T_DICT, dhas(d, K('hash')), dget(d, K('hash')) == dget(R, K('hash')), dget(d, K('path')) == y)), z3.Implies(z3.And(z3.Not(has), dhas(J.AF, y)), d == dget(J.AF, y)))
def rows_list(ip, J, S, L):
    """the list L has the rows of the change list, one element each"""
    c = J.c; i = z3.Int('i'); y = z3.Const('y', V); at = c.fresh_fun('row_at', V, I); e = lnth(L, i); kp = c.const('path')
    return [ty(L) == T_LIST, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(L)), z3.And(ty(e) == T_DICT, has_row(J, S, dget(e, kp)), e == row_of(J, S, dget(e, kp)), at(dget(e, kp)) == i)), patterns=[e]),
            z3.ForAll([y], z3.Implies(has_row(J, S, y), z3.And(at(y) >= 0, at(y) < llen(L), lnth(L, at(y)) == row_of(J, S, y))), patterns=[has_row(J, S, y)])]

def unit_state(want):
    def unit(v):
        ip, c, w, me, bp = store(v)
        J = Inv(w, bp, w.db, want); T = Tree(ip); K = c.const
        S0 = J.begin(); AF = working(J, S0['fs']); c.bg.append(changes_rel(J, S0))
        f = ip.get(GS); c.func = f.qualname
        w.effect = lambda *a: J.ob('C04 C01', 'reading the state of the commit changes nothing', False)
        y, x = c.fresh('path'), c.fresh('x'); n = [0]; snap0 = w.snap()
        def thunk():
            sdb = ip.call(ip.get('bversion.storage.server_db.get_server_db_instance_for_thread'), [Box(bp)], {'path_override': me.attrs['path_override']})
            try: return ip.call(f, [sdb], {})
            except PyExc as e: return e
        def visit(r):
            if isinstance(r, PyExc): J.ob('C01 C04', 'reading the state of the commit does not fail', False); return
            n[0] += 1
            L, A1 = r; S = J.now(); A1 = ip.term(A1)
            J.ob('C04', 'the new listing is that of the head version with exactly the recorded changes', new_listing(J, S0, A1, y))
            J.ob('C04', 'the recorded changes stay', w.same(snap0))
            g = []
            for s in ip.iter_segs(L):
                if isinstance(s, PSeg): raise Unsupported('rows of the change list')
                ks = rename_(c, s.bvs); sub = list(zip(s.bvs, ks)); e = ip.term(s.value); e = z3.substitute(e, *sub); cond = z3.substitute(s.cond, *sub); q = dget(e, K('path'))
                J.ob('C04', 'every change listed is a recorded one', z3.Implies(cond, z3.And(has_row(J, S0, q), e == row_of(J, S0, q))))
                g.append((s, len(s.bvs)))
            J.ob('C04', 'every recorded change is listed', len(g) == 1 and g[0][1] == 1)
            s = g[0][0]
            e = lambda k: z3.substitute(ip.term(s.value), (s.bvs[0], k)); cond = lambda k: z3.substitute(s.cond, (s.bvs[0], k))
            k2 = c.fresh('k'); b = z3.Const('b', V)
            J.ob('C04', 'every recorded change is listed', z3.Implies(has_row(J, S0, y), cond(y)) if s.bvs[0].sort() == V else False)
            J.ob('C04', 'no change is listed twice', z3.Implies(z3.And(cond(k2), cond(y), dget(e(k2), K('path')) == dget(e(y), K('path'))), k2 == y))
        c.explore(thunk, visit)
        c.prove('reachable', n[0] > 0)
    return unit
def rename_(c, bvs): return [c.fresh('q', b.sort()) for b in bvs]

CM = STORE + '.commit'
def unit_commit(want):
    def unit(v):
        from .specs.c05 import W as W5
        ip, c, w, me, bp = store(v)
        T = Tree(ip); T.assume_lemmas(); J = Inv(w, bp, w.db, want); dirs_theory(w, T); K = c.const
        S0 = J.begin(); c.bg.append(J.head_part(S0)[2]); c.bg.append(z3.Not(J.finished(S0)))
        AF = working(J, S0['fs']); c.bg.append(changes_rel(J, S0)); fs0 = S0['fs']
        J.watch()
        by, msg = c.fresh('commit_by'), c.fresh('message'); c.bg += [ty(by) == T_STR, ty(msg) == T_STR]
        A1, L = c.fresh('new_files'), c.fresh('changes'); pv = z3.Const('pv', V)
        dt = Obj('dt', {'strftime': Native('strftime', lambda ip, a, k: strtime(c))})
        write_object_grow(J); write_tree_grow(J, T)
        w.root = None
        def state(ip, a, k, f):
            """get_commit_state by contract (unit get_commit_state)"""
            S = J.now()
            J.ob('C01 C04', 'the state is read while the recorded changes are as they were', z3.And(*[S[t] == S0[t] for t in ('active_commit_changes', 'active_commit_exists')]))
            c.assume([ty(A1) == T_DICT, *rows_list(ip, J, S, L)])
            for p in (dhas(A1, pv), dget(A1, pv)): c.assume(z3.ForAll([pv], new_listing(J, S, A1, pv), patterns=[p]))
            return (Box(L), Box(A1))
        ip.overrides[GS] = state
        def build(ip, a, k, f):
            """build_dir_tree by contract (C05)"""
            fm = w.named(ip.term(list(bind(f, a, k, ip).values())[-1])); q = c.fresh('q')
            c.prove('the tree is built from a listing of rooted paths', z3.Implies(dhas(fm, q), z3.And(ty(q) == T_STR, ty(dget(fm, q)) == T_DICT, rooted(c, q))))
            t = c.fresh('tree'); c.assume([ty(t) == T_DICT, twf1(t), twf0(t)]); l = z3.Const('l', V); kp = K('path'); e = K('')
            for has, val in ((thas0, tval0), (thas1, tval1)):
                ls = tl(spl(pv)); pl = jn(e, l)
                same = lambda x, y: z3.And(dset(x, kp, e) == dset(y, kp, e), dget(x, K('hash')) == dget(y, K('hash')))
                c.assume(z3.ForAll([pv], z3.Implies(dhas(fm, pv), z3.And(has(t, ls), un(e, pv) == ls)), patterns=[dhas(fm, pv)]))
                c.assume(z3.ForAll([l], z3.Implies(has(t, l), z3.And(dhas(fm, pl), un(e, pl) == l, same(val(t, l), dget(fm, pl)))), patterns=[has(t, l)]))
            return Box(t)
        ip.overrides[STORE + '.build_dir_tree'] = build
        old = ip.overrides[STORE + '.write_index_object']
        def obj(ip, a, k, f):
            r = old(ip, a, k, f)
            kind = list(bind(f, a, k, ip).values())[-2]
            h = ip.term(r); S = J.now(); z = z3.Const('z', V)
            if kind == 'commit':
                # a commit record is never one that exists already: its time stamp is new
                c.assume(z3.Not(J.bI(h))); c.assume(z3.Not(dhas(w.stored[1]['fs'], J.ipath(h))))
                J.H1 = h; c.log(lambda: setattr(J, 'H1', None), None)
            return r
        ip.overrides[STORE + '.write_index_object'] = obj
        f = ip.get(CM); c.func = f.qualname
        n = {'none': 0, 'some': 0}; y, j = c.fresh('path'), c.fresh('j', I); ev = [None]
        hv0 = J.headval(fs0); headc = z3.If(dhas(fs0, J.headp), dec(dget(fs0, J.headp)), K('root'))
        snap0 = w.snap()
        def thunk():
            try: return ip.call(f, [me, Box(msg), Box(by)], {})
            except PyExc as e: return e
        def visit(r):
            if isinstance(r, PyExc): J.ob('C01 C02 C04', 'committing does not fail', False); return
            S = J.now(); fs = S['fs']; h = ip.term(r)
            if J.H1 is None:
                n['none'] += 1
                J.ob('C04', 'only a commit without changes makes no version', z3.Not(has_row(J, S0, y)))
                J.ob('C04', 'committing nothing returns the head', h == headc)
                J.ob('C01 C02 C04', 'committing nothing leaves everything as it is', w.same(snap0)); return
            n['some'] += 1
            J.ob('C04', 'a version is made only when something changed', llen(L) > 0)
            J.end('after committing')
            J.ob('C04 C01', 'the head names the new version', z3.And(dhas(fs, J.headp), dget(fs, J.headp) == enc(h), h == J.H1))
            J.ob('C01 C04', 'no commit is open after committing', z3.Not(J.active(S)))
            o = objd(h)
            J.ob('C04 C02', 'the parent is the previous head', dget(o, K('parent')) == headc)
            J.ob('C04', 'the author is the given user', dget(o, K('commit_by')) == by)
            J.ob('C04', 'a given message is kept', z3.Implies(msg != K(''), dget(o, K('commit_message')) == msg))
            J.ob('C04', 'the change list has exactly the recorded changes', dget(o, K('changes')) == L)
            root = dget(o, K('tree_root')); e = K(''); u = un(e, y)
            c.assume(z3.And(lk1(root, u) == lk0(root, u), lkv1(root, u) == lkv0(root, u)))
            g, val = T.listed(lk1, lkv1, root, e, y)
            J.ob('C04', 'the new version lists exactly the files of the head version with the recorded changes', z3.And(g == dhas(A1, y)))
            J.ob('C04', 'every file of the new version has the recorded hash', z3.Implies(g, dget(val, K('hash')) == dget(dget(A1, y), K('hash'))))
        c.explore(thunk, visit)
        c.prove('reachable', n['none'] > 0 and n['some'] > 0)
    return unit
def strtime(c):
    t = c.fresh('timestamp'); c.assume(ty(t) == T_STR); return Box(t)

def triggers(t, k):
    """membership terms over k in a condition"""
    out, st = [], [t]
    while st:
        x = st.pop()
        if is_app_of(x, dhas) and any(v.eq(k) for v in vars_of(x)): out.append(x)
        elif z3.is_app(x): st += x.children()
    return out

def vars_of(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if z3.is_const(x): out.append(x)
        elif z3.is_app(x): st += x.children()
    return out

# ---------------------------------------------------------------- write_index_object
def unit_write_object(want):
    def unit(v):
        ip, c, w, me, bp = store(v)
        J = Inv(w, bp, w.db, want); S0 = J.begin(); J.watch()
        c.bg.append(J.head_part(S0)[2])
        f = ip.get(STORE + '.write_index_object'); c.func = f.qualname
        kind, t = c.fresh('kind'), c.fresh('contents')
        c.bg += [z3.Or(*[kind == k for k in J.types]), ty(t) == T_DICT, z3.Not(dhas(t, c.const('type')))]
        y, x = c.fresh('h'), c.fresh('x')
        n = [0]
        def thunk():
            try: return ip.call(f, [me, Box(kind), Box(t)], {})
            except PyExc as e: return e
        def visit(r):
            if isinstance(r, PyExc): J.ob('C01 C02 C03', 'storing an object does not fail', False); return
            n[0] += 1
            S = J.now(); h = ip.term(r); fs = S['fs']
            J.end('after storing an object')
            J.ob('C01 C02 C03', 'the object is in the store under its name', dhas(fs, J.ipath(h)))
            J.ob('C01 C02 C03', 'no other index object appears or disappears', z3.Implies(y != h, dhas(fs, J.ipath(y)) == dhas(S0['fs'], J.ipath(y))))
            J.ob('C01 C02 C03', 'no file object appears or disappears', dhas(fs, J.fpath(y)) == dhas(S0['fs'], J.fpath(y)))
            J.ob('C01 C02 C03', 'objects that exist stay as they are', z3.Implies(dhas(S0['fs'], J.ipath(y)), dhas(fs, J.ipath(y))))
            J.ob('C01 C02 C03', 'the head is not touched', z3.And(dhas(fs, J.headp) == dhas(S0['fs'], J.headp), dget(fs, J.headp) == dget(S0['fs'], J.headp)))
            J.ob('C01 C02 C03', 'at most this object is added to the log', z3.And(z3.Implies(dhas(S['gc_log'], x), z3.Or(dhas(S0['gc_log'], x), x == J.gck(kind, h))), z3.Implies(dhas(S0['gc_log'], x), dhas(S['gc_log'], x))))
            J.ob('C01 C02 C03', 'an object that was not in the store is logged', z3.Implies(z3.Not(dhas(S0['fs'], J.ipath(h))), dhas(S['gc_log'], J.gck(kind, h))))
            J.ob('C01 C02 C03 C04', 'the open commit and its changes are not touched', w.same(S0_snap, ['active_commit_changes', 'active_commit_exists'], fs=False))
        S0_snap = w.snap()
        c.explore(thunk, visit)
        c.prove('reachable', n[0] > 0)
    return unit

def unit_lemmas(v):
    """the facts about trees that the other units use, by induction"""
    ip = v.interp(); T = Tree(ip); T.c.func = 'lemmas'; T.lemmas()

def units(*names):
    """the units of the store, proving the obligations of one property"""
    U = {'begin': lambda W: unit_begin(W, False), 'resume': lambda W: unit_begin(W, True), 'write_index_object': unit_write_object, 'write_dir_tree': unit_write_tree, 'fs_put_from_file': unit_put,
         'fs_delete': unit_delete, 'get_commit_state': unit_state, 'commit': unit_commit, 'rollback': unit_rollback}
    want = {names[0]}
    return [('lemmas', unit_lemmas)] + both([(n, U[n](want)) for n in (names[1:] or ('commit', 'rollback', 'begin', 'resume', 'write_dir_tree', 'write_index_object', 'fs_put_from_file', 'fs_delete', 'get_commit_state'))])

"""C20: conflicts are resolved exactly as the user chose.

The real resolve_update_conflicts is executed symbolically, for any set of conflicts: with each choice, and with any resolution file.  What a
resolution file says is defined on its lines: separator lines begin blocks; the first line of a block names the path after its first colon,
the third line the side.  What update does with the lists is C19."""
import ast
import z3
from ..core import *
from ..values import *
from ..env_base import setm
from ..bytesx import pieces
from ..loops import for_inv, occurs
from .c19 import Server, client, RES

SEP = '------------'
split = F('split_all', V, V, V); split1 = F('split_first', V, V, V); strip = F('stripped', V, V); lower = F('lowered', V, V)
nsep = F('nsep', I, I); sepat = F('sepat', I, I); lists = F('lists_path', V, V, B); ofile = F('of_json', V, V)

class R:
    def __init__(self, v):
        ip = self.ip = v.interp(); c = self.c = ip.ctx; K = c.const
        self.mod = client(ip); self.f = ip.get(RES); c.func = RES
        self.sv = Server(ip)
        self.crf, self.root, self.tok, self.rep, self.ver = [c.fresh(x) for x in ('crf', 'comparison_root', 'token', 'repository', 'version')]
        c.bg += [ty(t) == T_STR for t in (self.crf, self.root, self.tok, self.rep, self.ver)] + [self.crf != self.root]
        self.mod['config'] = DictObj({'conflict_resolution_file': Box(self.crf), 'conflict_comparison_file_root': Box(self.root), 'repository': Box(self.rep)})
        no = lambda n: Native(n, lambda ip, a, k: c.prove('nothing is touched or recorded while conflicts are being resolved (%s)' % n, False))
        self.mod['data_store'] = Obj('data_store', {n: no(n) for n in ('fs_put', 'fs_delete', 'fs_move', 'jfs')})
        self.mod['cdb'] = Obj('client_db', {n: no(n) for n in ('update_system_meta', 'add_file_to_manifest', 'remove_file_from_manifest', 'commit')})
        self.mod['server_connection'] = Obj('connection', {n: no(n) for n in ('request', 'send_file')})
        ip.overrides['bversion.common.file_put_contents'] = lambda ip, a, k, f: c.prove('nothing is written while conflicts are being resolved', False)
        for m, n in (('os', 'remove'), ('os', 'unlink'), ('shutil', 'rmtree'), ('os', 'rename'), ('shutil', 'move')): setm(ip, m, n, no(n))
        self.x = c.fresh('x')
        ip.overrides['bversion.common.file_or_default'] = self.resolution_file
        self.text = None
    def resolution_file(self, ip, a, k, f):
        self.c.prove('the resolution file is read', ip.term(a[0]) == self.crf)
        return None if self.text is None else Box(self.text)
    def member(self, lst, what, D, extra, must=None):
        """the list holds the entries it held, and the ones given by `extra` (guard on a path)"""
        ip, c, K = self.ip, self.c, self.c.const; conf = self.sv.conf
        info = lambda z: dget(dget(conf, z), K('file_info'))
        alts = []
        for s in ip.iter_segs(lst):
            fams = [([], z3.BoolVal(True), ip.term(y)) for y in s.items] if isinstance(s, PSeg) else [(s.bvs, s.cond, ip.term(s.value))]
            for bvs, cond, val in fams:
                ks = [c.fresh('e', b.sort()) for b in bvs]; sub = list(zip(bvs, ks))
                if sub: cond, val = z3.substitute(cond, *sub), z3.substitute(val, *sub)
                p = dget(val, K('path'))
                c.prove('%s: nothing else' % what, z3.Implies(cond, z3.Or(z3.And(dhas(D, p), val == dget(D, p)), z3.And(extra(p), val == info(p)))))
                q = [z3.Const('q%d' % j, b.sort()) for j, b in enumerate(bvs)]
                if len(bvs) != 1 or bvs[0].sort() != V: raise Unsupported('shape of a list of changes')
                at = [(bvs[0], self.x)]
                alts.append(z3.And(z3.substitute(s.cond, *at), dget(z3.substitute(ip.term(s.value), *at), K('path')) == self.x))
        c.prove('%s: nothing is left out' % what, z3.Implies(z3.Or(dhas(D, self.x), (must or extra)(self.x)), z3.Or(*alts) if alts else z3.BoolVal(False)))
    def check(self, r, server, must=None):
        """r: the changes returned; server(p): the side chosen for the conflict p is the server"""
        ip, c = self.ip, self.c
        side = lambda s: (lambda p: z3.And(self.sv.server_side(s)(p), server(p)))
        sure = lambda s: (lambda p: z3.And(self.sv.server_side(s)(p), (must or server)(p)))
        self.member(ip.load_key(r, 'client_pull_files'), 'files to fetch', self.sv.m['client_pull_files'], side('Changed'), sure('Changed'))
        self.member(ip.load_key(r, 'to_delete_on_client'), 'files to remove', self.sv.m['to_delete_on_client'], side('Deleted'), sure('Deleted'))
        none = lambda p: z3.BoolVal(False)
        for n in ('to_delete_on_server', 'client_push_files'): self.member(ip.load_key(r, n), 'the rest', self.sv.m[n], none)
        left = ip.load_key(r, 'conflict_files')
        c.prove('no conflict is left', z3.Not(ip.truth(left)) if z3.is_expr(ip.truth(left)) else not ip.truth(left))
    def run(self):
        ip = self.ip
        try: return ip.call(self.f, [Box(self.tok), self.sv.changes(), Box(self.ver), False, DictObj({'resolve_to_override': '', 'kill_mid_update': 0})], {})
        except PyExc as e: return e

def unit_choice(v, which):
    t = R(v); ip, c, K = t.ip, t.c, t.c.const
    a0 = c.fresh('a_conflict'); c.bg.append(dhas(t.sv.conf, a0))
    def ask(ip, a, k, f):
        vc = k.get('valid_choices', a[1] if len(a) > 1 else None)
        vals = [x for x in ip.iter_segs(vc)[0].items]
        if set(vals) == {'server', 'client', 'manual'}: return which
        c.prove('only known questions are asked', set(vals) == {'y', 'n'})
        return 'y' if c.choose('yes') else 'n'
    ip.overrides['bversion.common.question_user'] = ask
    Wr = Obj('ghost', {'text': None, 'asked': 0})
    if which == 'manual':
        def join(ip, a, k, fn):
            j = c.fresh('joined'); c.assume(ty(j) == T_STR); below = ip.term(a[0])
            c.prove('versions for comparison are written below the directory for them', below == t.root)
            return Box(j)
        ip.overrides['bversion.common.cpjoin'] = join
        def request(ip, a, k):
            url, hd = a[0], a[1]
            c.prove('only server versions are asked for', url == 'pull_file')
            c.prove('the server versions are those of the new version', z3.And(ip.term(ip.load_key(hd, 'version_id')) == t.ver, ip.term(ip.load_key(hd, 'use_head')) == K('0')))
            if c.choose('connection fails'): py_raise(OSError, 5, 'connection', errno=5)
            if c.choose('refused'): return (Native('writer', lambda ip, a, k: None), DictObj({'status': 'fail', 'msg': ''}))
            return (Native('writer', lambda ip, a, k: None), DictObj({'status': 'ok'}))
        t.mod['server_connection'] = Obj('connection', {'request': Native('request', request)})
        ip.overrides['bversion.common.make_dirs_if_dont_exist'] = lambda ip, a, k, f: None
        def put(ip, a, k, f):
            c.prove('only the resolution file is written', ip.term(a[0]) == t.crf)
            tx = ip.term(a[1]); raw = tx.arg(0) if z3.is_app(tx) and tx.decl().name() == 'enc' or z3.is_app(tx) and tx.num_args() == 1 else tx
            c.prove('the resolution file lists every conflict', z3.Implies(dhas(t.sv.conf, t.x), lists(raw, t.x)))
            ip.setattr_(Wr, 'text', Box(raw))
        ip.overrides['bversion.common.file_put_contents'] = put
        z = z3.Const('z', V)
        def facts(tx):
            """which paths a text lists: those of its pieces, and one for every piece `path` on a line of its own that begins `Path:`"""
            ps = pieces(tx); q = z3.Const('q', V)
            for j, y in enumerate(ps):
                if z3.is_const(y): c.assume(z3.ForAll([q], z3.Implies(lists(y, q), lists(tx, q)), patterns=[lists(y, q)]))
                txt = lambda i: text_of(c, ps[i]) if 0 <= i < len(ps) else None
                a, b = txt(j - 1), txt(j + 1)
                if a is not None and a.split('\n')[-1].strip() == 'Path:' and b is not None and b.startswith('\n'): c.assume(lists(tx, y))
        def loop(ip, seg, body, env, node):
            if not any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(env.vars.get(n.target.id), (str, Box)) for n in ast.walk(node)): return NotImplemented
            name = next(n.target.id for n in ast.walk(node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(env.vars.get(n.target.id), (str, Box)))
            def inv(done):
                tx = ip.term(env.vars[name]); c.assume(ty(tx) == T_STR); facts(tx)
                return [('conflicts seen are listed', z3.ForAll([z], z3.Implies(done(z), lists(tx, z)), patterns=[dhas(t.sv.conf, z)]))]
            for_inv(ip, seg, body, env, inv, 'writing the resolution file')
        ip.for_hooks = [loop]
    n = dict(ok=0, stop=0)
    def thunk(): Wr.attrs['text'] = None; return t.run()
    def visit(r):
        if isinstance(r, PyExc):
            n['stop'] += 1
            if which != 'manual': c.prove('choosing a side does not fail', False)
            elif r.exc.cls is SystemExit: c.prove('the update stops with a resolution file', Wr.attrs['text'] is not None)
            return
        n['ok'] += 1
        if which == 'manual': c.prove('the manual choice stops the update', False); return
        t.check(r, (lambda p: z3.BoolVal(which == 'server')))
    c.explore(thunk, visit)
    c.prove('reachable', n['stop'] > 0 if which == 'manual' else n['ok'] > 0)

def text_of(c, t):
    n = t.decl().name() if z3.is_const(t) else ''
    return n[3:] if n.startswith('c!s') else None


def unit_file(v):
    t = R(v); ip, c, K = t.ip, t.c, t.c.const
    t.text = c.fresh('resolutions'); lines = c.fresh('lines'); i, j, k = z3.Ints('i j k'); z, z2 = z3.Consts('z z2', V)
    n = llen(lines); ln = lambda i: lnth(lines, i)
    c.bg += [ty(t.text) == T_BYTES, ty(lines) == T_LIST, n >= 1]
    fa = lambda vs, body, *pats: c.bg.append(z3.ForAll(vs, body, patterns=list(pats)))
    fa([i], z3.Implies(z3.And(i >= 0, i < n), ty(ln(i)) == T_STR), ln(i))
    # separators: how many before line i, and where
    start = lambda j: z3.If(j == 0, 0, sepat(j - 1) + 1)
    c.bg.append(nsep(0) == 0)
    fa([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(nsep(i) >= 0, nsep(i + 1) == z3.If(ln(i) == K(SEP), nsep(i) + 1, nsep(i)), z3.Implies(ln(i) == K(SEP), sepat(nsep(i)) == i))), ln(i))
    ns = nsep(n)
    # blocks: number j (from 1) is what stands between separator j-1 and separator j, or the end (when something stands there)
    tail = n - start(ns)
    nb = z3.If(tail > 0, ns, ns - 1)
    size = lambda j: z3.If(j < ns, sepat(j) - start(j), tail)
    first = lambda j: ln(start(j)); third = lambda j: ln(start(j) + 2)
    P = lambda j: strip(lnth(split1(first(j), K(':')), 1)); S = lambda j: lower(strip(lnth(split(third(j), K(':')), 1)))
    block = F('block', I, B)
    c.bg.append(z3.ForAll([j], block(j) == z3.And(j >= 1, j <= nb), patterns=[block(j)]))
    side = {w: (F('named_%s' % w, V, B), F('block_%s' % w, V, I)) for w in ('server', 'client')}      # some block names the path with this side
    for w, (nm, wi) in side.items():
        fa([j], z3.Implies(z3.And(block(j), S(j) == K(w)), nm(P(j))), block(j))
        fa([z], z3.Implies(nm(z), z3.And(block(wi(z)), P(wi(z)) == z, S(wi(z)) == K(w))), nm(z))
    for g in (split, split1): fa([z, z2], z3.And(ty(g(z, z2)) == T_LIST, llen(g(z, z2)) >= 1), g(z, z2)); fa([z, z2, i], ty(lnth(g(z, z2), i)) == T_STR, lnth(g(z, z2), i))
    fa([z], ty(strip(z)) == T_STR, strip(z)); fa([z], ty(lower(z)) == T_STR, lower(z))
    def sp(v, a):
        if not isinstance(v, Box): return None
        if a == ['\n'] and occurs(t.text, v.term()): return Box(lines)
        if a == [':']: return Box(split(v.term(), K(':')))
        if a == [':', 1]: return Box(split1(v.term(), K(':')))
        return None
    ip.split_hook = sp
    def meth(name, o, a, k):
        if name == 'strip' and not a: return Box(strip(o.term()))
        if name == 'lower' and not a: return Box(lower(o.term()))
        return None
    ip.str_hook = meth
    contains = F('contains', V, V, B)
    ip.box_contains_hook = lambda item, coll: contains(K(item), coll.term()) if isinstance(item, str) else None
    def slice_list(v, s):
        """xs[1:] of a list whose beginning is not concrete"""
        if not (s.hi is None and s.step is None and s.lo == 1 and v.segs and isinstance(v.segs[0], DSeg)): return None
        tt = ip.term(v); m = c.fresh('rest'); ii = z3.Int('ii')
        c.assume([ty(m) == T_LIST, llen(m) == z3.If(llen(tt) > 0, llen(tt) - 1, 0), z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < llen(m)), lnth(m, ii) == lnth(tt, ii + 1)), patterns=[lnth(m, ii)])])
        st['rest'] = m
        return Box(m)
    st = {}
    seen = F('seen', V, B)
    ip.slice_list_hook = slice_list
    def loop(ip, seg, body, env, node):
        if not (isinstance(seg.value, z3.ExprRef) and seg.value.num_args() == 2 and seg.value.arg(0).eq(lines)): return NotImplemented
        assigned = {m.id for q in ast.walk(node) if isinstance(q, ast.Assign) for m in q.targets if isinstance(m, ast.Name)}
        names = [m.id for q in ast.walk(node) if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr == 'append' for m in [q.func.value] if isinstance(m, ast.Name)]
        inner = [m for m in dict.fromkeys(names) if m in assigned]; outer = [m for m in dict.fromkeys(names) if m not in assigned]
        if len(inner) != 1 or len(outer) != 1: raise Unsupported('the loop that cuts the resolution file into blocks')
        def inv(done):
            i = done.count; T, U = ip.term(env.vars[outer[0]]), ip.term(env.vars[inner[0]])
            jj, kk = z3.Ints('jj kk'); b = lnth(T, jj); m = nsep(i)
            c.assume(ln(i) == ln(i))
            return [('as many blocks as separators', z3.And(llen(T) == m, m >= 0)),
                ('the block that is open', z3.And(start(m) >= 0, start(m) <= i, ty(U) == T_LIST, llen(U) == i - start(m))),
                ('its lines', z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < llen(U)), lnth(U, kk) == ln(start(m) + kk)), patterns=[lnth(U, kk)])),
                ('blocks that are closed', z3.ForAll([jj], z3.Implies(z3.And(jj >= 0, jj < m), z3.And(ty(b) == T_LIST, start(jj) >= 0, start(jj) <= sepat(jj), sepat(jj) < i, llen(b) == sepat(jj) - start(jj))), patterns=[lnth(T, jj)])),
                ('their lines', z3.ForAll([jj, kk], z3.Implies(z3.And(jj >= 0, jj < m, kk >= 0, kk < llen(b)), lnth(b, kk) == ln(start(jj) + kk)), patterns=[lnth(b, kk)]))]
        for_inv(ip, seg, body, env, inv, 'cutting the file into blocks')
    ip.for_hooks = [loop]
    cnt = dict(ok=0, stop=0)
    jx = c.fresh('j', I)
    def visit(r):
        if isinstance(r, PyExc): cnt['stop'] += 1; return
        cnt['ok'] += 1
        conf = lambda p: dhas(t.sv.conf, p)
        c.assume(block(jx) == block(jx)); c.assume(seen(lnth(st['rest'], jx - 1))); c.assume(seen(lnth(split1(first(jx), K(':')), 1)))
        c.prove('only the server and the client can be named', z3.Implies(block(jx), z3.Or(S(jx) == K('server'), S(jx) == K('client'))))
        c.prove('the paths named are conflicts', z3.Implies(block(jx), conf(P(jx))))
        sv_, cl = side['server'][0], side['client'][0]
        c.assume(z3.ForAll([i], block(i + 1) == z3.And(i + 1 >= 1, i + 1 <= nb), patterns=[lnth(st['rest'], i)]))     # the definition of block
        c.assume(seen(lnth(split1(first(jx), K(':')), 1)))
        c.prove('every conflict is named', z3.Implies(conf(t.x), z3.Or(sv_(t.x), cl(t.x))))
        t.check(r, sv_, lambda p: z3.And(sv_(p), z3.Not(cl(p))))
    c.explore(lambda: t.run(), visit)
    c.prove('reachable', cnt['ok'] > 0 and cnt['stop'] > 0)

UNITS = [('choosing ' + w, lambda v, w=w: unit_choice(v, w)) for w in ('server', 'client', 'manual')] + [('resolution file', unit_file)]

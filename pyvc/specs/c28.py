"""C28: joining paths.

  A            the fragments (a list of texts of any length);  a component of it is a non-empty piece between slashes of one fragment
  J            '/'.join of the components, in order (by fragment, then by position)"""
import z3
from ..env_base import *
from ..core import *
from ..values import *
from ..interp import StarV
from ..tree import spl, sfn
from ..loops import dense, occurs
from .. import builtins_ as bi

SW, EW = F('s_startswith', V, V, B), F('s_endswith', V, V, B)

class Joins:
    """texts made by '/'.join of a family, and pieces of them"""
    def __init__(self, ip, A):
        self.ip, self.c, self.A = ip, ip.ctx, A
        c = self.c; K = c.const; sl, em = K('/'), K('')
        i, j = z3.Int('fi'), z3.Int('fj')
        e = lnth(spl(lnth(A, i)), j)
        self.ref = DSeg([i, j], z3.And(i >= 0, i < llen(A), j >= 0, j < llen(spl(lnth(A, i))), e != em), e, True)
        self.J = c.fresh('joined'); self.fams = {}
        x, y, s = z3.Consts('x y s', V); k = z3.Int('k')
        fa = lambda vs, b, p: c.bg.append(z3.ForAll(vs, b, patterns=[p]))
        fa([s], z3.And(ty(spl(s)) == T_LIST, llen(spl(s)) >= 1), spl(s))
        fa([s, k], z3.Implies(z3.And(k >= 0, k < llen(spl(s))), z3.And(ty(lnth(spl(s), k)) == T_STR, sfn(lnth(spl(s), k)))), lnth(spl(s), k))
        fa([k], z3.Implies(z3.And(k >= 0, k < llen(A)), ty(lnth(A, k)) == T_STR), lnth(A, k))
        fa([x], z3.Implies(ty(x) == T_STR, z3.And(slen(x) >= 0, (slen(x) == 0) == (x == em))), slen(x))
        fa([x], z3.Implies(SW(x, sl), slen(x) >= 1), SW(x, sl)); fa([x], z3.Implies(EW(x, sl), slen(x) >= 1), EW(x, sl))
        t = cat(x, y)
        fa([x, y], z3.And(slen(t) == slen(x) + slen(y), z3.Implies(z3.And(ty(x) == T_STR, ty(y) == T_STR), ty(t) == T_STR), z3.Implies(slen(x) >= 1, SW(t, sl) == SW(x, sl)), z3.Implies(slen(y) >= 1, EW(t, sl) == EW(y, sl))), t)
        fa([x], z3.And(cat(em, x) == x, cat(x, em) == x), cat(em, x)); fa([x], cat(x, em) == x, cat(x, em))
        c.bg += [slen(sl) == 1, slen(em) == 0, SW(sl, sl), EW(sl, sl), z3.Not(sfn(sl)), ty(self.J) == T_STR]
        # a joined text of components: not empty (there is a component), no slash at the ends
        c.bg += [slen(self.J) >= 1, self.J != sl, z3.Not(SW(self.J, sl)), z3.Not(EW(self.J, sl))]
        ip.trusted.add('paths')
        ip.join_hook = self.join
        ip.split_hook = self.split
        old = getattr(ip, 'slice_str_hook', None)
        def cut(v, s_):
            if isinstance(v, Box) and s_.step is None and c.entails(ty(v.peek()) == T_STR):
                for lo, hi, f in ((None, 1, SW), (0, 1, SW), (-1, None, EW)):
                    if s_.lo == lo and s_.hi == hi: return self.end(v.term(), f)
            return old(v, s_) if old else None
        ip.slice_str_hook = cut
        oldx = getattr(ip, 'box_index_hook', None)
        def index(coll, key):
            if isinstance(key, int) and key in (0, -1) and c.entails(ty(coll.peek()) == T_STR):
                t = coll.peek()
                if not c.decide(slen(t) >= 1): py_raise(IndexError, 'string index out of range')
                return self.end(t, SW if key == 0 else EW)
            return oldx(coll, key) if oldx else None
        ip.box_index_hook = index
    def end(self, t, f):
        """first or last character"""
        c = self.c; g = F('char_' + f.name(), V, V)(t); K = c.const
        c.assume(z3.And(ty(g) == T_STR, (g == K('/')) == f(t, K('/')), (g == K('')) == (slen(t) == 0)))
        return Box(g)
    def split(self, v, a):
        if len(a) != 1 or a[0] != '/' or not isinstance(v, Box): return None
        t = v.term()
        for i, f in self.fams.items():
            if t.eq(f[0]): return self.pieces(f[1], f[2])
        return Box(spl(t))
    def pieces(self, segs, t):
        """pieces of a text joined from texts: the pieces of each, in order"""
        if len(segs) != 1 or not isinstance(segs[0], DSeg) or not segs[0].ordered: return Box(spl(t))
        d = segs[0]; j = self.c.fresh('pj', I); x = self.ip.term(d.value)
        return ListObj([DSeg(list(d.bvs) + [j], z3.And(d.cond, j >= 0, j < llen(spl(x))), Box(lnth(spl(x), j)), True)])
    def join(self, sep, it):
        ip, c = self.ip, self.c
        segs = ip.iter_segs(it)
        if sep != '/': return None
        if self.is_ref(segs): return Box(self.J)
        t = c.fresh('join'); c.assume(ty(t) == T_STR)
        self.fams[id(t)] = (t, segs, t); c.log(lambda: self.fams.pop(id(t), None), None)
        return Box(t)
    def unstrip(self, t):
        """stripping slashes does not change the components"""
        c = self.c; sl = c.const('/'); x = z3.Const('x', V)
        for n in ('strip', 'lstrip', 'rstrip'):
            f = F('s_%s_1' % n, V, V, V); st = [t]; seen = []
            while st:
                y = st.pop()
                if z3.is_app(y) and y.decl().eq(f) and y.arg(1).eq(sl): seen.append(y)
                st += y.children()
            for y in seen: t = z3.substitute(t, (y, y.arg(0)))
        return t
    def is_ref(self, segs):
        c = self.c
        segs = [s for s in segs if not (isinstance(s, PSeg) and not s.items)]
        if len(segs) != 1 or not isinstance(segs[0], DSeg): return False
        d, r = segs[0], self.ref
        if not d.ordered or len(d.bvs) != 2 or [b.sort() for b in d.bvs] != [I, I]: return False
        i, j = c.fresh('i', I), c.fresh('j', I); sub = list(zip(d.bvs, (i, j)))
        cond, val = z3.substitute(d.cond, *sub), self.ip.term(subst_val(d.value, sub))
        if not c.entails(z3.Implies(cond, val != c.const(''))): return False
        cond, val = self.unstrip(cond), self.unstrip(val)
        rc, rv = r.inst([i, j])
        return c.entails(cond == rc) and c.entails(z3.Implies(rc, val == rv))

def unit(v):
    ip = v.interp(); c = ip.ctx
    f = ip.get('bversion.common.cpjoin'); c.func = f.qualname
    K = c.const
    A = c.fresh('fragments'); c.bg += [ty(A) == T_LIST, llen(A) >= 0]
    J = Joins(ip, A)
    i0, j0 = c.fresh('i0', I), c.fresh('j0', I)
    c.bg.append(J.ref.inst([i0, j0])[0])
    first, last = lnth(A, z3.IntVal(0)), lnth(A, llen(A) - 1)
    sl = K('/'); n = [0]
    def thunk():
        try: r = ip.call(f, [StarV(Box(A))], {})
        except PyExc as e: return e, None, None
        return r, c.decide(SW(first, sl)), c.decide(EW(last, sl))
    def visit(x):
        r, rooted, ended = x
        if isinstance(r, PyExc): c.prove('joining never fails', False); return
        n[0] += 1
        t = J.J
        if ended: t = cat(t, sl)
        if rooted: t = cat(sl, t)
        c.prove('rooted exactly when the first fragment is, ended by a slash exactly when the last one is, the components between single slashes in order', ip.term(r) == t)
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

def unit_nested(v):
    """joining joined paths: over the contract above, for every grouping of the fragments into blocks that have a component"""
    ip = v.interp(); c = ip.ctx; c.func = 'lemma over the contract of bversion.common.cpjoin'
    ip.trusted.add('paths')
    comps, all_, app, rooted, ended, mk = F('comps', V, V), F('all_comps', V, V), F('append', V, V, V), F('rooted', V, B), F('ended', V, B), F('text', B, V, B, V)
    cons_, tl_, nil = F('lcons', V, V, V), F('ltail', V, V), c.fresh('nil')
    cat_, last, cp, join, conc = F('lappend', V, V, V), F('llast', V, V), F('cpjoin', V, V), F('join_each', V, V), F('concat_blocks', V, V)
    x, y, z, a, b, bs = z3.Consts('x y z a b bs', V); r, e = z3.Bools('r e')
    fa = lambda vs, f, *p: c.bg.append(z3.ForAll(vs, f, patterns=list(p)))
    lone = lambda l: l != nil       # there is a component
    c.bg.append(z3.ForAll([x, y], (app(x, y) == nil) == z3.And(x == nil, y == nil), patterns=[app(x, y)]))
    # lists (of components, fragments, blocks), by recursion on the first
    fa([x, a], z3.And(cons_(x, a) != nil), cons_(x, a))
    fa([y], z3.And(app(nil, y) == y, app(y, nil) == y), app(nil, y))
    fa([x], app(x, nil) == x, app(x, nil))
    fa([x, y, z], app(app(x, y), z) == app(x, app(y, z)), app(app(x, y), z))
    c.bg += [all_(nil) == nil, conc(nil) == nil, join(nil) == nil]
    fa([b], cat_(nil, b) == b, cat_(nil, b))
    fa([x, a, b], cat_(cons_(x, a), b) == cons_(x, cat_(a, b)), cat_(cons_(x, a), b))
    fa([x, a], all_(cons_(x, a)) == app(comps(x), all_(a)), all_(cons_(x, a)))
    fa([x, a], last(cons_(x, a)) == z3.If(a == nil, x, last(a)), last(cons_(x, a)))
    fa([b, bs], conc(cons_(b, bs)) == cat_(b, conc(bs)), conc(cons_(b, bs)))
    fa([b, bs], join(cons_(b, bs)) == cons_(cp(b), join(bs)), join(cons_(b, bs)))
    hd_ = F('lhead', V, V)
    fa([x, a], hd_(cons_(x, a)) == x, hd_(cons_(x, a)))
    # the contract of cpjoin (unit cpjoin), and what splitting the text so made gives (texts)
    fa([a], z3.Implies(lone(all_(a)), z3.And(cp(a) == mk(rooted(hd_(a)), all_(a), ended(last(a))), comps(cp(a)) == all_(a), rooted(cp(a)) == rooted(hd_(a)), ended(cp(a)) == ended(last(a)))), cp(a))
    # lemma 1: components of appended lists
    l1 = lambda a: all_(cat_(a, b)) == app(all_(a), all_(b))
    c.prove('components of appended fragment lists, base', l1(nil))
    a0, x0 = c.fresh('a'), c.fresh('x'); b = c.fresh('b')
    c.prove('components of appended fragment lists, step', z3.Implies(l1(a0), l1(cons_(x0, a0))))
    b = z3.Const('b', V); fa([a, b], l1(a), all_(cat_(a, b)))
    # lemma 2: last and first of appended lists
    l2 = lambda a, b: z3.Implies(b != nil, z3.And(cat_(a, b) != nil, last(cat_(a, b)) == last(b)))
    b0 = c.fresh('b')
    c.prove('last of appended lists, base', l2(nil, b0))
    c.prove('last of appended lists, step', z3.Implies(l2(a0, b0), l2(cons_(x0, a0), b0)))
    fa([a, b], l2(a, b), cat_(a, b))
    # blocks that all have a component
    good = F('good_blocks', V, B)
    c.bg.append(good(nil)); fa([b, bs], good(cons_(b, bs)) == z3.And(lone(all_(b)), b != nil, good(bs)), good(cons_(b, bs)))
    # lemma 3
    l3 = lambda bs: z3.Implies(good(bs), z3.And(all_(join(bs)) == all_(conc(bs)), z3.Implies(bs != nil, z3.And(conc(bs) != nil, join(bs) != nil, ended(last(join(bs))) == ended(last(conc(bs)))))))
    s0 = c.fresh('blocks'); f0 = c.fresh('first'); w, q = c.fresh('w'), c.fresh('q')
    c.prove('joining blocks, base', l3(nil))
    # the first block starts with some fragment w
    c.prove('joining blocks, step', z3.Implies(z3.And(l3(s0), z3.Or(s0 == nil, s0 == cons_(hd_(s0), tl_(s0))), cat_(b0, nil) == b0), l3(cons_(b0, s0))))
    fa([bs], l3(bs), join(bs))
    bs0 = cons_(cons_(w, q), s0)
    c.prove('joining joined paths is joining all fragments', z3.Implies(good(bs0), cp(join(bs0)) == cp(conc(bs0))))

UNITS = [('cpjoin', unit), ('joining joined paths', unit_nested)]

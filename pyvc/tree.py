"""Component lists, path texts and directory trees: the vocabulary of C05, C06 and the store properties.

  l            list of path components (cons cells);  jn(lead, l) = lead + '/' + c1 + '/' + c2 ...;  un(lead, x) undoes jn
  sfn(n)       the text n has no '/'
  thas(t, l)   the tree t (as read_dir_tree / build_dir_tree return it) lists a file at the components l, tval(t, l) its details
  lk(h, l)     the tree object stored under h leads to a file at l by following stored directory objects, lkv(h, l) its details
thas and lk are defined by recursion on l; level 1 unfolds into level 0 (both are the same function)."""
import z3
from .core import *
from .values import *
from .env_base import trust
from .store import objd

cons = F('cons', V, V, V); tl = F('tl', V, V); sfn = F('sfn', V, B); sf = F('sf', V, B)
jn = F('jn', V, V, V); un = F('un', V, V, V); spl = F('spl', V, V)
thas1 = F('thas', V, V, B); thas0 = F('thas0', V, V, B); tval1 = F('tval', V, V, V); tval0 = F('tval0', V, V, V)
lk1 = F('lk', V, V, B); lk0 = F('lk0', V, V, B); lkv1 = F('lkv', V, V, V); lkv0 = F('lkv0', V, V, V)
lastc1 = F('lastc', V, V); lastc0 = F('lastc0', V, V)
twf1 = F('twf', V, B); twf0 = F('twf0', V, B)
trust('paths', "texts: str.split('/') gives the slash-free pieces between the slashes, joining slash-free components with '/' is injective and undone by splitting; lists are determined by their elements")

def hd(l): return lnth(l, z3.IntVal(0))

class Tree:
    def __init__(self, ip):
        self.ip = ip; c = self.c = ip.ctx
        ip.trusted.add('paths')
        s, d, n, l, t, h, x, lead = z3.Consts('s d n l t h x lead', V); i = z3.Int('i')
        K = c.const
        nil = self.nil = c._const('[]', T_LIST)
        fa = lambda vs, body, *pats: c.bg.append(z3.ForAll(vs, body, patterns=list(pats)))
        cn = cons(n, l)
        fa([n, l], z3.Implies(ty(l) == T_LIST, z3.And(hd(cn) == n, tl(cn) == l, llen(cn) == llen(l) + 1, ty(cn) == T_LIST, sf(cn) == z3.And(sfn(n), sf(l)))), cn)
        fa([l], z3.Implies(z3.And(ty(l) == T_LIST, llen(l) > 0), z3.And(l == cons(hd(l), tl(l)), ty(tl(l)) == T_LIST, llen(tl(l)) == llen(l) - 1)), tl(l))
        fa([l, i], z3.Implies(z3.And(i >= 0, i + 1 < llen(l)), lnth(tl(l), i) == lnth(l, i + 1)), lnth(tl(l), i))
        c.bg += [llen(nil) == 0, sf(nil)]
        fa([l], z3.Implies(z3.And(ty(l) == T_LIST, llen(l) == 0), l == nil), llen(l))
        sl = K('/'); em = K('')
        c.bg.append(z3.Not(sfn(sl)))
        # joining
        one = cat(lead, cat(sl, n))
        fa([lead, n], one == jn(lead, cons(n, nil)), one)
        fa([n], cat(sl, n) == jn(em, cons(n, nil)), cat(sl, n))
        for two, first in ((un(one, x), lead), (un(cat(sl, n), x), em)):
            vs = [lead, n, x] if first is lead else [n, x]
            l2 = one if first is lead else cat(sl, n)
            cv = cons(n, two)
            fa(vs, z3.Implies(llen(two) > 0, z3.And(jn(l2, two) == jn(first, cv), z3.Implies(sf(cv), un(first, jn(first, cv)) == cv))), two)
        fa([lead, n], z3.Implies(sfn(n), un(lead, jn(lead, cons(n, nil))) == cons(n, nil)), jn(lead, cons(n, nil)))
        fa([lead, l], z3.Implies(z3.And(sf(l), llen(l) > 0), un(lead, jn(lead, l)) == l), jn(lead, l))
        fa([lead, l], ty(jn(lead, l)) == T_STR, jn(lead, l))
        u = un(lead, x)
        l2 = cat(lead, cat(sl, hd(u)))
        fa([lead, x], z3.And(ty(u) == T_LIST, z3.Implies(llen(u) > 0, u == cons(hd(u), tl(u))),
            z3.Implies(llen(u) > 1, z3.And(jn(lead, u) == jn(l2, tl(u)), z3.Implies(sf(tl(u)), un(l2, jn(l2, tl(u))) == tl(u))))), u)
        u = un(em, x); l2 = cat(sl, hd(u))
        fa([x], z3.Implies(llen(u) > 1, z3.And(jn(em, u) == jn(l2, tl(u)), z3.Implies(sf(tl(u)), un(l2, jn(l2, tl(u))) == tl(u)))), u)
        # splitting
        p = spl(s)
        fa([s], z3.And(ty(p) == T_LIST, llen(p) >= 1, sf(p), p == cons(hd(p), tl(p)),
            z3.Implies(z3.And(hd(p) == em, llen(p) > 1), z3.And(jn(em, tl(p)) == s, un(em, s) == tl(p))),
            z3.Implies(z3.And(hd(p) == em, llen(p) == 1), s == em),
            z3.Implies(hd(p) != em, z3.And(jn(em, p) == cat(sl, s), un(em, cat(sl, s)) == p))), p)
        fa([s, i], z3.Implies(z3.And(i >= 0, i < llen(p)), z3.And(ty(lnth(p, i)) == T_STR, sfn(lnth(p, i)))), lnth(p, i))
        fa([l], z3.And(lastc1(l) == lastc0(l), z3.Implies(llen(l) == 1, lastc1(l) == hd(l)), z3.Implies(llen(l) > 1, lastc1(l) == lastc0(tl(l)))), lastc1(l))
        k, v1, v2 = z3.Consts('k v1 v2', V)
        fa([d, k, v1, v2], dset(dset(d, k, v1), k, v2) == dset(d, k, v2), dset(dset(d, k, v1), k, v2))     # equal maps are equal
        # trees in memory
        kf, kd = K('files'), K('dirs')
        f_, d_ = dget(t, kf), dget(t, kd)
        fa([t, l], z3.And(thas1(t, l) == self.unfold(f_, d_, l, thas0), thas1(t, l) == thas0(t, l)), thas1(t, l))
        fa([t, l], z3.And(tval1(t, l) == self.unfoldv(f_, d_, l, tval0), tval1(t, l) == tval0(t, l)), tval1(t, l))
        self.lem_t = z3.ForAll([t, l], z3.Implies(thas0(t, l), z3.And(llen(l) >= 1, sf(l))), patterns=[thas0(t, l)])
        # trees in the store
        o = objd(h); f_, d_ = dget(o, kf), dget(o, kd)
        fa([h, l], z3.And(lk1(h, l) == self.unfold(f_, d_, l, lk0), lk1(h, l) == lk0(h, l)), lk1(h, l))
        fa([h, l], z3.And(lkv1(h, l) == self.unfoldv(f_, d_, l, lkv0), lkv1(h, l) == lkv0(h, l)), lkv1(h, l))
        self.lem_l = z3.ForAll([h, l], z3.Implies(lk0(h, l), z3.And(llen(l) >= 1, sf(l))), patterns=[lk0(h, l)])
        # well-formed trees
        f_, d_ = dget(t, kf), dget(t, kd)
        fa([t], twf1(t) == twf0(t), twf1(t))
        fa([t], z3.Implies(twf1(t), self.wf(t)), twf1(t))
        old = getattr(ip, 'split_hook', None)
        def split(v, a):
            if len(a) == 1 and a[0] == '/' and isinstance(v, Box): return Box(spl(ip.term(v)))
            return old(v, a) if old else None
        ip.split_hook = split
        olds = getattr(ip, 'slice_str_hook', None)
        def sl_(v, s):
            if isinstance(v, Box) and s.lo == 1 and s.hi is None and s.step is None and c.entails(ty(v.peek()) == T_LIST):
                t = v.term()
                if not c.decide(llen(t) > 0): return ListObj()
                return Box(tl(t))
            return olds(v, s) if olds else None
        ip.slice_str_hook = sl_

    def wf(self, t, sub=None):
        """one level: what a well-formed tree is, given the same of its subtrees"""
        sub = sub or twf0
        K = self.c.const; x = z3.Const('x', V)
        f_, d_ = dget(t, K('files')), dget(t, K('dirs'))
        return z3.And(ty(t) == T_DICT, dhas(t, K('files')), dhas(t, K('dirs')), ty(f_) == T_DICT, ty(d_) == T_DICT,
            z3.ForAll([x], z3.Implies(dhas(f_, x), z3.And(ty(x) == T_STR, sfn(x), ty(dget(f_, x)) == T_DICT)), patterns=[dhas(f_, x)]),
            z3.ForAll([x], z3.Implies(dhas(d_, x), z3.And(ty(x) == T_STR, sfn(x), sub(dget(d_, x)))), patterns=[dhas(d_, x)]))
    def unfold(self, f_, d_, l, rec):
        return z3.And(sfn(hd(l)), z3.Or(z3.And(llen(l) == 1, l == cons(hd(l), self.nil), dhas(f_, hd(l))), z3.And(llen(l) > 1, l == cons(hd(l), tl(l)), dhas(d_, hd(l)), rec(dget(d_, hd(l)), tl(l)))))
    def unfoldv(self, f_, d_, l, rec):
        return z3.If(llen(l) == 1, dget(f_, hd(l)), rec(dget(d_, hd(l)), tl(l)))

    def lemmas(self):
        """listed component lists are non-empty and slash-free: induction on the length, the step is an obligation"""
        c = self.c
        for has1, has0, lem, what in ((thas1, thas0, self.lem_t, 'tree'), (lk1, lk0, self.lem_l, 'object')):
            t, l, t2 = c.fresh('t'), c.fresh('l'), z3.Const('t2', V)
            hyp = z3.ForAll([t2], z3.Implies(has0(t2, tl(l)), z3.And(llen(tl(l)) >= 1, sf(tl(l)))), patterns=[has0(t2, tl(l))])
            c.prove('lemma: listed components are slash-free (%s), induction step' % what, z3.Implies(z3.And(hyp, has1(t, l)), z3.And(llen(l) >= 1, sf(l))))
            c.assume(lem)
        self.assume_lemmas()
    def assume_lemmas(self):
        self.c.bg += [self.lem_t, self.lem_l]

    # listings: finite maps path -> details
    def listed(self, has, val, t, lead, x):
        """x is listed by t below lead, with these details"""
        u = un(lead, x)
        return z3.And(has(t, u), jn(lead, u) == x), dset(val(t, u), self.c.const('path'), x)

def modular(ip, q, fresh, apply, check, pre=None):
    """A nested or recursive function by contract.  At a call from outside, one branch verifies the body for arbitrary
    arguments (fresh) against check; calls made by that body, and the other branch, use the contract (apply)."""
    c = ip.ctx
    st = {'v': 0}
    def ov(ip, a, k, f):
        args = bind(f, a, k, ip)
        if pre is not None: pre(args)
        if st['v'] or c.suppress: return apply(args)
        if c.choose('verify ' + q.split('.')[-1]):
            st['v'] += 1
            old = c.func; c.func = f.qualname
            try:
                args = fresh(args, f)
                try: r = ip.run_func(f, list(args.values()), {})
                except PyExc as e: r = e
                check(args, r)
            finally: st['v'] -= 1; c.func = old
            raise PathEnd()
        return apply(args)
    ip.overrides[q] = ov

def bind(f, a, k, ip):
    names = [x.arg for x in f.node.args.args]
    d = dict(f.defaults); d.update(zip(names, a)); d.update(k)
    return {n: d[n] for n in names if n in d}

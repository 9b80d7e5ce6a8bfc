"""Loops.

A `for` over a symbolic collection is summarised as a parallel comprehension: the body is executed symbolically on one
generic element, the effects of every path are collected, the independence of iterations is *proved* (what an iteration
reads is not written by another one), and the state after the loop is the closed form of all guarded effects.
Whatever cannot be shown independent is havocked.  Paths that leave the loop early are handled by distinguishing
"no element leaves" from "this element leaves, after some subset of the others was processed".
"""
import re
import z3
from .core import *
from .values import *
from . import values

class NotIndependent(Exception): pass

def dense(seg):
    """N when the family is indexed by 0 <= i < N in order"""
    if not seg.ordered or len(seg.bvs) != 1 or seg.bvs[0].sort() != I: return None
    i, t = seg.bvs[0], seg.cond
    if not (z3.is_and(t) and t.num_args() == 2): return None
    a, b = t.arg(0), t.arg(1)
    if not (z3.is_ge(a) and a.arg(0).eq(i) and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() == 0): return None
    if not (z3.is_lt(b) and b.arg(0).eq(i)): return None
    n = b.arg(1)
    return None if occurs(i, n) else n

def occurs(x, t):
    st = [t]
    while st:
        y = st.pop()
        if y.eq(x): return True
        st += y.children()
    return False

def for_loop(ip, it, body, orelse, env, st):
    from .interp import BreakEx, ContinueEx
    segs = ip.iter_segs(it)
    try:
        for seg in list(segs):
            if isinstance(seg, PSeg):
                for v in seg.items:
                    try: body(v)
                    except ContinueEx: pass
            else:
                for h in getattr(ip, 'for_hooks', ()):
                    if h(ip, seg, body, env, st) is not NotImplemented: break
                else: family(ip, seg, body, env)
    except BreakEx:
        return
    if orelse is not None: orelse()

_num = re.compile(r'!f?(\d+)!')

SYMS = {}
def syms(t):
    """constants and functions with a number in their name that occur in the term"""
    e = SYMS.get(t.get_id())
    if e is not None: return e[1]
    if len(SYMS) > 300000: SYMS.clear()
    out, seen, stack = [], set(), [t]
    names = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if not z3.is_app(x): continue
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            if n not in names:
                names.add(n)
                m = _num.search(n)
                if m: out.append((int(m.group(1)), n, d, x if x.num_args() == 0 else None))
        stack.extend(x.children())
    SYMS[t.get_id()] = (t, out)
    return out
def fresh_syms(terms, base, exclude):
    """constants and functions created after `base` that occur in the terms"""
    consts, funs = {}, {}
    ex = None
    for t in terms:
        for num, n, d, x in syms(t):
            if num <= base: continue
            if x is None: funs[n] = d; continue
            if ex is None: ex = {y.get_id() for y in exclude}
            if x.get_id() not in ex: consts[n] = x
    return list(consts.values()), list(funs.values())

class Path:
    __slots__ = ('out', 'exc', 'pc', 'eff', 'reads', 'acc', 'retval')

class Lift:
    """makes everything created inside the body a function of the loop variables"""
    def __init__(self, ip, base, ks):
        self.ip, self.base, self.ks = ip, base, ks
        self.cmap, self.fmap = {}, {}
        self.done = {}
    def __call__(self, t):
        if isinstance(t, bool): return z3.BoolVal(t)
        e = self.done.get(t.get_id())
        if e is None: e = self.done[t.get_id()] = (t, self.lift(t))
        return e[1]
    def lift(self, t):
        cs, fs = fresh_syms([t], self.base, self.ks)
        c = self.ip.ctx
        for k in cs:
            n = k.decl().name()
            if n not in self.cmap:
                f = c.fresh_fun('lf_' + n.split('!')[0], *([x.sort() for x in self.ks] + [k.sort()]))
                self.cmap[n] = (k, f(*self.ks))
                self.reg(n, f.name(), [])
        for d in fs:
            n = d.name()
            if n not in self.fmap:
                doms = [d.domain(j) for j in range(d.arity())]
                f = c.fresh_fun('lf_' + n.split('!')[0], *([x.sort() for x in self.ks] + doms + [d.range()]))
                self.fmap[n] = (d, f(*(list(self.ks) + [z3.Var(j, s) for j, s in enumerate(doms)])))
                self.reg(n, f.name(), doms)
        if self.fmap:
            subs = [self.fmap[d.name()] for d in fs]
            if subs: t = z3.substitute_funs(t, *subs)
        if cs: t = z3.substitute(t, *[self.cmap[k.decl().name()] for k in cs])
        return t
    def reg(self, old, new, doms):
        """reified lists created in the body"""
        from .interp import REGISTRY
        if old in REGISTRY:
            params, segs = REGISTRY[old]
            ps = [z3.Const('%s@%s' % (k, new), k.sort()) for k in self.ks]
            ks = self.ks
            out = []
            REGISTRY[new] = (ps + params, out)
            for s in segs:
                out.append(self.seg(s, list(zip(ks, ps))))
    def seg(self, s, sub):
        if isinstance(s, PSeg): return PSeg([self.v(x, sub) for x in s.items])
        return DSeg(s.bvs, z3.substitute(self(s.cond), *sub), self.v(s.value, sub), s.ordered, None, s.distinct)
    def v(self, x, sub):
        if isinstance(x, z3.ExprRef): return z3.substitute(self(x), *sub)
        if isinstance(x, tuple): return tuple(self.v(y, sub) for y in x)
        if isinstance(x, SI): return SI(self.v(x.t, sub))
        if isinstance(x, SB): return SB(self.v(x.t, sub))
        if isinstance(x, Box): return self.v(x.peek(), sub)
        return x

def effects_since(ctx, mark, base, env):
    """modifications of things that existed before the body ran"""
    out = []
    for undo, loc, op in ctx.trail[mark:]:
        if loc is None or op is None: continue
        if getattr(loc, 'birth', 0) > base: continue
        out.append((loc, op))
    return out

def snap_op(ip, op):
    if op[0] == 'append': return ('append', ip.snap(op[1]))
    return op

def lockey(loc, op):
    if op[0] == 'var': return ('var', id(loc), op[1])
    if op[0] == 'attr': return ('attr', id(loc), op[1])
    if op[0] in ('dkey', 'dkeydel'): return ('dkey', id(loc), op[1])
    return ('obj', id(loc))

class Havoc:
    def __init__(self): self.locs = {}

def discover(ip, seg, body, ks, prep):
    """run the body once per path on a generic element"""
    from .interp import BreakEx, ContinueEx, ReturnEx
    c = ip.ctx
    paths = []
    base = c.fresh_n
    saved = (c.reads, c.accesses, c.suppress)
    c.suppress += 1
    state = {}
    cond = z3.substitute(seg.cond, *list(zip(seg.bvs, ks)))
    def thunk():
        c.reads = None; c.accesses = None
        prep()
        state['mark'] = len(c.trail); state['pc'] = len(c.pc)
        c.add(cond)
        state['pc1'] = len(c.pc)
        c.reads = []; c.accesses = []
        p = Path(); p.out = 'normal'; p.exc = None; p.retval = None
        try:
            body(ip.elem_value(seg, ks))
        except ContinueEx: p.out = 'normal'
        except BreakEx: p.out = 'break'
        except ReturnEx as r: p.out = 'return'; p.retval = r.v
        except PyExc as e: p.out = 'raise'; p.exc = e.exc
        return p
    def visit(p):
        p.reads, p.acc = c.reads, c.accesses
        c.reads = None; c.accesses = None
        p.eff = [(loc, snap_op(ip, op)) for loc, op in effects_since(c, state['mark'], base, None)]
        p.pc = list(c.pc[state['pc1']:])
        paths.append(p)
    try:
        c.explore(thunk, visit)
    finally:
        r, a = c.reads, c.accesses
        c.reads, c.accesses, c.suppress = saved
    # the surrounding loop sees the reads of this one
    for p in paths:
        if c.reads is not None: c.reads += p.reads
    if c.accesses is not None:
        rest = []
        for p in paths:
            first = set()
            for a, loc, name in p.acc:
                if (id(loc), name) in first: continue
                first.add((id(loc), name))
                (c.accesses if a == 'r' else rest).append((a, loc, name))
        c.accesses += rest
    return paths, base

def family(ip, seg, body, env):
    from .interp import BreakEx, ContinueEx, ReturnEx
    c = ip.ctx
    ip.loops_summarised += 1
    ks = [c.fresh('it', b.sort()) for b in seg.bvs]
    base0 = c.fresh_n
    havoc = {}        # lockey -> (loc, op)
    for attempt in range(12):
        c.fresh_n = max(c.fresh_n, base0)
        sup0 = c.suppressed
        hmark = len(c.trail)
        paths, base = discover(ip, seg, body, ks, lambda: apply_havoc(ip, havoc))
        had_obs = c.suppressed > sup0
        more = False
        for p in paths:
            for loc, op in p.eff:
                if op[0] == 'tobox':
                    (ip.dict_to_box if isinstance(loc, DictObj) else ip.set_to_box)(loc); more = True; break
                if op[0] == 'togroup':
                    ip.to_groups(loc); more = True; break
                if op[0] == 'sadd' :
                    ip.set_to_box(loc); more = True; break
                if op[0] == 'replace' and lockey(loc, op) not in havoc:
                    havoc[lockey(loc, op)] = (loc, op); more = True
            if more: break
        if more: continue
        h = carried(ip, paths, havoc)
        if not h: h = dependent(ip, seg, ks, paths, base, havoc)
        if h:
            for k, v in h.items(): havoc[k] = v
            continue
        break
    else:
        raise Unsupported('loop effects do not stabilise')
    normal = [p for p in paths if p.out == 'normal']
    exits = [p for p in paths if p.out != 'normal']
    lift = Lift(ip, base, ks)
    lifted = [LP(p, lift) for p in paths]
    ln = [l for l in lifted if l.p.out == 'normal']
    le = [l for l in lifted if l.p.out != 'normal']
    cond = z3.substitute(seg.cond, *list(zip(seg.bvs, ks)))

    def check_body():
        # obligations inside the body: any element, after any subset of other elements
        if not had_obs or c.suppress: return
        e = c.recall('body', None)
        if e is not None: c.opos, c.fresh_n = e[1]; return
        c.keep('body', None, None); at = c.opos; log = c.olog
        def thunk():
            S = subset(ip, seg, ks, cond, le)
            close(ip, seg, ks, cond, ln, S, havoc, lifted)
            c.add(cond); c.add(z3.Not(S(*ks)))
            try: body(ip.elem_value(seg, ks))
            except (BreakEx, ContinueEx, ReturnEx, PyExc): pass
        c.explore(thunk, lambda v: None)
        if log is not None and log is c.olog: log[at - 1] = (log[at - 1][0], (c.opos, c.fresh_n))
    check_body()
    if exits:
        if c.fails('leaves') if all(p.out == 'raise' for p in exits) else c.choose('leaves'):
            k0 = [c.fresh('leave', b.sort()) for b in seg.bvs]
            c0 = z3.substitute(seg.cond, *list(zip(seg.bvs, k0)))
            c.assume(c0)
            if seg.ordered and ks[0].sort() == I and len(ks) == 1:
                S = lambda i: i < k0[0]
                noexit(ip, ks, z3.And(cond, ks[0] < k0[0]), le)
            else:
                S = subset(ip, seg, ks, cond, le)
                c.assume(z3.Not(S(*k0)))
            close(ip, seg, ks, cond, ln, S, havoc, lifted)
            at = list(zip(ks, k0))
            c.assume(z3.substitute(z3.Or(*[z3.And(*l.guards) if l.guards else z3.BoolVal(True) for l in le]), *at))
            try: body(ip.elem_value(seg, k0))
            except ContinueEx: raise PathEnd()
            raise PathEnd()
        noexit(ip, ks, cond, le)
    close(ip, seg, ks, cond, ln, None, havoc, lifted)

def noexit(ip, ks, cond, le):
    for l in le:
        ip.ctx.assume(forall(ks, z3.Not(z3.And(cond, *l.guards))))

def forall(ks, body, pats=None):
    body = z3.simplify(body)
    if z3.is_true(body): return body
    if pats: return z3.ForAll(ks, body, patterns=pats)
    return z3.ForAll(ks, body)

def subset(ip, seg, ks, cond, le):
    c = ip.ctx
    S = c.fresh_fun('S', *([k.sort() for k in ks] + [B]))
    ex = [z3.And(*l.guards) if l.guards else z3.BoolVal(True) for l in le]
    body = z3.And(cond, *[z3.Not(e) for e in ex])
    c.assume(z3.ForAll(ks, z3.Implies(S(*ks), body), patterns=[S(*ks)]))
    return S

class LP:
    """lifted path"""
    def __init__(self, p, lift):
        self.p = p
        self.guards = [lift(t) for t, isd in p.pc if isd]
        self.facts = []
        pre = []
        for t, isd in p.pc:
            t = lift(t)
            if isd: pre.append(t)
            else: self.facts.append((list(pre), t))
        self.eff = []
        for loc, op in p.eff:
            if op[0] in ('dset',): op = ('dset', lift(op[1]), lift(op[2]))
            elif op[0] == 'ddel': op = ('ddel', lift(op[1]))
            elif op[0] == 'append':
                v = op[1]
                op = ('append', lift_val(v, lift))
            elif op[0] == 'extend':
                s = op[1]
                nb = [z3.Const('bv%d!x' % j, b.sort()) for j, b in enumerate(s.bvs)]; bs = list(zip(s.bvs, nb))
                op = ('extend', nb, lift(z3.substitute(s.cond, *bs)), lift_val(subst_val(s.value, bs), lift), s.ordered)
            self.eff.append((loc, op))

def lift_val(v, lift):
    ip = lift.ip
    if isinstance(v, tuple): return tuple(lift_val(x, lift) for x in v)
    if isinstance(v, z3.ExprRef): return lift(v)
    if v is None or isinstance(v, (bool, int, float, str, bytes)): return v
    if isinstance(v, SI): return SI(lift(v.t))
    if isinstance(v, SB): return SB(lift(v.t))
    if isinstance(v, Snap): return lift(v.t)
    raise Unsupported('loop collects %r' % (v,))

class Snap:
    def __init__(self, t): self.t = t

# ---------------------------------------------------------------- loop-carried locations
def apply_havoc(ip, havoc):
    for (loc, op) in list(havoc.values()):
        havoc_loc(ip, loc, op)

def havoc_loc(ip, loc, op):
    c = ip.ctx
    if op[0] in ('var', 'attr', 'dkey'):
        cur = (loc.vars if op[0] == 'var' else loc.attrs if op[0] == 'attr' else loc.d).get(op[1], None)
        new = havoc_value(ip, cur)
        if op[0] == 'var': ip.setvar_in(loc, op[1], new)
        elif op[0] == 'attr': ip.setattr_(loc, op[1], new)
        else: ip.store_key(loc, op[1], new)
    elif isinstance(loc, Box):
        loc.freeze_kids(loop=True)
        loc._assign(c.fresh('hv'), ('replace', None))
    elif isinstance(loc, ListObj):
        h = getattr(ip, 'list_havoc', None)          # (a specification which proves that the lists of its loops have no duplicates)
        if h is None or not h(loc): loc.havoc('loop')
    else: raise Unsupported('havoc of %r' % (loc,))

def havoc_value(ip, cur):
    c = ip.ctx
    if isinstance(cur, bool) or isinstance(cur, SB): return SB(c.fresh('hb', B))
    if isinstance(cur, (int, SI)): return SI(c.fresh('hi', I))
    if isinstance(cur, (ListObj,)):
        l = ListObj(); l.havoc('loop'); return l
    if isinstance(cur, DictObj):
        d = DictObj(); d.box = Box(c.fresh('hd')); return d
    h = getattr(ip, 'havoc_hook', None)
    if h is not None:
        r = h(cur)
        if r is not None: return r
    if isinstance(cur, (Func, Native, Cls, Obj)): raise Unsupported('loop changes a variable holding %r' % (cur,))
    t = c.fresh('hv')
    if isinstance(cur, str): c.assume(ty(t) == T_STR)
    if isinstance(cur, bytes): c.assume(ty(t) == T_BYTES)
    return Box(t)

def carried(ip, paths, havoc):
    """variables / attributes / concrete keys that are written, and whose first access in some path is a read"""
    written = {}
    for p in paths:
        for loc, op in p.eff:
            if op[0] in ('var', 'attr', 'dkey', 'dkeydel'): written[lockey(loc, op)] = (loc, op)
    out = {}
    for p in paths:
        first = {}
        for a, loc, name in p.acc:
            kind = 'var' if isinstance(loc, Env) else 'attr' if isinstance(loc, Obj) else 'dkey'
            k = (kind, id(loc), name)
            if k in written and k not in first:
                first[k] = a
                if a == 'r' and k not in havoc: out[k] = written[k]
    return out

def dependent(ip, seg, ks, paths, base, havoc):
    """prove that no iteration reads a box element another iteration writes"""
    c = ip.ctx
    writes = {}
    for p in paths:
        for loc, op in p.eff:
            if isinstance(loc, Box) and op[0] in ('dset', 'ddel'):
                writes.setdefault(id(loc), []).append((loc, op, p))
            elif isinstance(loc, ListObj) and op[0] in ('append', 'extend'):
                pass
    out = {}
    if not writes: return out
    ks2 = [z3.Const(str(k) + "'", k.sort()) for k in ks]
    cond = z3.substitute(seg.cond, *list(zip(seg.bvs, ks)))
    lift = Lift(ip, base, ks)
    sub = list(zip(ks, ks2))
    for p in paths:
        for root, key in p.reads:
            if id(root) not in writes or lockey(root, ('dset',)) in havoc: continue
            if lockey(root, ('dset',)) in out: continue
            for loc, op, q in writes[id(root)]:
                if key is None:
                    out[lockey(root, ('dset',))] = (loc, ('replace', None)); break
                if independent(ip, ks, ks2, sub, cond, lift, p, key, q, op[1]): continue
                out[lockey(root, ('dset',))] = (loc, ('replace', None)); break
    return out

def independent(ip, ks, ks2, sub, cond, lift, p, rkey, q, wkey):
    c = ip.ctx
    if len(ks) == 1 and rkey.eq(ks[0]) and wkey.eq(ks[0]): return True
    cs, fs = fresh_syms([rkey, wkey], -1, [])
    r, w = lift(rkey), lift(wkey)
    w2 = z3.substitute(w, *sub)
    if ip.distinct_consts(r, w2): return True
    hyp = [cond, z3.substitute(cond, *sub)] + [z3.Or(*[a != b for a, b in sub])]
    hyp += [lift(t) for t, isd in p.pc]
    hyp += [z3.substitute(lift(t), *sub) for t, isd in q.pc]
    # facts about lifted constants hold for every iteration
    c.push()
    try:
        for h in hyp: c.add(h)
        return c.entails(r != w2)
    except PathEnd:
        return True
    finally:
        c.pop()

# ---------------------------------------------------------------- closed form
def close(ip, seg, ks, cond, ln, S, havoc, lifted):
    """state after the iterations in S (all when None)"""
    c = ip.ctx
    inS = cond if S is None else z3.And(cond, S(*ks))
    # facts (contracts of callees, skolem choices) hold for every processed element
    seen = set(); keep = []
    allp = lifted
    for l in allp:
        for pre, f in l.facts:
            body = z3.Implies(z3.And(cond, *pre), f)
            key = body.get_id()
            if key in seen: continue
            seen.add(key); keep.append(body)     # (keeps the id in use)
            c.assume(forall(ks, body))
    # effects grouped by location
    locs, order = {}, []
    for l in ln:
        for loc, op in l.eff:
            k = lockey(loc, op)
            if k not in locs: locs[k] = (loc, op, []); order.append(k)
            locs[k][2].append((l, op))
    for k in havoc:
        if k not in locs and any(lockey(loc, op) == k for l in lifted for loc, op in l.eff):
            locs[k] = (havoc[k][0], havoc[k][1], []); order.append(k)
    for k in order:
        loc, op0, ops = locs[k]
        if k in havoc:
            havoc_after(ip, loc, havoc[k][1], ops); continue
        if op0[0] in ('var', 'attr', 'dkey', 'dkeydel'):
            scalar_after(ip, loc, op0, ops, ks, inS, ln)
        elif isinstance(loc, Box):
            box_after(ip, loc, ops, ks, inS)
        elif isinstance(loc, ListObj):
            list_after(ip, loc, ops, ks, inS, seg)
        else:
            raise Unsupported('loop modifies %r' % (loc,))

def havoc_after(ip, loc, op, ops):
    havoc_loc(ip, loc, op)

def scalar_after(ip, loc, op0, ops, ks, inS, ln):
    """a variable assigned in the loop"""
    c = ip.ctx
    name = op0[1]
    last = {}
    for l, op in ops: last[id(l)] = (l, op)
    vals = [op[2] if len(op) > 2 else None for l, op in last.values()]
    def put(v):
        if op0[0] == 'var': ip.setvar_in(loc, name, v)
        elif op0[0] == 'attr': ip.setattr_(loc, name, v)
        else: ip.store_key(loc, name, v)
    v0 = vals[0]
    if all((v is None or isinstance(v, (bool, int, str, bytes))) and type(v) is type(v0) and v == v0 for v in vals):
        g = z3.Or(*[z3.And(*l.guards) if l.guards else z3.BoolVal(True) for l, op in last.values()])
        if c.decide(c.exists(ks, z3.And(inS, g), 'assigned')): put(v0)
        return
    put(Poison('assigned in a loop'))

def list_after(ip, lst, ops, ks, inS, seg):
    c = ip.ctx
    new = []
    for l, op in ops:
        bvs = [c.fresh('b', k.sort()) for k in ks]
        sub = list(zip(ks, bvs))
        gs = l.guards
        if len(ops) == 1 and gs and dense(seg) is not None: gs = [x for x in gs if not c.entails(z3.Implies(inS, x))]     # implied ones do not make it sparse
        g = z3.And(inS, *gs) if gs else inS
        if op[0] == 'append':
            new.append(DSeg(bvs, z3.substitute(g, *sub), subst_val(op[1], sub), seg.ordered, None, True))
        elif op[0] == 'extend':
            _, b2, c2, v2, ordered = op
            nb = [c.fresh('b', b.sort()) for b in b2]
            sub2 = sub + list(zip(b2, nb))
            new.append(DSeg(bvs + nb, z3.substitute(z3.And(g, c2), *sub2), subst_val(v2, sub2), seg.ordered and ordered and len(ops) == 1, None, True))
        else: raise Unsupported('loop changes a list by %s' % op[0])
    if isinstance(lst, GroupListBase): lst.set_segs(list(lst.segs) + new, ('replace',)); return
    for s in new:
        # an enclosing loop sees this loop as an extension of the list
        lst.set_segs(list(lst.segs) + [s], ('extend', s))

class GroupListBase: pass

def box_after(ip, box, ops, ks, inS):
    c = ip.ctx
    D0 = box._t
    D = c.fresh('lp')
    c.assume(ty(D) == ty(D0))
    # net effect per path: sequence of writes; later writes of the same path win
    per = {}
    for l, op in ops: per.setdefault(id(l), (l, []))[1].append(op)
    touched_parts = []      # functions x -> formula
    x = z3.Const('x!V', V)
    ws = []
    for l, seq in per.values():
        g = z3.And(inS, *l.guards)
        net = []
        for op in seq:
            net = [o for o in net if not o[1].eq(op[1])] + [op]
        for j, op in enumerate(net):
            key = op[1]
            later = [o[1] for o in net[j + 1:]]
            ws.append((l, g, op, later))
    multi_ok = True
    ks2 = [z3.Const(str(k) + "'", k.sort()) for k in ks]
    sub = list(zip(ks, ks2))
    diff = z3.Or(*[a != b for a, b in sub])
    # do two different iterations ever write the same key?
    def clash(i, j):
        (l, g, op, later), (m, g2, op2, l2) = ws[i], ws[j]
        k1, k2 = op[1], z3.substitute(op2[1], *sub)
        if len(ks) == 1 and op[1].eq(ks[0]) and op2[1].eq(ks[0]): return False
        if ip.distinct_consts(k1, k2): return False
        c.push()
        try:
            for f in (g, z3.substitute(g2, *sub), diff): c.add(f)
            # facts hold for the second iteration as well (assumed universally above)
            return not c.entails(k1 != k2)
        except PathEnd: return False
        finally: c.pop()
    unique = True
    same = lambda a, b: a[0] == b[0] and (a[0] == 'ddel' or a[2].eq(b[2]))
    for i in range(len(ws)):
        for j in range(i, len(ws)):
            if unique and clash(i, j): unique = False
    if not unique and not all(w[2][0] == ws[0][2][0] for w in ws):
        # sets and deletions of possibly equal keys in unknown order: only untouched keys are known
        for w, (l, g, op, later) in enumerate(ws): touched_parts.append(image(c, ks, g, op[1], x, D))
        c.assume(z3.ForAll([x], z3.Or(z3.Or(*touched_parts), agree(D, D0, x)), patterns=[dhas(D, x)]))
        c.assume(z3.ForAll([x], z3.Or(z3.Or(*touched_parts), agree(D, D0, x)), patterns=[dget(D, x)]))
    else:
        for (l, g, op, later) in ws:
            key = op[1]
            gg = z3.And(g, *[key != o for o in later])
            im = image(c, ks, gg, key, x, D)
            touched_parts.append(im)
            if len(ks) == 1 and key.eq(ks[0]):
                xx = ks[0]; pats = [[dhas(D, xx)], [dget(D, xx)]]
            else:
                pats = [None]
            if op[0] == 'dset':
                if unique: body = z3.And(dhas(D, key), dget(D, key) == op[2])
                else: body = dhas(D, key)
            else:
                body = z3.Not(dhas(D, key))
            for pt in pats: c.assume(forall(ks, z3.Implies(gg, body), pt))
        if not unique and ws[0][2][0] == 'dset':
            # the value at a key is that of some iteration writing it
            alts = []
            for (l, g, op, later) in ws:
                fs = [c.fresh_fun('wr', V, k.sort()) for k in ks]
                s = list(zip(ks, [f(x) for f in fs]))
                alts.append(z3.substitute(z3.And(g, op[1] == x, dget(D, x) == op[2]), *s))
            body = z3.Or(agree(D, D0, x), *alts)
            c.assume(z3.ForAll([x], body, patterns=[dhas(D, x)]))
            c.assume(z3.ForAll([x], body, patterns=[dget(D, x)]))
        else:
            body = z3.Or(agree(D, D0, x), *touched_parts)
            c.assume(z3.ForAll([x], body, patterns=[dhas(D, x)]))
            c.assume(z3.ForAll([x], body, patterns=[dget(D, x)]))
    box.freeze_kids(loop=True)
    box._assign(D, ('replace', D))

def agree(D, D0, x):
    return z3.And(dhas(D, x) == dhas(D0, x), dget(D, x) == dget(D0, x))

def image(c, ks, g, key, x, D):
    """x = key(k) for some k with g(k), as a formula in x"""
    if len(ks) == 1 and key.eq(ks[0]):
        return z3.substitute(g, (ks[0], x))
    fs = [c.fresh_fun('pre', V, k.sort()) for k in ks]
    sub = list(zip(ks, [f(x) for f in fs]))
    return z3.substitute(z3.And(g, key == x), *sub)

# ---------------------------------------------------------------- while loops
def while_loop(ip, st, env):
    from .interp import BreakEx, ContinueEx
    c = ip.ctx
    fq = env.func.qualname if env.func is not None else ''
    hook = ip.while_hooks.get(fq)
    if hook is None:
        for q, h in ip.while_hooks.items():
            if q.endswith('*') and fq.startswith(q[:-1]): hook = h; break
    if hook is not None:
        r = hook(ip, st, env)
        if r is not NotImplemented: return
    n = 0
    while True:
        if not ip.test(ip.ev(st.test, env)): break
        n += 1
        if n > 12: raise Unsupported('while loop without invariant in ' + fq)
        try: ip.block(st.body, env)
        except BreakEx: return
        except ContinueEx: pass
    ip.block(st.orelse, env)

def settled(ip, mark, base, havoc):
    """what the body changed is among what was forgotten before it"""
    for loc, op in effects_since(ip.ctx, mark, base, None):
        if lockey(loc, op) not in havoc: raise Unsupported('loop effects do not stabilise')

def while_inv(ip, st, env, inv, name):
    """standard rule; inv(phase) -> list of (name, formula) over the current state.
    Modified locations are discovered by running the body."""
    from .interp import BreakEx, ContinueEx, ReturnEx
    c = ip.ctx
    def once():
        if not ip.test(ip.ev(st.test, env)): return
        try: ip.block(st.body, env)
        except (BreakEx, ContinueEx): pass
    havoc = {}
    for attempt in range(8):
        mod = {}
        base = c.fresh_n
        saved = c.suppress; c.suppress += 1; c.loose += 1
        sr, sa = c.reads, c.accesses; c.reads = None; c.accesses = None
        state = {}
        def thunk():
            apply_havoc(ip, havoc)
            for nme, f in inv(): c.assume(f)
            state['mark'] = len(c.trail)
            try: once()
            except (ReturnEx, PyExc): pass
        def visit(v):
            for loc, op in effects_since(c, state['mark'], base, None):
                mod[lockey(loc, op)] = (loc, op)
        try: c.explore(thunk, visit)
        finally: c.suppress = saved; c.loose -= 1; c.reads, c.accesses = sr, sa
        boxed = False
        for k, (loc, op) in list(mod.items()):
            if op[0] == 'tobox':
                (ip.dict_to_box if isinstance(loc, DictObj) else ip.set_to_box)(loc); boxed = True
            elif op[0] == 'sadd': ip.set_to_box(loc); boxed = True
        if boxed: continue
        new = {k: v for k, v in mod.items() if k not in havoc}
        if not new: break
        havoc.update(new)
        if c.loose: break             # an outer loop with an invariant looks for its effects: one round gives them (checked by settled)
    else: raise Unsupported('while loop effects do not stabilise')
    for nme, f in inv(): c.prove('%s: %s holds on entry' % (name, nme), f)
    base = c.fresh_n
    for k, (loc, op) in havoc.items(): havoc_loc(ip, loc, op if not isinstance(loc, Box) else ('replace', None))
    for nme, f in inv(): c.assume(f)
    if not ip.test(ip.ev(st.test, env)):
        ip.block(st.orelse, env); return
    mark = len(c.trail)
    try:
        ip.block(st.body, env)
    except BreakEx: return
    except ContinueEx: pass
    settled(ip, mark, base, havoc)
    for nme, f in inv(): c.prove('%s: %s is preserved' % (name, nme), f)
    raise PathEnd()

def for_inv(ip, seg, body, env, inv, name, noexit=True):
    """a for loop over a family by an invariant: inv(done) -> list of (name, formula), where done(ks) says that the
    element at ks has been processed.  The order is the index order for an ordered family, arbitrary otherwise.
    A break or return leaves the loop from inside the body; exceptions propagate."""
    from .interp import BreakEx, ContinueEx, ReturnEx
    c = ip.ctx
    ordered = seg.ordered and len(seg.bvs) == 1 and seg.bvs[0].sort() == I
    def begin():
        if ordered:
            i = c.fresh('i', I)
            c.assume(z3.ForAll(seg.bvs, z3.Implies(seg.cond, seg.bvs[0] >= 0)))
            done = lambda k: z3.And(z3.substitute(seg.cond, (seg.bvs[0], k)), k < i)
            done.count = i
            c.assume(i >= 0)
            return [i], done
        S = c.fresh_fun('done', *([b.sort() for b in seg.bvs] + [B]))
        done = lambda *ks: z3.And(z3.substitute(seg.cond, *list(zip(seg.bvs, ks))), S(*ks))
        done.count = None
        return [c.fresh('it', b.sort()) for b in seg.bvs], done
    def cond(ks): return z3.substitute(seg.cond, *list(zip(seg.bvs, ks)))
    none = lambda *ks: z3.BoolVal(False)
    allof = lambda *ks: cond(ks)
    havoc = {}
    n = dense(seg)
    none.count = z3.IntVal(0); allof.count = n
    inv0 = inv
    def inv(done):
        done.mods = [loc for loc, op in havoc.values()]; done.seg = seg
        return inv0(done)
    for attempt in range(8):
        mod = {}
        base = c.fresh_n
        saved = c.suppress; c.suppress += 1; c.loose += 1
        sr, sa = c.reads, c.accesses; c.reads = None; c.accesses = None
        state = {}
        def thunk():
            apply_havoc(ip, havoc)
            ks, done = begin()
            for nme, f in inv(done): c.assume(f)
            c.assume(cond(ks)); c.assume(z3.Not(done(*ks)))
            state['mark'] = len(c.trail)
            try: body(ip.elem_value(seg, ks))
            except (ContinueEx, BreakEx, ReturnEx, PyExc): pass
        def visit(v):
            for loc, op in effects_since(c, state['mark'], base, None): mod[lockey(loc, op)] = (loc, op)
        try: c.explore(thunk, visit)
        finally: c.suppress = saved; c.loose -= 1; c.reads, c.accesses = sr, sa
        boxed = False
        for k, (loc, op) in list(mod.items()):
            if op[0] == 'tobox': (ip.dict_to_box if isinstance(loc, DictObj) else ip.set_to_box)(loc); boxed = True
            elif op[0] == 'sadd': ip.set_to_box(loc); boxed = True
            elif op[0] == 'togroup': ip.to_groups(loc); boxed = True
        if boxed: continue
        new = {k: v for k, v in mod.items() if k not in havoc}
        if not new: break
        havoc.update(new)
        if c.loose: break             # an outer loop with an invariant looks for its effects: one round gives them (checked by settled)
    else: raise Unsupported('for loop effects do not stabilise')
    for nme, f in inv(none): c.prove('%s: %s holds before the loop' % (name, nme), f)
    base = c.fresh_n
    def shake():
        for k, (loc, op) in havoc.items(): havoc_loc(ip, loc, op if not isinstance(loc, Box) else ('replace', None))
    shake()
    if c.loose or not c.choose('another element'):
        for nme, f in inv(allof): c.assume(f)
        return
    ks, done = begin()
    for nme, f in inv(done): c.assume(f)
    c.assume(cond(ks)); c.assume(z3.Not(done(*ks)))
    mark = len(c.trail)
    try: body(ip.elem_value(seg, ks))
    except ContinueEx: pass
    settled(ip, mark, base, havoc)
    now = lambda *xs: z3.Or(done(*xs), z3.And(*[x == k for x, k in zip(xs, ks)]))
    now.count = ks[0] + 1 if ordered else None
    for nme, f in inv(now): c.prove('%s: %s is kept by the body' % (name, nme), f)
    raise PathEnd()

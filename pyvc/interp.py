"""Symbolic executor for the Python subset used by the repository.  It interprets the ASTs of /repo's own source."""
import ast, os, re
import z3
from . import core, values
from .core import *
from .values import *

class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ReturnEx(Exception):
    def __init__(self, v): self.v = v

mktup = {}
def tup_fun(n):
    if n not in mktup: mktup[n] = z3.Function('tup%d' % n, *([V] * n + [V]))
    return mktup[n]

REGISTRY = {}     # decl name -> (params, segs)  for reified lists

UNDEF = object()

EXC = {n: getattr(__builtins__, n, None) if not isinstance(__builtins__, dict) else __builtins__.get(n)
       for n in ('BaseException Exception KeyError IndexError ValueError TypeError OSError IOError FileNotFoundError '
                 'SystemExit AttributeError RuntimeError StopIteration NotImplementedError UnicodeDecodeError '
                 'AssertionError PermissionError FileExistsError KeyboardInterrupt LookupError ArithmeticError '
                 'ZeroDivisionError ConnectionError TimeoutError EOFError NotADirectoryError IsADirectoryError '
                 'UnicodeEncodeError BlockingIOError BrokenPipeError').split()}

class Interp:
    def __init__(self, ctx, root='/repo'):
        self.ctx = ctx; self.root = root
        values.set_ctx(ctx)
        REGISTRY.clear()
        self.modules = {}
        self.externals = {}           # module name -> Mod of stubs
        self.overrides = {}           # qualname -> Native used instead of the body (contract)
        self.builtins = {}
        self.funcs_run = set()
        self.depth = 0
        self.while_hooks = {}         # qualname -> hook(interp, node, env)
        self.contracts_used = set()
        self.loops_summarised = 0
        self.asts = {}
        self.inlined_ok = None
        from . import builtins_ as bi
        bi.install(self)

    # ================================================================ terms
    def term(self, v):
        c = self.ctx
        if isinstance(v, z3.ExprRef): return v
        if isinstance(v, Box): return v.term()
        if v is None or isinstance(v, (bool, int, float, str, bytes)): return c.const(v)
        if isinstance(v, SI): return mkint(v.t)
        if isinstance(v, SB): return z3.If(v.t, c.c_true, c.c_false)
        if isinstance(v, tuple):
            return tup_fun(len(v))(*[self.term(x) for x in v])
        if isinstance(v, DictObj):
            if v.box is not None: return v.box.term()
            t = c.c_empty
            for k, x in v.d.items(): t = dset(t, c.const(k), self.term(x))
            return t
        if isinstance(v, ListObj): return self.list_term(v.segs)
        if isinstance(v, SetObj):
            self.set_to_box(v); return v.box.term()
        if isinstance(v, Obj) and '_term' in v.attrs: return v.attrs['_term']
        raise Unsupported('no term for %r' % (v,))

    def list_term(self, segs):
        c = self.ctx
        if len(segs) == 1 and isinstance(segs[0], DSeg):
            from .loops import dense
            n, v = dense(segs[0]), segs[0].value
            if n is not None and isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().eq(lnth) and v.arg(1).eq(segs[0].bvs[0]) and z3.is_app(n) and n.decl().eq(llen) and n.arg(0).eq(v.arg(0)) and z3.is_const(v.arg(0)):
                return v.arg(0)
        t = c.fresh('lst')
        REGISTRY[t.decl().name()] = ([], self.freeze_segs(segs))
        c.assume(ty(t) == T_LIST)
        if all(isinstance(s, PSeg) for s in segs):
            items = [self.term(x) for s in segs for x in s.items]
            c.assume(llen(t) == len(items))
            for j, x in enumerate(items): c.assume(lnth(t, z3.IntVal(j)) == x)
        else:
            self.empty_link(t, segs)
            from .loops import dense
            if isinstance(segs[0], DSeg) and dense(segs[0]) is not None and isinstance(segs[0].value, z3.ExprRef) and all(isinstance(s, PSeg) for s in segs[1:]):
                n = dense(segs[0]); i = z3.Int('i')
                items = [self.term(x) for s in segs[1:] for x in s.items]
                c.assume(llen(t) == n + len(items))
                c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), lnth(t, i) == z3.substitute(segs[0].value, (segs[0].bvs[0], i))), patterns=[lnth(t, i)]))
                for j, x in enumerate(items): c.assume(lnth(t, n + j) == x)
        return t

    def empty_link(self, t, segs):
        n = sum(len(s.items) for s in segs if isinstance(s, PSeg))
        if n: self.ctx.assume(llen(t) >= n)

    def freeze_segs(self, segs):
        out = []
        for s in segs:
            if isinstance(s, PSeg): out.append(PSeg([self.snap(x) for x in s.items]))
            else: out.append(DSeg(s.bvs, s.cond, self.snap(s.value), s.ordered, None, s.distinct))
        return out

    def snap(self, v):
        """an immutable picture of a value"""
        if isinstance(v, Box): return v.term()
        if isinstance(v, (DictObj, ListObj, SetObj)): return self.term(v)
        if isinstance(v, tuple): return tuple(self.snap(x) for x in v)
        return v

    def val(self, t):
        """value of a term: python scalar when it is a known constant"""
        if not isinstance(t, z3.ExprRef): return t
        if z3.is_app(t):
            d = t.decl()
            if d.eq(mkint):
                a = t.arg(0)
                return a.as_long() if z3.is_int_value(a) else SI(a)
            n = d.name()
            if t.num_args() == 0 and n.startswith('c!'):
                py = self.ctx_const(n)
                if py is not UNDEF: return py
            if n in REGISTRY and not n.startswith('c!'):
                return self.registered(t)
            if z3.is_app_of(t, z3.Z3_OP_ITE) and t.arg(1).eq(self.ctx.c_true) and t.arg(2).eq(self.ctx.c_false):
                return SB(t.arg(0))
            if n.startswith('tup') and t.num_args() == int(n[3:] or -1):
                return tuple(self.val(t.arg(j)) for j in range(t.num_args()))
        return Box(t)

    def registered(self, t):
        params, segs = REGISTRY[t.decl().name()]
        sub = list(zip(params, [t.arg(j) for j in range(t.num_args())]))
        return ListObj([self.sub_seg(s, sub) for s in segs])

    def sub_seg(self, s, sub):
        if isinstance(s, PSeg): return PSeg([subst_val(x, sub) if sub else x for x in s.items])
        return DSeg(s.bvs, z3.substitute(s.cond, *sub) if sub else s.cond, subst_val(s.value, sub) if sub else s.value,
                    s.ordered, None, s.distinct)

    def ctx_const(self, n):
        key = n[2:]
        if key == 'None': return None
        if key == 'True': return True
        if key == 'False': return False
        if key == '{}': return UNDEF
        if key.startswith('s'): return key[1:]
        if key.startswith('b'): return ast.literal_eval(key[1:])
        return UNDEF

    def dget_simp(self, t, k):
        """read through functional updates"""
        n = 0
        while z3.is_app(t) and n < 60:
            d = t.decl(); n += 1
            if d.eq(dset):
                if t.arg(1).eq(k): return t.arg(2)
                if self.distinct_consts(t.arg(1), k): t = t.arg(0); continue
            elif d.eq(ddel) and self.distinct_consts(t.arg(1), k): t = t.arg(0); continue
            break
        return dget(t, k)

    def dhas_simp(self, t, k):
        n = 0
        while z3.is_app(t) and n < 60:
            d = t.decl(); n += 1
            if d.eq(dset):
                if t.arg(1).eq(k): return z3.BoolVal(True)
                if self.distinct_consts(t.arg(1), k): t = t.arg(0); continue
            elif d.eq(ddel):
                if t.arg(1).eq(k): return z3.BoolVal(False)
                if self.distinct_consts(t.arg(1), k): t = t.arg(0); continue
            elif t.eq(self.ctx.c_empty): return z3.BoolVal(False)
            break
        return dhas(t, k)

    def distinct_consts(self, a, b):
        return (self.is_const(a) and self.is_const(b) and not a.eq(b))
    def is_const(self, t):
        if not z3.is_app(t): return False
        if t.num_args() == 0: return t.decl().name().startswith('c!')
        return t.decl().eq(mkint) and z3.is_int_value(t.arg(0))

    # ================================================================ truth and comparison
    def truth(self, v):
        """z3 Bool or python bool"""
        if isinstance(v, SB): return v.t
        if isinstance(v, SI): return v.t != 0
        if isinstance(v, Box):
            t = v.term()
            # an unknown container/string/None/number: truthiness is a function of the value
            return truthy(t)
        if isinstance(v, ListObj): return self.nonempty(v)
        if isinstance(v, DictObj):
            if v.box is None: return bool(v.d)
            return self.map_nonempty(v.box.term())
        if isinstance(v, SetObj):
            if v.box is None: return bool(v.items)
            return self.map_nonempty(v.box.term())
        if isinstance(v, (Obj, Func, Native, Bound, Cls, Mod, ExcObj)): return True
        if isinstance(v, Poison): raise Unsupported('read of a value left by a loop: ' + v.why)
        return bool(v)

    def test(self, v):
        t = self.truth(v)
        return self.ctx.decide(t)

    def map_nonempty(self, t):
        x = z3.Const('x', V)
        if t.eq(self.ctx.c_empty): return False
        return self.ctx.exists([x], dhas(t, x), 'nonempty')

    def nonempty(self, lst):
        fs = []
        for s in lst.segs:
            if isinstance(s, PSeg):
                if s.items: return True
            else:
                fs.append(self.seg_nonempty(s))
        if not fs: return False
        return z3.Or(*fs) if len(fs) > 1 else fs[0]

    def seg_nonempty(self, s):
        # a whole list term: use its length
        if len(s.bvs) == 1 and s.bvs[0].sort() == I:
            m = re.fullmatch(r'', '')
            if isinstance(s.value, z3.ExprRef) and z3.is_app(s.value) and s.value.decl().eq(lnth) and s.value.arg(1).eq(s.bvs[0]):
                t = s.value.arg(0)
                if s.cond.eq(z3.And(s.bvs[0] >= 0, s.bvs[0] < llen(t))): return llen(t) > 0
        return self.ctx.exists(s.bvs, s.cond, 'nonempty')

    def eq(self, a, b):
        """== as python bool or z3 Bool"""
        sc = (type(None), bool, int, float, str, bytes)
        if isinstance(a, sc) and isinstance(b, sc):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (SI,)):
                if isinstance(y, SI): return x.t == y.t
                if isinstance(y, bool): return x.t == int(y)
                if isinstance(y, int): return x.t == y
                if isinstance(y, Box): return mkint(x.t) == y.term()
                return False
            if isinstance(x, SB):
                if isinstance(y, SB): return x.t == y.t
                if isinstance(y, bool): return x.t if y else z3.Not(x.t)
                if isinstance(y, Box): return self.term(x) == y.term()
                return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            fs = [self.eq(x, y) for x, y in zip(a, b)]
            return self.conj(fs)
        if isinstance(a, (ListObj,)) or isinstance(b, (ListObj,)):
            l, o = (a, b) if isinstance(a, ListObj) else (b, a)
            if isinstance(o, ListObj):
                for p, q in ((l, o), (o, l)):
                    if q.concrete and not q.items():
                        return self.neg(self.nonempty(p))
                if l.concrete and o.concrete:
                    x, y = l.items(), o.items()
                    if len(x) != len(y): return False
                    return self.conj([self.eq(p, q) for p, q in zip(x, y)])
                raise Unsupported('equality of symbolic lists')
            if isinstance(o, Box):
                if l.concrete and not l.items():
                    t = o.term(); 
                    return z3.And(llen(t) == 0, ty(t) == T_LIST) if not self.known_list(t) else llen(t) == 0
                return self.term(l) == o.term()
            return False
        if isinstance(a, (DictObj, SetObj)) or isinstance(b, (DictObj, SetObj)):
            for p, q in ((a, b), (b, a)):
                if isinstance(q, (DictObj, SetObj)) and q.box is None and not (q.d if isinstance(q, DictObj) else q.items):
                    if isinstance(p, (DictObj, SetObj)): return self.neg(self.truth(p))
                    if isinstance(p, Box): return self.neg(self.map_nonempty(p.term()))
                    return False
            if isinstance(a, SetObj) and isinstance(b, SetObj):
                self.set_to_box(a); self.set_to_box(b)
                x = z3.Const('x', V)
                ta, tb = a.box.term(), b.box.term()
                return z3.Not(self.ctx.exists([x], dhas(ta, x) != dhas(tb, x), 'setdiff'))
            if isinstance(a, (DictObj, SetObj, Box)) and isinstance(b, (DictObj, SetObj, Box)):
                return self.term(a) == self.term(b)
            return False
        if isinstance(a, Box) or isinstance(b, Box):
            other = b if isinstance(a, Box) else a
            if isinstance(other, (Obj, Func, Native, Cls, Mod, ExcObj)): return False
            return self.term(a) == self.term(b)
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported('comparison of a value left by a loop')
        return a is b

    def known_list(self, t):
        return True

    def conj(self, fs):
        out = []
        for f in fs:
            if f is False: return False
            if f is True: continue
            out.append(f)
        if not out: return True
        return z3.And(*out) if len(out) > 1 else out[0]
    def disj(self, fs):
        return self.neg(self.conj([self.neg(f) for f in fs]))
    def neg(self, f):
        return (not f) if isinstance(f, bool) else z3.Not(f)

    def mkbool(self, f):
        if isinstance(f, bool): return f
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return SB(f)

    def contains(self, item, coll):
        """item in coll"""
        c = self.ctx
        if isinstance(coll, (tuple,)): return self.disj([self.eq(item, x) for x in coll])
        if isinstance(coll, ListObj):
            fs = []
            for s in coll.segs:
                if isinstance(s, PSeg): fs += [self.eq(item, x) for x in s.items]
                else:
                    it = self.term(item)
                    v = self.term(s.value)
                    fs.append(c.exists(s.bvs, z3.And(s.cond, v == it), 'in'))
            return self.disj(fs)
        if isinstance(coll, DictObj):
            if coll.box is None:
                return self.disj([self.eq(item, k) for k in coll.d])
            k = self.term(item); coll.box.log_key_read(k)
            return self.dhas_simp(coll.box.peek(), k)
        if isinstance(coll, SetObj):
            if coll.box is None: return self.disj([self.eq(item, k) for k in coll.items])
            k = self.term(item); coll.box.log_key_read(k)
            return self.dhas_simp(coll.box.peek(), k)
        if isinstance(coll, Box):
            if isinstance(item, (str, bytes, tuple)) or isinstance(item, Box):
                k = self.term(item)
                r = getattr(self, 'box_contains_hook', None)
                if r is not None:
                    x = r(item, coll)
                    if x is not None: return x
                coll.log_key_read(k)
                return self.dhas_simp(coll.peek(), k)
        if isinstance(coll, str) and isinstance(item, str): return item in coll
        if isinstance(coll, bytes) and isinstance(item, bytes): return item in coll
        if isinstance(coll, Obj):
            m = self.getattr_(coll, '__contains__', None)
            if m is not None: return self.truth(self.call(m, [item], {}))
        if isinstance(coll, (str, bytes)) and isinstance(item, Box):
            h = getattr(self, 'str_contains_hook', None)
            if h is not None:
                r = h(item, coll)
                if r is not None: return r
            return self.ctx_uf('substr_in', B, item, coll)
        raise Unsupported('in %r' % (coll,))

    def ctx_uf(self, name, ret, *args):
        ts = [self.term(a) for a in args]
        f = z3.Function(name, *([V] * len(ts) + [ret]))
        return f(*ts)

    # ================================================================ containers
    def dict_to_box(self, d):
        if d.box is not None: return d.box
        old = d.d
        keys = self.ctx.c_empty
        for k, x in d.d.items():
            t = self.term(x)
            keys = dset(keys, self.ctx.const(k), t)
        b = Box(keys)
        b.birth = d.birth
        for k, x in d.d.items():     # existing values become views of the new box where they are mutable
            if isinstance(x, (DictObj, ListObj)): self.attach(x, b, self.ctx.const(k))
        d.box = b; d.d = {}
        b.default = d.default
        def undo(s=d, o=old): s.box = None; s.d = o
        self.ctx.log(undo, d, ('tobox',))
        return b

    def set_to_box(self, s):
        if s.box is not None: return s.box
        t = self.ctx.c_empty
        for x in s.items: t = dset(t, self.term(x), self.ctx.c_true)
        b = Box(t); b.birth = s.birth
        old = s.items
        s.box = b; s.items = []
        def undo(s=s, o=old): s.box = None; s.items = o
        self.ctx.log(undo, s, ('tobox',))
        return b

    def attach(self, v, box, key):
        """v (a mutable object of the program) has been stored at box[key]: later changes of v go through"""
        if isinstance(v, DictObj):
            if v.box is None or v.box.parent is None:
                if v.birth <= box.birth and False: pass
                old_box, old_d = v.box, v.d
                view = box.get_key(key)
                v.box = view; v.d = {}
                if old_box is not None:
                    # the old root lives on only through v
                    pass
                def undo(s=v, b=old_box, d=old_d): s.box = b; s.d = d
                self.ctx.log(undo, None)
            else:
                box.root()[0].share_with(v.box.root()[0]); v.box.root()[0].share_with(box.root()[0])
        elif isinstance(v, Box):
            r = v.root()[0]
            if v.parent is not None:
                box.root()[0].share_with(r); r.share_with(box.root()[0])

    def store_key(self, coll, key, v):
        c = self.ctx
        if isinstance(coll, DictObj):
            if coll.box is None:
                if isinstance(key, (str, int, bytes, type(None), bool)) or (isinstance(key, tuple) and self.plain(key)):
                    old = coll.d
                    log_read2(self, ('w', coll, key))
                    coll.d = dict(old); coll.d[key] = v
                    def undo(s=coll, o=old): s.d = o
                    c.log(undo, coll, ('dkey', key, v))
                    return
                self.dict_to_box(coll)
            return self.store_key(coll.box, key, v)
        if isinstance(coll, Box):
            k = self.term(key)
            if isinstance(key, (int, SI)) and not self.is_map(coll):
                raise Unsupported('list element assignment on unknown list')
            t = self.term(v)
            coll.set_key(k, t)
            if isinstance(v, (DictObj, Box)): self.attach(v, coll, k)
            return
        if isinstance(coll, ListObj):
            if coll.concrete and isinstance(key, int):
                items = coll.items(); items[key] = v
                coll.set_segs([PSeg(items)], ('replace',)); return
            raise Unsupported('assignment to list element')
        if isinstance(coll, Obj):
            m = self.getattr_(coll, '__setitem__', None)
            if m is not None: return self.call(m, [key, v], {})
        raise Unsupported('item assignment on %r' % (coll,))

    def is_map(self, b): return True
    def plain(self, tp): return all(isinstance(x, (str, int, bytes, type(None))) for x in tp)

    def load_key(self, coll, key):
        c = self.ctx
        if isinstance(coll, DictObj):
            if coll.box is None:
                if getattr(coll, 'pairs', None) is not None: return self.load_default(coll, key)
                if isinstance(key, (str, int, bytes, type(None), bool)) or (isinstance(key, tuple) and self.plain(key)):
                    if key in coll.d:
                        log_read2(self, ('r', coll, key))
                        return coll.d[key]
                    log_read2(self, ('r', coll, key))
                    if coll.default is not None:
                        v = self.call(coll.default, [], {})
                        self.store_key(coll, key, v)
                        return v
                    py_raise(KeyError, key)
                if isinstance(coll.default, Native) and coll.default.name == 'list': return self.load_default(coll, key)
                # symbolic key into concrete dict: fork over the keys
                for k in list(coll.d):
                    if c.decide(self.eq(key, k)):
                        return coll.d[k]
                if coll.default is None: py_raise(KeyError, key)
                self.dict_to_box(coll)
            if coll.default is not None: return self.load_default(coll, key)
            return self.load_key(coll.box, key)
        if isinstance(coll, Box):
            if isinstance(key, SliceV): return self.slice_(coll, key)
            if isinstance(key, (int, SI)) and not isinstance(key, bool):
                h = getattr(self, 'box_index_hook', None)
                if h is not None:
                    r = h(coll, key)
                    if r is not None: return r
                t = coll.term()
                i = key.t if isinstance(key, SI) else z3.IntVal(key)
                if isinstance(key, int) and key < 0: i = llen(t) + key
                if not c.decide(z3.And(i >= 0, i < llen(t))): py_raise(IndexError, 'list index out of range')
                return self.norm_view(coll.get_elem(z3.simplify(i)))
            k = self.term(key)
            coll.log_key_read(k)
            if not c.decide(self.dhas_simp(coll.peek(), k)):
                py_raise(KeyError, key)
            r = self.dget_simp(coll.peek(), k)
            v = self.val(r)
            if isinstance(v, Box): return coll.get_key(k)
            if isinstance(v, ListObj): return ViewList.make(self, coll, k, v)
            return v
        if isinstance(coll, (tuple, str, bytes)):
            if isinstance(key, SliceV):
                if key.concrete(): return coll[slice(key.lo, key.hi, key.step)]
                return self.slice_(coll, key)
            if isinstance(key, int):
                try: return coll[key]
                except IndexError: py_raise(IndexError, 'index out of range')
        if isinstance(coll, ListObj):
            if isinstance(key, SliceV):
                if coll.concrete and key.concrete():
                    return ListObj(items=coll.items()[slice(key.lo, key.hi, key.step)])
                return self.slice_list(coll, key)
            if coll.concrete and isinstance(key, int):
                try: return coll.items()[key]
                except IndexError: py_raise(IndexError, 'index out of range')
            if isinstance(key, int) and key == 0: return self.list_first(coll)
            if isinstance(key, int) and key == -1 and coll.segs and isinstance(coll.segs[-1], PSeg) and coll.segs[-1].items:
                return coll.segs[-1].items[-1]
            if isinstance(key, int) and key == -1 and len(coll.segs) == 1: return self.list_first(coll, last=True)
        if isinstance(coll, Obj):
            m = self.getattr_(coll, '__getitem__', None)
            if m is not None: return self.call(m, [key], {})
        if isinstance(coll, (Native, Cls)): return coll     # typing subscript
        if isinstance(coll, Poison): raise Unsupported('read of a value left by a loop: ' + coll.why)
        raise Unsupported('subscript of %r' % (coll,))

    def list_first(self, lst, last=False):
        c = self.ctx
        for s in lst.segs:
            if isinstance(s, PSeg):
                if s.items: return s.items[0]
                continue
            ne = self.seg_nonempty(s)
            if c.decide(ne):
                ks = [c.fresh('el', b.sort()) for b in s.bvs]
                cond, v = s.inst(ks)
                c.assume(cond)
                if s.ordered and s.bvs[0].sort() == I and not last:
                    j = z3.Int('j')
                    c.assume(z3.ForAll([j], z3.Implies(z3.substitute(s.cond, (s.bvs[0], j)), j >= ks[0])))
                elif s.ordered and s.bvs[0].sort() == I:
                    hi = [x.arg(1) for x in s.cond.children() if z3.is_lt(x) and x.arg(0).eq(s.bvs[0])] if z3.is_and(s.cond) else []
                    if len(hi) == 1 and s.cond.num_args() == 2 and any(z3.is_ge(x) and x.arg(0).eq(s.bvs[0]) or z3.is_le(x) and x.arg(1).eq(s.bvs[0]) for x in s.cond.children()): c.assume(ks[0] == hi[0] - 1)      # the last of an interval
                return self.elem_value(s, ks)
        py_raise(IndexError, 'list index out of range')

    def load_default(self, coll, key):
        """defaultdict with symbolic keys"""
        if isinstance(coll.default, Native) and coll.default.name == 'list':
            from .builtins_ import group_view
            if getattr(coll, 'pairs', None) is None: self.to_groups(coll)
            return group_view(self, coll, key)
        k = self.term(key); b = coll.box
        b.log_key_read(k)
        if not self.ctx.decide(self.dhas_simp(b.peek(), k)):
            v = self.call(coll.default, [], {})
            self.store_key(b, key, v)
            if isinstance(v, ListObj): return ViewList.make(self, b, k, v)
            return v
        v = self.val(self.dget_simp(b.peek(), k))
        if isinstance(v, Box): return b.get_key(k)
        if isinstance(v, ListObj): return ViewList.make(self, b, k, v)
        return v

    def norm_view(self, b):
        t = b.peek()
        v = self.val(t)
        if isinstance(v, Box): return b
        b.term()
        return v

    def del_key(self, coll, key):
        if isinstance(coll, DictObj):
            if coll.box is None and isinstance(key, (str, int, bytes)):
                if key not in coll.d: py_raise(KeyError, key)
                old = coll.d; coll.d = dict(old); del coll.d[key]
                def undo(s=coll, o=old): s.d = o
                self.ctx.log(undo, coll, ('dkeydel', key))
                return
            self.dict_to_box(coll)
            return self.del_key(coll.box, key)
        if isinstance(coll, Box):
            k = self.term(key)
            coll.log_key_read(k)
            if not self.ctx.decide(self.dhas_simp(coll.peek(), k)): py_raise(KeyError, key)
            coll.del_key(k)
            return
        raise Unsupported('del item of %r' % (coll,))

    def dict_copy(self, d):
        if isinstance(d, DictObj):
            if d.box is None: return DictObj(d.d, d.default)
            n = DictObj(default=d.default); n.box = Box(d.box.term())
            n.box.share_with(d.box.root()[0]); d.box.root()[0].share_with(n.box)
            return n
        if isinstance(d, Box):
            n = DictObj(); n.box = Box(d.term())
            r = d.root()[0]
            n.box.share_with(r); r.share_with(n.box)
            return n
        raise Unsupported('copy of %r' % (d,))

    def deepcopy(self, v):
        if isinstance(v, DictObj):
            if v.box is None: return DictObj({k: self.deepcopy(x) for k, x in v.d.items()}, v.default)
            n = DictObj(default=v.default); n.box = Box(v.box.term()); return n
        if isinstance(v, Box):
            n = self.val(v.term())
            return n
        if isinstance(v, ListObj):
            return ListObj([PSeg([self.deepcopy(x) for x in s.items]) if isinstance(s, PSeg) else
                            DSeg(s.bvs, s.cond, self.snap(s.value), s.ordered, None, s.distinct) for s in v.segs])
        if isinstance(v, SetObj):
            n = SetObj(list(v.items)); 
            if v.box is not None: n.box = Box(v.box.term())
            return n
        if isinstance(v, tuple): return tuple(self.deepcopy(x) for x in v)
        return v

    # ---------------------------------------------------------------- iteration
    def iter_segs(self, v):
        """segments of an iterable"""
        c = self.ctx
        if isinstance(v, ListObj): return v.segs
        if isinstance(v, tuple): return [PSeg(list(v))]
        if isinstance(v, (str,)): return [PSeg(list(v))]
        if isinstance(v, GenExp): return self.comp_list(v.node, v.env).segs
        if isinstance(v, DictObj):
            if v.box is None: return [PSeg(list(v.d))]
            return self.map_segs(v.box, 'keys')
        if isinstance(v, SetObj):
            if v.box is None: return [PSeg(list(v.items))]
            return self.map_segs(v.box, 'keys')
        if isinstance(v, Box):
            h = getattr(self, 'box_iter_hook', None)
            if h is not None:
                r = h(v)
                if r is not None: return r
            t = v.peek()
            vv = self.val(t)
            if isinstance(vv, ListObj): return vv.segs
            # list or dict?  decide by the known type
            k = self.kind_of(t)
            if k == 'list': return self.list_box_segs(v)
            return self.map_segs(v, 'keys')
        if isinstance(v, Obj) and '_iter' in v.attrs: return v.attrs['_iter']()
        if isinstance(v, bytes): return [PSeg(list(v))]
        if isinstance(v, Poison): raise Unsupported('iteration over a value left by a loop: ' + v.why)
        raise Unsupported('iteration over %r' % (v,))

    def kind_of(self, t):
        if z3.is_app(t) and t.decl().eq(dset): return 'dict'
        if self.ctx.entails(ty(t) == T_LIST): return 'list'
        if self.ctx.entails(ty(t) == T_DICT): return 'dict'
        if self.ctx.decide(ty(t) == T_LIST): return 'list'
        return 'dict'

    def list_box_segs(self, b):
        t = b.term()
        i = self.ctx.fresh('i', I)
        return [DSeg([i], z3.And(i >= 0, i < llen(t)), lnth(t, i), True, ('elems', b))]

    def map_segs(self, b, what):
        t = b.term()
        k = self.ctx.fresh('k', V)
        if what == 'keys': return [DSeg([k], dhas(t, k), k, False, None)]
        if what == 'values': return [DSeg([k], dhas(t, k), dget(t, k), False, ('values', b))]
        return [DSeg([k], dhas(t, k), (k, dget(t, k)), False, ('items', b))]

    def elem_value(self, seg, ks):
        """value of the generic element for loop variables ks"""
        if seg.view is not None:
            kind, b = seg.view
            if kind == 'group':
                from .builtins_ import group_list
                d, what = b
                if what == 'keys': return self.val(ks[0])
                lst = group_list(self, d, ks[0])
                return lst if what == 'values' else (self.val(ks[0]), lst)
            if kind == 'elems': return self.norm_view(b.get_elem(ks[0]))
            if kind == 'values': return self.norm_view(b.get_key(ks[0]))
            if kind == 'items': return (self.val(ks[0]), self.norm_view(b.get_key(ks[0])))
        cond, v = seg.inst(ks)
        return self.wrap(v)

    def wrap(self, v):
        if isinstance(v, z3.ExprRef): return self.val(v)
        if isinstance(v, tuple): return tuple(self.wrap(x) for x in v)
        return v

    # ---------------------------------------------------------------- slices / strings: hooks in builtins_
    def slice_(self, v, sl):
        return self.slice_hook(v, sl)
    def slice_list(self, v, sl):
        h = getattr(self, 'slice_list_hook', None)
        if h is not None:
            r = h(v, sl)
            if r is not None: return r
        # xs[1:] of a list whose first segment has concrete elements
        if sl.hi is None and sl.step is None and isinstance(sl.lo, int) and sl.lo >= 0:
            segs = list(v.segs); n = sl.lo
            while n > 0 and segs and isinstance(segs[0], PSeg):
                it = segs[0].items
                if len(it) > n: segs[0] = PSeg(it[n:]); n = 0
                else: n -= len(it); segs.pop(0)
            if n == 0: return ListObj(segs)
        raise Unsupported('slice of symbolic list')

    # ================================================================ attributes and calls
    def getattr_(self, o, name, default=UNDEF):
        if isinstance(o, Obj):
            if name in o.attrs:
                log_read2(self, ('r', o, name))
                return o.attrs[name]
            if isinstance(o.cls, Cls):
                m = o.cls.lookup(name)
                if m is not None:
                    if isinstance(m, (Func, Native)): return Bound(m, o)
                    return m
            if default is not UNDEF: return default
            py_raise(AttributeError, name)
        if isinstance(o, Mod):
            if name in o.attrs: return o.attrs[name]
            if o.name in self.modules and name in self.modules[o.name].vars:
                return self.modules[o.name].vars[name]
            full = o.name + '.' + name
            if full in self.modules or self.module_path(full): return self.import_module(full)
            if full in self.externals: return self.externals[full]
            if default is not UNDEF: return default
            if getattr(o, 'opaque', False):
                def notmod(ip, a, k, nm=full): raise Unsupported('call of %s is not modelled' % nm)
                return Native(full, notmod)
            raise Unsupported('attribute %s.%s is not modelled' % (o.name, name))
        if isinstance(o, Cls):
            m = o.lookup(name)
            if m is not None: return m
            if name == '__name__': return o.name
            if default is not UNDEF: return default
            py_raise(AttributeError, name)
        if isinstance(o, ExcObj):
            if name in o.attrs: return o.attrs[name]
            if name == 'args': return tuple(o.args)
            if name == 'errno': return o.attrs.get('errno')
            if default is not UNDEF: return default
            py_raise(AttributeError, name)
        m = self.method_hook(o, name)
        if m is not None: return m
        if default is not UNDEF: return default
        if o is None and not name.startswith('__'): py_raise(AttributeError, name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def setattr_(self, o, name, v):
        if isinstance(o, Obj):
            old = o.attrs
            log_read2(self, ('w', o, name))
            o.attrs = dict(old); o.attrs[name] = v
            def undo(s=o, p=old): s.attrs = p
            self.ctx.log(undo, o, ('attr', name, v)); return
        if isinstance(o, Mod) and o.name in self.modules:
            self.setvar_in(self.modules[o.name], name, v); return
        if isinstance(o, Mod):
            o.attrs[name] = v; return
        raise Unsupported('attribute assignment on %r' % (o,))

    def call(self, f, args, kwargs):
        c = self.ctx
        c.check_deadline()
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Native):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, Func):
            ov = self.overrides.get(f.qualname)
            if ov is not None:
                self.contracts_used.add(f.qualname)
                return ov(self, list(args), dict(kwargs), f)
            return self.run_func(f, args, kwargs)
        if isinstance(f, Cls): return self.instantiate(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcObj(f, args, self.exc_attrs(f, args))
        if isinstance(f, Obj):
            m = self.getattr_(f, '__call__', None)
            if m is not None: return self.call(m, args, kwargs)
        if isinstance(f, Box):
            h = getattr(self, 'box_call_hook', None)
            if h is not None: return h(f, args, kwargs)
        raise Unsupported('call of %r' % (f,))

    def exc_attrs(self, f, args):
        a = {}
        if issubclass(f, OSError) and len(args) >= 2: a['errno'] = args[0]
        elif issubclass(f, OSError): a['errno'] = None
        return a

    def instantiate(self, cls, args, kwargs):
        for b in self.mro(cls):
            if isinstance(b, type) and issubclass(b, BaseException): return ExcObj(cls, args)
            if b == 'TypedDict': return DictObj(dict(kwargs)) if not args else self.dict_copy(args[0])
        o = Obj(cls)
        init = cls.lookup('__init__')
        if init is not None: self.call(init, [o] + list(args), kwargs)
        return o

    def mro(self, cls):
        out = [cls]
        for b in cls.bases:
            if isinstance(b, Cls): out += self.mro(b)
            else: out.append(b)
        return out

    def run_func(self, f, args, kwargs):
        self.funcs_run.add(f.qualname)
        env = self.bind(f, args, kwargs)
        if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, env)
        if is_generator(f.node): raise Unsupported('generator function ' + f.qualname)
        self.depth += 1
        if self.depth > 60: self.depth = 0; raise Unsupported('recursion without contract in ' + f.qualname)
        try:
            self.block(f.node.body, env)
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = Env(f.env, f.mod, f)
        names = [x.arg for x in (getattr(a, 'posonlyargs', []) + a.args)]
        args = list(args); kwargs = dict(kwargs)
        for n in names:
            if args: env.vars[n] = args.pop(0)
            elif n in kwargs: env.vars[n] = kwargs.pop(n)
            elif n in f.defaults: env.vars[n] = f.defaults[n]
            else: py_raise(TypeError, '%s() missing argument %s' % (f.name, n))
        if a.vararg is not None:
            # a list of unknown length handed on by * is bound as it is
            env.vars[a.vararg.arg] = args[0].v if len(args) == 1 and isinstance(args[0], StarV) else tuple(args); args = []
        for x in a.kwonlyargs:
            if x.arg in kwargs: env.vars[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults: env.vars[x.arg] = f.kwdefaults[x.arg]
            else: py_raise(TypeError, 'missing keyword argument')
        if a.kwarg is not None: env.vars[a.kwarg.arg] = DictObj(kwargs); kwargs = {}
        if args or kwargs: py_raise(TypeError, '%s() got unexpected arguments' % f.name)
        return env

    # ================================================================ variables
    def lookup(self, name, env):
        e = env
        if name in env.globalnames: e = None
        while e is not None:
            if name in e.vars:
                log_read2(self, ('r', e, name))
                v = e.vars[name]
                if isinstance(v, Poison): raise Unsupported('variable %s: %s' % (name, v.why))
                return v
            e = e.parent
            while e is not None and e.cls: e = e.parent
        g = env.globals
        if name in g.vars:
            log_read2(self, ('r', g, name))
            v = g.vars[name]
            if isinstance(v, Poison): raise Unsupported('variable %s: %s' % (name, v.why))
            return v
        if name in self.builtins: return self.builtins[name]
        if name in EXC and EXC[name] is not None: return EXC[name]
        py_raise(NameError, name)

    def setvar(self, name, v, env):
        if name in env.globalnames: return self.setvar_in(env.globals, name, v)
        if name in env.nonlocalnames:
            e = env.parent
            while e is not None:
                if name in e.vars: return self.setvar_in(e, name, v)
                e = e.parent
            raise Unsupported('nonlocal %s' % name)
        self.setvar_in(env, name, v)

    def setvar_in(self, env, name, v):
        old = env.vars.get(name, UNDEF)
        log_read2(self, ('w', env, name))
        env.vars[name] = v
        def undo(e=env, n=name, o=old):
            if o is UNDEF: e.vars.pop(n, None)
            else: e.vars[n] = o
        self.ctx.log(undo, env, ('var', name, v))

    # ================================================================ modules
    def module_path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        for x in (p + '.py', os.path.join(p, '__init__.py')):
            if name.split('.')[0] == 'bversion' and os.path.isfile(x): return x
        return None

    def import_module(self, name):
        if name in self.modules: return Mod(name)
        if name in self.externals: return self.externals[name]
        path = self.module_path(name)
        if path is None: raise Unsupported('module %s is not modelled' % name)
        src = open(path, encoding='utf8').read()
        tree = ast.parse(src, path)
        self.asts[name] = tree
        g = Env(None, None); g.globals = g
        g.vars['__name__'] = name
        g.func = None
        self.modules[name] = g
        self.modname = getattr(self, 'modname', {}); self.modname[id(g)] = name
        try:
            self.block(tree.body, g)
        except PyExc as e:
            raise Unsupported('import of %s raises %r' % (name, e.exc))
        return Mod(name)

    def get(self, dotted):
        """value of module.qualname"""
        parts = dotted.split('.')
        for j in range(len(parts), 0, -1):
            m = '.'.join(parts[:j])
            if self.module_path(m) and os.path.isfile(self.module_path(m)):
                v = self.import_module(m)
                for p in parts[j:]: v = self.getattr_(v, p)
                return v
        raise Unsupported('no such name ' + dotted)

    # ================================================================ statements
    def block(self, body, env):
        for st in body: self.stmt(st, env)

    def stmt(self, st, env):
        self.ctx.where = getattr(st, 'lineno', None)
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None: raise Unsupported('statement %s' % type(st).__name__)
        return m(st, env)

    def s_Pass(self, st, env): pass
    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant): return
        self.ev(st.value, env)
    def s_Import(self, st, env):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname: self.setvar(a.asname, m, env)
            else:
                top = a.name.split('.')[0]
                self.setvar(top, self.import_module(top) if top != a.name else m, env)
    def s_ImportFrom(self, st, env):
        if st.level: raise Unsupported('relative import')
        m = self.import_module(st.module)
        for a in st.names:
            if a.name == '*': raise Unsupported('import *')
            self.setvar(a.asname or a.name, self.getattr_(m, a.name), env)
    def s_FunctionDef(self, st, env):
        f = self.make_func(st, env)
        for d in reversed(st.decorator_list):
            dec = self.ev(d, env)
            r = self.call(dec, [f], {})
            self.setvar(st.name, r, env)
            if r is None: self.decorated = getattr(self, 'decorated', {}); self.decorated[f.qualname] = f
            f = r
        self.setvar(st.name, f, env)
    def make_func(self, st, env):
        a = st.args
        defaults = {}
        names = [x.arg for x in (getattr(a, 'posonlyargs', []) + a.args)]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults): defaults[n] = self.ev(d, env)
        kwd = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: kwd[x.arg] = self.ev(d, env)
        name = getattr(st, 'name', '<lambda>')
        q = self.qual(env) + '.' + name
        e = env
        while e is not None and e.cls: e = e.parent
        return Func(st, e if e is not env.globals else None, name, q, env.globals, defaults, kwd)
    def qual(self, env):
        if env is env.globals: return self.modname[id(env)]
        if env.cls: return env.cls
        if env.func is not None: return env.func.qualname
        return self.modname[id(env.globals)]
    def s_ClassDef(self, st, env):
        bases = [self.ev(b, env) for b in st.bases]
        q = self.qual(env) + '.' + st.name
        e = Env(env if env is not env.globals else None, env.globals); e.cls = q
        e.func = env.func
        self.block(st.body, e)
        self.setvar(st.name, Cls(st.name, bases, dict(e.vars), q), env)
    def s_Return(self, st, env):
        raise ReturnEx(self.ev(st.value, env) if st.value is not None else None)
    def s_Break(self, st, env): raise BreakEx()
    def s_Continue(self, st, env): raise ContinueEx()
    def s_Global(self, st, env): env.globalnames |= set(st.names)
    def s_Nonlocal(self, st, env): env.nonlocalnames |= set(st.names)
    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets: self.assign(t, v, env)
    def s_AnnAssign(self, st, env):
        if st.value is not None: self.assign(st.target, self.ev(st.value, env), env)
    def s_AugAssign(self, st, env):
        cur = self.ev(ast_load(st.target), env)
        v = self.ev(st.value, env)
        if isinstance(st.op, ast.Add) and isinstance(cur, ListObj):
            self.list_extend(cur, v)
            if isinstance(st.target, ast.Name): log_read2(self, None)
            return
        if isinstance(st.op, ast.BitOr) and isinstance(cur, (SetObj, DictObj)):
            self.call(self.getattr_(cur, 'update'), [v], {}); return
        self.assign(st.target, self.binop(st.op, cur, v), env)
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): self.setvar(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, vs): self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.store_key(o, self.ev_slice(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), t.attr, v)
        else: raise Unsupported('assignment target')
    def unpack(self, v, n, t=None):
        if isinstance(v, tuple): vs = list(v)
        elif isinstance(v, ListObj) and v.concrete: vs = v.items()
        elif isinstance(v, Box):
            h = getattr(self, 'unpack_hook', None)
            vs = h(v, n) if h is not None else None
            if vs is None:
                t = v.term()
                if not self.ctx.decide(llen(t) == n): py_raise(ValueError, 'unpack')
                vs = [self.norm_view(v.get_elem(z3.IntVal(j))) for j in range(n)]
        else: raise Unsupported('unpacking of %r' % (v,))
        if len(vs) != n: py_raise(ValueError, 'not enough values to unpack')
        return vs
    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript): self.del_key(self.ev(t.value, env), self.ev_slice(t.slice, env))
            elif isinstance(t, ast.Name): self.setvar(t.id, Poison('deleted'), env)
            else: raise Unsupported('del')
    def s_If(self, st, env):
        if self.test(self.ev(st.test, env)): self.block(st.body, env)
        else: self.block(st.orelse, env)
    def s_Raise(self, st, env):
        if st.exc is None:
            if not self.handling: raise Unsupported('bare raise')
            raise PyExc(self.handling[-1])
        e = self.ev(st.exc, env)
        if isinstance(e, type) or isinstance(e, Cls): e = self.call(e, [], {})
        if not isinstance(e, ExcObj): raise Unsupported('raise %r' % (e,))
        raise PyExc(e)
    handling = []
    def exc_match(self, exc, cls):
        if isinstance(cls, tuple): return any(self.exc_match(exc, c) for c in cls)
        if isinstance(exc.cls, type) and isinstance(cls, type): return issubclass(exc.cls, cls)
        if isinstance(exc.cls, Cls):
            return any(b is cls or (isinstance(b, type) and isinstance(cls, type) and issubclass(b, cls)) for b in self.mro(exc.cls))
        return False
    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.exc, self.ev(h.type, env)):
                        if h.name: self.setvar(h.name, e.exc, env)
                        self.handling = self.handling + [e.exc]
                        try: self.block(h.body, env)
                        finally: self.handling = self.handling[:-1]
                        break
                else: raise
            else:
                self.block(st.orelse, env)
        except (PathEnd, Unsupported, Crash):
            raise
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            self.block(st.finalbody, env)
            raise
        else:
            self.block(st.finalbody, env)
    def s_With(self, st, env):
        exits = []
        for it in st.items:
            m = self.ev(it.context_expr, env)
            en = self.getattr_(m, '__enter__', None)
            v = self.call(en, [], {}) if en is not None else m
            if it.optional_vars is not None: self.assign(it.optional_vars, v, env)
            ex = self.getattr_(m, '__exit__', None)
            if ex is not None: exits.append(ex)
        try:
            self.block(st.body, env)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            for ex in reversed(exits): self.call(ex, [None, None, None], {})
            raise
        for ex in reversed(exits): self.call(ex, [None, None, None], {})
    def s_Assert(self, st, env):
        if not self.test(self.ev(st.test, env)): py_raise(AssertionError)

    def s_For(self, st, env):
        from . import loops
        e = st.iter
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'iter' and len(e.args) == 2 and self.lookup('iter', env) is self.builtins.get('iter'):
            # for x in iter(f, end): the equivalent while loop
            f, end = self.ev(e.args[0], env), self.ev(e.args[1], env)
            env.vars['#f'], env.vars['#end'] = f, end
            src = ast.parse('while True:\n  T = F()\n  if T == E: break').body[0]
            src.body[0].targets = [st.target]; src.body[0].value.func = ast.Name('#f', ast.Load())
            t = ast.Name(st.target.id, ast.Load()) if isinstance(st.target, ast.Name) else None
            if t is None: raise Unsupported('iter(f, end) into several names')
            src.body[1].test = ast.Compare(t, [ast.Is() if end is None else ast.Eq()], [ast.Name('#end', ast.Load())])
            src.body = src.body + st.body; src.orelse = st.orelse
            for n in ast.walk(src):
                if not hasattr(n, 'lineno') or n in (src,) or n in src.body[:2]: n.lineno = st.lineno; n.col_offset = 0
            for b in src.body[:2]:
                for n in ast.walk(b): n.lineno = st.lineno; n.col_offset = 0
            if st.orelse: raise Unsupported('else of iter(f, end)')
            return loops.while_loop(self, src, env)
        it = self.ev(st.iter, env)
        loops.for_loop(self, it, lambda v: (self.assign(st.target, v, env), self.block(st.body, env)),
                       (lambda: self.block(st.orelse, env)) if st.orelse else None, env, st)

    def s_While(self, st, env):
        from . import loops
        loops.while_loop(self, st, env)

    # ================================================================ expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)
    def e_Constant(self, e, env):
        if e.value is Ellipsis: return None
        return e.value
    def e_Name(self, e, env): return self.lookup(e.id, env)
    def e_Attribute(self, e, env): return self.getattr_(self.ev(e.value, env), e.attr)
    def e_Tuple(self, e, env): return tuple(self.seq(e.elts, env))
    def e_List(self, e, env): return ListObj(items=self.seq(e.elts, env))
    def e_Set(self, e, env): return SetObj(self.seq(e.elts, env))
    def seq(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                segs = self.iter_segs(v)
                if not all(isinstance(s, PSeg) for s in segs): return out + [StarV(v)]
                for s in segs: out += s.items
            else: out.append(self.ev(x, env))
        return out
    def e_Dict(self, e, env):
        d = DictObj()
        for k, v in zip(e.keys, e.values):
            if k is None: self.call(self.getattr_(d, 'update'), [self.ev(v, env)], {})
            else: self.store_key(d, self.ev(k, env), self.ev(v, env))
        return d
    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)
    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.load_key(o, self.ev_slice(e.slice, env))
    def e_Lambda(self, e, env): return self.make_func(e, env)
    def e_IfExp(self, e, env):
        return self.ev(e.body if self.test(self.ev(e.test, env)) else e.orelse, env)
    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for j, x in enumerate(e.values):
            v = self.ev(x, env)
            if j == len(e.values) - 1: return v
            if isand != self.test(v): return v
        return v
    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not): return self.mkbool(self.neg(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, SI): return SI(-v.t)
            return -v
        raise Unsupported('unary operator')
    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))
    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            f = self.compare(op, left, right)
            if len(e.ops) == 1: return self.mkbool(f)
            if not self.ctx.decide(f): return False
            left = right
        return res
    def compare(self, op, a, b):
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq): return self.neg(self.eq(a, b))
        if isinstance(op, ast.Is): return self.is_(a, b)
        if isinstance(op, ast.IsNot): return self.neg(self.is_(a, b))
        if isinstance(op, ast.In): return self.contains(a, b)
        if isinstance(op, ast.NotIn): return self.neg(self.contains(a, b))
        return self.order(op, a, b)
    def is_(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y is None or isinstance(y, bool):
                if isinstance(x, Box):
                    t = x.term()
                    return t == self.ctx.const(y)
                if isinstance(x, SB): return self.eq(x, y) if isinstance(y, bool) else False
                return x is y
        return a is b
    def order(self, op, a, b):
        n = type(op).__name__
        if isinstance(a, (int, float, str, bytes, tuple)) and type(a) is type(b) and not isinstance(a, tuple):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[n]
        if isinstance(a, SetObj) or isinstance(b, SetObj):
            if n in ('LtE', 'GtE'):
                x, y = (a, b) if n == 'LtE' else (b, a)
                return self.subset(x, y)
        x, y = self.num(a), self.num(b)
        if x is None or y is None: raise Unsupported('ordering of %r and %r' % (a, b))
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[n]
    def subset(self, a, b):
        h = getattr(self, 'subset_hook', None)
        if h is not None:
            r = h(a, b)
            if r is not None: return r
        if a.box is None: return self.conj([self.contains(x, b) for x in a.items])
        x = z3.Const('x', V)
        bt = self.contains(Box(x), b)
        if isinstance(bt, bool): bt = z3.BoolVal(bt)
        return z3.Not(self.ctx.exists([x], z3.And(dhas(a.box.term(), x), z3.Not(bt)), 'notsub'))
    def num(self, v):
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, float): return z3.RealVal(repr(v))
        if isinstance(v, SI): return v.t
        if isinstance(v, Box): return realval(v.term())
        return None
    def binop(self, op, a, b):
        n = type(op).__name__
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or \
           (isinstance(a, str) and isinstance(b, str)) or (isinstance(a, bytes) and isinstance(b, bytes)):
            try:
                if n == 'Add': return a + b
                if n == 'Sub': return a - b
                if n == 'Mult': return a * b
                if n == 'Div': return a / b
                if n == 'FloorDiv': return a // b
                if n == 'Mod': return a % b
                if n == 'Pow': return a ** b
                if n == 'BitOr': return a | b
                if n == 'BitAnd': return a & b
            except TypeError: py_raise(TypeError)
        if isinstance(a, SetObj) and isinstance(b, SetObj): return self.set_op(n, a, b)
        if n == 'Add' and isinstance(a, ListObj) and isinstance(b, (ListObj, Box)):
            r = ListObj(list(a.segs)); self.list_extend(r, b); return r
        if n == 'Add' and isinstance(b, ListObj) and isinstance(a, Box):
            r = ListObj(list(self.iter_segs(a))); self.list_extend(r, b); return r
        if n == 'Add' and isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if n == 'Mult' and isinstance(a, ListObj) and isinstance(b, int): return ListObj(items=a.items() * b)
        if isinstance(a, (SI, int, bool)) and isinstance(b, (SI, int, bool)):
            x, y = self.num(a), self.num(b)
            if n == 'Add': return SI(x + y)
            if n == 'Sub': return SI(x - y)
            if n == 'Mult': return SI(x * y)
            if n in ('FloorDiv', 'Mod') and isinstance(b, int) and b > 0: return SI(x / y) if n == 'FloorDiv' else SI(x % y)
        h = getattr(self, 'binop_hook', None)
        if h is not None:
            r = h(n, a, b)
            if r is not None: return r
        if n in ('Add', 'Sub') and (isinstance(a, (Box, int, float)) and isinstance(b, (Box, int, float))):
            if isinstance(a, (int, float)) or isinstance(b, (int, float)):
                x, y = self.num(a), self.num(b)
                return Box(mkreal(x + y if n == 'Add' else x - y))
        if n == 'Add' and isinstance(a, (Box, str, bytes)) and isinstance(b, (Box, str, bytes)):
            return self.concat(a, b)
        if n == 'Add' and (a is None or b is None): py_raise(TypeError, 'unsupported operand')
        if n == 'Mod' and isinstance(a, str):
            return Box(self.ctx_uf('fmt', V, a, b if not isinstance(b, tuple) else b))
        raise Unsupported('operator %s on %r, %r' % (n, a, b))
    def concat(self, a, b):
        if a == '' or a == b'': return b
        if b == '' or b == b'': return a
        x, y = self.term(a), self.term(b)
        # right-associate
        if z3.is_app(x) and x.decl().eq(cat):
            return self.val(cat(x.arg(0), self.term(self.concat(Box(x.arg(1)) if not self.is_const(x.arg(1)) else self.val(x.arg(1)), b))))
        return Box(cat(x, y))
    def set_op(self, n, a, b):
        if a.box is None and b.box is None and all(isinstance(x, (str, int, bytes)) for x in a.items + b.items):
            sa, sb = a.items, b.items
            if n == 'BitOr': return SetObj(sa + [x for x in sb if x not in sa])
            if n == 'BitAnd': return SetObj([x for x in sa if x in sb])
            if n == 'Sub': return SetObj([x for x in sa if x not in sb])
            if n == 'BitXor': return SetObj([x for x in sa if x not in sb] + [x for x in sb if x not in sa])
        ta = self.set_to_box(a).term(); tb = self.set_to_box(b).term()
        r = self.ctx.fresh('set')
        x = z3.Const('x', V)
        p, q = dhas(ta, x), dhas(tb, x)
        f = {'BitOr': z3.Or(p, q), 'BitAnd': z3.And(p, q), 'Sub': z3.And(p, z3.Not(q)), 'BitXor': p != q}[n]
        self.ctx.assume(z3.ForAll([x], dhas(r, x) == f, patterns=[dhas(r, x)]))
        self.ctx.assume(z3.ForAll([x], dhas(r, x) == f, patterns=[dhas(ta, x)]))
        self.ctx.assume(z3.ForAll([x], dhas(r, x) == f, patterns=[dhas(tb, x)]))
        return SetObj(box=Box(r))
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred): args += self.seq([a], env)
            else: args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, DictObj) or d.box is not None: raise Unsupported('** of symbolic dict')
                kwargs.update(d.d)
            else: kwargs[k.arg] = self.ev(k.value, env)
        ln = getattr(e, 'lineno', None)
        r = self.call(f, args, kwargs)
        self.ctx.where = ln
        return r
    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else: parts.append(self.call(self.builtins['str'], [self.ev(v.value, env)], {}))
        r = ''
        for p in parts: r = self.binop(ast.Add(), r, p)
        return r
    def e_ListComp(self, e, env): return self.comp_list(e, env)
    def e_GeneratorExp(self, e, env): return GenExp(e, env)
    def e_SetComp(self, e, env):
        s = SetObj()
        self.comp(e.generators, env, lambda en: self.set_add(s, self.ev(e.elt, en)))
        return s
    def e_DictComp(self, e, env):
        d = DictObj()
        self.comp(e.generators, env, lambda en: self.store_key(d, self.ev(e.key, en), self.ev(e.value, en)))
        return d
    def comp_list(self, e, env):
        l = ListObj()
        self.comp(e.generators, env, lambda en: l.append(self.ev(e.elt, en)))
        return l
    def comp(self, gens, env, leaf):
        from . import loops
        en = Env(env if env is not env.globals else None, env.globals, env.func)
        en.globalnames = env.globalnames
        def go(j, en):
            if j == len(gens): leaf(en); return
            g = gens[j]
            it = self.ev(g.iter, en if j else env)
            def body(v):
                self.assign(g.target, v, en)
                for c in g.ifs:
                    if not self.test(self.ev(c, en)): return
                go(j + 1, en)
            loops.for_loop(self, it, body, None, en, None)
        go(0, en)
    def set_add(self, s, v):
        if s.box is None and isinstance(v, (str, int, bytes, type(None))):
            if v in s.items: return
            old = s.items; s.items = old + [v]
            def undo(s=s, o=old): s.items = o
            self.ctx.log(undo, s, ('sadd', v)); return
        b = self.set_to_box(s)
        b.set_key(self.term(v), self.ctx.c_true)
    def list_extend(self, lst, v):
        segs = self.iter_segs(v)
        for s in segs:
            if isinstance(s, PSeg):
                for x in s.items: lst.append(x)
            else:
                lst.set_segs(lst.segs + [DSeg(s.bvs, s.cond, self.snap(s.value), s.ordered, None, s.distinct)], ('extend', s))
    def e_Starred(self, e, env): raise Unsupported('starred')
    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env); self.assign(e.target, v, env); return v
    def e_Slice(self, e, env): return self.ev_slice(e, env)

class SliceV:
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
    def concrete(self): return all(x is None or isinstance(x, int) for x in (self.lo, self.hi, self.step))

class StarV:
    """*args of a list of unknown length"""
    def __init__(self, v): self.v = v

class ViewList(ListObj):
    """list stored in a symbolic dict: appends are written back"""
    @staticmethod
    def make(interp, box, key, lst):
        v = ViewList(list(lst.segs)); v.interp, v.vbox, v.vkey = interp, box, key
        return v
    def set_segs(self, segs, op):
        ListObj.set_segs(self, segs, None)
        self.vbox.set_key(self.vkey, self.interp.list_term(segs))

def ast_load(t):
    import copy
    t = copy.copy(t); t.ctx = ast.Load(); return t

def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
    return False

def log_read2(interp, ev):
    a = interp.ctx.accesses
    if a is not None and ev is not None: a.append(ev)

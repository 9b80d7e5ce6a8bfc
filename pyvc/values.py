"""Run-time values of the symbolic executor.

Concrete Python scalars (None, bool, int, float, str, bytes) and tuples stand for themselves.  Everything else is one of:
  SI / SB      symbolic integer / boolean
  Box          an unknown value: a term of sort V, possibly a view of an element of another Box (writes go through)
  DictObj      a dict built by the program: concrete keys, or a term once a symbolic key is stored
  ListObj      a list built by the program: segments of concrete elements and of symbolic families of elements
  SetObj       a set: concrete elements plus families
  Obj/Cls/Func/Bound/Native/Mod  objects, classes and functions
"""
import z3
from . import core
from .core import *

CTX = None   # current Ctx

def set_ctx(c):
    global CTX
    CTX = c

class SI:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SI(%s)' % self.t

class SB:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SB(%s)' % self.t

class ExcObj:
    """an exception instance"""
    def __init__(self, cls, args=(), attrs=None):
        self.cls, self.args, self.attrs = cls, tuple(args), dict(attrs or {})
    def __repr__(self): return 'Exc(%s%r)' % (getattr(self.cls, '__name__', self.cls), self.args)

class PyExc(Exception):
    def __init__(self, exc): self.exc = exc
    def __repr__(self): return 'PyExc(%r)' % self.exc

def py_raise(cls, *args, **attrs):
    raise PyExc(ExcObj(cls, args, attrs))

class Crash(Exception):
    """the process dies here"""

# ------------------------------------------------------------------ boxes
class Box:
    """Unknown value; root (own term) or view of an element of another box."""
    __slots__ = ('_t', 'parent', 'key', 'kids', 'birth', 'name', 'shared', 'stale', 'kind', 'meta', 'default')
    def __init__(self, t=None, parent=None, key=None, name=None, kind=None):
        self._t, self.parent, self.key, self.kids = t, parent, key, {}
        self.birth = CTX.tick(); self.name = name
        self.shared = None; self.stale = False
        self.kind = kind        # 'list' when the element is reached by index
        self.meta = None; self.default = None

    def root(self):
        b = self; key = None
        while b.parent is not None:
            key = b.key; b = b.parent
        return b, key

    def term(self, log=True):
        if self.parent is None:
            if log: log_read(self, None)
            return self._t
        if log:
            r, k = self.root()
            log_read(r, k)
        return self._view_term()

    def _view_term(self):
        if self.parent is None: return self._t
        p = self.parent._view_term()
        return lnth(p, self.key) if self.kind == 'elem' else dget(p, self.key)

    def peek(self): return self._view_term()

    def get_key(self, key):
        """element view"""
        kid = self.kids.get(key.get_id())
        if kid is not None and kid.parent is self: return kid
        kid = Box(parent=self, key=key)
        self.kids[key.get_id()] = kid
        CTX.log(lambda s=self, i=key.get_id(): s.kids.pop(i, None), None)
        return kid

    def get_elem(self, idx):
        kid = self.kids.get(('e', idx.get_id()))
        if kid is not None and kid.parent is self: return kid
        kid = Box(parent=self, key=idx, kind='elem')
        self.kids[('e', idx.get_id())] = kid
        CTX.log(lambda s=self, i=('e', idx.get_id()): s.kids.pop(i, None), None)
        return kid

    def log_key_read(self, key):
        r, k = self.root()
        log_read(r, key if r is self else k)

    # ---- mutation
    def _assign(self, new, op=None):
        """replace the value of this box"""
        if self.stale: raise Unsupported('mutation of a value shared with a summarised container')
        if self.parent is None:
            old = self._t
            self._t = new
            def undo(s=self, o=old): s._t = o
            CTX.log(undo, self, op or ('assign', new))
        else:
            p, k = self.parent, self.key
            note_shared_write(p)
            if self.kind == 'elem':
                raise Unsupported('in-place change of a list element')
            r, rkey = self.root()
            CTX.inplace.setdefault(id(r), []).append(rkey)
            p._assign(dset(p._view_term(), k, new), ('dset', k, new) if p.parent is None else None)
            # note: nested views log a dset on the root with the top-level key
    def set_key(self, key, val):
        self.detach(key)
        if self.parent is None:
            self._assign(dset(self._t, key, val), ('dset', key, val))
        else:
            self._assign(dset(self._view_term(), key, val))

    def del_key(self, key):
        self.detach(key)
        if self.parent is None:
            self._assign(ddel(self._t, key), ('ddel', key))
        else:
            self._assign(ddel(self._view_term(), key))

    def detach(self, key):
        for kid in list(self.kids.values()):
            if kid.parent is not self or kid.kind == 'elem': continue
            same = kid.key.eq(key)
            if not same and CTX.maybe_equal(kid.key, key):
                same = CTX.decide(kid.key == key)
            if same: kid.freeze()

    def freeze(self, stale=False):
        if self.parent is None: return
        old = (self._t, self.parent, self.key, self.stale, self.kind)
        self._t = self._view_term(); self.parent = None; self.key = None; self.kind = None
        if stale: self.stale = True
        def undo(s=self, o=old): s._t, s.parent, s.key, s.stale, s.kind = o
        CTX.log(undo, None)

    def freeze_kids(self, loop=False):
        """element views keep the value they have; those a loop may have changed in place become unknown"""
        ks = CTX.inplace.get(id(self), ()) if loop else ()
        for kid in list(self.kids.values()):
            if kid.parent is self:
                k = kid.key; hit = kid.kind != 'elem' and any(k.eq(x) or CTX.maybe_equal(k, x) for x in ks)
                kid.freeze(stale=True)
                if hit:
                    old = kid._t
                    kid._t = CTX.fresh('inplace'); CTX.assume(ty(kid._t) == ty(old))
                    kid.freeze_kids_deep()
                    def undo(s=kid, o=old): s._t = o
                    CTX.log(undo, None)
    def freeze_kids_deep(self):
        for kid in list(self.kids.values()):
            if kid.parent is self:
                kid.freeze(stale=True)
                old = kid._t
                kid._t = CTX.fresh('inplace'); CTX.assume(ty(kid._t) == ty(old))
                kid.freeze_kids_deep()
                def undo(s=kid, o=old): s._t = o
                CTX.log(undo, None)

    def replace(self, new):
        """wholesale replacement (havoc, update): element views keep their old value"""
        self.freeze_kids()
        self._assign(new, ('replace', new))

    def share_with(self, other_root):
        if other_root is self: return
        old = self.shared
        self.shared = (old or ()) + (other_root,)
        def undo(s=self, o=old): s.shared = o
        CTX.log(undo, None)

    def __repr__(self): return 'Box(%s)' % self._view_term()

def note_shared_write(b):
    """an element of b is changed in place: containers sharing its elements are no longer known"""
    r, _ = b.root()
    if r.shared:
        for o in r.shared:
            if isinstance(o, Box):
                o.freeze_kids()
                o._assign(CTX.fresh('shared'), ('replace', None))
            elif isinstance(o, (ListObj,)):
                o.havoc('shared')

def log_read(root, key):
    if CTX.reads is not None:
        CTX.reads.append((root, key))

# ------------------------------------------------------------------ lists
class PSeg:
    __slots__ = ('items',)
    def __init__(self, items): self.items = items
class DSeg:
    """family of elements: value(bvs) for every bvs with cond(bvs)"""
    __slots__ = ('bvs', 'cond', 'value', 'ordered', 'view', 'distinct')
    def __init__(self, bvs, cond, value, ordered=False, view=None, distinct=True):
        self.bvs, self.cond, self.value, self.ordered, self.view = bvs, cond, value, ordered, view
        self.distinct = distinct
    def inst(self, args):
        sub = list(zip(self.bvs, args))
        return z3.substitute(self.cond, *sub), subst_val(self.value, sub)

def subst_val(v, sub):
    if isinstance(v, z3.ExprRef): return z3.substitute(v, *sub)
    if isinstance(v, tuple): return tuple(subst_val(x, sub) for x in v)
    if isinstance(v, SI): return SI(z3.substitute(v.t, *sub))
    if isinstance(v, SB): return SB(z3.substitute(v.t, *sub))
    if isinstance(v, Box):
        return Box(z3.substitute(v._view_term(), *sub))
    return v

class ListObj:
    def __init__(self, segs=None, items=None):
        self.segs = segs if segs is not None else ([PSeg(list(items))] if items else [])
        self.birth = CTX.tick()
        self.shared = None
    @property
    def concrete(self): return all(isinstance(s, PSeg) for s in self.segs)
    def items(self):
        assert self.concrete
        return [x for s in self.segs for x in s.items]
    def set_segs(self, segs, op):
        old = self.segs
        self.segs = segs
        def undo(s=self, o=old): s.segs = o
        CTX.log(undo, self, op)
    def append(self, v):
        segs = list(self.segs)
        if segs and isinstance(segs[-1], PSeg): segs[-1] = PSeg(segs[-1].items + [v])
        else: segs.append(PSeg([v]))
        self.set_segs(segs, ('append', v))
    def havoc(self, why):
        t = CTX.fresh('havoclist')
        i = CTX.fresh('hi', I)
        CTX.assume(z3.And(ty(t) == T_LIST, llen(t) >= 0))
        self.set_segs([DSeg([i], z3.And(i >= 0, i < llen(t)), lnth(t, i), True)], ('replace',))
    def __repr__(self): return 'ListObj(%s)' % ', '.join(repr(s.items) if isinstance(s, PSeg) else
                                                         '{%s | %s}' % (s.value, s.cond) for s in self.segs)

class DictObj:
    """dict; concrete keys (ordered) until a symbolic key is used, then a Box"""
    def __init__(self, d=None, default=None):
        self.d = dict(d or {})        # python key -> value
        self.box = None
        self.birth = CTX.tick()
        self.default = default        # defaultdict factory
        self.frozen_share = None; self.pairs = None
    def __repr__(self): return 'DictObj(%r)' % (self.d if self.box is None else self.box,)

class SetObj:
    """set = members(V)->Bool predicate box; concrete elements kept as long as possible"""
    def __init__(self, items=None, box=None):
        self.items = list(items or [])   # concrete scalars
        self.box = box                   # Box used as a map: dhas(term, x)
        self.birth = CTX.tick()
    def __repr__(self): return 'SetObj(%r,%r)' % (self.items, self.box)

# ------------------------------------------------------------------ code values
class Env:
    __slots__ = ('vars', 'parent', 'globals', 'birth', 'globalnames', 'nonlocalnames', 'func', 'cls')
    def __init__(self, parent, globs, func=None):
        self.vars = {}; self.parent = parent; self.globals = globs
        self.birth = CTX.tick()
        self.globalnames = set(); self.nonlocalnames = set(); self.func = func; self.cls = False

class Func:
    def __init__(self, node, env, name, qualname, mod, defaults, kwdefaults):
        self.node, self.env, self.name, self.qualname, self.mod = node, env, name, qualname, mod
        self.defaults, self.kwdefaults = defaults, kwdefaults
    def __repr__(self): return '<func %s>' % self.qualname
class Native:
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return '<native %s>' % self.name
class Bound:
    def __init__(self, func, self_): self.func, self.self_ = func, self_
class Cls:
    def __init__(self, name, bases, attrs, qualname):
        self.name, self.bases, self.attrs, self.qualname = name, bases, attrs, qualname
    def lookup(self, n):
        if n in self.attrs: return self.attrs[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(n)
                if r is not None: return r
        return None
    def __repr__(self): return '<class %s>' % self.qualname
class Obj:
    """instance of an interpreted class, or an opaque stub object (cls may be a string)"""
    def __init__(self, cls, attrs=None):
        self.cls = cls; self.attrs = dict(attrs or {}); self.birth = CTX.tick()
    def __repr__(self): return '<%s object>' % getattr(self.cls, 'name', self.cls)
class Mod:
    def __init__(self, name, attrs=None):
        self.name = name; self.attrs = attrs if attrs is not None else {}
    def __repr__(self): return '<module %s>' % self.name
class Poison:
    def __init__(self, why): self.why = why
class GenExp:
    def __init__(self, node, env): self.node, self.env = node, env

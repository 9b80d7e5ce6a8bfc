"""Slices of concatenations: the pieces that lie between two known positions."""
import z3
from .core import *
from .values import *
from . import builtins_ as bi

def pieces(t):
    if z3.is_app(t) and t.decl().eq(cat): return pieces(t.arg(0)) + pieces(t.arg(1))
    return [t]

class Bytes:
    def __init__(self, ip):
        self.ip, self.c = ip, ip.ctx
        old = getattr(ip, 'slice_str_hook', None)
        def hook(v, s):
            if isinstance(v, Box) and s.step is None:
                r = self.slice(v, s)
                if r is not None: return r
            return old(v, s) if old else None
        ip.slice_str_hook = hook
        oldx = getattr(ip, 'box_index_hook', None)
        def index(coll, key):
            # a byte of a leading (or trailing) constant piece
            t = coll.peek()
            if isinstance(key, int):
                ps = [ip.val(p) for p in pieces(t)]
                if key >= 0 and isinstance(ps[0], (bytes, str)) and key < len(ps[0]): return ps[0][key]
                if key < 0 and isinstance(ps[-1], (bytes, str)) and -key <= len(ps[-1]): return ps[-1][key]
            return oldx(coll, key) if oldx else None
        ip.box_index_hook = index
        olds = getattr(ip, 'str_hook', None)
        def meth(name, o, a, k):
            if name in ('startswith', 'endswith') and isinstance(o, Box) and len(a) == 1 and isinstance(a[0], (bytes, str)):
                p = ip.val(pieces(o.peek())[0 if name == 'startswith' else -1])
                if isinstance(p, (bytes, str)) and len(p) >= len(a[0]): return getattr(p, name)(a[0])
            return olds(name, o, a, k) if olds else None
        ip.str_hook = meth
    def length(self, t):
        k = self.ip.val(t)
        return z3.IntVal(len(k)) if isinstance(k, (str, bytes)) else slen(t)
    def slice(self, v, s):
        ip, c = self.ip, self.c
        t = v.peek(); ps = pieces(t)
        if not c.entails(z3.Or(ty(t) == T_BYTES, ty(t) == T_STR)) and len(ps) == 1: return None
        pos = [z3.IntVal(0)]
        for p in ps: pos.append(z3.simplify(pos[-1] + self.length(p)))
        def bound(x, default):
            if x is None: return default
            n = ip.num(x); n = z3.IntVal(n) if isinstance(n, int) else n
            if c.entails(n < 0): n = pos[-1] + n
            if c.entails(n >= pos[-1]): n = pos[-1]
            return z3.simplify(n)
        lo, hi = bound(s.lo, pos[0]), bound(s.hi, pos[-1])
        i, j = self.at(pos, lo), self.at(pos, hi)
        if i is None or j is None: return None
        if j <= i: return b'' if c.entails(ty(t) == T_BYTES) or any(isinstance(ip.val(p), bytes) for p in ps) else ''
        r = ip.val(ps[i])
        for p in ps[i + 1:j]: r = ip.concat(r, ip.val(p))
        return r
    def at(self, pos, b):
        for k, p in enumerate(pos):
            if z3.is_true(z3.simplify(p == b)): return k
        for k, p in enumerate(pos):
            if self.c.entails(p == b): return k
        return None

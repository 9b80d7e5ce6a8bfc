"""Reading something in pieces until it ends: the state of the reader and the invariant of the loop that copies it."""
import z3
from .core import *
from .values import *
from .loops import while_inv

class Stream:
    """end: what read returns at the end (None or b''); whole: the complete content, when it is known"""
    def __init__(self, ip, end, whole=None):
        self.ip, self.c, self.end, self.whole = ip, ip.ctx, end, whole
        x, y, z = z3.Consts('x y z', V)
        self.c.bg.append(z3.ForAll([x, y, z], cat(cat(x, y), z) == cat(x, cat(y, z)), patterns=[cat(cat(x, y), z)]))
        self.g = Obj('ghost', {'got': b'', 'eof': False, 'last': None, 'n': 0})
    def read(self, ip, a, k):
        """the next piece (not empty), or the end"""
        c, g = self.c, self.g
        if isinstance(g.attrs['n'], int): ip.setattr_(g, 'n', g.attrs['n'] + 1)
        e = g.attrs['eof']; e = ip.truth(e)
        if (c.decide(e) if z3.is_expr(e) else e) or c.choose('end'):
            ip.setattr_(g, 'eof', True)
            if self.whole is not None: c.assume(self.got() == self.whole)
            ip.setattr_(g, 'last', self.end); return self.end
        ch = c.fresh('piece'); c.assume([ty(ch) == T_BYTES, slen(ch) > 0, truthy(ch)])
        b = Box(ch)
        ip.setattr_(g, 'got', ip.concat(ip.val(self.got()), b)); ip.setattr_(g, 'last', b)
        return b
    def got(self): return self.ip.term(self.g.attrs['got'])
    def eof(self):
        e = self.ip.truth(self.g.attrs['eof']); return e if z3.is_expr(e) else z3.BoolVal(e)
    def loop(self, st, env, sink, extra=lambda: []):
        """copying into a place whose content is sink(); extra: further invariants"""
        ip, c, g = self.ip, self.c, self.g
        if g.attrs['eof'] is True: return NotImplemented
        ahead = g.attrs['n'] == 1
        names = [n for n, x in env.vars.items() if x is g.attrs['last']] if ahead else []
        if g.attrs['n'] not in (0, 1) or ahead and not names: raise Unsupported('loop over a stream that was read before')
        T = lambda v: v if z3.is_expr(v) else ip.term(v)
        def inv():
            s, got, eof = T(sink()), self.got(), self.eof()
            if not ahead: return [('what was copied is what was read', z3.And(s == got, z3.Not(eof)))] + extra()
            last = T(env.vars[names[0]]); l0 = T(g.attrs['last'])
            return [('what was copied, and the piece read ahead, is what was read', z3.And(last == l0, z3.If(eof, z3.And(last == T(self.end), s == got), z3.And(ty(last) == T_BYTES, slen(last) > 0, truthy(last), got == T(ip.concat(ip.val(s), Box(last)))))))] + extra()
        while_inv(ip, st, env, inv, 'copying')

"""Common setting of the specifications of versioned_storage: one store with an arbitrary content."""
import z3
from .core import *
from .values import *
from .env_base import setm, ext, trust
from . import builtins_ as bi
from .world import *
from .srv import sdb_contract, chain

STORE = 'bversion.storage.versioned_storage.versioned_storage'
chars = F('chars', V, V)        # set of the characters of a text (as a map)
objd = F('objd', V, V)          # the object stored under a hash (C09: what read_index_object returns)
sfn = F('sfn', V, B)            # a text without '/' (names in tree objects)
HEX = '0123456789abcdef'

def hexonly(w, h):
    """every character of h is a lower-case hexadecimal digit"""
    x = z3.Const('x', V)
    return z3.ForAll([x], z3.Implies(dhas(chars(h), x), z3.Or(*[x == w.c.const(d) for d in HEX])))

def chars_hooks(w):
    """set(text), iteration over the characters of a text"""
    ip, c = w.ip, w.c
    x, y = z3.Consts('x y', V)
    c.bg.append(z3.ForAll([x, y], z3.Implies(dhas(chars(x), y), ty(y) == T_STR), patterns=[dhas(chars(x), y)]))
    def is_str(t): return c.entails(ty(t) == T_STR)
    def set_of(s, it):
        t = it.peek()
        if not is_str(t) or s.box is not None or s.items: return False
        s.box = Box(chars(t)); s.box.birth = s.birth; return True
    ip.set_of_hook = set_of
    def it(v):
        t = v.peek()
        if not is_str(t): return None
        k = c.fresh('ch'); return [DSeg([k], dhas(chars(t), k), k, False, None)]
    ip.box_iter_hook = it
    old = ip.contains
    def re_full(ip, a, k):
        if a[0] in ('[0-9a-f]*', '[0123456789abcdef]*', '^[0-9a-f]*$', r'\A[0-9a-f]*\Z', '[a-f0-9]*'): ok = hexonly(w, ip.term(a[1]))
        elif a[0] in ('[0-9a-f]+', '[a-f0-9]+', '[0-9a-f]{64}'):
            ok = z3.And(hexonly(w, ip.term(a[1])), slen(ip.term(a[1])) > 0)
        else: raise Unsupported('regular expression %r' % (a[0],))
        e = c.fresh('rematch', B); c.assume(z3.Implies(e, ok))
        if a[0].endswith('*') or True: c.assume(z3.Implies(z3.And(ok, z3.BoolVal(a[0].endswith('*'))), e))
        return Obj('match') if c.decide(e) else None
    setm(ip, 're', 'fullmatch', re_full)
    import re as _re
    # membership of a character in a constant text
    oldc = getattr(ip, 'str_contains_hook', None)
    ip.str_contains_hook = lambda item, coll: z3.Or(*[ip.term(item) == c.const(d) for d in coll]) if all(ord(d) < 128 for d in coll) and is_char(w, ip.term(item)) else None

def is_char(w, t):
    return z3.is_const(t) and t.decl().name().startswith('ch!') or z3.is_app(t) and 'lf_ch' in t.decl().name()

OVERRIDE = [False]
def overridden(unit):
    """the same unit for a repository whose database is elsewhere (path_override)"""
    def run(v):
        OVERRIDE[0] = True
        try: unit(v)
        finally: OVERRIDE[0] = False
    return run
def both(units):
    return units + [(n + ' (override)', overridden(u)) for n, u in units]

def store(v, modules=('bversion.storage.versioned_storage',)):
    ip = v.interp(); c = ip.ctx
    w = World(ip)
    for m in modules: ip.import_module(m)
    chars_hooks(w)
    bp = c.fresh('base_path'); c.bg += [ty(bp) == T_STR, truthy(bp)]
    me = Obj(ip.get(STORE), {'base_path': Box(bp), 'path_override': None, 'lock_file': None})
    w.bp = bp; w.db = pth(bp, c.const('server_transient.db'))
    if OVERRIDE[0]:
        po = c.fresh('path_override'); c.bg += [ty(po) == T_STR, po != c.c_none, truthy(po)]
        me.attrs['path_override'] = Box(po); w.db = po
    w.initial_active_files = lambda db: None
    sdb_contract(w)
    return ip, c, w, me, bp

def obj_term(w, h, kind):
    """the object of this kind stored under h, by the contract of read_index_object: a dictionary of that type with the fields the writers give it"""
    c = w.c
    t = objd(h)
    c.assume([ty(t) == T_DICT, dhas(t, c.const('type')), dget(t, c.const('type')) == c.const(kind)])
    if kind == 'tree':
        for k in ('files', 'dirs'):
            d = dget(t, c.const(k)); c.assume([dhas(t, c.const(k)), ty(d) == T_DICT])
        x = z3.Const('x', V); d = dget(t, c.const('dirs')); fl = dget(t, c.const('files'))
        c.assume(z3.ForAll([x], z3.Implies(dhas(d, x), z3.And(ty(x) == T_STR, ty(dget(d, x)) == T_STR, sfn(x))), patterns=[dhas(d, x)]))
        c.assume(z3.ForAll([x], z3.Implies(dhas(fl, x), z3.And(ty(x) == T_STR, sfn(x), ty(dget(fl, x)) == T_DICT)), patterns=[dhas(fl, x)]))
    else:
        for k, tt in (('parent', T_STR), ('utc_date_time', T_STR), ('commit_by', T_STR), ('commit_message', T_STR), ('tree_root', T_STR), ('changes', T_LIST)):
            c.assume([dhas(t, c.const(k)), ty(dget(t, c.const(k))) == tt])
        ch = dget(t, c.const('changes')); i = z3.Int('i')
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(ch)), z3.And(ty(lnth(ch, i)) == T_DICT, dhas(lnth(ch, i), c.const('path')))), patterns=[lnth(ch, i)]))
    return t

def recursive(ip, qualname, contract):
    """the body of the outermost activation is verified, recursive calls use the contract"""
    st = {'in': 0}
    def ov(ip, a, k, f):
        if st['in']: return contract(ip, a, k, f)
        st['in'] += 1
        try: return ip.run_func(f, a, k)
        finally: st['in'] -= 1
    ip.overrides[qualname] = ov

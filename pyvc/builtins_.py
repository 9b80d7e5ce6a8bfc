"""Python built-ins and methods of built-in types."""
import ast
import z3
from .core import *
from .values import *
from . import loops
from .interp import ReturnEx, SliceV, StarV, UNDEF, ViewList

enc = F('enc_utf8', V, V); dec = F('dec_utf8', V, V)
strof = F('strof', V, V)
fs1 = lambda n: F('s_' + n, V, V)

def nat(name):
    def deco(fn): return Native(name, fn)
    return deco

def install(ip):
    c = ip.ctx
    b = ip.builtins
    x = z3.Const('x', V)
    c.bg.append(z3.ForAll([x], z3.Implies(ty(x) == T_STR, z3.And(dec(enc(x)) == x, ty(enc(x)) == T_BYTES)), patterns=[enc(x)]))
    y, z = z3.Consts('y z', V)
    c.bg.append(z3.ForAll([x, y], z3.And(slen(cat(x, y)) == slen(x) + slen(y)), patterns=[slen(cat(x, y))]))
    # truthiness of strings and bytes is having a length
    c.bg.append(z3.ForAll([x], z3.Implies(z3.Or(ty(x) == T_STR, ty(x) == T_BYTES), truthy(x) == (slen(x) > 0)), patterns=[truthy(x)]))
    c.bg.append(z3.ForAll([x], z3.Implies(ty(x) == T_LIST, truthy(x) == (llen(x) > 0)), patterns=[truthy(x)]))
    c.bg.append(z3.ForAll([x], z3.Implies(ty(x) == T_INT, truthy(x) == (intval(x) != 0)), patterns=[truthy(x)]))
    c.bg.append(z3.ForAll([x], z3.Implies(ty(x) == T_INT, mkint(intval(x)) == x), patterns=[intval(x)]))

    def reg(name):
        def deco(fn): b[name] = Native(name, fn); return fn
        return deco
    b['__name__'] = '__main__'
    b['NameError'] = NameError
    for n in ('object',): b[n] = Cls('object', [], {}, 'object')
    b['None'] = None

    @reg('print')
    def _print(ip, a, k): return None
    @reg('isinstance')
    def _isinstance(ip, a, k):
        v, t = a
        ts = t if isinstance(t, tuple) else (t,)
        r = [isinst(ip, v, x) for x in ts]
        return ip.mkbool(ip.disj(r))
    @reg('len')
    def _len(ip, a, k): return length(ip, a[0])
    @reg('bool')
    def _bool(ip, a, k): return ip.mkbool(ip.truth(a[0])) if a else False
    @reg('str')
    def _str(ip, a, k):
        if not a: return ''
        v = a[0]
        if isinstance(v, (int, float, bool, type(None))): return str(v)
        if isinstance(v, str): 
            if len(a) > 1: py_raise(TypeError, 'decoding str is not supported')
            return v
        if len(a) > 1:      # str(bytes, 'utf-8')
            if isinstance(v, bytes): return v.decode('utf8')
            t = ip.term(v)
            if ip.ctx.decide(ty(t) == T_BYTES): return m_decode(ip, v, [], {})
            py_raise(TypeError, 'decoding to str: need a bytes-like object')
        t = ip.term(v)
        if ip.ctx.entails(ty(t) == T_STR): return v
        r = strof(t)
        ip.ctx.assume(ty(r) == T_STR)
        return Box(r)
    @reg('bytes')
    def _bytes(ip, a, k):
        if not a: return b''
        v = a[0]
        if 'encoding' in k or len(a) > 1: return m_encode(ip, v, [], {})
        if isinstance(v, bytes): return v
        raise Unsupported('bytes()')
    @reg('int')
    def _int(ip, a, k):
        v = a[0]
        if isinstance(v, (int, float, str, bytes)):
            try: return int(v)
            except ValueError: py_raise(ValueError, 'invalid literal for int()')
        if isinstance(v, SI): return v
        if isinstance(v, SB): return SI(z3.If(v.t, 1, 0))
        t = ip.term(v)
        if ip.ctx.entails(ty(t) == T_INT): return SI(intval(t))
        if z3.is_app(t) and t.decl().eq(strof):
            u = t.arg(0)
            if u.decl().eq(mkint): return SI(u.arg(0))
        ok = F('int_parses', V, B)(t)
        if not ip.ctx.decide(ok): py_raise(ValueError, 'invalid literal for int()')
        return SI(F('int_parse', V, I)(t))
    @reg('float')
    def _float(ip, a, k):
        v = a[0]
        if isinstance(v, (int, float)): return float(v)
        if isinstance(v, str):
            try: return float(v)
            except ValueError: py_raise(ValueError)
        t = ip.term(v)
        if z3.is_app(t) and t.decl().eq(strof): return ip.val(t.arg(0))
        r = F('float_parse', V, V)(t)
        ip.ctx.assume(ty(r) == T_REAL)
        return Box(r)
    xr = z3.Const('x', V)
    c.bg.append(z3.ForAll([xr], z3.Implies(ty(xr) == T_REAL, F('float_parse', V, V)(strof(xr)) == xr), patterns=[strof(xr)]))
    c.bg.append(z3.ForAll([xr], ty(strof(xr)) == T_STR, patterns=[strof(xr)]))
    @reg('list')
    def _list(ip, a, k):
        if not a: return ListObj()
        l = ListObj(); ip.list_extend(l, a[0]); return l
    @reg('tuple')
    def _tuple(ip, a, k):
        if not a: return ()
        segs = ip.iter_segs(a[0])
        if all(isinstance(s, PSeg) for s in segs): return tuple(v for s in segs for v in s.items)
        raise Unsupported('tuple of symbolic list')
    @reg('set')
    def _set(ip, a, k):
        s = SetObj()
        if a: add_all(ip, s, a[0])
        return s
    b['frozenset'] = b['set']
    @reg('dict')
    def _dict(ip, a, k):
        if a:
            if isinstance(a[0], (DictObj, Box)): d = ip.dict_copy(a[0]); 
            else:
                d = DictObj()
                def body(v):
                    kk, vv = ip.unpack(v, 2); ip.store_key(d, kk, vv)
                loops.for_loop(ip, a[0], body, None, None, None)
        else: d = DictObj()
        for kk, vv in k.items(): ip.store_key(d, kk, vv)
        return d
    @reg('any')
    def _any(ip, a, k):
        def leaf(v):
            if ip.test(v): raise ReturnEx(True)
        try: run_iter(ip, a[0], leaf)
        except ReturnEx: return True
        return False
    @reg('all')
    def _all(ip, a, k):
        def leaf(v):
            if not ip.test(v): raise ReturnEx(False)
        try: run_iter(ip, a[0], leaf)
        except ReturnEx: return False
        return True
    @reg('next')
    def _next(ip, a, k):
        if isinstance(a[0], Obj) and '_next' in a[0].attrs: return a[0].attrs['_next']()
        def leaf(v): raise ReturnEx(v)
        try: run_iter(ip, a[0], leaf)
        except ReturnEx as r: return r.v
        if len(a) > 1: return a[1]
        py_raise(StopIteration)
    @reg('iter')
    def _iter(ip, a, k): return a[0]
    @reg('sorted')
    def _sorted(ip, a, k):
        segs = ip.iter_segs(a[0])
        key = k.get('key')
        if key is not None and key is not None:
            loops.for_loop(ip, a[0], lambda v: ip.call(key, [v], {}), None, None, None)
        if all(isinstance(s, PSeg) for s in segs):
            items = [v for s in segs for v in s.items]
            if len(items) <= 1: return ListObj(items=items)
            if key is None and all(isinstance(v, (str, bytes, int)) for v in items):
                return ListObj(items=sorted(items, reverse=bool(k.get('reverse', False))))
            perm = ListObj(items=items); perm.unordered = True
            return perm
        return ListObj([PSeg(s.items) if isinstance(s, PSeg) else DSeg(s.bvs, s.cond, s.value, False, s.view, s.distinct) for s in segs])
    @reg('reversed')
    def _reversed(ip, a, k):
        segs = ip.iter_segs(a[0])
        out = []
        for s in reversed(list(segs)):
            if isinstance(s, PSeg): out.append(PSeg(list(reversed(s.items))))
            else:
                n = DSeg(s.bvs, s.cond, s.value, False, s.view, s.distinct)
                N = loops.dense(s)
                if N is not None and s.view is None:
                    n = DSeg(s.bvs, s.cond, subst_val(s.value, [(s.bvs[0], N - 1 - s.bvs[0])]), True, None, s.distinct)
                out.append(n)
        r = ListObj(out)
        r.reversed_of = a[0]
        return r
    @reg('enumerate')
    def _enumerate(ip, a, k):
        st = a[1] if len(a) > 1 else k.get('start', 0)
        segs = ip.iter_segs(a[0]); out = []; n = st
        for s in segs:
            if isinstance(s, PSeg):
                out.append(PSeg([(n + j, v) for j, v in enumerate(s.items)])); n += len(s.items)
            elif len(segs) == 1 and s.ordered and len(s.bvs) == 1 and s.bvs[0].sort() == I:
                out.append(DSeg(s.bvs, s.cond, (SI(s.bvs[0] + st), ip.snap(s.value)), True, None, True))
            else: raise Unsupported('enumerate')
        return ListObj(out)
    @reg('zip')
    def _zip(ip, a, k):
        ls = []
        for v in a:
            segs = ip.iter_segs(v)
            if not all(isinstance(s, PSeg) for s in segs): raise Unsupported('zip of symbolic lists')
            ls.append([x for s in segs for x in s.items])
        return ListObj(items=list(zip(*ls)))
    @reg('range')
    def _range(ip, a, k):
        if all(isinstance(v, int) for v in a): return ListObj(items=list(range(*a)))
        if len(a) == 1 or (len(a) == 2):
            lo = ip.num(a[0]) if len(a) == 2 else z3.IntVal(0); hi = ip.num(a[-1])
            i = ip.ctx.fresh('i', I)
            return ListObj([DSeg([i], z3.And(i >= lo, i < hi), SI(i), True, None, True)])
        raise Unsupported('range')
    @reg('callable')
    def _callable(ip, a, k):
        v = a[0]
        if isinstance(v, (Func, Native, Bound, Cls)): return True
        if isinstance(v, Box): return ip.mkbool(F('is_callable', V, B)(v.term()))
        return False
    @reg('hasattr')
    def _hasattr(ip, a, k): return ip.getattr_(a[0], a[1], UNDEF2) is not UNDEF2
    @reg('getattr')
    def _getattr(ip, a, k):
        if len(a) > 2: return ip.getattr_(a[0], a[1], a[2])
        return ip.getattr_(a[0], a[1])
    @reg('setattr')
    def _setattr(ip, a, k): ip.setattr_(a[0], a[1], a[2])
    @reg('max')
    def _max(ip, a, k): return minmax(ip, a, True)
    @reg('min')
    def _min(ip, a, k): return minmax(ip, a, False)
    @reg('sum')
    def _sum(ip, a, k):
        segs = ip.iter_segs(a[0])
        r = a[1] if len(a) > 1 else 0
        for s in segs:
            if not isinstance(s, PSeg): raise Unsupported('sum of a symbolic list')
            for v in s.items: r = ip.binop(ast.Add(), r, v)
        return r
    @reg('abs')
    def _abs(ip, a, k): return abs(a[0])
    @reg('ord')
    def _ord(ip, a, k): return ord(a[0])
    @reg('chr')
    def _chr(ip, a, k): return chr(a[0])
    @reg('repr')
    def _repr(ip, a, k): return Box(F('py_repr', V, V)(ip.term(a[0])))
    @reg('map')
    def _map(ip, a, k):
        l = ListObj()
        loops.for_loop(ip, a[1], lambda v: l.append(ip.call(a[0], [v], {})), None, None, None)
        return l
    @reg('filter')
    def _filter(ip, a, k):
        l = ListObj()
        def body(v):
            if ip.test(ip.call(a[0], [v], {}) if a[0] is not None else v): l.append(v)
        loops.for_loop(ip, a[1], body, None, None, None)
        return l
    @reg('type')
    def _type(ip, a, k):
        v = a[0]
        if isinstance(v, Obj): return v.cls
        for t in (bool, int, float, str, bytes, tuple):
            if type(v) is t: return b[t.__name__]
        if isinstance(v, DictObj): return b['dict']
        if isinstance(v, ListObj): return b['list']
        raise Unsupported('type()')
    @reg('id')
    def _id(ip, a, k): return id(a[0])
    @reg('staticmethod')
    def _sm(ip, a, k): return a[0]
    ip.method_hook = lambda o, n: method(ip, o, n)
    ip.slice_hook = lambda v, s: slice_(ip, v, s)
    ip.to_groups = lambda d: to_groups(ip, d)

UNDEF2 = object()

def run_iter(ip, it, leaf):
    if isinstance(it, GenExp):
        ip.comp(it.node.generators, it.env, lambda en: leaf(ip.ev(it.node.elt, en)))
    else:
        loops.for_loop(ip, it, leaf, None, None, None)

def minmax(ip, a, mx):
    items = list(a)
    if len(a) == 1:
        segs = ip.iter_segs(a[0])
        if not all(isinstance(s, PSeg) for s in segs): raise Unsupported('min/max of a symbolic list')
        items = [v for s in segs for v in s.items]
    r = items[0]
    for v in items[1:]:
        if isinstance(r, (int, float)) and isinstance(v, (int, float)):
            r = max(r, v) if mx else min(r, v)
        else:
            x, y = ip.num(r), ip.num(v)
            if x is None or y is None: raise Unsupported('min/max')
            r = SI(z3.If((x >= y) if mx else (x <= y), x, y))
    return r

def add_all(ip, s, it):
    if isinstance(it, (str, bytes)):
        for ch in it: ip.set_add(s, ch)
        return
    if isinstance(it, Box):
        h = getattr(ip, 'set_of_hook', None)
        if h is not None and h(s, it): return
        t = it.peek()
        if ip.kind_of(t) == 'dict' and s.box is None and not s.items:
            s.box = Box(it.term()); s.box.birth = s.birth; return
    if isinstance(it, (DictObj, SetObj)) and it.box is not None and s.box is None and not s.items:
        s.box = Box(it.box.term()); s.box.birth = s.birth; return
    run_iter(ip, it, lambda v: ip.set_add(s, v))

def isinst(ip, v, t):
    n = t.name if isinstance(t, (Native, Cls)) else getattr(t, '__name__', None)
    tags = {'str': T_STR, 'bytes': T_BYTES, 'dict': T_DICT, 'list': T_LIST, 'int': T_INT, 'float': T_REAL, 'bool': T_BOOL,
            'Mapping': T_DICT, 'OrderedDict': T_DICT, 'tuple': T_TUPLE}
    if isinstance(v, Box) :
        h = getattr(ip, 'isinst_hook', None)
        if h is not None:
            r = h(v, n)
            if r is not None: return r
        if n in tags: return ty(v.term()) == tags[n]
        return False
    if isinstance(v, DictObj): return n in ('dict', 'Mapping')
    if isinstance(v, ListObj): return n == 'list'
    if isinstance(v, SI): return n == 'int'
    if isinstance(v, SB): return n in ('bool', 'int')
    if isinstance(v, SetObj): return n in ('set', 'frozenset')
    if isinstance(v, Obj):
        if isinstance(t, Cls) and isinstance(v.cls, Cls): return t in ip.mro(v.cls)
        return v.cls == n
    if isinstance(v, ExcObj): return ip.exc_match(v, t)
    if v is None: return n == 'NoneType'
    if isinstance(v, bool): return n in ('bool', 'int')
    py = {'str': str, 'bytes': bytes, 'int': int, 'float': float, 'tuple': tuple}.get(n)
    if py is not None: return isinstance(v, py)
    return False

def length(ip, v):
    c = ip.ctx
    if isinstance(v, (str, bytes, tuple)): return len(v)
    if isinstance(v, ListObj):
        if v.concrete: return len(v.items())
        if len(v.segs) == 1 and len(v.segs[0].bvs) == 1 and v.segs[0].bvs[0].sort() == I:
            s = v.segs[0]
            val = s.value
            if isinstance(val, z3.ExprRef) and z3.is_app(val) and val.decl().eq(lnth) and s.cond.eq(z3.And(s.bvs[0] >= 0, s.bvs[0] < llen(val.arg(0)))):
                return SI(llen(val.arg(0)))
        n = c.fresh('len', I)
        ne = ip.nonempty(v)
        c.assume(n >= sum(len(s.items) for s in v.segs if isinstance(s, PSeg)))
        c.assume((n > 0) == ne if not isinstance(ne, bool) else (n > 0 if ne else n == 0))
        if len(v.segs) > 1 or True:
            # more than one element <-> two different positions (used for duplicate checks)
            for s in v.segs:
                if isinstance(s, DSeg): two(ip, s, n)
        return SI(n)
    if isinstance(v, DictObj):
        if v.box is None: return len(v.d)
        return maplen(ip, v.box.term())
    if isinstance(v, SetObj):
        if v.box is None: return len(v.items)
        return maplen(ip, v.box.term())
    if isinstance(v, SB) or isinstance(v, SI) or v is None: py_raise(TypeError, 'object has no len()')
    if isinstance(v, Box):
        h = getattr(ip, 'len_hook', None)
        if h is not None:
            r = h(v)
            if r is not None: return r
        t = v.term()
        if c.entails(ty(t) == T_LIST): return SI(llen(t))
        if c.entails(z3.Or(ty(t) == T_STR, ty(t) == T_BYTES)): return SI(slen(t))
        if c.entails(ty(t) == T_DICT): return maplen(ip, t)
        if c.decide(ty(t) == T_LIST): return SI(llen(t))
        if c.decide(z3.Or(ty(t) == T_STR, ty(t) == T_BYTES)): return SI(slen(t))
        return maplen(ip, t)
    if isinstance(v, Obj):
        m = ip.getattr_(v, '__len__', None)
        if m is not None: return ip.call(m, [], {})
    raise Unsupported('len of %r' % (v,))

def two(ip, s, n):
    pass

maplen_f = F('maplen', V, I)
def maplen(ip, t):
    c = ip.ctx
    ne = ip.map_nonempty(t)
    n = maplen_f(t)
    c.assume(n >= 0)
    c.assume((n > 0) == ne if not isinstance(ne, bool) else (n > 0 if ne else n == 0))
    return SI(n)

# ------------------------------------------------------------------ methods
def method(ip, o, name):
    tab = None
    if isinstance(o, DictObj): tab = DICT
    elif isinstance(o, ListObj): tab = LIST
    elif isinstance(o, SetObj): tab = SET
    elif isinstance(o, str): tab = STR
    elif isinstance(o, bytes): tab = BYTES
    elif isinstance(o, Box):
        h = getattr(ip, 'box_method_hook', None)
        if h is not None:
            r = h(o, name)
            if r is not None: return r
        if name in BOX: tab = BOX
    elif isinstance(o, Native) and name == '__name__': return o.name
    elif isinstance(o, Native) and o.name == 'dict' and name == 'fromkeys': tab = None
    elif isinstance(o, Func) and name in ('__name__',): return o.name
    elif isinstance(o, tuple): tab = {}
    if tab is None or name not in tab: return None
    fn = tab[name]
    return Native(name, lambda ip, a, k: fn(ip, o, a, k))

def m_encode(ip, o, a, k):
    if isinstance(o, str): return o.encode('utf8')
    if isinstance(o, bytes): py_raise(AttributeError, 'encode')
    t = ip.term(o)
    if z3.is_app(t) and t.decl().eq(dec): return Box(t.arg(0))
    c = ip.ctx
    if c.entails(ty(t) == T_BYTES): py_raise(AttributeError, "'bytes' object has no attribute 'encode'")
    c.assume(ty(enc(t)) == T_BYTES)
    c.assume(z3.Implies(ty(t) == T_STR, dec(enc(t)) == t))
    return Box(enc(t))
def m_decode(ip, o, a, k):
    if isinstance(o, bytes):
        try: return o.decode('utf8')
        except UnicodeDecodeError: py_raise(UnicodeDecodeError)
    if isinstance(o, str): py_raise(AttributeError, 'decode')
    t = ip.term(o)
    if z3.is_app(t) and t.decl().eq(enc): return ip.val(t.arg(0))
    if ip.ctx.entails(ty(t) == T_STR): py_raise(AttributeError, "'str' object has no attribute 'decode'")
    d = dec(t)
    ip.ctx.assume(ty(d) == T_STR)
    return Box(d)

def uf_method(name):
    def m(ip, o, a, k):
        if isinstance(o, (str, bytes)) and all(isinstance(v, (str, bytes, int, tuple, type(None))) for v in a) and not k:
            r = getattr(o, name)(*a)
            return ListObj(items=r) if isinstance(r, list) else r
        h = getattr(ip, 'str_hook', None)
        if h is not None:
            r = h(name, o, a, k)
            if r is not None: return r
        if name in ('startswith', 'endswith'):
            if isinstance(a[0], tuple): return ip.mkbool(ip.disj([ip.truth(m(ip, o, [v], {})) for v in a[0]]))
            return SB(ip.ctx_uf('s_' + name, B, o, *a))
        if name in ('strip', 'lower', 'upper', 'replace', 'lstrip', 'rstrip', 'hex'):
            r = ip.ctx_uf('s_%s_%d' % (name, len(a)), V, o, *a)
            t = ip.term(o)
            ip.ctx.assume(ty(r) == ty(t))
            return Box(r)
        if name == 'find' or name == 'count':
            return SI(ip.ctx_uf('s_' + name, I, o, *a))
        if name == 'isdigit': return SB(ip.ctx_uf('s_isdigit', B, o))
        raise Unsupported('str.%s on unknown string' % name)
    return m

def m_split(ip, o, a, k):
    if isinstance(o, (str, bytes)) and all(isinstance(v, (str, bytes, int, type(None))) for v in a):
        return ListObj(items=o.split(*a))
    h = getattr(ip, 'split_hook', None)
    if h is not None:
        r = h(o, a)
        if r is not None: return r
    if len(a) == 2 and a[1] == 1:     # split(sep, 1)
        t, s = ip.term(o), ip.term(a[0])
        has = F('s_has', V, V, B)(s, t)
        if not ip.ctx.decide(has): return ListObj(items=[o])
        l, r = F('s_before', V, V, V)(t, s), F('s_after', V, V, V)(t, s)
        ip.ctx.assume([ty(l) == ty(t), ty(r) == ty(t)])
        return ListObj(items=[Box(l), Box(r)])
    if len(a) == 1:
        t = ip.ctx_uf('s_split', V, o, a[0])
        ip.ctx.assume([ty(t) == T_LIST, llen(t) >= 1])
        i = z3.Int('i'); tt = ip.term(o)
        ip.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(t)), ty(lnth(t, i)) == ty(tt)), patterns=[lnth(t, i)]))
        return Box(t)
    raise Unsupported('split')

def m_splitlines(ip, o, a, k):
    if isinstance(o, (str, bytes)): return ListObj(items=o.splitlines())
    t = ip.ctx_uf('s_splitlines', V, o)
    ip.ctx.assume(ty(t) == T_LIST)
    return Box(t)

def m_join(ip, o, a, k):
    segs = ip.iter_segs(a[0])
    if all(isinstance(s, PSeg) for s in segs):
        items = [v for s in segs for v in s.items]
        if all(isinstance(v, type(o)) for v in items): return o.join(items)
        r = o[:0] if isinstance(o, (str, bytes)) else ''
        for j, v in enumerate(items):
            if j: r = ip.binop(ast.Add(), r, o)
            r = ip.binop(ast.Add(), r, v)
        return r
    h = getattr(ip, 'join_hook', None)
    if h is not None:
        r = h(o, a[0])
        if r is not None: return r
    r = ip.ctx_uf('s_join', V, o, ListObj(list(segs)))
    ip.ctx.assume(ty(r) == T_STR)
    return Box(r)

def m_format(ip, o, a, k):
    raise Unsupported('str.format')

_strm = {n: uf_method(n) for n in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'startswith', 'endswith', 'find', 'isdigit', 'count')}
_strm.update({'split': m_split, 'splitlines': m_splitlines, 'join': m_join, 'encode': m_encode, 'decode': m_decode, 'format': m_format,
              'hex': uf_method('hex')})
STR = dict(_strm); BYTES = dict(_strm)

def dbox(ip, d): return d if isinstance(d, Box) else d.box

def d_items(ip, d, a, k, what='items'):
    if isinstance(d, DictObj) and hasattr(d, 'pairs') and d.pairs is not None: return group_items(ip, d, what)
    b = dbox(ip, d)
    if b is None:
        if what == 'items': return ListObj(items=list(d.d.items()))
        if what == 'values': return ListObj(items=list(d.d.values()))
        return ListObj(items=list(d.d))
    h = getattr(ip, 'box_items_hook', None)
    if h is not None:
        r = h(b, what)
        if r is not None: return r
    if what == 'keys':
        r = ListObj(ip.map_segs(b, 'keys'))
        r.keys_of = b
        return r
    return ListObj(ip.map_segs(b, what))

def d_get(ip, d, a, k):
    dflt = a[1] if len(a) > 1 else k.get('default')
    if isinstance(d, DictObj) and d.box is None and isinstance(a[0], (str, int, bytes, type(None))):
        if a[0] in d.d: return ip.load_key(d, a[0])
        return dflt
    if isinstance(d, DictObj) and d.box is None:
        for kk in list(d.d):
            if ip.ctx.decide(ip.eq(a[0], kk)): return d.d[kk]
        return dflt
    b = dbox(ip, d)
    if not ip.ctx.decide(z3_of(ip.contains(a[0], b))): return dflt
    return ip.load_key(b, a[0])

def z3_of(f): return f

def d_pop(ip, d, a, k):
    key = a[0]
    if isinstance(d, Box) and (isinstance(key, (int, SI)) and not isinstance(key, bool)): return l_pop(ip, d, a, k)
    if isinstance(d, DictObj) and d.box is None and isinstance(key, (str, int, bytes)):
        if key in d.d:
            v = d.d[key]; ip.del_key(d, key); return v
        if len(a) > 1: return a[1]
        py_raise(KeyError, key)
    if isinstance(d, DictObj) and d.box is None:
        for kk in list(d.d):
            if ip.ctx.decide(ip.eq(key, kk)):
                v = d.d[kk]; ip.del_key(d, kk); return v
        if len(a) > 1: return a[1]
        py_raise(KeyError, key)
    b = dbox(ip, d)
    if not ip.ctx.decide(ip.contains(key, b)):
        if len(a) > 1: return a[1]
        py_raise(KeyError, key)
    v = ip.load_key(b, key)
    ip.del_key(b, key)
    return v

def d_update(ip, d, a, k):
    c = ip.ctx
    if a:
        o = a[0]
        if isinstance(o, DictObj) and o.box is None:
            for kk, vv in o.d.items(): ip.store_key(d, kk, vv)
        elif isinstance(o, (DictObj, Box)):
            ot = o.term() if isinstance(o, Box) else o.box.term()
            b = d if isinstance(d, Box) else ip.dict_to_box(d)
            D0 = b.term(); D = c.fresh('upd'); x = z3.Const('x', V)
            f = z3.And(dhas(D, x) == z3.Or(dhas(D0, x), dhas(ot, x)), dget(D, x) == z3.If(dhas(ot, x), dget(ot, x), dget(D0, x)))
            for p in (dhas(D, x), dget(D, x)): c.assume(z3.ForAll([x], f, patterns=[p]))
            c.assume(ty(D) == T_DICT)
            b.replace(D)
        elif isinstance(o, (ListObj,)):
            def body(v):
                kk, vv = ip.unpack(v, 2); ip.store_key(d, kk, vv)
            loops.for_loop(ip, o, body, None, None, None)
        else: raise Unsupported('dict.update(%r)' % (o,))
    for kk, vv in k.items(): ip.store_key(d, kk, vv)

def d_setdefault(ip, d, a, k):
    if ip.ctx.decide(ip.contains(a[0], d)): return ip.load_key(d, a[0])
    v = a[1] if len(a) > 1 else None
    ip.store_key(d, a[0], v)
    return ip.load_key(d, a[0])

def d_clear(ip, d, a, k):
    b = d if isinstance(d, Box) else ip.dict_to_box(d)
    b.replace(ip.ctx.c_empty)

DICT = {'items': d_items, 'keys': lambda ip, d, a, k: d_items(ip, d, a, k, 'keys'),
        'values': lambda ip, d, a, k: d_items(ip, d, a, k, 'values'),
        'get': d_get, 'pop': d_pop, 'update': d_update, 'setdefault': d_setdefault, 'clear': d_clear,
        'copy': lambda ip, d, a, k: ip.dict_copy(d)}

def l_append(ip, l, a, k):
    if isinstance(l, Box):
        segs = list(ip.iter_segs(l))
        t = ip.list_term(segs + [PSeg([a[0]])])
        l.freeze_kids()
        if l.parent is None: l._assign(t, ('replace', t))
        else: l._assign(t)
        return
    l.append(a[0])
def l_extend(ip, l, a, k):
    if isinstance(l, Box):
        n = ListObj(list(ip.iter_segs(l))); ip.list_extend(n, a[0])
        l.freeze_kids(); t = ip.list_term(n.segs)
        l._assign(t, ('replace', t) if l.parent is None else None)
        return
    ip.list_extend(l, a[0])
def l_pop(ip, l, a, k):
    if isinstance(l, ListObj) and l.concrete:
        items = l.items()
        j = a[0] if a else -1
        try: v = items.pop(j)
        except IndexError: py_raise(IndexError, 'pop from empty list')
        l.set_segs([PSeg(items)] if items else [], ('replace',))
        return v
    h = getattr(ip, 'list_pop_hook', None)
    if h is not None:
        r = h(l, a)
        if r is not None: return r
    raise Unsupported('list.pop')
def l_remove(ip, l, a, k):
    c = ip.ctx
    if isinstance(l, ListObj) and l.concrete:
        items = l.items()
        for j, v in enumerate(items):
            if c.decide(ip.eq(v, a[0])):
                del items[j]; l.set_segs([PSeg(items)] if items else [], ('replace',)); return
        py_raise(ValueError, 'list.remove(x): x not in list')
    # families: remove the (unique) element equal to x
    f = ip.contains(a[0], l)
    if not c.decide(f): py_raise(ValueError, 'list.remove(x): x not in list')
    t = ip.term(a[0])
    h = getattr(ip, 'list_remove', None)
    if h is not None: return h(l, t)
    segs = []
    for s in l.segs:
        if isinstance(s, PSeg): raise Unsupported('list.remove on a mixed list')
        if len(l.segs) > 1: raise Unsupported('list.remove')
        if not unique_values(ip, s): raise Unsupported('list.remove with possible duplicates')
        segs.append(DSeg(s.bvs, z3.And(s.cond, ip.term(s.value) != t), s.value, s.ordered, s.view, s.distinct))
    l.set_segs(segs, ('lremove', t))
def unique_values(ip, s):
    b2 = [z3.Const(str(b) + "'", b.sort()) for b in s.bvs]
    sub = list(zip(s.bvs, b2))
    v = ip.term(s.value)
    return ip.ctx.entails(z3.Implies(z3.And(s.cond, z3.substitute(s.cond, *sub), v == z3.substitute(v, *sub)),
                                     z3.And(*[x == y for x, y in sub])))
def l_insert(ip, l, a, k):
    if isinstance(l, ListObj) and a[0] == 0:
        l.set_segs([PSeg([a[1]])] + list(l.segs), ('replace',)); return
    raise Unsupported('list.insert')
def l_sort(ip, l, a, k):
    r = ip.call(ip.builtins['sorted'], [l], k)
    l.set_segs(r.segs, ('replace',))
def l_copy(ip, l, a, k): return ListObj(list(l.segs))
def l_reverse(ip, l, a, k):
    r = ip.call(ip.builtins['reversed'], [l], {})
    l.set_segs(r.segs, ('replace',))
def l_clear(ip, l, a, k): l.set_segs([], ('replace',))
def l_index(ip, l, a, k): raise Unsupported('list.index')
LIST = {'append': l_append, 'extend': l_extend, 'pop': l_pop, 'remove': l_remove, 'insert': l_insert, 'sort': l_sort,
        'copy': l_copy, 'reverse': l_reverse, 'clear': l_clear}

def s_add(ip, s, a, k): ip.set_add(s, a[0])
def s_discard(ip, s, a, k):
    b = ip.set_to_box(s); b.del_key(ip.term(a[0]))
def s_remove(ip, s, a, k):
    if not ip.ctx.decide(ip.contains(a[0], s)): py_raise(KeyError)
    s_discard(ip, s, a, k)
def s_update(ip, s, a, k):
    for o in a: add_all(ip, s, o) if s.box is not None or s.items else run_iter(ip, o, lambda v: ip.set_add(s, v))
def s_copy(ip, s, a, k):
    n = SetObj(list(s.items))
    if s.box is not None: n.box = Box(s.box.term())
    return n
def s_op(n): return lambda ip, s, a, k: ip.set_op(n, s, to_set(ip, a[0]))
def to_set(ip, v): return v if isinstance(v, SetObj) else ip.call(ip.builtins['set'], [v], {})
SET = {'add': s_add, 'discard': s_discard, 'remove': s_remove, 'update': s_update, 'copy': s_copy,
       'union': s_op('BitOr'), 'difference': s_op('Sub'), 'intersection': s_op('BitAnd'), 'symmetric_difference': s_op('BitXor'),
       'issubset': lambda ip, s, a, k: ip.mkbool(ip.subset(s, to_set(ip, a[0])))}

BOX = {}
BOX.update(_strm); BOX.update(DICT)
BOX.update({'append': l_append, 'extend': l_extend, 'pop': d_pop})
def box_copy(ip, o, a, k):
    return ip.dict_copy(o)
BOX['copy'] = box_copy

# ------------------------------------------------------------------ slices of unknown strings
sub_f = F('sub', V, I, I, V)        # s[lo:hi], hi = -1 means to the end
def slice_(ip, v, s):
    c = ip.ctx
    h = getattr(ip, 'slice_str_hook', None)
    if h is not None:
        r = h(v, s)
        if r is not None: return r
    if isinstance(v, Box):
        t = v.peek()
        vv = ip.val(t)
        if isinstance(vv, ListObj): return ip.slice_list(vv, s)
    t = ip.term(v)
    if s.step is not None: raise Unsupported('slice step')
    lo = ip.num(s.lo) if s.lo is not None else z3.IntVal(0)
    hi = ip.num(s.hi) if s.hi is not None else z3.IntVal(-1)
    if isinstance(s.hi, int) and s.hi < 0 and c.entails(ty(t) == T_LIST): hi = z3.If(llen(t) + s.hi > 0, llen(t) + s.hi, 0)
    elif s.hi is not None and not c.entails(hi >= 0): raise Unsupported('slice with negative bound')
    if not c.entails(lo >= 0): raise Unsupported('slice with negative bound')
    if c.entails(ty(t) == T_LIST):
        n = c.fresh('slice')
        c.assume(ty(n) == T_LIST)
        i = z3.Int('i')
        end = llen(t) if s.hi is None else z3.If(hi < llen(t), hi, llen(t))
        c.assume(llen(n) == z3.If(end > lo, end - lo, 0))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(n)), lnth(n, i) == lnth(t, i + lo)), patterns=[lnth(n, i)]))
        return Box(n)
    r = sub_f(t, z3.simplify(lo), z3.simplify(hi))
    c.assume(ty(r) == ty(t))
    end = slen(t) if s.hi is None else z3.If(hi < slen(t), hi, slen(t))
    c.assume(slen(r) == z3.If(end > lo, end - lo, 0))
    return Box(r)

# ------------------------------------------------------------------ defaultdict(list) with symbolic keys: a multimap
def to_groups(ip, d):
    pairs = ListObj(items=[])
    for kk, lst in d.d.items():
        for s in lst.segs:
            if not isinstance(s, PSeg): raise Unsupported('grouping')
            for v in s.items: pairs.append((kk, v))
    pairs.birth = d.birth
    old = d.d
    d.pairs = pairs; d.d = {}
    def undo(s=d, o=old): s.pairs = None; s.d = o
    ip.ctx.log(undo, d, ('togroup',))

class GroupView:
    pass

def group_view(ip, d, key):
    o = Obj('grouplist')
    def app(ip, a, k): d.pairs.append((key, a[0]))
    o.attrs['append'] = Native('append', app)
    def it(): return group_list(ip, d, ip.term(key)).segs
    o.attrs['_iter'] = it
    return o

def group_list(ip, d, kt):
    out = []
    for s in d.pairs.segs:
        if isinstance(s, PSeg):
            for kk, v in s.items:
                if ip.ctx.decide(ip.eq(kk, ip.val(kt))): out.append(PSeg([v]))
        else:
            kk, v = s.value
            f = ip.eq(ip.val(kk), ip.val(kt))
            if f is False: continue
            out.append(DSeg(s.bvs, z3.And(s.cond, f) if f is not True else s.cond, v, s.ordered, None, s.distinct))
    return ListObj(out)

def group_items(ip, d, what):
    """.items() of the multimap: for every key that occurs, the list of its values"""
    c = ip.ctx
    x = c.fresh('g', V)
    conds = []
    for s in d.pairs.segs:
        if isinstance(s, PSeg):
            for kk, v in s.items: conds.append(ip.term(kk) == x)
        else:
            kk, v = s.value
            # key x occurs: some element has it.  A predicate defined by its two directions.
            P = c.fresh_fun('haskey', V, B)
            ws = [c.fresh_fun('gw', V, b.sort()) for b in s.bvs]
            inst = list(zip(s.bvs, [w(x) for w in ws]))
            body = z3.And(s.cond, ip.term(kk) == x)
            c.assume(z3.ForAll([x], z3.Implies(P(x), z3.substitute(body, *inst)), patterns=[P(x)]))
            q = [z3.Const('q%d!%s' % (j, b.sort()), b.sort()) for j, b in enumerate(s.bvs)]
            sb = list(zip(s.bvs, q))
            c.assume(z3.ForAll(q, z3.Implies(z3.substitute(s.cond, *sb), P(z3.substitute(ip.term(kk), *sb)))))
            conds.append(P(x))
    if not conds: return ListObj()
    cond = z3.Or(*conds) if len(conds) > 1 else conds[0]
    seg = DSeg([x], cond, x, False, ('group', (d, what)), True)
    return ListObj([seg])

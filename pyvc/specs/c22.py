"""C22: message framing and headers."""
import ast
import z3
from ..srv import *
from ..stream import Stream
from ..loops import while_inv, for_inv, dense
from ..bytesx import Bytes, pieces
from ..tree import bind

H = 'bversion.http.http_common.'
pre, suf = F('bytes_to', V, I, V), F('bytes_from', V, I, V)
trust('bytes', 'slices, concatenation and lengths of byte strings; bytes.split(sep, 1) cuts at the first separator')

def bytes_theory(ip):
    c = ip.ctx; ip.trusted.add('bytes')
    x, y = z3.Consts('x y', V); n = z3.Int('n')
    em = c.const(b'')
    fa = lambda vs, b, *p: c.bg.append(z3.ForAll(vs, b, patterns=list(p)))
    isb = lambda t: ty(t) == T_BYTES
    fa([x], z3.Implies(isb(x), z3.And(slen(x) >= 0, (slen(x) == 0) == (x == em), truthy(x) == (slen(x) != 0))), slen(x))
    fa([x], z3.Implies(isb(x), truthy(x) == (slen(x) != 0)), truthy(x))
    p, s = pre(x, n), suf(x, n)
    m = z3.If(n < slen(x), n, slen(x))
    for t in (p, s): fa([x, n], z3.Implies(z3.And(isb(x), n >= 0), z3.And(isb(p), isb(s), slen(p) == m, slen(s) == slen(x) - m, cat(p, s) == x)), t)
    t = cat(x, y); fa([x, y], z3.Implies(z3.And(isb(x), isb(y)), z3.And(isb(t), slen(t) == slen(x) + slen(y), cat(em, x) == x, cat(x, em) == x, cat(em, y) == y)), t)
    z = z3.Const('z', V)
    t = cat(x, cat(y, z)); fa([x, y, z], cat(cat(x, y), z) == t, t)
    t = cat(cat(x, y), z); fa([x, y, z], t == cat(x, cat(y, z)), t)
    old = getattr(ip, 'slice_str_hook', None)
    def cut(v, sl):
        if isinstance(v, Box) and sl.step is None and c.entails(isb(v.peek())):
            lo, hi = [x if x is None else ip.num(x) for x in (sl.lo, sl.hi)]
            lo, hi = [z3.IntVal(x) if isinstance(x, int) else x for x in (lo, hi)]
            if all(x is None or c.entails(x >= 0) for x in (lo, hi)):
                t = v.term()
                if hi is not None: t = pre(t, hi)
                if lo is not None and not z3.is_true(z3.simplify(lo == 0)): t = suf(t, lo)
                return Box(t)
        return old(v, sl) if old else None
    ip.slice_str_hook = cut
    return em

def unit_read(v):
    """read: from every state of the reader it leaves in, and every way the socket splits the bytes
         D: what was returned so far    P: the bytes that came with the header block    R: what was received since
         either nothing was received yet and D + rest == P, or the rest is used up and D == P + R;  len(D) <= length of the body"""
    ip = v.interp(); c = ip.ctx
    f = ip.get(H + 'read_body.read'); c.func = f.qualname
    em = bytes_theory(ip)
    L, P, D0, R0, p0 = c.fresh('body_length', I), c.fresh('partial'), c.fresh('returned'), c.fresh('received'), c.fresh('rest')
    c.bg += [L >= 0] + [ty(x) == T_BYTES for x in (P, D0, R0, p0)]
    def inv(D, R, p): return z3.And(z3.Or(z3.And(R == em, cat(D, p) == P), z3.And(p == em, D == cat(P, R))), slen(D) <= L)
    got = []
    def recv(ip, a, k):
        n = ip.num(a[0])
        c.prove('no more is taken from the connection than belongs to this body', z3.And(n >= 1, n <= L - slen(D0)))
        c.prove('the connection is read once, and only after the bytes that came with the headers', z3.And(not got, p0 == em))
        if c.choose('closed'): got.append(em); c.log(lambda: got.pop(), None); return b''
        t = c.fresh('data'); c.assume([ty(t) == T_BYTES, slen(t) >= 1, slen(t) <= n]); got.append(t); c.log(lambda: got.pop(), None)
        return Box(t)
    rd = Native('recv', recv)
    cls = ip.get(H + 'read_body')
    st = {}
    def make(rest):
        o = ip.call(cls, [rd, SI(L), Box(rest)], {})
        role = {}
        for n, x in o.attrs.items():
            r = 'reader' if x is rd else 'rest' if isinstance(x, Box) and x.peek().eq(rest) else 'count' if isinstance(x, (int, SI)) and not isinstance(x, bool) and c.entails(ip.num(x) == 0) and not (isinstance(x, SI) and x.t.eq(L)) else 'length' if isinstance(x, SI) and x.t.eq(L) else None
            if r is None or r in role: raise Unsupported('state of the body reader: %s' % n)
            role[r] = n
        if 'reader' not in role or 'rest' not in role or 'length' not in role: raise Unsupported('state of the body reader')
        return o, role
    cnt = {'data': 0, 'end': 0}
    def thunk():
        o, role = make(p0)
        if c.choose('new'):
            c.assume(z3.And(D0 == em, R0 == em, p0 == P))
        else:
            if 'count' in role: ip.setattr_(o, role['count'], SI(slen(D0)))
            else: ip.setattr_(o, role['length'], SI(L - slen(D0)))
        c.assume(inv(D0, R0, p0)); c.assume(slen(D0) >= 0)
        st.update(o=o, role=role, n=None)
        a = []
        if c.choose('length given'):
            st['n'] = c.fresh('length', I); c.assume(st['n'] >= 1); a = [SI(st['n'])]
        try: return ip.call(ip.getattr_(o, 'read'), a, {})
        except PyExc as e: return e
    def visit(r):
        o, role = st['o'], st['role']
        p = ip.term(ip.getattr_(o, role['rest']))
        k = ip.num(ip.getattr_(o, role['count'])) if 'count' in role else L - ip.num(ip.getattr_(o, role['length']))
        closed = bool(got) and got[-1] is em
        if closed: c.prove('a connection that closes early is an error', isinstance(r, PyExc)); return
        if isinstance(r, PyExc): c.prove('reading fails only when the connection is closed', False); return
        R = cat(R0, got[0]) if got else R0
        if r is None:
            cnt['end'] += 1
            c.prove('the end is told only after the whole body', slen(D0) == L); D = D0
        else:
            cnt['data'] += 1
            t = ip.term(r); D = cat(D0, t)
            c.prove('after the whole body the end is told', slen(D0) < L)
            c.prove('a piece is never empty', z3.And(ty(t) == T_BYTES, slen(t) >= 1))
            if st['n'] is not None: c.prove('a piece is not longer than asked for', slen(t) <= st['n'])
        c.prove('the bytes returned are those of the message, in order, none lost and none twice', inv(D, R, p))
        c.prove('what was read is counted', k == slen(D))
        if 'count' in role: c.prove('the declared length stays', ip.num(ip.getattr_(o, role['length'])) == L)
    c.explore(thunk, visit)
    c.prove('data and end reachable', cnt['data'] > 0 and cnt['end'] > 0)

def unit_whole(name):
    """read_all / dump: by the contract of read (pieces of the body in order, the end after the last)"""
    def unit(v):
        ip = v.interp(); c = ip.ctx
        f = ip.get(H + 'read_body.' + name); c.func = f.qualname
        bytes_theory(ip)
        body = c.fresh('body'); c.bg.append(ty(body) == T_BYTES)
        S = Stream(ip, None, whole=body)
        def read(ip, a, k, fn):
            for x in a[1:] + list(k.values()):
                if x is not None: c.prove('the length asked for is positive', ip.num(x) >= 1)
            if c.choose('closed'): py_raise(Exception, 'Socket closed')
            return S.read(ip, a, k)
        ip.overrides[H + 'read_body.read'] = read
        def names(env): return [n for n, x in env.vars.items() if isinstance(x, bytes) or isinstance(x, Box) and n in acc]
        acc = set()
        def loop(ip, s, env):
            acc.update(n for n, x in env.vars.items() if x == b'')
            if name == 'dump': return S.loop(s, env, S.got)
            if len(acc) != 1: raise Unsupported('the place the body is collected in')
            return S.loop(s, env, lambda: env.vars[list(acc)[0]])
        ip.while_hooks[f.qualname + '*'] = loop
        rd = Native('recv', lambda ip, a, k: c.prove('the connection is read by read alone', False))
        n = [0]
        def thunk():
            o = ip.call(ip.get(H + 'read_body'), [rd, SI(c.fresh('n', I)), Box(body)], {})
            try: return ip.call(ip.getattr_(o, name), [], {})
            except PyExc as e: return e
        def visit(r):
            if isinstance(r, PyExc): return
            n[0] += 1
            c.prove('the whole body has been read', S.eof())
            if name == 'read_all': c.prove('the result is the body', ip.term(r) == body)
        c.explore(thunk, visit)
        c.prove('reachable', n[0] > 0)
    return unit

SEP = b'\r\n\r\n'
has, before, after = F('s_has', V, V, B), F('s_before', V, V, V), F('s_after', V, V, V)

def preamble_theory(ip):
    """looking for, and cutting at, the end of the header block"""
    c = ip.ctx; sep = c.const(SEP)
    x = z3.Const('x', V)
    c.bg.append(z3.ForAll([x], z3.Implies(z3.And(ty(x) == T_BYTES, has(sep, x)), z3.And(cat(before(x, sep), cat(sep, after(x, sep))) == x, ty(before(x, sep)) == T_BYTES, ty(after(x, sep)) == T_BYTES)), patterns=[has(sep, x)]))
    c.bg.append(slen(sep) == 4)
    ip.box_contains_hook = chain(getattr(ip, 'box_contains_hook', None), lambda item, coll: has(sep, coll.term()) if item == SEP else None)
    olds = getattr(ip, 'str_hook', None)
    def meth(name, o, a, k):
        if name == 'partition' and a[0] == SEP:
            t = o.term()
            if c.decide(has(sep, t)): return (Box(before(t, sep)), SEP, Box(after(t, sep)))
            return (o, b'', b'')
        if name in ('find', 'index') and a == [SEP]:
            t = o.term()
            if c.decide(has(sep, t)): return SI(slen(before(t, sep)))
            if name == 'index': py_raise(ValueError, 'subsection not found')
            return -1
        return olds(name, o, a, k) if olds else None
    ip.str_hook = meth
    old = ip.slice_str_hook
    def cut(v, s):
        if isinstance(v, Box) and s.step is None and c.entails(has(sep, v.peek())):
            t = v.term(); b = slen(before(t, sep))
            for lo, hi, r in ((None, b, before(t, sep)), (b + 4, None, after(t, sep))):
                if all((x is None) == (y is None) and (x is None or c.entails((z3.IntVal(ip.num(x)) if isinstance(ip.num(x), int) else ip.num(x)) == y)) for x, y in ((s.lo, lo), (s.hi, hi))): return Box(r)
        return old(v, s)
    ip.slice_str_hook = cut

class Wire:
    """one end of a connection: messages are received one after the other"""
    def __init__(self, ip, cls='bversion.http.'):
        self.ip, self.c = ip, ip.ctx; c = self.c
        self.g = Obj('ghost', {'unread': False, 'answered': True})
        self.s = None; self.readers = []; self.parsed = []
        x = z3.Const('x', V)
        def reader(ip, a, k, f):
            b = bind(f, a, k, ip)
            o = a[0]
            vals = [b.get('reader'), b.get('body_length'), b.get('body_partial')]
            self.readers.append((o, vals)); c.log(lambda: self.readers.pop(), None)
            ip.setattr_(self.g, 'unread', True)
        ip.overrides[H + 'read_body.__init__'] = reader
        for m in ('read', 'read_all', 'dump'): ip.overrides[H + 'read_body.' + m] = self.body(m)
        for n in ('request', 'responce'): ip.overrides[H + 'parse_http_%s_preamble' % n] = self.preamble(n)
    def preamble(self, n):
        def f(ip, a, k, fn):
            c = self.c
            hd = c.fresh('headers'); x = z3.Const('x', V)
            c.assume(ty(hd) == T_DICT)
            c.assume(z3.ForAll([x], z3.Implies(dhas(hd, x), z3.And(F('s_lower_0', V, V)(x) == x, ty(x) == T_STR, ty(dget(hd, x)) == T_STR)), patterns=[dhas(hd, x)]))
            self.parsed.append((ip.term(a[0]), hd)); c.log(lambda: self.parsed.pop(), None)
            if c.choose('bad preamble'): py_raise(Exception, 'bad preamble')
            d = DictObj({'headers': Box(hd)})
            if n == 'request':
                m, p = c.fresh('method'), c.fresh('path'); c.assume([ty(m) == T_STR, ty(p) == T_STR])
                d.d.update(method=Box(m), path=Box(p))
            else: d.d.update(protocol=Box(c.fresh('protocol')), status=Box(c.fresh('status')))
            return d
        return f
    def body(self, m):
        def f(ip, a, k, fn):
            c = self.c
            if c.choose('closed'): py_raise(Exception, 'Socket closed')
            if m == 'dump': ip.setattr_(self.g, 'unread', False); return None
            if m == 'read_all': ip.setattr_(self.g, 'unread', False)
            t = c.fresh('body'); c.assume(ty(t) == T_BYTES); return Box(t)
        return f
    def recv(self, ip, a, k):
        c = self.c
        u = ip.truth(self.g.attrs['unread'])
        c.prove('the next message is read only after the body of the last', z3.Not(u) if z3.is_expr(u) else not u)
        if c.choose('recv fails'): py_raise(OSError, 104, 'reset', errno=104)
        if self.s is None: raise Unsupported('the connection is read outside of the loop that collects the headers')
        return self.s.read(ip, a, k)
    def head_loop(self, ip, st, env):
        """the loop that collects the header block"""
        c = self.c
        self.s = Stream(ip, b''); c.log(lambda: setattr(self, 's', None), None)
        names = [n for n, x in env.vars.items() if isinstance(x, bytes) and x == b'']
        if len(names) != 1: raise Unsupported('the place the header block is collected in')
        return self.s.loop(st, env, lambda: env.vars[names[0]])
    def check(self, sock_recv):
        """the body reader made for the message just received"""
        c, ip = self.c, self.ip
        if not self.readers or self.s is None: c.prove('a body reader is made', False); return None
        o, (rd, n, p) = self.readers[-1]
        sep = c.const(SEP); got = self.s.got()
        pre_, hd = self.parsed[-1]
        c.prove('the headers parsed are the bytes before the first empty line', z3.And(has(sep, got), pre_ == before(got, sep)))
        c.prove('the body begins right after the header block', ip.term(p) == after(got, sep))
        c.prove('the rest of the body is read from the same connection', isinstance(rd, Native) and rd is sock_recv)
        key = c.const('content-length')
        t = ip.num(n) if not isinstance(n, Box) else None
        c.prove('the length is the one declared', z3.And(dhas(hd, key), t == F('int_parse', V, I)(dget(hd, key))) if t is not None else False)
        return o

def http(v, module):
    ip = v.interp(); c = ip.ctx
    ip.import_module(module)
    em = bytes_theory(ip); preamble_theory(ip)
    ip.trusted.add('bytes')
    return ip, c, Wire(ip)

def unit_client(v):
    """the answer the client reads: header block and body reader"""
    ip, c, W = http(v, 'bversion.http.http_client')
    cls = ip.get('bversion.http.http_client.HTTPClient'); f = ip.get('bversion.http.http_client.HTTPClient.read_responce'); c.func = f.qualname
    rv = Native('recv', W.recv)
    sock = Obj('socket', {'recv': rv})
    ip.while_hooks['bversion.http.*'] = W.head_loop
    n = [0]
    def thunk():
        o = Obj(cls, {'s': sock})
        try: return ip.call(ip.getattr_(o, 'read_responce'), [], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): return
        n[0] += 1
        o = W.check(rv)
        if not isinstance(r, tuple) or len(r) != 2: raise Unsupported('result of read_responce')
        c.prove('the answer is given with its body', r[1] is o)
        h = ip.load_key(r[0], 'headers')
        c.prove('the headers given are those parsed', ip.term(h) == W.parsed[-1][1])
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

CRLF = b'\r\n'
isG = F('header_lines', V, V, I, B)     # the second text is the first followed by the lines of the first i headers

class Headers:
    """a header map: names key(0..n-1) with values val(i), in its order"""
    def __init__(self, ip, name='headers', constant=()):
        self.ip, self.c = ip, ip.ctx; c = self.c
        self.hd = c.fresh(name); self.n = c.fresh('n', I)
        self.key, self.val = c.fresh_fun('key', I, V), c.fresh_fun('val', I, V)
        i, j = z3.Ints('i j'); b, t = z3.Consts('b t', V); K = c.const
        self.cond = lambda i: z3.And(i >= 0, i < self.n)
        ki, vi = self.key(i), self.val(i)
        fa = lambda vs, b, *p: c.bg.append(z3.ForAll(vs, b, patterns=list(p)))
        c.bg += [self.n >= 0, ty(self.hd) == T_DICT]
        fa([i], z3.Implies(self.cond(i), z3.And(ty(ki) == T_STR, ty(vi) == T_STR, dhas(self.hd, ki), dget(self.hd, ki) == vi)), ki); fa([i], z3.Implies(self.cond(i), ty(vi) == T_STR), vi)
        idx = c.fresh_fun('position', V, I)
        fa([i], z3.Implies(self.cond(i), idx(ki) == i), ki)                # a name stands in a map once
        fa([b], isG(b, b, z3.IntVal(0)), isG(b, b, z3.IntVal(0)))
        for sep in (b':', b': '):
            l = cat(t, self.line(i, sep))
            fa([b, t, i], z3.Implies(z3.And(isG(b, t, i), self.cond(i)), isG(b, l, i + 1)), z3.MultiPattern(isG(b, t, i), l))
        old = getattr(ip, 'box_items_hook', None)
        def items(bx, what):
            if bx.peek().eq(self.hd): return ListObj([self.seg(what)])
            return old(bx, what) if old else None
        ip.box_items_hook = items
        ip.box_iter_hook = chain(getattr(ip, 'box_iter_hook', None), lambda bx: [self.seg('keys')] if bx.peek().eq(self.hd) else None)
        ip.for_hooks = list(getattr(ip, 'for_hooks', ())) + [self.loop]
        oldj = getattr(ip, 'join_hook', None)
        def join(o, a):
            segs = ip.iter_segs(a)
            if o == b'' and len(segs) == 1 and isinstance(segs[0], DSeg) and self.mine(segs[0]):
                k = c.fresh('i', I)
                v = ip.term(subst_val(segs[0].value, [(segs[0].bvs[0], k)]))
                if any(c.entails(z3.Implies(self.cond(k), v == self.line(k, s))) for s in (b':', b': ')):
                    t = c.fresh('lines'); c.assume([ty(t) == T_BYTES, isG(c.const(b''), t, self.n)]); return Box(t)
            return oldj(o, a) if oldj else None
        ip.join_hook = join
    def line(self, i, sep):
        K = self.c.const; return cat(enc(self.key(i)), cat(K(sep), cat(enc(self.val(i)), K(CRLF))))
    def seg(self, what):
        i = self.c.fresh('h', I)
        k, v = Box(self.key(i)), Box(self.val(i))
        return DSeg([i], self.cond(i), {'items': (k, v), 'keys': k, 'values': v}[what], True)
    def mine(self, seg):
        i = z3.Int('i')
        return len(seg.bvs) == 1 and seg.bvs[0].sort() == I and z3.substitute(seg.cond, (seg.bvs[0], i)).eq(self.cond(i))
    def loop(self, ip, seg, body, env, st):
        if not self.mine(seg) or st is None or not hasattr(st, 'body'): return NotImplemented
        stored = {x.id for s in st.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        stored -= {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
        acc = [n for n in stored if n in env.vars and (isinstance(env.vars[n], bytes) or isinstance(env.vars[n], Box))]
        if len(acc) != 1: return NotImplemented
        base = ip.term(env.vars[acc[0]])
        def inv(done):
            t = ip.term(env.vars[acc[0]])
            return [('the header lines so far', z3.And(ty(t) == T_BYTES, isG(base, t, done.count)))]
        for_inv(ip, seg, body, env, inv, 'header lines')

def unit_generate(v):
    """generate_headers: a line for every header, each once, in order"""
    ip = v.interp(); c = ip.ctx
    f = ip.get(H + 'generate_headers'); c.func = f.qualname
    em = bytes_theory(ip); h = Headers(ip)
    n = [0]
    def thunk():
        try: return ip.call(f, [Box(h.hd)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): c.prove('generating headers does not fail', False); return
        n[0] += 1
        c.prove('the text is the lines of all headers', isG(em, ip.term(r), h.n))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

def unit_parse(sep):
    """parse_headers on the lines name + sep + value"""
    def unit(v):
        ip = v.interp(); c = ip.ctx
        f = ip.get(H + 'parse_headers'); c.func = f.qualname
        bytes_theory(ip); h = Headers(ip)
        K = c.const; i, j = z3.Ints('i j'); x = z3.Const('x', V)
        lower = F('s_lower_0', V, V); strip = F('s_strip_0', V, V)
        fa = lambda vs, b, *p: c.bg.append(z3.ForAll(vs, b, patterns=list(p)))
        # names have no colon, neither has blanks at the ends; names differ also in lower case
        low = lambda i: lower(h.key(i))
        fa([i, j], z3.Implies(z3.And(h.cond(i), h.cond(j), low(i) == low(j)), i == j), z3.MultiPattern(low(i), low(j)))
        fa([x], ty(lower(x)) == ty(x), lower(x))
        def known(t):
            """the pieces of a line: (name, value) when the text is enc(name) + sep + enc(value)"""
            p = [ip.val(q) for q in pieces(t)]
            if len(p) != 3 or p[1] != sep: return None
            a, b = p[0].peek(), p[2].peek()
            return a, b
        name = lambda a: z3.is_app(a) and a.decl().eq(enc) and z3.is_app(a.arg(0)) and a.arg(0).decl().eq(h.key)
        value = lambda a: z3.is_app(a) and a.decl().eq(enc) and z3.is_app(a.arg(0)) and a.arg(0).decl().eq(h.val)
        def cut(o):
            if not isinstance(o, Box): return None
            k = known(o.peek())
            if k is None or not name(k[0]) or not value(k[1]): return None
            return Box(k[0]), (Box(cat(K(sep[1:]), k[1])) if len(sep) > 1 else Box(k[1]))
        old = getattr(ip, 'split_hook', None)
        def split(o, a):
            r = cut(o)
            if r is not None and a == [b':', 1]: return ListObj(items=list(r))
            if r is not None and a[0] != b':': raise Unsupported('splitting a header line')
            return old(o, a) if old else None
        ip.split_hook = split
        olds = getattr(ip, 'str_hook', None)
        def meth(nm, o, a, k):
            if nm == 'partition' and a == [b':']:
                r = cut(o)
                if r is not None: return (r[0], b':', r[1])
            if nm in ('strip', 'lstrip', 'rstrip') and not a and isinstance(o, Box):
                t = o.peek(); p = [ip.val(q) for q in pieces(t)]
                ps = [q.peek() if isinstance(q, Box) else q for q in p]
                # names and values have no blanks at their ends
                bare = lambda t: name(t) or value(t) or z3.is_app(t) and (t.decl().eq(h.key) or t.decl().eq(h.val) or t.decl().eq(dec) and (name(t.arg(0)) or value(t.arg(0))))
                if len(ps) == 1 and bare(ps[0]): return o
                if len(ps) == 2 and ps[0] == b' ' and bare(ps[1]) and nm != 'rstrip': return Box(ps[1])
            return olds(nm, o, a, k) if olds else None
        ip.str_hook = meth
        k = c.fresh('l', I)
        lines = ListObj([DSeg([k], h.cond(k), Box(cat(enc(h.key(k)), cat(K(sep), enc(h.val(k))))), True)])
        n = [0]
        def thunk():
            try: return ip.call(f, [lines], {})
            except PyExc as e: return e
        def visit(r):
            if isinstance(r, PyExc): c.prove('lines of headers parse', False); return
            n[0] += 1
            t = ip.term(r)
            w = c.fresh('w', I); y = c.fresh('y')
            c.prove('every header is there, its name in lower case, its value unchanged', z3.Implies(h.cond(w), z3.And(dhas(t, low(w)), dget(t, low(w)) == h.val(w))))
            c.prove('nothing else is there', z3.Implies(dhas(t, y), z3.Exists([i], z3.And(h.cond(i), y == low(i)))))
        c.explore(thunk, visit)
        c.prove('reachable', n[0] > 0)
    return unit

def unit_preamble(kind):
    """the first line has three words, the lines after it are the headers"""
    def unit(v):
        ip = v.interp(); c = ip.ctx
        f = ip.get(H + 'parse_http_%s_preamble' % kind); c.func = f.qualname
        bytes_theory(ip)
        ptxt = c.fresh('preamble'); c.bg.append(ty(ptxt) == T_BYTES)
        lines, words = F('lines', V, V), F('words', V, V); rest = F('after_first', V, V)
        x = z3.Const('x', V); i = z3.Int('i')
        for g in (lines, words):
            c.bg.append(z3.ForAll([x], z3.And(ty(g(x)) == T_LIST, llen(g(x)) >= 1), patterns=[g(x)]))
            c.bg.append(z3.ForAll([x, i], z3.Implies(z3.And(i >= 0, i < llen(g(x))), ty(lnth(g(x), i)) == T_BYTES), patterns=[lnth(g(x), i)]))
        def split(o, a):
            if isinstance(o, Box) and a == [CRLF] and o.peek().eq(ptxt): return Box(lines(ptxt))
            if isinstance(o, Box) and a == [b' ']: return Box(words(o.term()))
            return None
        ip.split_hook = split
        old = getattr(ip, 'slice_str_hook', None)
        def cut(v, s):
            if isinstance(v, Box) and s.step is None and v.peek().eq(lines(ptxt)) and s.lo == 1 and s.hi is None: return Box(rest(lines(ptxt)))
            if isinstance(v, Box) and s.step is None and z3.is_app(v.peek()) and v.peek().decl().eq(words):
                lo, hi = s.lo or 0, s.hi
                if isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi and c.entails(llen(v.peek()) >= hi): return ListObj(items=[Box(lnth(v.peek(), z3.IntVal(j))) for j in range(lo, hi)])
            return old(v, s) if old else None
        ip.slice_str_hook = cut
        parsed = []
        def ph(ip, a, k, fn):
            arg = a[0] if a else list(k.values())[0]
            c.prove('the header lines are all lines after the first', isinstance(arg, Box) and arg.peek().eq(rest(lines(ptxt))))
            if c.choose('bad header'): py_raise(Exception, 'bad header')
            t = c.fresh('headers'); c.assume(ty(t) == T_DICT); parsed.append(t); c.log(lambda: parsed.pop(), None); return Box(t)
        ip.overrides[H + 'parse_headers'] = ph
        first = words(lnth(lines(ptxt), z3.IntVal(0)))
        n = [0]; bad = [0]
        ph0 = ph
        def ph1(ip, a, k, fn):
            try: return ph0(ip, a, k, fn)
            except PyExc: bad.append(1); c.log(lambda: bad.pop(), None); raise
        ip.overrides[H + 'parse_headers'] = ph1
        def thunk():
            try: return ip.call(f, [Box(ptxt)], {})
            except PyExc as e: return e
        def visit(r):
            if isinstance(r, PyExc): return
            n[0] += 1
            c.prove('the first line has three words', llen(first) == 3)
            if not parsed: c.prove('the headers are parsed', False); return
            g = lambda k: ip.term(ip.load_key(r, k))
            c.prove('the headers are those of the lines', g('headers') == parsed[-1])
            if kind == 'request': c.prove('method and path are the first two words', z3.And(g('method') == dec(lnth(first, z3.IntVal(0))), g('path') == dec(lnth(first, z3.IntVal(1)))))
        c.explore(thunk, visit)
        c.prove('reachable', n[0] > 0)
    return unit

def unit_connection(v):
    """the server: every message of a connection is framed by its header block and declared length, answered, and its body read to the end before the next;
    an answer carries as many bytes as it declares"""
    ip, c, W = http(v, 'bversion.http.http_server')
    K = c.const
    mod = ip.modules['bversion.http.http_server']
    f = ip.get('bversion.http.http_server.HTTPServer'); c.func = f.qualname
    rv = Native('recv', W.recv); g = W.g
    g.attrs.update(owed=b'', sent=b'', headed=True)
    rh = Headers(ip, 'answer_headers')
    size = F('file_size', V, I); content = F('file_content', V, V)
    st = {'out': None, 'bases': []}
    def sendall(ip, a, k):
        t = ip.term(a[0])
        if g.attrs['headed'] is False:
            ip.setattr_(g, 'headed', True)
            c.prove('the answer starts with its header block', header_ok(t))
        else:
            ip.setattr_(g, 'sent', ip.concat(ip.val(ip.term(g.attrs['sent'])), Box(t) if not isinstance(ip.val(t), bytes) else ip.val(t)))
    def header_ok(t):
        """t = status line, lines with the declared length, the lines of the answer's headers, an empty line"""
        ok = []
        for b, x in st['bases']:
            n = declared(b)
            if n is None: continue
            ok.append(z3.And(isG(b, x, rh.n), t == cat(x, K(CRLF)), n == st['n']))
        return z3.Or(*ok) if ok else z3.BoolVal(False)
    def declared(b):
        """the length declared by the constant part of the header block"""
        ps = [ip.val(p) for p in pieces(b)]
        txt = b''; unknown = []
        for p in ps:
            if isinstance(p, bytes): txt += p
            else: unknown.append(p); txt += b'\x00%d\x00' % len(unknown)
        ls = txt.split(CRLF)
        if ls[-1] != b'' or len(ls[0].split(b' ')) != 3: return None
        r = None
        for l in ls[1:-1]:
            if l.count(b':') < 1: return None
            a, x = l.split(b':', 1)
            if a.strip().lower() == b'content-length':
                x = x.strip()
                if r is not None: return None
                if x.isdigit(): r = z3.IntVal(int(x)); continue
                m = [u for j, u in enumerate(unknown) if x == b'\x00%d\x00' % (j + 1)]
                if not m: return None
                u = m[0].peek()
                if not (z3.is_app(u) and u.decl().eq(enc)): return None
                u = u.arg(0)
                if not (z3.is_app(u) and u.decl().eq(bi.strof)): return None
                u = u.arg(0)
                r = u.arg(0) if z3.is_app(u) and u.decl().eq(mkint) else intval(u)
        return r
    old_loop = rh.loop
    def loop(ip, seg, body, env, s):
        if not rh.mine(seg): return NotImplemented
        before_ = {n: ip.term(x) for n, x in env.vars.items() if isinstance(x, (bytes, Box))}
        r = old_loop(ip, seg, body, env, s)
        if r is NotImplemented: return r
        for n, x in env.vars.items():
            if n in before_ and isinstance(x, Box) and not x.peek().eq(before_[n]):
                st['bases'].append((before_[n], x.peek())); c.log(lambda: st['bases'].pop(), None)
        return r
    ip.for_hooks = [loop if h == rh.loop else h for h in ip.for_hooks]
    def serve(ip, a, k):
        rq, cx = a
        o = W.check(rv)
        c.prove('the handler is given the body of the message', ip.getattr_(rq, 'body') is o)
        c.prove('the handler is given the headers of the message', same_headers(ip.getattr_(rq, 'headers')))
        if c.choose('request fails'): py_raise(ValueError, 'request')
        ip.setattr_(g, 'headed', False); ip.setattr_(g, 'sent', b'')
        if c.choose('file'):
            p = c.fresh('path'); c.assume(ty(p) == T_STR); b = ip.call(mod.vars['ServeFile'], [Box(p)], {})
            t = content(p); c.assume([ty(t) == T_BYTES, size(p) == slen(t)])
        else:
            t = c.fresh('answer'); c.assume(ty(t) == T_BYTES); b = Box(t)
        ip.setattr_(g, 'owed', Box(t)); st['n'] = slen(t)
        return ip.call(mod.vars['Responce'], [Box(rh.hd), b], {})
    def same_headers(h):
        t = ip.term(h); hd = W.parsed[-1][1]; x = c.fresh('x')
        return z3.And(dhas(t, x) == dhas(hd, x), z3.Implies(dhas(hd, x), dget(t, x) == dget(hd, x)))
    def stat(ip, a, k):
        p = ip.term(a[0]); return Obj('stat', {'st_size': SI(size(p))})
    setm(ip, 'os', 'stat', stat); setm(ip, 'os.path', 'getsize', lambda ip, a, k: SI(size(ip.term(a[0]))))
    def op(ip, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if mode != 'rb': raise Unsupported('opening a file to send with mode %r' % (mode,))
        fo = Obj('file', {'path': a[0], 'close': Native('close', lambda ip, a, k: None)})
        fo.attrs['__enter__'] = Native('enter', lambda ip, a, k: fo); fo.attrs['__exit__'] = Native('exit', lambda ip, a, k: None)
        return fo
    ip.builtins['open'] = Native('open', op)
    def sendfile(ip, a, k):
        fo = a[0]; off = a[1] if len(a) > 1 else k.get('offset', 0); cnt = a[2] if len(a) > 2 else k.get('count')
        c.prove('the file is sent from its beginning to its end, after the header block', off == 0 and cnt is None and g.attrs['headed'] is True)
        ip.setattr_(g, 'sent', ip.concat(ip.val(ip.term(g.attrs['sent'])), Box(content(ip.term(fo.attrs['path'])))))
    def bytesio(ip, a, k):
        S = Stream(ip, b'', whole=ip.term(a[0])); old = st['out']; st['out'] = S; c.log(lambda: st.__setitem__('out', old), None)
        return Obj('BytesIO', {'read': Native('read', S.read)})
    setm(ip, 'io', 'BytesIO', bytesio)
    if 'BytesIO' in mod.vars: mod.vars['BytesIO'] = ip.externals['io'].attrs['BytesIO']
    sock = Obj('socket', {'recv': rv, 'sendall': Native('sendall', sendall), 'sendfile': Native('sendfile', sendfile), 'close': Native('close', lambda ip, a, k: None), 'settimeout': Native('settimeout', lambda ip, a, k: None)})
    lst = Obj('socket', {n: Native(n, lambda ip, a, k: None) for n in ('bind', 'listen', 'close', 'setsockopt', 'settimeout')})
    got = []
    def accept(ip, a, k):
        if got: raise PathEnd()
        return (sock, ('1.2.3.4', 5))
    lst.attrs['accept'] = Native('accept', accept)
    setm(ip, 'socket', 'socket', lambda ip, a, k: lst); ext(ip, 'socket', {'AF_INET': 1, 'SOCK_STREAM': 2, 'SOL_SOCKET': 3, 'SO_REUSEADDR': 4})
    class Caught(Exception):
        def __init__(self, fn, args): self.fn, self.args_ = fn, args
    def start(ip, a, k): raise Caught(a[0], a[1])
    setm(ip, '_thread', 'start_new_thread', start)
    setm(ip, 'threading', 'Thread', lambda ip, a, k: Obj('Thread', {'start': Native('start', lambda ip2, a2, k2: start(ip2, [k['target'], k['args']], {}))}))
    def T(x): x = ip.truth(x); return x if z3.is_expr(x) else z3.BoolVal(x)
    depth = [0]
    def hook(ip, s, env):
        if depth[0] == 0:
            depth[0] += 1
            try:
                def inv(): return [('the body of the last message was read, and its answer sent completely', z3.And(z3.Not(T(g.attrs['unread'])), T(g.attrs['headed']), ip.term(g.attrs['sent']) == ip.term(g.attrs['owed'])))]
                while_inv(ip, s, env, inv, 'messages')
            finally: depth[0] -= 1
            return
        if W.s is None: return W.head_loop(ip, s, env)
        if st['out'] is None: raise Unsupported('a loop of the connection that neither reads headers nor sends the answer')
        return st['out'].loop(s, env, lambda: g.attrs['sent'], extra=lambda: [('the header block is sent', T(g.attrs['headed']))])
    ip.while_hooks['bversion.http.http_server.HTTPServer.handle_connection*'] = hook
    ip.while_hooks['bversion.http.*'] = lambda ip, s, env: hook(ip, s, env) if depth[0] else NotImplemented
    old_havoc = getattr(ip, 'havoc_hook', None)
    ip.havoc_hook = lambda cur: cur if isinstance(cur, (Obj, Native)) or cur is None else (old_havoc(cur) if old_havoc else None)
    n = [0]
    def thunk():
        try: ip.call(f, ['h', 80, Native('serve', serve)], {})
        except Caught as e: fn, args = e.fn, e.args_
        except PyExc as e: raise PathEnd()
        else: raise Unsupported('the server does not start a thread for a connection')
        got.append(1); c.log(lambda: got.pop(), None)
        try: ip.call(fn, list(args) if isinstance(args, tuple) else list(ip.iter_segs(args)[0].items), {})
        except PyExc as e: return e
    def visit(r): n[0] += 1
    c.explore(thunk, visit)
    c.prove('a connection can end', n[0] > 0)

HC = 'bversion.http.http_client.HTTPClient'
CR = 'bversion.http.client_http_request.client_http_request'

def unit_send_headers(v):
    """the header block that the client sends"""
    ip = v.interp(); c = ip.ctx
    f = ip.get(HC + '.send_headers'); c.func = f.qualname
    bytes_theory(ip); h = Headers(ip); K = c.const
    uri = c.fresh('uri'); c.bg.append(ty(uri) == T_STR)
    lines = c.fresh('lines'); c.bg.append(ty(lines) == T_BYTES)
    def gen(ip, a, k, fn):
        c.prove('the lines are those of the headers given', ip.term(a[0] if a else list(k.values())[0]) == h.hd); return Box(lines)
    ip.overrides[H + 'generate_headers'] = gen
    g = Obj('ghost', {'sent': b''}); n = [0]
    def sendall(ip, a, k): ip.setattr_(g, 'sent', ip.concat(g.attrs['sent'], ip.val(ip.term(a[0]))))
    sock = Obj('socket', {'sendall': Native('sendall', sendall)})
    def thunk():
        o = Obj(ip.get(HC), {'s': sock})
        try: return ip.call(ip.getattr_(o, 'send_headers'), [Box(uri), Box(h.hd)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): c.prove('sending headers does not fail by itself', False); return
        n[0] += 1
        ps = []
        for p in pieces(ip.term(g.attrs['sent'])):
            x = ip.val(p)
            if isinstance(x, bytes) and ps and isinstance(ps[-1], bytes): ps[-1] += x
            else: ps.append(x if isinstance(x, bytes) else p)
        want = [b'POST ', enc(uri), b' HTTP/1.1\r\n', lines, CRLF]
        c.prove('request line, header lines, empty line', len(ps) == len(want) and z3.And(*[z3.BoolVal(a == b) if isinstance(b, bytes) or isinstance(a, bytes) else a == b for a, b in zip(ps, want)]))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

def unit_client_send(name):
    """a request: the declared length is the number of body bytes sent after the headers, and the answer is read completely"""
    def unit(v):
        ip = v.interp(); c = ip.ctx; K = c.const
        f = ip.get(CR + '.' + name); c.func = f.qualname
        bytes_theory(ip); h = Headers(ip, 'add_headers')
        x = z3.Const('x', V); jd = F('jdumps', V, V)
        c.bg.append(z3.ForAll([x], z3.And(slen(enc(jd(x))) == slen(jd(x)), slen(jd(x)) >= 0), patterns=[jd(x)]))      # dumps gives ASCII text
        low = F('s_lower_0', V, V)
        i = z3.Int('i')
        # the request does not name the length itself
        c.bg.append(z3.ForAll([i], z3.Implies(h.cond(i), z3.And(low(h.key(i)) != K('content-length'), *[h.key(i) != K(s) for s in ('Content-length', 'Content-Length', 'content-length', 'CONTENT-LENGTH')])), patterns=[h.key(i)]))
        c.bg.append(bi.strof(mkint(2)) == K('2'))
        size, content = F('file_size', V, I), F('file_content', V, V)
        g = Obj('ghost', {'sent': b'', 'headed': False, 'readall': False})
        got = []; S = {}
        def send_headers(ip, a, k, fn):
            b = bind(fn, a, k, ip)
            c.prove('the header block is sent once, first', g.attrs['headed'] is False and isinstance(g.attrs['sent'], bytes) and g.attrs['sent'] == b'')
            ip.setattr_(g, 'headed', True)
            got.append(ip.term(b['headers'])); c.log(lambda: got.pop(), None)
            got_uri.append(ip.term(b['uri'])); c.log(lambda: got_uri.pop(), None)
        got_uri = []
        def send(ip, a, k, fn=None):
            ip.setattr_(g, 'sent', ip.concat(ip.val(ip.term(g.attrs['sent'])), ip.val(ip.term(a[-1]))))
        ip.overrides[HC + '.send_headers'] = send_headers
        ip.overrides[HC + '.send'] = send
        body = c.fresh('answer'); hd = c.fresh('answer_headers'); c.bg += [ty(body) == T_BYTES, ty(hd) == T_DICT]
        def answer(ip, a, k, fn):
            check()
            o = ip.call(ip.get(H + 'read_body'), [Native('recv', None), SI(slen(body)), Box(body)], {})
            if c.choose('closed'): py_raise(Exception, 'Socket closed')
            S['o'] = o; return (DictObj({'headers': Box(hd), 'protocol': b'', 'status': ListObj()}), o)
        ip.overrides[HC + '.read_responce'] = answer
        def read_all(ip, a, k, fn):
            c.prove('the body read is that of the answer', a[0] is S['o'])
            if c.choose('closed early'): py_raise(Exception, 'Socket closed')
            return Box(body)
        ip.overrides[H + 'read_body.read_all'] = read_all
        def fresh_stream():
            if 's' not in S: S['s'] = Stream(ip, None, whole=body); c.log(lambda: S.pop('s'), None)
            return S['s']
        def read(ip, a, k, fn):
            c.prove('the body read is that of the answer', a[0] is S['o'])
            if c.choose('closed early'): py_raise(Exception, 'Socket closed')
            return fresh_stream().read(ip, a[1:], k)
        ip.overrides[H + 'read_body.read'] = read
        url = c.fresh('url'); c.bg.append(ty(url) == T_STR)
        path = c.fresh('file'); c.bg += [ty(path) == T_STR, ty(content(path)) == T_BYTES, size(path) == slen(content(path))]
        data = c.fresh('data')
        setm(ip, 'os', 'stat', lambda ip, a, k: Obj('stat', {'st_size': SI(size(ip.term(a[0])))})); setm(ip, 'os.path', 'getsize', lambda ip, a, k: SI(size(ip.term(a[0]))))
        out = Obj('ghost', {'written': None, 'path': None})
        def op(ip, a, k):
            mode = a[1] if len(a) > 1 else k.get('mode', 'r')
            fo = Obj('file', {'path': a[0], 'close': Native('close', lambda ip, a, k: None)})
            fo.attrs['__enter__'] = Native('enter', lambda ip, a, k: fo); fo.attrs['__exit__'] = Native('exit', lambda ip, a, k: None)
            if mode == 'rb':
                c.prove('the file asked for is sent', ip.term(a[0]) == path)
                S['f'] = Stream(ip, b'', whole=content(path)); c.log(lambda: S.pop('f'), None)
                fo.attrs['read'] = Native('read', S['f'].read)
            elif mode == 'wb':
                ip.setattr_(out, 'written', b''); ip.setattr_(out, 'path', a[0])
                fo.attrs['write'] = Native('write', lambda ip, a, k: ip.setattr_(out, 'written', ip.concat(ip.val(ip.term(out.attrs['written'])), ip.val(ip.term(a[0])))))
            else: raise Unsupported('file mode')
            return fo
        ip.builtins['open'] = Native('open', op)
        def loop(ip, s, env):
            if 'f' in S and not g.attrs.get('answered'): return S['f'].loop(s, env, lambda: g.attrs['sent'])
            return fresh_stream().loop(s, env, lambda: out.attrs['written'])
        ip.while_hooks['bversion.http.client_http_request*'] = loop
        def check():
            ip.setattr_(g, 'answered', True)
            if len(got) != 1: c.prove('the header block is sent', False); return
            t = got[-1]; sent = ip.term(g.attrs['sent'])
            want = content(path) if name != 'request' else enc(jd(st['data'])) if st['data'] is not None else K(b'{}')
            c.prove('the body sent is the data', sent == want)
            length = K('2') if name == 'request' and st['data'] is None else bi.strof(mkint(slen(sent)))
            ks = [s for s in ('Content-length', 'Content-Length', 'content-length', 'CONTENT-LENGTH')]
            c.prove('the length declared is that of the body sent', z3.Or(*[z3.And(dhas(t, K(s)), dget(t, K(s)) == length) for s in ks]))
            w = c.fresh('w', I)
            c.prove('the headers asked for are sent', z3.Implies(h.cond(w), z3.And(dhas(t, h.key(w)), dget(t, h.key(w)) == h.val(w))))
            c.prove('the request goes to the path asked for', got_uri[-1] == cat(K('/'), url))
        st = {}; n = [0]
        def thunk():
            cn = Obj(ip.get(HC), {'s': Obj('socket')})
            o = Obj(ip.get(CR), {'c': cn, 'server_base_url': Box(host)})
            out.attrs.update(written=None, path=None); st['w'] = None
            a = [Box(url), Box(h.hd)]
            if name == 'request':
                if c.choose('data'): a.append(Box(data)); st['data'] = data
                else: st['data'] = None
                if c.choose('to a file'): a += [None] * (3 - len(a)) + [True]; st['w'] = True
            else: a.append(Box(path))
            try:
                r = ip.call(ip.getattr_(o, name), a, {})
                if st['w']: ip.call(r[0], [Box(dest)], {})
                return r
            except PyExc as e: return e
        host = c.fresh('host'); dest = c.fresh('dest'); c.bg += [ty(host) == T_STR, ty(dest) == T_STR]
        c.bg.append(data != c.c_none)
        def visit(r):
            if isinstance(r, PyExc): return
            n[0] += 1
            if not isinstance(r, tuple) or len(r) != 2: raise Unsupported('result of ' + name)
            c.prove('the headers of the answer are given', ip.term(r[1]) == hd)
            if st['w']: c.prove('the file written is the whole body of the answer', z3.And(ip.term(out.attrs['path']) == dest, ip.term(out.attrs['written']) == body))
            else: c.prove('the whole body of the answer is given', ip.term(r[0]) == body)
        c.explore(thunk, visit)
        c.prove('reachable', n[0] > 0)
    return unit

UNITS = [('read', unit_read), ('read_all', unit_whole('read_all')), ('dump', unit_whole('dump')), ('client answer', unit_client), ('generate_headers', unit_generate), ('parse_headers', unit_parse(b': ')), ('parse_headers without blank', unit_parse(b':')), ('request preamble', unit_preamble('request')), ('answer preamble', unit_preamble('responce')), ('server connection', unit_connection), ('send_headers', unit_send_headers), ('request', unit_client_send('request')), ('send_file', unit_client_send('send_file'))]

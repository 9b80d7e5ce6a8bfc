"""Stubs for the modules the repository imports.  Every stub is an assumption listed in the trusted base."""
import errno as _errno
import z3
from .core import *
from .values import *
from . import values
from .interp import Interp

class OpaqueMod(Mod):
    """a module whose functions may be named but not called"""
    opaque = True

def native(fn, name=None):
    return Native(name or fn.__name__, fn)

def unsup(name):
    def f(ip, a, k): raise Unsupported('call of %s is not modelled' % name)
    return Native(name, f)

TRUST = {}
def trust(key, text): TRUST[key] = text

def new_interp(deadline=None, root='/repo'):
    from . import values
    ctx = Ctx(deadline)
    ip = Interp(ctx, root)
    ip.trusted = set()
    base(ip)
    return ip

def ext(ip, name, attrs=None, opaque=True):
    m = ip.externals.get(name)
    if m is None:
        m = (OpaqueMod if opaque else Mod)(name, {})
        ip.externals[name] = m
        if '.' in name:
            parent, leaf = name.rsplit('.', 1)
            ext(ip, parent).attrs[leaf] = m
    if attrs: m.attrs.update(attrs)
    return m

def setm(ip, name, attr, fn):
    ext(ip, name).attrs[attr] = fn if not callable(fn) or isinstance(fn, (Native,)) else Native(attr, fn)

def base(ip):
    c = ip.ctx
    for n in ('os os.path json hashlib errno copy shutil fcntl time sys threading collections collections.abc datetime io base64 '
              'binascii pysodium sqlite3 getpass fnmatch urllib urllib.parse socket ssl boto3 struct re _thread pprint '
              'typing typing_extensions termcolor boto3 argparse random uuid hmac stat tempfile itertools functools').split():
        ext(ip, n)
    gen = Native('typing', lambda ip, a, k: None)
    for n in 'List Dict Tuple Optional Any Callable Union Iterator Iterable Generator Set Mapping Sequence IO'.split():
        setm(ip, 'typing', n, gen)
    setm(ip, 'typing', 'cast', lambda ip, a, k: a[1])
    setm(ip, 'typing', 'TypedDict', 'TypedDict'); setm(ip, 'typing_extensions', 'TypedDict', 'TypedDict')
    setm(ip, 'termcolor', 'colored', lambda ip, a, k: a[0])
    for n in dir(_errno):
        if n[0] == 'E': ext(ip, 'errno').attrs[n] = getattr(_errno, n)
    # pure path functions
    def uf(name):
        def f(ip, a, k):
            return Box(ip.ctx_uf('os_' + name, V, *a))
        return f
    for n in ('basename', 'splitext', 'dirname', 'normpath', 'abspath'):
        setm(ip, 'os.path', n, uf(n))
    setm(ip, 'os', 'sep', '/')
    setm(ip, 'os', 'environ', DictObj({}))
    def deepcopy(ip, a, k): return ip.deepcopy(a[0])
    setm(ip, 'copy', 'deepcopy', deepcopy)
    setm(ip, 'copy', 'copy', lambda ip, a, k: ip.dict_copy(a[0]))
    # json
    jd, jl = F('jdumps', V, V), F('jloads', V, V)
    x = z3.Const('x', V)
    c.bg.append(z3.ForAll([x], jl(jd(x)) == x, patterns=[jd(x)]))
    c.bg.append(z3.ForAll([x], ty(jd(x)) == T_STR, patterns=[jd(x)]))
    trust('json', 'json.loads(json.dumps(x)) == x for the JSON-able values the code stores; dumps is a function of the value')
    def dumps(ip, a, k):
        t = ip.term(a[0]); return Box(jd(t))
    def loads(ip, a, k):
        v = a[0]
        t = ip.term(v)
        # bytes or text give the same value
        if z3.is_app(t) and t.decl().name() == 'enc_utf8': t = t.arg(0)
        if z3.is_app(t) and t.decl().eq(jd): return ip.val(t.arg(0))
        ok = F('json_ok', V, B)(t)
        if not ip.json_total and not c.decide(ok): py_raise(ValueError, 'json')
        return Box(jl(t))
    ip.json_total = False
    setm(ip, 'json', 'dumps', dumps); setm(ip, 'json', 'loads', loads)
    def defaultdict(ip, a, k):
        return DictObj(default=a[0] if a else None)
    setm(ip, 'collections', 'defaultdict', defaultdict)
    setm(ip, 'collections', 'OrderedDict', lambda ip, a, k: ip.call(ip.builtins['dict'], a, k))
    setm(ip, 'time', 'time', lambda ip, a, k: Box(ip.now()))
    def now():
        t = c.fresh('now'); c.assume(ty(t) == T_REAL); return t
    ip.now = now
    setm(ip, 'pprint', 'pprint', lambda ip, a, k: None)

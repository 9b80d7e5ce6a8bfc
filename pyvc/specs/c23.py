"""C23: a private key that was generated is what unlocking it gives."""
import z3
from ..srv import *
from ..bytesx import Bytes
from ..loops import while_inv

pwh = F('pwhash', V, V, V, V, V, V, V); pwp = F('pwhash_pw', V, V); pws = F('pwhash_salt', V, V)
box = F('secretbox', V, V, V, V); unbox = F('secretbox_open', V, V, V, V); bk = F('box_key', V, V); bn = F('box_nonce', V, V); bm = F('box_text', V, V)
trust('secretbox', 'pysodium.crypto_secretbox_open(crypto_secretbox(m, n, k), n, k) == m, and it raises for every key and nonce but the ones the text was made with')
trust('pwhash', 'crypto_pwhash is a function of its arguments and does not collide for different passwords')

# constants of libsodium
SODIUM = dict(crypto_pwhash_SALTBYTES=16, crypto_box_NONCEBYTES=24, crypto_secretbox_NONCEBYTES=24, crypto_secretbox_MACBYTES=16, crypto_box_MACBYTES=16,
    crypto_secretbox_KEYBYTES=32, crypto_box_SECRETKEYBYTES=32, crypto_box_PUBLICKEYBYTES=32, crypto_sign_SECRETKEYBYTES=64, crypto_sign_PUBLICKEYBYTES=32, crypto_sign_BYTES=64, crypto_sign_SEEDBYTES=32,
    crypto_pwhash_argon2i_OPSLIMIT_INTERACTIVE=4, crypto_pwhash_argon2i_MEMLIMIT_INTERACTIVE=33554432, crypto_pwhash_argon2i_OPSLIMIT_MODERATE=6, crypto_pwhash_argon2i_MEMLIMIT_MODERATE=134217728, crypto_pwhash_ALG_ARGON2I13=1, crypto_pwhash_ALG_ARGON2ID13=2, crypto_pwhash_ALG_DEFAULT=2)

def crypto(v):
    ip, c, w = server(v, ('bversion.crypto',))
    Bytes(ip); ip.trusted |= {'secretbox', 'pwhash', 'b64', 'random'}
    ks = dict(SODIUM); SB_ = ks['crypto_pwhash_SALTBYTES']
    ext(ip, 'pysodium', ks)
    pk, pub = c.fresh('private_key'), c.fresh('public_key'); c.bg += [ty(pk) == T_BYTES, ty(pub) == T_BYTES]
    MAC = ks['crypto_secretbox_MACBYTES']; c.bg.append(slen(pk) == ks['crypto_sign_SECRETKEYBYTES'])
    setm(ip, 'pysodium', 'crypto_sign_keypair', lambda ip, a, k: (Box(pub), Box(pk)))
    def rnd(ip, a, k):
        t = c.fresh('random'); n = ip.num(a[0]); c.assume([ty(t) == T_BYTES, slen(t) == n]); return Box(t)
    setm(ip, 'pysodium', 'randombytes', rnd)
    fa = lambda vs, b, p: c.bg.append(z3.ForAll(vs, b, patterns=[p]))
    x = z3.Consts('a b d e f g', V); h = pwh(*x); fa(list(x), z3.And(pwp(h) == x[1], pws(h) == x[2], ty(h) == T_BYTES), h)
    a, b, d = z3.Consts('a b d', V); e = box(a, b, d); fa([a, b, d], z3.And(bm(e) == a, bn(e) == b, bk(e) == d, unbox(e, b, d) == a, ty(e) == T_BYTES, slen(e) == slen(a) + MAC), e)
    def T(x): return ip.term(x) if not isinstance(x, SI) else mkint(x.t)
    def pwhash(ip, args, kw):
        names = ['outlen', 'passwd', 'salt', 'opslimit', 'memlimit', 'alg']
        b = dict(zip(names, args)); b.update(kw)
        if set(b) != set(names): raise Unsupported('crypto_pwhash arguments')
        s = T(b['salt'])
        if not c.entails(slen(s) == SB_): py_raise(ValueError, 'salt')
        return Box(pwh(*[T(b[n]) for n in names]))
    setm(ip, 'pysodium', 'crypto_pwhash', pwhash)
    setm(ip, 'pysodium', 'crypto_secretbox', lambda ip, a, k: Box(box(*[T(y) for y in a])))
    def open_(ip, a, k):
        t, n, key = [T(y) for y in a]
        ok = F('box_ok', V, V, V, B)(t, n, key)
        # made by secretbox with exactly this nonce and key
        c.assume(z3.Implies(ok, t == box(bm(t), n, key)))
        if z3.is_app(t) and t.decl().eq(box): c.assume(z3.Implies(z3.And(t.arg(1) == n, t.arg(2) == key), ok))
        if not c.decide(ok): py_raise(ValueError, 'cannot open')
        return Box(unbox(t, n, key))
    setm(ip, 'pysodium', 'crypto_secretbox_open', open_)
    y = z3.Const('y', V)
    fa([y], z3.And(ty(dec(b64e(y))) == T_STR, b64d(dec(b64e(y))) == y), dec(b64e(y)))
    setm(ip, 'base64', 'b64decode', lambda ip, a, k: Box(decode64(ip, ip.term(a[0]))))
    c.bg.append(z3.ForAll([y], slen(y) >= 0, patterns=[slen(y)]))
    return ip, c, w, pk, pub

def decode64(ip, t):
    while z3.is_app(t) and t.decl().name() in (enc.name(), dec.name()): t = t.arg(0)
    if z3.is_app(t) and t.decl().eq(b64e): return t.arg(0)
    return b64d(t)

def unit_round(v):
    ip, c, w, pk, pub = crypto(v)
    gen, unl = ip.get('bversion.crypto.make_keypair'), ip.get('bversion.crypto.unlock_private_key'); c.func = gen.qualname
    P, Q = c.fresh('password'), c.fresh('password_given'); c.bg += [ty(P) == T_STR, ty(Q) == T_STR]
    ip.overrides['bversion.crypto.prompt_for_new_password'] = lambda ip, a, k, f: Box(P)
    setm(ip, 'getpass', 'getpass', lambda ip, a, k: Box(Q))
    def inp(ip, a, k):
        t = c.fresh('answer'); c.assume(ty(t) == T_STR); return Box(t)
    ip.builtins['input'] = Native('input', inp)
    ip.builtins['print'] = Native('print', lambda ip, a, k: None)
    ip.while_hooks['bversion.crypto.*'] = lambda ip, s, env: while_inv(ip, s, env, lambda: [], 'question')
    asked = Obj('ghost', {'n': 0})
    n = {'plain': 0, 'right': 0, 'wrong': 0}
    def thunk():
        try: a, b = ip.call(gen, [], {})
        except PyExc as e: return ('gen', e)
        key = a if c.choose('bytes') else Box(dec(ip.term(a)))       # as it was returned, or as the text of the configuration file
        enc_ = [False]
        def gp(ip, a, k): enc_[0] = True; return Box(Q)
        setm(ip, 'getpass', 'getpass', gp)
        c.func = unl.qualname
        try: return ('got', ip.call(unl, [key], {}), enc_[0], b)
        except PyExc as e: return ('failed', e, enc_[0], b)
        finally: c.func = gen.qualname
    def visit(r):
        c.prove('generating a key does not fail', r[0] != 'gen')
        if r[0] == 'gen': return
        kind, got, encrypted, b = r
        c.prove('the public key is the one generated', ip.term(b) == b64e(pub))
        if not encrypted:
            n['plain'] += 1
            c.prove('a key stored in plain is unlocked without a password', kind == 'got')
            if kind == 'got': c.prove('unlocking gives the key that was generated', ip.term(got) == pk)
        elif kind == 'got':
            n['right'] += 1
            c.prove('only the right password unlocks the key', P == Q)
            c.prove('unlocking gives the key that was generated', ip.term(got) == pk)
        else:
            n['wrong'] += 1
            c.prove('the right password unlocks the key', P != Q)
    c.explore(thunk, visit)
    for k in n: c.prove('reachable: ' + k, n[k] > 0)

def unit_prompt(v):
    """the password of a new key is one that was typed twice"""
    ip, c, w, pk, pub = crypto(v)
    f = ip.get('bversion.crypto.prompt_for_new_password'); c.func = f.qualname
    typed = Obj('ghost', {'a': None, 'b': None})
    def gp(ip, a, k):
        t = c.fresh('typed'); c.assume(ty(t) == T_STR)
        ip.setattr_(typed, 'a', typed.attrs['b']); ip.setattr_(typed, 'b', Box(t)); return Box(t)
    setm(ip, 'getpass', 'getpass', gp)
    ip.builtins['print'] = Native('print', lambda ip, a, k: None)
    ip.while_hooks['bversion.crypto.*'] = lambda ip, s, env: while_inv(ip, s, env, lambda: [], 'question')
    n = [0]
    def thunk():
        try: return ip.call(f, [], {})
        except PyExc as e: return e
    def visit(r):
        c.prove('asking for a password does not fail', not isinstance(r, PyExc))
        if isinstance(r, PyExc): return
        n[0] += 1
        c.prove('the password is what was typed, twice', z3.And(ip.term(r) == ip.term(typed.attrs['a']), ip.term(r) == ip.term(typed.attrs['b'])))
    c.explore(thunk, visit)
    c.prove('reachable', n[0] > 0)

UNITS = [('generate and unlock', unit_round), ('prompt_for_new_password', unit_prompt)]

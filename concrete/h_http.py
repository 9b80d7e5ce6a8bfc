"""Contracts of message framing, checked on concrete byte streams and over loopback sockets (C22)."""
from .lib import *
import socket, _thread
from bversion.http import http_common, http_server, http_client, client_http_request
from bversion.http.http_common import read_body

class Stream:
    """a peer that delivers in pieces of its own choosing"""
    def __init__(self, rng, data, closes=True): self.rng, self.data, self.pos, self.closes = rng, data, 0, closes; self.asked = []
    def recv(self, n):
        self.asked.append(n)
        check(n is not None and n > 0, 'asked the network for %r bytes' % (n,))
        if self.pos == len(self.data):
            check(len(self.asked) < 100000, 'keeps asking a closed connection'); return b''
        k = self.rng.choice([1, 1, 2, 3, 7, 50, 1000, n]); k = min(k, n)
        r = self.data[self.pos:self.pos + k]; self.pos += len(r); return r

def body_cases(rng, rep):
    n = rng.choice([0, 0, 1, 2, 3, 10, 100, 1023, 1024, 5000]); body = bytes(rng.getrandbits(8) for _ in range(n))
    part = rng.choice([0, 0, n, n // 2, min(1, n), max(0, n - 1)])
    following = rng.choice([b'', b'POST / HTTP/1.1\r\n\r\n', b'x'])
    extra = following if part == n and rng.random() < 0.5 else b''
    early = rng.random() < 0.3 and part < n
    data = body[part:] + following
    if early: cut = rng.randrange(0, n - part); data = body[part:part + cut]
    s = Stream(rng, data); r = read_body(s.recv, n, body[:part] + extra); rep.count((n, part, early, bool(following), bool(extra)))
    d = dict(length=n, with_header=part, early_close=early)
    how = rng.choice(['read_all', 'reads', 'all', 'dump', 'mixed']); got = b''; ended = False; err = None
    try:
        if how == 'read_all': got = r.read_all(); ended = True
        elif how == 'dump': r.dump(); ended = True; got = body
        else:
            for i in range(100000):
                k = rng.choice([1, 2, 10, 100, 10 ** 6, None] if how != 'all' else [None]); x = r.read(k)
                if x is None: ended = True; break
                check(len(x) > 0, 'reading gave an empty piece instead of the end', **d); check(k is None or len(x) <= k, 'reading gave more than was asked for', **d); got += x
                if how == 'mixed' and rng.random() < 0.2: got += r.read_all(); ended = True; break
            else: raise Violation('reading never ends', **d)
    except Violation: raise
    except Exception as e: err = e
    if early: check(err is not None, 'a body cut short by the peer was delivered as if complete', got=len(got), **d); return
    check(err is None, 'reading a complete body failed: %r' % err, **d)
    check(ended and got == body, 'other bytes than the declared ones were delivered', expected=len(body), got=len(got), same_prefix=got[:min(len(got), n)] == body[:len(got)], how=how, **d)
    check(s.pos == len(data) - len(following), 'bytes of the following message were taken', taken=s.pos - (len(data) - len(following)), how=how, **d)
    check(r.read() is None and r.read_all() == b'' and s.pos == len(data) - len(following), 'reading after the end delivered something', **d)

VAL = ['', 'x', 'a b', 'a: b', 'ü', '日本', ':', '::', 'a:b:c', '"', '{"path": "/a", "hash": "00"}', 'HTTP/1.1', '%0d%0a', 'x' * 3000, '\u2028', 'a\u00a0b', '0']
def rname(rng): return ''.join(rng.choice('abcdefgh-_xyz0189.!ü') for _ in range(rng.randint(1, 12)))
def rvalue(rng): return rng.choice(VAL) if rng.random() < 0.7 else ''.join(rng.choice('ab :;,/\\"\'=ü') for _ in range(rng.randint(0, 20))).strip()
def rheaders(rng, n=6): return {rname(rng): rvalue(rng) for _ in range(rng.randint(0, n))}

def header_cases(rng, rep):
    h = rheaders(rng); h2 = {k: (v.encode() if rng.random() < 0.3 else v) for k, v in h.items()}; rep.count(('h', len(h)))
    raw = http_common.generate_headers(h2)
    p = http_common.parse_http_request_preamble((b'POST /push_file HTTP/1.1\r\n' + raw)[:-2])
    check(p['headers'] == {k.lower(): v for k, v in h.items()} and p['method'] == 'POST' and p['path'] == '/push_file', 'request headers changed on the way', sent=h, got=p)
    p = http_common.parse_http_responce_preamble((b'HTTP/1.1 200 OK\r\n' + raw)[:-2])
    check(p['headers'] == {k.lower(): v for k, v in h.items()}, 'response headers changed on the way', sent=h, got=p)

class Srv:
    """the real server loop on a loopback port"""
    def __init__(self, handler):
        for _ in range(20):
            t = socket.socket(); t.bind(('127.0.0.1', 0)); self.port = t.getsockname()[1]; t.close()
            self.err = None; self.ctx = []
            def run():
                try: http_server.HTTPServer('127.0.0.1', self.port, handler)
                except OSError as e: self.err = e
            sys.unraisablehook = lambda *a: None
            threading.Thread(target=run, daemon=True).start()
            for _ in range(100):
                try: c = socket.create_connection(('127.0.0.1', self.port), 5); c.close(); return
                except OSError: 
                    if self.err: break
                    time.sleep(0.02)
        raise RuntimeError('no loopback port')

_srv = {}
def server_for_tests():
    if 's' in _srv: return _srv['s'], _srv['q']
    q = {}
    def handler(rq, context):
        job = q[rq.headers['job']]
        context.shutdown_handler = lambda: job['ended'].set()
        job['seen'].append(dict(uri=rq.uri, headers=dict(rq.headers)))
        k = job['read']
        if k == 'all': job['seen'][-1]['body'] = rq.body.read_all()
        elif k == 'some': job['seen'][-1]['part'] = rq.body.read(5)
        elif k == 'raise': raise Exception('handler failed')
        return http_server.Responce(job['rh'], job['rb'])
    _srv['s'] = Srv(handler); _srv['q'] = q; return _srv['s'], q

def send_in_pieces(rng, c, data):
    while data:
        k = rng.choice([1, 5, 20, 200, 100000]); c.sendall(data[:k]); data = data[k:]
        if data and rng.random() < 0.15: time.sleep(0.001)

def server_cases(rng, rep):
    srv, q = server_for_tests(); name = 'j%d' % rng.getrandbits(40)
    job = q[name] = dict(ended=threading.Event(), seen=[], read='all', rh={}, rb=b'')
    with workdir('http') as d:
        c = socket.create_connection(('127.0.0.1', srv.port), 10); c.settimeout(20); c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        try:
            for i in range(rng.randint(1, 4)):
                n = rng.choice([0, 1, 10, 700, 1000, 1024, 1025, 3000, 70000]); body = bytes(rng.getrandbits(8) for _ in range(min(n, 3000))) * (1 if n <= 3000 else n // 3000)
                rb = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 1000, 4096, 4097, 9000]))); h = {k: v for k, v in rheaders(rng).items() if k.lower() not in ('job', 'content-length')}
                job['read'] = rng.choice(['all', 'all', 'some', 'none']); job['rh'] = {k: v for k, v in rheaders(rng).items() if k.lower() not in ('content-length', 'connection')}
                if rng.random() < 0.3:
                    f = d + '/served%d' % i; open(f, 'wb').write(rb); job['rb'] = http_server.ServeFile(f)
                else: job['rb'] = rb
                msg = b'POST /route HTTP/1.1\r\n' + http_common.generate_headers(dict(h, **{'Job': name, 'Content-Length': str(len(body))})) + b'\r\n' + body
                close = rng.random() < 0.12
                rep.count(('srv', i, len(body), job['read'], close))
                if close:
                    cut = rng.randrange(1, len(msg)); send_in_pieces(rng, c, msg[:cut]); c.close()
                    if i > 0: check(job['ended'].wait(10), 'the connection was closed by the peer but never ended for the server', at=cut, of=len(msg))
                    for s in job['seen'][i:]: check('body' not in s or s['body'] == body, 'a body cut short by the peer was handed on as complete', got=len(s.get('body', b'')), of=len(body))
                    return
                send_in_pieces(rng, c, msg)
                buf = b''
                while b'\r\n\r\n' not in buf:
                    x = c.recv(4096); check(x != b'', 'the server closed the connection instead of answering', sent=len(msg), request=i); buf += x
                pre, rest = buf.split(b'\r\n\r\n', 1); p = http_common.parse_http_responce_preamble(pre); want = int(p['headers']['content-length'])
                check(want == len(rb), 'the declared length of the response is not that of its body', declared=want, body=len(rb))
                while len(rest) < want: x = c.recv(4096); check(x != b'', 'the response was cut short'); rest += x
                check(rest == rb, 'the response is not the body the handler returned', expected=len(rb), got=len(rest))
                check({k: p['headers'].get(k.lower()) for k in job['rh']} == job['rh'], 'response headers changed on the way', sent=job['rh'], got=p['headers'])
                s = job['seen'][-1]; check(len(job['seen']) == i + 1, 'one message was taken for several')
                check({k: s['headers'].get(k.lower()) for k in h} == h, 'request headers changed on the way', sent=h, got=s['headers'])
                if 'body' in s: check(s['body'] == body, 'the handler got another body', expected=len(body), got=len(s['body']))
            job['read'] = rng.choice(['raise', 'all'])
            if job['read'] == 'raise': c.sendall(b'POST /x HTTP/1.1\r\nJob: %s\r\nContent-Length: 0\r\n\r\n' % name.encode())
            c.close(); check(job['ended'].wait(10), 'the connection ended without the end handler being run')
        except (ConnectionError, socket.timeout) as e: raise Violation('talking to the server failed: %r' % e)
        finally: c.close()

def client_cases(rng, rep):
    """the real client against a peer which answers in pieces"""
    l = socket.socket(); l.bind(('127.0.0.1', 0)); l.listen(1); port = l.getsockname()[1]; l.settimeout(20)
    jobs = []
    for i in range(rng.randint(1, 4)):
        rb = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 100, 1000, 1024, 5000])))
        jobs.append(dict(kind=rng.choice(['request', 'gen', 'file']), h={k: v for k, v in rheaders(rng).items() if k.lower() not in ('content-length', 'host', 'accept-encoding', 'content-type', 'user-agent')},
                         rh={k: v for k, v in rheaders(rng).items() if k.lower() != 'content-length'}, rb=rb, data=rng.choice([None, {}, {'x': 'ü"\n'}, {'files': 'q' * 2000}]), file=bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 1000, 3000])))))
    cut = rng.random() < 0.25; got = []; err = []
    cutat = rng.random()
    def peer():
        try:
            c, _ = l.accept(); c.settimeout(20); c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); buf = b''
            for i, j in enumerate(jobs):
                while b'\r\n\r\n' not in buf:
                    x = c.recv(4096)
                    if x == b'': return
                    buf += x
                pre, buf = buf.split(b'\r\n\r\n', 1); p = http_common.parse_http_request_preamble(pre); n = int(p['headers']['content-length'])
                while len(buf) < n:
                    x = c.recv(4096)
                    if x == b'': err.append('request body shorter than declared'); return
                    buf += x
                got.append((p, buf[:n])); buf = buf[n:]
                msg = b'HTTP/1.1 200 OK\r\n' + http_common.generate_headers(dict(j['rh'], **{'Content-Length': str(len(j['rb']))})) + b'\r\n' + j['rb']
                if cut and i == len(jobs) - 1: send_in_pieces(rng, c, msg[:int(cutat * len(msg))]); c.close(); return
                send_in_pieces(rng, c, msg)
            x = c.recv(10)
            if buf or x: err.append('bytes after the last message')
            c.close()
        except (OSError, Exception) as e: err.append(repr(e))
    t = threading.Thread(target=peer, daemon=True); t.start()
    with workdir('httpc') as d:
        c = client_http_request.client_http_request('http://127.0.0.1:%d' % port); c.c.s.settimeout(20)
        for i, j in enumerate(jobs):
            last_cut = cut and i == len(jobs) - 1; rep.count(('cli', j['kind'], len(j['rb']), last_cut, i)); e = None; b = None
            try:
                if j['kind'] == 'file':
                    f = d + '/up%d' % i; open(f, 'wb').write(j['file']); b, h = c.send_file('route', j['h'], f)
                elif j['kind'] == 'gen':
                    w, h = c.request('route', j['h'], j['data'], gen=True); w(d + '/down%d' % i); b = open(d + '/down%d' % i, 'rb').read()
                else: b, h = c.request('route', j['h'], j['data'])
            except Exception as x: e = x
            if last_cut: check(e is not None, 'a response cut short was delivered as complete', got=None if b is None else len(b), of=len(j['rb'])); break
            check(e is None, 'a complete response was not understood: %r' % e, peer=err)
            check(b == j['rb'], 'the client got another body', expected=len(j['rb']), got=len(b or b''))
            check({k: h.get(k.lower()) for k in j['rh']} == j['rh'], 'response headers changed on the way', sent=j['rh'], got=h)
        c.c.close(); t.join(20); l.close()
        check(not err, 'the client sent a badly framed request: %s' % err)
        for (p, body), j in zip(got, jobs):
            check({k: p['headers'].get(k.lower()) for k in j['h']} == j['h'], 'request headers changed on the way', sent=j['h'], got=p['headers'])
            if j['kind'] == 'file': check(body == j['file'], 'the upload is not the file')
            else: check(json.loads(body) == (j['data'] or {}), 'the request body is not the data', sent=j['data'], got=body[:200])

def c22(rng, rep):
    for _ in range(40): body_cases(rng, rep)
    for _ in range(20): header_cases(rng, rep)
    for _ in range(3): server_cases(rng, rep)
    for _ in range(3): client_cases(rng, rep)

def connection_end(rng, rep):
    """C12: the lock is released when a real connection ends, however it ends"""
    with world() as w:
        srv = Srv(server.endpoint)
        def connect():
            c = client_http_request.client_http_request('http://127.0.0.1:%d' % srv.port); c.c.s.settimeout(20)
            b, h = c.request('begin_auth', {'repository': 'main'}); sig = base64.b64encode(pysodium.crypto_sign_detached(h['auth_token'].encode(), keypair('alice')[1]))
            b, h = c.request('authenticate', {'client_version': str(w.client_version), 'user': 'alice', 'auth_token': h['auth_token'], 'signature': sig, 'repository': 'main'})
            check(h.get('status') == 'ok', 'login over the network failed'); return c, h['session_token']
        def begin(c, tok): return c.request('begin_commit', {'session_token': tok, 'repository': 'main', 'previous_revision': w.head(), 'user': 'alice'})[1].get('status')
        for how in ('close', 'halfrequest', 'badrequest', 'reset', 'error'):
            a, ta = connect(); b, tb = connect(); rep.count(('end', how))
            check(begin(a, ta) == 'ok', 'begin was refused although nobody holds the lock (%s)' % how)
            check(begin(b, tb) == 'fail', 'two connections hold the lock')
            if how == 'close': a.c.close()
            elif how == 'halfrequest': a.c.s.sendall(b'POST /push_file HTTP/1.1\r\nRepository: main\r\nSession_token: ' + tb.encode() + b'\r\nPath: /x\r\nContent-Length: 100\r\n\r\nabc'); a.c.close()
            elif how == 'badrequest': a.c.s.sendall(b'GET / HTTP/1.1\r\n\r\n')
            elif how == 'reset':
                import struct
                a.c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); a.c.close()
            else: a.c.s.sendall(b'POST /nosuchroute HTTP/1.1\r\nContent-Length: 0\r\n\r\n')
            for i in range(200):
                if begin(b, tb) == 'ok': break
                time.sleep(0.02)
            else: raise Violation('the lock was not released when the connection ended (%s)' % how)
            h = b.request('commit', {'session_token': tb, 'repository': 'main', 'commit_message': '', 'mode': 'abort'})[1]
            check(h.get('status') == 'ok', 'abort was refused'); b.c.close()
            time.sleep(0.01)

CASES = {'C22': (c22, 25, 300)}

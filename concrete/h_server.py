"""Contracts of the server side, checked on concrete histories (C01 .. C14)."""
from .lib import *

# ----------------------------------------------------------------- random histories with a model
class Model:
    def __init__(self): self.files = {}; self.versions = {}; self.order = []       # path -> sha ; vid -> (files, changes)
    def clone(self):
        m = Model(); m.files = dict(self.files); m.versions = dict(self.versions); m.order = list(self.order); return m

class Open:
    """expected contents of an open commit"""
    def __init__(self, base): self.base = dict(base); self.ch = {}
    def push(self, p, h): self.ch[p] = ('changed' if p in self.base else 'new', h)
    def delete(self, p):
        if p in self.base: self.ch[p] = ('deleted', self.base[p])
        else: self.ch.pop(p, None)
    def result(self):
        r = dict(self.base)
        for p, (s, h) in self.ch.items():
            if s == 'deleted': r.pop(p, None)
            else: r[p] = h
        return r

def hashes(files): return {p: i['hash'] for p, i in files.items()}

def some_ops(rng, o, paths, pool, n):
    """a list of push / delete operations, applied to the expectation o"""
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.62:
            p, d = rng.choice(paths), rdata(rng, pool); ops.append(('push', p, d)); o.push(p, sha(d))
        else:
            ps = [rng.choice(paths + ['/never/was']) for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.7: ps = list(dict.fromkeys(ps))
            ops.append(('delete', ps))
            for p in ps: o.delete(p)
    return ops

def apply_ops(c, ops):
    for op in ops:
        if op[0] == 'push':
            i = c.push(op[1], op[2]); check(i['hash'] == sha(op[2]), 'push reported another hash than that of the content', path=op[1], info=i)
        else: c.delete(op[1])

def one_commit(c, m, rng, paths, pool, n=None, msg=None):
    o = Open(m.files)
    ops = some_ops(rng, o, paths, pool, n or rng.randint(1, 7))
    prev = c.w.head()
    c.begin(); apply_ops(c, ops)
    msg = rng.choice(['', 'first', 'two\nlines', 'ü']) if msg is None else msg
    h = c.commit(msg)
    return o, ops, prev, h, msg

def resumed_commit(w, c, u, addr, m, rng, paths, pool):
    """a commit interrupted at some points and continued by the same user: deletions are requested again, reported uploads are kept"""
    prev = c.w.head(); c.begin(); o = Open(m.files); all_ops = []
    for _ in range(rng.randint(1, 3)):
        o1 = o if rng.random() < 0.5 else Open(m.files)
        ops = some_ops(rng, o, paths, pool, rng.randint(0, 4)); apply_ops(c, ops); all_ops += ops
        expect = {p: h for p, (s, h) in o.ch.items() if s != 'deleted'}
        c.end(); c = w.conn(u, addr=addr); all_ops.append(('interrupted',))
        told = c.begin(); got = {f['path']: f['hash'] for f in told}
        check(got == expect and len(told) == len(got), 'resuming does not report exactly the recorded uploads', expected=expect, got=got, ops=repr(all_ops)[:1500])
        dl = sorted(p for p, (s, h) in o.ch.items() if s == 'deleted')
        o2 = Open(m.files)
        for p, h in expect.items(): o2.push(p, h)
        if dl and rng.random() < 0.7: c.delete(dl); [o2.delete(p) for p in dl]; all_ops.append(('delete', dl))
        o = o2
    ops = some_ops(rng, o, paths, pool, rng.randint(0, 3)); apply_ops(c, ops); all_ops += ops
    h = c.commit('resumed')
    return o, all_ops, prev, h, 'resumed', c

def verify_commit(c, m, o, ops, prev, h, msg, user='alice'):
    d = dict(ops=[repr(x)[:200] for x in ops], head=h)
    if not o.ch:
        check(c.w.head() == prev, 'committing nothing moved the head', **d)
        return
    check(c.w.head() == h and h != prev, 'the head is not the new commit', **d)
    check(h not in m.versions, 'new commit has the id of an old one', **d)
    got = hashes(c.files()); check(got == o.result(), 'the new version does not list the previous files with exactly the requested changes', expected=o.result(), got=got, **d)
    for p, i in c.files().items(): check(i.get('path') == p, 'an entry carries the details of another path', path=p, info=i, **d)
    ch = c.changes()
    seen = {}
    for e in ch:
        check(e['path'] not in seen, 'two change entries for one path', path=e['path'], **d); seen[e['path']] = e
    check({p: s for p, (s, _) in o.ch.items()} == {p: e['status'] for p, e in seen.items()}, 'the change list does not match the requested changes', expected=o.ch, got=ch, **d)
    for p, (s, hh) in o.ch.items(): check(seen[p]['hash'] == hh, 'a change entry names another content', path=p, expected=hh, got=seen[p], **d)
    co = c.w.store().commit_obj(h)
    check(co['parent'] == prev, 'the parent is not the previous head', **d)
    check(co['commit_by'] == user, 'the author is not the authenticated user', got=co['commit_by'], **d)
    if msg: check(co['commit_message'] == msg, 'the commit message was not kept', **d)
    v = c.versions()
    check(v[0]['id'] == h and v[0]['commit_by'] == user, 'list_versions does not start with the new commit', **d)
    m.files = o.result(); m.versions[h] = (dict(m.files), {p: (s, hh) for p, (s, hh) in o.ch.items()}); m.order.append(h)

def c04(rng, rep):
    with world() as w:
        users = ['alice', 'bob']
        m = Model(); paths = rpaths(rng, rng.randint(2, 9), names=rng.choice([NAMES, ENAMES, ['a', '', 'b']])); pool = []
        for k in range(rng.randint(1, 4)):
            u = rng.choice(users); addr = '10.0.0.%d' % (1 if u == 'alice' else 2); c = w.conn(u, addr=addr)
            if rng.random() < 0.35: o, ops, prev, h, msg, c = resumed_commit(w, c, u, addr, m, rng, paths, pool)
            else: o, ops, prev, h, msg = one_commit(c, m, rng, paths, pool)
            rep.count((k, len(o.ch), tuple(sorted({x[0] for x in o.ch.values()}))))
            verify_commit(c, m, o, ops, prev, h, msg, u)
            c.end()
        c = w.conn()
        for vid, (files, ch) in m.versions.items():
            check(hashes(c.files(vid)) == files, 'an older version changed its listing', version=vid)
        w.store().closure()

# ----------------------------------------------------------------- C01
def c01(rng, rep):
    """server dies before every durable effect of: begin, pushes, deletes, commit / abort / rollback by another user"""
    install_effects()
    with world() as w:
        m = Model(); pool = [b'one', b'two']; paths = rpaths(rng, 5)
        c = w.conn()
        for k in range(rng.choice([0, 1, 2])):
            o, ops, prev, h, msg = one_commit(c, m, rng, paths, pool, n=3)
            verify_commit(c, m, o, ops, prev, h, msg)
        c.end(); Conn.all.clear()
        # an unreferenced object may be lying around already
        o = Open(m.files)
        if rng.random() < 0.3:
            c = w.conn(); c.begin(); c.push('/left', b'left over'); c.end(); Conn.all.clear()
            if rng.random() < 0.5: 
                c = w.conn('bob', '10.0.0.2'); c.begin(); c.commit(mode='abort'); c.end(); Conn.all.clear()
            else: o.push('/left', sha(b'left over'))
        ops = some_ops(rng, o, paths, pool, rng.randint(2, 4))
        if not o.ch: d = b'fresh %d' % rng.getrandbits(30); ops.append(('push', '/x/y', d)); o.push('/x/y', sha(d))
        end = rng.choice(['commit', 'commit', 'commit', 'abort', 'other', 'stale'])
        base = w.base
        def scenario():
            fx.root = base; fx.n = 0; fx.log = []; fx.on = True
            c = Conn(w); c.login('alice'); c.begin(); apply_ops(c, ops)
            if end == 'commit': c.commit()
            elif end == 'abort': c.commit(mode='abort')
            elif end == 'stale':
                c.end(); c = Conn(w); c.login('alice')
                try: c.begin(prev='0' * 64)
                except Refused: pass
            else:
                c.end(); c = Conn(w, '10.0.0.2'); c.login('bob'); c.begin()
            fx.on = False
            return [fx.n, fx.log]
        save = base + '_save'
        shutil.copytree(base, save)
        def reset(src=save):
            shutil.rmtree(base); shutil.copytree(src, base)
        k, v = forked(scenario)
        check(k == 'ok', 'the scenario without crash failed', why=v, ops=repr(ops)[:1500], end=end)
        total, log = v
        old = m.files; new = o.result()
        oldhead = m.order[-1] if m.order else 'root'
        def inspect(when, k):
            st = w.store()
            d = dict(crash_before=log[k - 1] if k and k <= len(log) else None, effect=k, ops=repr(ops)[:1200], end=end, when=when, trace=log[max(0, k - 4):k + 1] if k else None)
            try: vs = st.closure()
            except Violation as e: raise Violation(e.what, **dict(d, **e.detail))
            except (ValueError, KeyError, OSError) as e: raise Violation('the history cannot be read: %r' % e, **d)
            hd = st.head()
            if hd == oldhead: return
            check(end == 'commit', 'the head moved although nothing was committed', **d)
            check(vs[hd] == new, 'the head names an incomplete version', expected=new, got=vs.get(hd), **d)
            check(st.commit_obj(hd)['parent'] == oldhead, 'the new head does not continue the old one', **d)
        inspect('no crash', 0)
        def followup(kind):
            c = Conn(w, '10.0.0.1' if kind != 'bob' else '10.0.0.2'); c.login('bob' if kind == 'bob' else 'alice')
            st = w.store(); head = st.head()
            base_files = st.closure()[head] if head != 'root' else {}
            if kind == 'stale':
                try: c.begin(prev='f' * 64)
                except Refused: pass
                c.end(); st.closure(); c = Conn(w); c.login('alice')
            prior = c.begin()
            st.closure()
            o2 = Open(base_files)
            have = {}
            for f in prior or []:
                have[f['path']] = f['hash']
                check(f['hash'] in st.objects('files'), 'resume reports an upload whose content is not stored', path=f['path'])
                o2.push(f['path'], f['hash'])
            if kind == 'abort': c.commit(mode='abort'); st.closure(); check(st.head() == head, 'abort moved the head'); return 0
            # like the client: resend what is missing
            for op in ops:
                if op[0] == 'push':
                    if have.get(op[1]) == sha(op[2]) and not any(x is not op and op[1] in (x[1] if x[0] == 'delete' else [x[1]]) for x in ops):
                        o2.push(op[1], sha(op[2])); continue
                    c.push(op[1], op[2]); o2.push(op[1], sha(op[2]))
                else:
                    c.delete(op[1]); [o2.delete(p) for p in op[1]]
            c.push('/after/crash', b'after'); o2.push('/after/crash', sha(b'after'))
            h = c.commit('again')
            vs = st.closure()
            check(st.head() == h and vs[h] == o2.result(), 'the commit after the crash is not what was asked for', expected=o2.result(), got=vs.get(h))
            c.end()
            return 0
        for k in range(1, total + 1):
            reset()
            def crash():
                fx.crash_at = k; return scenario()
            r, _ = forked(crash)
            rep.count((end, len(ops), log[k - 1].split(' ')[0] if k <= len(log) else '', k))
            if r == 'ok': break
            check(r in ('crash', 'exc'), 'unexpected end', r=r)
            inspect('crash', k)
            kinds = ['alice', 'bob'] if rep.tier == 'quick' and rng.random() < 0.6 else ['alice', 'bob', 'abort', 'stale']
            crashed = base + '_crashed'
            shutil.copytree(base, crashed)
            for kind in kinds:
                reset(crashed)
                if rng.random() < 0.3:
                    # die again during the follow-up
                    k2 = rng.randint(1, 14)
                    def again():
                        fx.root = base; fx.n = 0; fx.on = True; fx.crash_at = k2
                        c = Conn(w, '10.0.0.1' if kind != 'bob' else '10.0.0.2'); c.login('bob' if kind == 'bob' else 'alice'); c.begin()
                        if kind == 'abort': c.commit(mode='abort')
                        else: c.push('/zz', b'zz')
                    forked(again)
                    inspect('second crash, during the next begin (%s)' % kind, k)
                try: r, v = forked(lambda: followup(kind))
                except Violation as e:
                    raise Violation('after a crash and the next begin (%s): %s' % (kind, e.what), effect=k, crash_before=log[k - 1], ops=repr(ops)[:1200], end=end, **e.detail)
                check(r == 'ok', 'the next commit after a crash failed (%s)' % kind, why=v, effect=k, crash_before=log[k - 1], ops=repr(ops)[:1200], end=end)
            shutil.rmtree(crashed)

# ----------------------------------------------------------------- C02
def c02(rng, rep):
    with world() as w:
        m = Model(); pool = [b'keep']; paths = rpaths(rng, 6); recorded = {}; objs = [{}, {}]
        c = w.conn()
        def record(h):
            idx, fl = set(), set(); st = w.store(); st.closure(h, index=idx, files=fl)
            oi, of = st.objects('index'), st.objects('files')
            for x in idx: objs[0][x] = oi[x]
            for x in fl: objs[1][x] = of[x]
            recorded[h] = (c.files(h), c.changes(h), {p: c.pull(p, h)[1] for p in c.files(h)})
        c.begin(); c.push('/empty', b''); c.push(paths[0], b'keep'); c.commit('0'); record(w.head()); m.files = hashes(c.files()); m.versions[w.head()] = (dict(m.files), {}); m.order.append(w.head())
        def verify(what):
            st = w.store(); oi, of = st.objects('index'), st.objects('files')
            for x, b in objs[0].items(): check(oi.get(x) == b, 'a stored object of a committed version was removed or altered', object=x, after=what)
            for x, b in objs[1].items(): check(of.get(x) == b, 'a stored file of a committed version was removed or altered', object=x, after=what)
        for k in range(rng.randint(2, 6)):
            kind = rng.choice(['commit', 'commit', 'commit', 'abort', 'takeover', 'drop', 'stale'])
            o = Open(m.files)
            for f in c.begin(): o.push(f['path'], f['hash'])
            ops = some_ops(rng, o, paths, pool, rng.randint(1, 5))
            if rng.random() < 0.7:
                # stored content once more, at any position
                for _ in range(rng.randint(1, 4)):
                    d = b'' if rng.random() < 0.4 else rng.choice(pool); p = rng.choice(paths + ['/again/%d' % k]); ops.append(('push', p, d)); o.push(p, sha(d))
            apply_ops(c, ops)
            verify(('open', repr(ops)[:500]))
            if kind == 'commit' and o.ch:
                prev = w.head(); h = c.commit('x'); verify_commit(c, m, o, ops, prev, h, 'x'); record(h)
            elif kind == 'abort': c.commit(mode='abort')
            elif kind == 'takeover':
                c.end(); b = w.conn('bob', '10.0.0.2'); b.begin(); b.commit(mode='abort'); b.end(); c = w.conn()
            elif kind == 'stale':
                c.end(); b = w.conn('bob', '10.0.0.2')
                try: b.begin(prev='e' * 64)
                except Refused: pass
                b.end(); c = w.conn()
            else: c.end(); c = w.conn()
            rep.count((k, kind, len(objs[0]) > 0)); verify((kind, repr(ops)[:500]))
        if w.store().db('active_commit_exists'):
            c.begin(); c.commit(mode='abort')
        verify('end')
        for h, (f, ch, data) in recorded.items():
            check(c.files(h) == f, 'the listing of a committed version changed', version=h); check(c.changes(h) == ch, 'the changes of a committed version changed', version=h)
            for p, b in data.items(): check(c.pull(p, h)[1] == b, 'the content of a file of a committed version changed', version=h, path=p)

# ----------------------------------------------------------------- C03
def c03(rng, rep):
    install_effects()
    with world() as w:
        m = Model(); pool = [b'keep']; paths = rpaths(rng, 6)
        c = w.conn()
        for k in range(rng.choice([0, 1, 2])):
            o, ops, prev, h, msg = one_commit(c, m, rng, paths, pool, n=3); verify_commit(c, m, o, ops, prev, h, msg)
        if w.store().db('active_commit_exists'): c.begin(); c.commit(mode='abort')
        c.end(); Conn.all.clear()
        st = w.store()
        # an object that exists already without being referenced, as a crash can leave behind
        if rng.random() < 0.4:
            d = b'orphan'; p = os.path.join(st.path, 'files', sha(d)[:2]); os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, sha(d)[2:]), 'wb') as f: f.write(d)
            pool.append(d)
        before = (st.head(), st.objects('index'), st.objects('files'))
        o = Open(m.files); ops = some_ops(rng, o, paths, pool, rng.randint(1, 6))
        how = rng.choice(['abort', 'other', 'stale', 'otherip', 'dead', 'dead', 'finished'])
        rep.count((how, len(ops), len(before[1]), tuple(x[0] for x in ops)))
        d = dict(how=how, ops=repr(ops)[:1200])
        if how == 'finished':
            if not o.ch: o.push('/q', sha(b'q')); ops.append(('push', '/q', b'q'))
            base = w.base
            # die right after the head moved: find that effect
            def dry():
                c = Conn(w); c.login(); c.begin(); apply_ops(c, ops)
                fx.root = base; fx.n = 0; fx.log = []; fx.on = True; c.commit('f'); fx.on = False
                return [fx.n, fx.log]
            save = base + '_save'; shutil.copytree(base, save)
            _, v = forked(dry); shutil.rmtree(base); shutil.copytree(save, base)
            total = v[0]
            k = rng.randint(max(1, total - 3), total)
            def crash():
                c = Conn(w); c.login(); c.begin(); apply_ops(c, ops)
                fx.root = base; fx.n = 0; fx.crash_at = k; fx.on = True; c.commit('f')
            forked(crash)
            b = w.conn('bob', '10.0.0.2')
            hd = st.head()
            if hd != before[0]:
                full = st.closure()
                b.begin(); b.commit(mode='abort')
                check(st.head() == hd, 'rolling back removed a finished commit from the head', **d)
                check(st.closure() == full and full[hd] == o.result(), 'rolling back damaged a finished commit', **d)
            else:
                b.begin(); check((st.head(), st.objects('index'), st.objects('files')) == before, 'rolling back an unfinished commit left or removed objects', **d)
            b.end(); return
        if how == 'dead':
            k = rng.randint(1, 30); base = w.base
            def crash():
                c = Conn(w); c.login(); c.begin(); fx.root = base; fx.n = 0; fx.crash_at = k; fx.on = True
                apply_ops(c, ops); c.commit('never')
            r, _ = forked(crash)
            hd = st.head()
            b = w.conn('bob', '10.0.0.2'); b.begin(); b.commit(mode='abort'); b.end()
            if hd != before[0]: st.closure(); return
        else:
            c = w.conn(); c.begin(); apply_ops(c, ops)
            if how == 'abort': c.commit(mode='abort')
            elif how == 'stale':
                c.end(); c = w.conn()
                try: c.begin(prev='a' * 64)
                except Refused: pass
            else:
                c.end(); c = w.conn('bob' if how == 'other' else 'alice', '10.0.0.9'); c.begin(); c.commit(mode='abort')
            c.end()
        after = (st.head(), st.objects('index'), st.objects('files'))
        check(after[0] == before[0], 'rollback moved the head', **d)
        for kind, i in (('index', 1), ('files', 2)):
            gone = sorted(set(before[i]) - set(after[i])); left = sorted(set(after[i]) - set(before[i]))
            check(not gone, 'rollback removed a %s object which existed before the commit' % kind, objects=gone, **d)
            check(not left, 'rollback left a %s object the abandoned commit introduced' % kind, objects=left, **d)
        check(after == before, 'rollback altered an object', **d)
        for t in ('active_commit_exists', 'active_commit_changes', 'gc_log'): check(st.db(t) in ([], None), 'rollback left a commit open (%s)' % t, rows=st.db(t), **d)
        c = w.conn('bob', '10.0.0.2'); check(not c.begin(), 'uploads of a rolled back commit are still reported', **d)

# ----------------------------------------------------------------- C05 / C06
def c05(rng, rep):
    with world() as w:
        c = w.conn(); m = Model()
        names = rng.choice([NAMES, ENAMES, ['a', '', 'b'], ['a', 'b'], ['a', 'b', 'c', 'a b', 'A', 'é', 'é'], ['x' * 200, 'y']])
        n = rng.choice([1, 2, 5, 12, 25])
        paths = rpaths(rng, n, depth=rng.choice([1, 2, 4, 7]), names=names)
        c.begin(); want = {}
        for i, p in enumerate(paths):
            d = b'%d' % (i if rng.random() < 0.8 else 0); c.push(p, d); want[p] = sha(d)
        h = c.commit('l'); rep.count((n, len(paths), max(p.count('/') for p in paths)))
        got = c.files(h); check(hashes(got) == want, 'a listing read back differs from what was stored', expected=want, got=hashes(got))
        for p, i in got.items(): check(i['path'] == p and i['status'] == 'new', 'an entry carries other details', path=p, info=i)
        check(w.store().listing(h) == want, 'the stored directory objects do not describe the listing', expected=want)
        # a second version on top re-reads the stored tree
        extra = rpath(rng, names=names); c.begin(); c.push(extra, b'extra'); dl = rng.choice(paths)
        if dl != extra: c.delete([dl]); want.pop(dl, None)
        want[extra] = sha(b'extra'); h2 = c.commit('2')
        check(hashes(c.files(h2)) == want, 'a listing read back differs after a second version', expected=want, got=hashes(c.files(h2)))
        try:
            from bversion.storage.versioned_storage import versioned_storage
            vs = versioned_storage(os.path.join(w.base, 'direct'))
            info = {p: {'path': p, 'hash': '%064x' % rng.getrandbits(200), 'status': rng.choice(['new', 'changed', 'x']), 'n': i} for i, p in enumerate(paths)}
            f = vs.flatten_dir_tree, vs.build_dir_tree
        except AttributeError: return
        import copy
        back = vs.flatten_dir_tree(vs.build_dir_tree(copy.deepcopy(info)))
        check(back == info, 'flatten(build(files)) lost something', expected=info, got=back)

def c06(rng, rep):
    with world() as w:
        c = w.conn(); m = Model(); pool = []; vs = []
        names = ['a', 'b', 'c', 'ab', 'a.b', 'a b'] + rng.choice([[], ['', '']])
        paths = rpaths(rng, 8, names=names); 
        for k in range(rng.randint(1, 3)):
            o, ops, prev, h, msg = one_commit(c, m, rng, paths, pool, n=6, msg='m'); verify_commit(c, m, o, ops, prev, h, msg)
        cand = set(paths) | {'/', '', '/a', '/a/', '//a', 'a', '/nope'}
        for p in list(paths): cand |= {p + '/', p + '/x', p.rsplit('/', 1)[0], p + 'x', p[:-1], p[1:], p.upper(), '/x' + p, p.replace('/', '//', 1)}
        for v in m.order + [None]:
            want = c.files(v) if v else c.files()
            if v: check(hashes(want) == m.versions[v][0], 'listing changed')
            for p in sorted(cand):
                rep.count((v is None, p in want, p.count('/')))
                key = p if p.startswith('/') else '/' + p          # a missing leading slash is supplied
                try: info, body = c.pull(p, v)
                except Refused:
                    check(p not in want, 'fetching a listed path was refused', path=p, version=v); continue
                check(key in want, 'a path which is not listed was answered', path=p, version=v, got=info)
                check(info['hash'] == want[key]['hash'] and sha(body) == info['hash'] and info['status'] == want[key]['status'], 'fetching a path gave other details than the listing', path=p, got=info, listed=want[key])
                if p.startswith('/'): check(info['path'] == p, 'fetched details name another path', path=p, got=info)

# ----------------------------------------------------------------- C07
SIZES = [0, 1, 2, 65535, 65536, 65537, 131072, 999999, 1000000, 1000001, 2100000]
def c07(rng, rep):
    with world() as w:
        c = w.conn(); st = w.store(); c.begin(); want = {}; n = rng.randint(2, 4)
        for i in range(n):
            size = rng.choice(SIZES + [rng.randint(0, 300000)])
            d = rng.choice([lambda: rng.randbytes(size), lambda: b'\0' * size, lambda: (b'ab\r\n' * (size // 4 + 1))[:size]])()
            p = '/f%d' % i; before = st.objects('files')
            rep.count((size, i))
            i1 = c.push(p, d); check(i1['hash'] == sha(d), 'the reported hash is not that of the pushed bytes', size=size)
            after = st.objects('files')
            check(after.get(sha(d)) == d, 'the stored copy differs from the pushed bytes', size=size)
            check(set(after) == set(before) | {sha(d)}, 'a push stored something else', size=size)
            fp = os.path.join(st.path, 'files', sha(d)[:2], sha(d)[2:]); s0 = os.stat(fp)
            before = after
            i2 = c.push('/again%d' % rng.randint(0, 1), d)
            s1 = os.stat(fp); check((s0.st_ino, s0.st_mtime_ns, s0.st_size) == (s1.st_ino, s1.st_mtime_ns, s1.st_size), 'pushing stored content again rewrote it', size=size)
            check(i2['hash'] == sha(d) and st.objects('files') == before, 'pushing stored content again changed the store', size=size)
            check(not os.path.exists(os.path.join(st.path, 'tmp_file')) or True, '')
            want[p] = d
        h = c.commit('x')
        for p, d in want.items():
            info, b = c.pull(p); check(b == d and info['hash'] == sha(d), 'fetching gave other bytes than pushed', path=p, size=len(d), got=len(b))
            info, b = c.pull(p, h); check(b == d, 'fetching a version gave other bytes than pushed', path=p)
        # repeat across commits: stored content is not touched
        st0 = st.objects('files'); c.begin(); p = rng.choice(list(want)); c.push('/new', want[p])
        mode = rng.choice(['commit', 'abort']); c.commit('y', mode=mode)
        check(st.objects('files') == st0, 'stored content changed when pushed again (%s)' % mode)
        for p, d in want.items(): check(c.pull(p, h)[1] == d, 'an old version lost content')

    if not big_done: big_files(rng, rep)

big_done = []
def big_files(rng, rep):
    """contents larger than any buffer, differing only at the end"""
    big_done.append(1)
    from bversion import common
    with workdir('big') as d:
        for n in ((1 << 26) + 5, (1 << 26) + 5):
            p = os.path.join(d, 'f'); h = hashlib.sha256()
            with open(p, 'wb') as f:
                for i in range(n >> 20): b = bytes([i & 255]) * (1 << 20); f.write(b); h.update(b)
                b = b'tail%d' % rng.getrandbits(30); f.write(b); h.update(b)
            rep.count(('big', n)); check(common.hash_file(p) == h.hexdigest(), 'the hash of a large file is not that of its bytes', size=os.path.getsize(p))

# ----------------------------------------------------------------- C08
def c08(rng, rep):
    install_effects()
    with world() as w:
        c = w.conn(); m = Model(); pool = []; paths = rpaths(rng, rng.randint(2, 6))
        for k in range(rng.randint(1, 6) if rng.random() < 0.93 else 60):
            o, ops, prev, h, msg = one_commit(c, m, rng, paths, pool, n=rng.randint(1, 3), msg='m')
            if o.ch: verify_commit(c, m, o, ops, prev, h, msg)
        head = w.head()
        if head == 'root': return
        order = m.order
        for i, v in enumerate(['root'] + order):
            exp = {}
            for vv in order[i:]: exp.update({p: (s, h) for p, (s, h) in m.versions[vv][1].items()})
            r = c.find_changed(v)
            sc = r['sorted_changes']
            got = {}
            for cat, es in sc.items():
                for e in es:
                    e2 = e.get('file_info', e); check(e2['path'] not in got, 'a path is reported twice', path=e2['path']); got[e2['path']] = (e2['status'], e2['hash'])
                    check(cat == ('to_delete_on_client' if e2['status'] == 'deleted' else 'client_pull_files'), 'a change is in the wrong category', entry=e, category=cat)
            rep.count((len(order), i, len(exp)))
            check(got == exp, 'the reported changes are not the net effect since the version', since=i, commits=len(order), expected=exp, got=got)
            check(r['head'] == head, 'the answer names another head')
        # not ancestors
        bad = ['', '0' * 64, head[:-1], head[:2], 'ROOT', head.upper() if head.upper() != head else 'F' * 64, w.store().commit_obj(head)['tree_root']]
        # a commit object which exists but is not an ancestor of the head
        base = w.base
        k = rng.randint(1, 40)
        for v in bad:
            try: r = c.find_changed(v)
            except Refused: continue
            raise Violation('a version which is not an ancestor of the head was answered', version=v, answer=r)
        c.end(); Conn.all.clear()
        def crash():
            fx.root = base; fx.n = 0; fx.on = True; fx.crash_at = None
            real = os.rename
            def ren(a, b):
                if os.path.basename(os.fspath(b)) == 'head': os._exit(77)
                return real(a, b)
            os.rename = ren; os.replace = ren
            c = Conn(w); c.login(); c.begin(); c.push('/orph', b'o%d' % k); c.commit('orphan')
        if forked(crash)[0] == 'crash':
            st = w.store(); known = set(order)
            for h, b in st.objects('index').items():
                if h not in known and json.loads(b)['type'] == 'commit':
                    c = w.conn()
                    try: r = c.find_changed(h)
                    except Refused: continue
                    raise Violation('a version which is not an ancestor of the head was answered', version=h, answer=r)

# ----------------------------------------------------------------- C09
opened = []
_hook = [False]
def hook_opens():
    if _hook[0]: return
    _hook[0] = True
    def h(ev, args):
        if ev == 'open' and opened is not None and isinstance(args[0], (str, bytes)): opened.append(os.fsdecode(args[0]))
    sys.addaudithook(h)

def c09(rng, rep):
    hook_opens()
    with world() as w:
        c = w.conn(); m = Model(); pool = []
        c.begin(); c.push('/d/f', b'data'); c.push('/g', b'{"type": "commit", "tree_root": "zz", "changes": ["SECRET"], "parent": "root"}'); head = c.commit('m')
        st = w.store()
        tree = st.commit_obj(head)['tree_root']; fhash = sha(b'data'); ghash = [h for h in st.objects('files') if h != fhash][0]
        # a readable look-alike outside the index
        secret = json.dumps({'type': 'commit', 'tree_root': 'aa', 'changes': ['SECRET'], 'parent': 'root', 'utc_date_time': 'x', 'commit_by': 'x', 'commit_message': 'SECRET'}).encode()
        treesecret = json.dumps({'type': 'tree', 'files': {'SECRET': {'hash': 'SECRET'}}, 'dirs': {}}).encode()
        for p in ('secret', os.path.join('repo_main', 'secret'), os.path.join('repo_main', 'index', 'secret'), os.path.join('repo_main', 'ab'), os.path.join('repo_main', 'index', 'zz'), os.path.join('repo_main','index','AB'),
                  os.path.join('repo_main', 'index', 'x y'), os.path.join('repo_main', 'index', head[:2], 'Secret'), os.path.join('repo_main', 'index', 'g0')):
            fp = os.path.join(w.base, p)
            if os.path.isdir(fp): continue
            with open(fp, 'wb') as f: f.write(secret)
        other = w.paths['other']; os.makedirs(os.path.join(other, 'index', 'ab'), exist_ok=True)
        with open(os.path.join(other, 'index', 'ab', 'cdef'), 'wb') as f: f.write(secret)
        for x in ('ZZ', 'gg', 'A1'):
            os.makedirs(os.path.join(st.path, 'index', x), exist_ok=True)
            with open(os.path.join(st.path, 'index', x, 'ff'), 'wb') as f: f.write(secret)
        ids = ['../secret', '..secret', '../../secret', '..', '.', './secret', '../../repo_other/index/ab/cdef', '..' + '/../secret', '../' + 'secret', '/etc/passwd', w.base + '/secret',
               head.upper(), head[:5].upper() + head[5:], head + '/', head[:2] + '/' + head[2:], '/' + head, head + '\n', '\n' + head, head + '\0', ' ' + head, head + ' ', 'secret', 'x y', 'ZZff', 'ggff', 'A1ff', 'zz', 'g0', 'ABsecret', head[:2] + 'Secret',
               '', 'a', 'ab', 'abc', fhash, ghash, tree, '..' + '/files/' + fhash[:2] + '/' + fhash[2:], '../files/' + ghash[:2] + '/' + ghash[2:], 'aa/../../secret', '0x' + head, '٠' * 4, 'ａｂ' + 'cd', head.replace('a', 'а') if 'a' in head else '-1']
        ids = list(dict.fromkeys(ids))
        rng.shuffle(ids)
        allowed_hex = set('0123456789abcdef')
        reqs = [('list_changes', lambda v: ({'show_head': '0', 'version_id': v}, b'')), ('list_files', lambda v: ({'show_head': '0', 'version_id': v}, b'')),
                ('pull_file', lambda v: ({'use_head': '0', 'version_id': v, 'path': '/d/f'}, b'')),
                ('find_changed', lambda v: ({'previous_revision': v, 'include_unchanged': '0'}, {'client_changes': '{}'}))]
        for v in ids + [head]:
            for route, mk in reqs:
                hd, body = mk(v); del opened[:]
                try: h, b = c.req(route, hd, body); ok = True
                except Refused as e: ok, b = False, str(e).encode()
                ops = list(opened)
                rep.count((route, v))
                if isinstance(b, (bytes, str)): check(b'SECRET' not in (b if isinstance(b, bytes) else b.encode()), 'content from outside the object store was revealed', id=v, route=route)
                if v == head: check(ok, 'a valid version was refused', route=route); continue
                check(not ok, 'an identifier which names no version was accepted', id=v, route=route)
                for p in ops:
                    q = os.path.normpath(p)
                    if not q.startswith(w.base) and not q.startswith('/etc'): continue
                    rel = os.path.relpath(q, st.path)
                    if rel in ('head', 'lock_file') or rel.startswith('server_transient'): continue
                    parts = rel.split('/')
                    good = len(parts) in (2, 3) and parts[0] == 'index' and all(set(x) <= allowed_hex for x in parts[1:]) or rel == 'index'
                    check(good and '..' not in p.split('/'), 'a request made the server open a file which is no object of the index', id=v, route=route, opened=p)

# ----------------------------------------------------------------- C10
def endpoints(w):
    hd = w.head()
    return [('find_changed', {'previous_revision': 'root', 'include_unchanged': '0'}, {'client_changes': '{}'}),
            ('pull_file', {'use_head': '1', 'version_id': '', 'path': '/f'}, b''), ('pull_file', {'use_head': '0', 'version_id': hd, 'path': '/f'}, b''),
            ('list_versions', {}, b''), ('list_changes', {'show_head': '1', 'version_id': ''}, b''), ('list_files', {'show_head': '1', 'version_id': ''}, b''),
            ('list_files', {'show_head': '0', 'version_id': hd}, b''),
            ('begin_commit', {'previous_revision': hd, 'user': 'alice'}, b''), ('begin_commit', {'previous_revision': 'c' * 64, 'user': 'alice'}, b''), ('push_file', {'path': '/evil'}, b'evil'),
            ('delete_files', {}, {'files': json.dumps([{'path': '/f'}])}), ('commit', {'commit_message': 'evil', 'mode': 'commit'}, b''), ('commit', {'commit_message': 'evil', 'mode': 'abort'}, b'')]

def expect_refused(w, c, tok, what, addr=None, rep=None, repo='main', hold=None, revealing=(b'topsecret', b'secret message')):
    st = w.store(repo)
    before = st.state(); tree = st.tree_state()
    for route, hd, body in endpoints(w):
        h = dict(hd)
        if tok is not None: h['session_token'] = tok
        try: hh, b = c.req(route, h, body, token=False, addr=addr, repo=repo); ok = True
        except Refused as e: ok, hh, b = False, {}, str(e).encode()
        rep.count((what, route))
        check(not ok, 'a request without a valid session was answered', session=what, route=route)
        blob = json.dumps(hh).encode() + b
        for s in list(revealing) + [before[0].encode()]: check(s not in blob or before[0] == 'root', 'a refused request revealed repository data', session=what, route=route)
        now = st.state()
        check(now == before, 'a refused request changed the repository', session=what, route=route)
        check(st.tree_state() == tree, 'a refused request changed the repository directory', session=what, route=route)

def c10(rng, rep):
    clock.offset = 0.0
    with world() as w:
        c = w.conn(); c.begin(); c.push('/f', b'topsecret'); c.push('/g', b'x'); c.commit('secret message')
        oth = w.conn('carol', '10.0.0.3', repo='other'); 
        open_commit = rng.random() < 0.6
        tok = c.token['main']
        if open_commit:
            c.begin(); c.push('/pending', b'p')
        a = Conn(w, '10.0.0.1')
        a.token = {}
        if not open_commit or True:
            expect_refused(w, a, None, 'no token', rep=rep); expect_refused(w, a, '', 'empty token', rep=rep)
            expect_refused(w, a, 'garbage', 'unknown token', rep=rep)
            expect_refused(w, a, tok[:-1], 'shortened token', rep=rep); expect_refused(w, a, tok + 'A', 'lengthened token', rep=rep); expect_refused(w, a, '%', 'wildcard', rep=rep); expect_refused(w, a, tok.lower() if tok.lower() != tok else 'zz', 'lower-case token', rep=rep)
            expect_refused(w, a, "' or '1'='1", 'sql', rep=rep)
            expect_refused(w, a, tok, 'token of another address', addr='10.0.0.77', rep=rep)
            expect_refused(w, a, oth.token['other'], 'token of another repository', addr='10.0.0.3', rep=rep)
            # a challenge is not a session
            h, _ = a.req('begin_auth', token=False); expect_refused(w, a, h['auth_token'], 'challenge instead of session', rep=rep)
            # a session of a user who may not use the repository any more
        alice2 = w.conn('alice', '10.0.0.4'); t2 = alice2.token['main']
        bob = w.conn('bob', '10.0.0.5'); tb = bob.token['main']
        for good in (t2,):
            h, b = alice2.req('list_files', {'show_head': '1', 'version_id': ''}); check('/f' in json.loads(b)['files'], 'a valid session was refused')
        w.users = dict(USERS, bob=['other']); 
        server.config['users']['bob']['uses_repositories'] = ['other']
        expect_refused(w, bob, tb, 'user without permission', rep=rep)
        server.config['users']['bob']['uses_repositories'] = ['main']
        check(bob.files() is not None, 'permission was given back')
        # expiry: every use extends the session
        d = server.extend_session_duration
        clock.offset += d * rng.uniform(0.1, 0.9); alice2.files()
        clock.offset += d * rng.uniform(0.6, 0.99); alice2.files()                       # extended by its use
        clock.offset += d + 1 + rng.randint(0, 100000)
        # first request with the expired token is refused, also while another session owns an open commit
        expect_refused(w, alice2, t2, 'expired', rep=rep); expect_refused(w, bob, tb, 'expired (bob)', rep=rep)
        try: c2 = Conn(w, '10.0.0.4'); c2.req('authenticate', {'client_version': str(w.client_version), 'session_token': t2}, token=False); bad = True
        except Refused: bad = False
        check(not bad, 'an expired session was resumed')
        if open_commit:
            # the owner of the open commit may go on
            try: c.push('/more', b'm'); ok = True
            except Refused as e: ok = False
            check(ok, 'an expired session which owns the open commit was refused')
            clock.offset += d + 5
            # others starting sessions meanwhile do not end it
            if rng.random() < 0.7: w.conn('bob', '10.0.0.6').files()
            if rng.random() < 0.5:
                x = Conn(w, '10.0.0.1')
                try: x.req('authenticate', {'client_version': str(w.client_version), 'session_token': tok}, token=False)
                except Refused: raise Violation('the session owning the open commit could not be resumed')
            try: head = c.commit('done')
            except Refused as e: raise Violation('an expired session which owns the open commit could not finish it', why=str(e))
            check(hashes(c.files()).get('/more') == sha(b'm'), 'the commit was lost')
            clock.offset += d + 5
            expect_refused(w, c, tok, 'expired, commit finished', rep=rep)
        else:
            expect_refused(w, c, tok, 'expired', rep=rep)
        clock.offset = 0.0

# ----------------------------------------------------------------- C11
def sessions(w, repo='main'):
    r = w.store(repo).db('session_tokens'); return None if r is None else sorted(str(x) for x in r)

def c11(rng, rep):
    clock.offset = 0.0
    with world(repos=('main', 'other', 'main2', 'mai', 'xmain'), users=dict(USERS, dave=['main2', 'xmain'], eve=[])) as w:
        ver = str(w.client_version); n = [0]
        def fresh(addr='10.0.0.1', repo='main'):
            a = Conn(w, addr); h, _ = a.req('begin_auth', token=False, repo=repo); return a, h['auth_token']
        def sign(tok, user='alice'): return base64.b64encode(pysodium.crypto_sign_detached(tok.encode() if isinstance(tok, str) else tok, keypair(user)[1])).decode()
        def attempt(a, h, what, ok=False, repo='main', addr=None):
            n0 = sessions(w, repo); rep.count(what)
            try: hh, _ = a.req('authenticate', h, token=False, repo=repo, addr=addr); got = True
            except Refused: got = False
            if ok:
                check(got, 'a correct login was refused', case=what); a.token[repo] = hh['session_token']; return hh['session_token']
            check(not got, 'a session was granted', case=what)
            n1 = sessions(w, repo); check(n1 is None or n1 == n0, 'a failed login created or changed a session', case=what)
        def full(tok, user='alice', sig=None, **k): 
            return dict({'client_version': ver, 'user': user, 'auth_token': tok, 'signature': sig if sig is not None else sign(tok, user)}, **k)
        a, t = fresh(); check(a.do(lambda: True), '')
        attempt(a, full(t), 'correct', ok=True); a.files() if w.head() != 'root' else None
        attempt(a, full(t), 'challenge used twice')
        a, t = fresh(); attempt(a, full(t, sig=sign(t, 'bob')), 'signature of another key'); attempt(a, full(t), 'correct after a failure', ok=True)
        a, t = fresh(); attempt(a, full(t, user='bob', sig=sign(t, 'alice')), 'key of alice for user bob'); attempt(a, full(t, user='nobody', sig=sign(t)), 'unknown user')
        for cut in (0, 1, len(t) // 4, len(t) // 2, len(t) - 1): attempt(a, full(t, sig=sign(t[:cut])), 'signature of a prefix of the challenge (%d)' % cut)
        for cut in (0, 1, len(t) // 4, len(t) // 2, len(t) - 4):
            # a signature must not be transferable to another challenge sharing a prefix
            t2 = t[:cut] + ('A' if t[cut] != 'A' else 'B') + t[cut + 1:]
            attempt(a, full(t, sig=sign(t2)), 'signature of another challenge differing at %d' % cut); attempt(a, full(t2), 'challenge never issued')
        b, t2 = fresh(); attempt(a, full(t, sig=sign(t2)), 'signature of another issued challenge'); attempt(b, full(t2, sig=sign(t2 + ' ')), 'signature of a longer text')
        attempt(a, full(t, sig=''), 'empty signature'); attempt(a, full('', sig=sign('')), 'empty challenge')
        attempt(a, full('%', sig=sign('%')), 'wildcard'); attempt(a, full("' or '1'='1", sig=sign("' or '1'='1")), 'sql')
        attempt(a, full(t), 'challenge issued to this address', ok=True)
        a, t = fresh(); x = Conn(w, '10.9.9.9'); attempt(x, full(t), 'challenge of another address'); attempt(a, full(t), 'still valid for its own', ok=True)
        a, t = fresh(repo='other'); attempt(a, full(t), 'challenge of another repository', repo='main')
        a, t = fresh(repo='other'); attempt(a, full(t, user='bob'), 'user without permission', repo='other')
        a, t = fresh(repo='main'); attempt(a, full(t, user='carol'), 'user without permission', repo='main')
        for r, u in (('main2', 'alice'), ('mai', 'alice'), ('xmain', 'bob'), ('main', 'dave'), ('main', 'eve'), ('mai', 'dave'), ('main2', 'carol')):
            a, t = fresh(repo=r); attempt(a, full(t, user=u), 'user %s may not use %s' % (u, r), repo=r)
        a, t = fresh(repo='main2'); attempt(a, full(t, user='dave'), 'user dave may use main2', ok=True, repo='main2'); a, t = fresh(repo='xmain'); attempt(a, full(t, user='dave'), 'user dave may use xmain', ok=True, repo='xmain')
        for v in (w.client_version - 1, 0, -1, server.version_numbers.minimum_client_version - 1):
            a, t = fresh(); attempt(a, dict(full(t), client_version=str(v)), 'old client %d' % v)
        a, t = fresh(); attempt(a, dict(full(t), client_version=str(server.version_numbers.minimum_client_version)), 'minimum client', ok=True)
        tok = a.token['main']; a2 = Conn(w, '10.0.0.1'); attempt(a2, {'client_version': str(server.version_numbers.minimum_client_version - 1), 'session_token': tok}, 'old client resuming')
        attempt(a2, {'client_version': ver, 'session_token': tok}, 'resume', ok=True); attempt(Conn(w, '10.7.7.7'), {'client_version': ver, 'session_token': tok}, 'resume from another address')
        attempt(a2, {'client_version': ver, 'session_token': 'nope'}, 'resume of nothing')
        # expiry of the challenge
        a, t = fresh(); clock.offset += 29; b, tb = fresh(); clock.offset += rng.choice([1.5, 2, 60, 86400]); attempt(a, full(t), 'expired challenge')
        a, t = fresh(); clock.offset += rng.choice([31, 60, 86400]); attempt(a, full(t), 'expired challenge, the latest one issued')
        a, t = fresh(); clock.offset += rng.uniform(1, 28); attempt(a, full(t), 'not yet expired', ok=True)
        # the same challenge presented by two connections at once
        old = sys.getswitchinterval(); sys.setswitchinterval(1e-6)
        try:
            for _ in range(3 if rep.tier == 'quick' else 20):
                a, t = fresh(); cs = [Conn(w, '10.0.0.1') for _ in range(3)]; res = []; h = full(t); bar = threading.Barrier(3)
                def one(x):
                    bar.wait()
                    try: hh, _ = x.req('authenticate', dict(h), token=False); res.append(hh['session_token'])
                    except Refused: pass
                ts = [threading.Thread(target=one, args=(x,)) for x in cs]; [y.start() for y in ts]; [y.join() for y in ts]
                rep.count('concurrent'); check(len(res) <= 1, 'one challenge granted several sessions to concurrent requests', granted=len(res))
        finally: sys.setswitchinterval(old)
        # and forced interleaving: each connection stops after it looked the challenge up
        from bversion.storage import server_db as sdbm
        real = getattr(sdbm.server_db, 'get_token', None)
        if real is not None:
            a, t = fresh(); cs = [Conn(w, '10.0.0.1') for _ in range(2)]; res = []; h = full(t); bar = threading.Barrier(2)
            def slow(self, *x, **k):
                r = real(self, *x, **k)
                try: bar.wait(2)
                except threading.BrokenBarrierError: pass
                return r
            sdbm.server_db.get_token = slow
            try:
                def one(x):
                    try: hh, _ = x.req('authenticate', dict(h), token=False); res.append(hh['session_token'])
                    except Refused: pass
                ts = [threading.Thread(target=one, args=(x,)) for x in cs]; [y.start() for y in ts]; [y.join() for y in ts]
            finally: sdbm.server_db.get_token = real
            rep.count('forced interleaving'); check(len(res) <= 1, 'one challenge granted several sessions to interleaved requests', granted=len(res))
        clock.offset = 0.0

# ----------------------------------------------------------------- C12
def refused(f):
    try: f()
    except Refused: return True
    return False

def c12(rng, rep):
    if rng.random() < 0.2 or not rep.seen:
        from . import h_http
        h_http.connection_end(rng, rep)
    with world() as w:
        a = w.conn(); a.begin(); a.push('/f', b'1'); a.commit('1'); h1 = w.head(); a.begin(); a.push('/f', b'2'); a.commit('2'); h2 = w.head()
        st = w.store()
        def unchanged(f, what):
            s = st.state(); r = refused(f); rep.count(what)
            check(r, 'a write was accepted: ' + what); check(st.state() == s, 'a refused write changed the repository: ' + what)
        b = w.conn('bob', '10.0.0.2')
        def writes(c, what):
            unchanged(lambda: c.push('/x', b'x'), 'push, ' + what); unchanged(lambda: c.delete(['/f']), 'delete, ' + what)
            unchanged(lambda: c.commit('z'), 'commit, ' + what); unchanged(lambda: c.commit('z', mode='abort'), 'abort, ' + what)
        writes(b, 'without beginning')
        for stale in ('root', h1, '0' * 64, '', h2[:-1], h2.upper() if h2.upper() != h2 else 'X'):
            c = w.conn('bob', '10.0.0.2'); unchanged(lambda: c.begin(prev=stale), 'begin from %s' % ('an old version' if stale == h1 else repr(stale)[:10])); 
            if rng.random() < 0.5: writes(c, 'after a refused begin')
            c.end()
        # the same while an interrupted commit was left open: it is discarded, nothing is begun
        for who in (('alice', '10.0.0.1'), ('bob', '10.0.0.2')):
            a.end(); a = w.conn('alice', '10.0.0.1'); a.begin(); a.push('/left', b'left'); a.end()
            s0 = (st.head(), st.objects('index')); c = w.conn(*who); stale = rng.choice(['root', h1, '0' * 64, ''])
            check(refused(lambda: c.begin(prev=stale)), 'a commit was begun from another version than the head while an interrupted one was open', stated=stale, who=who); rep.count('stale begin, interrupted commit'); check((st.head(), st.objects('index')) == s0, 'a refused begin changed the committed state')
            writes(c, 'after a refused begin which found an interrupted commit'); c.end(); a = w.conn('alice', '10.0.0.1')
        # exclusive
        a.begin(); a.push('/p', b'p')
        unchanged(lambda: b.begin(), 'begin while another connection holds the lock'); writes(b, 'while another connection holds the lock')
        a2 = w.conn('alice', '10.0.0.1'); unchanged(lambda: a2.begin(), 'begin by a second connection of the owner'); writes(a2, 'second connection of the owner')
        # the lock of one repository gives nothing on another
        o = w.conn('alice', '10.0.0.1', repo='other'); 
        o.begin(prev='root', repo='other'); o.push('/o', b'o', repo='other')
        o.login('alice', 'main'); writes(o, 'holding the lock of another repository')
        try: o.commit('o', repo='other')
        except Refused: pass        # one connection interleaving two open commits is not promised to work
        writes(o, 'having held the lock of another repository')
        # b was refused before; holds nothing now
        how = rng.choice(['commit', 'abort', 'end'])
        if how == 'commit': a.commit('3')
        elif how == 'abort': a.commit(mode='abort')
        else: a.end()
        if how != 'end': writes(a, 'after the commit ended'); 
        s = st.state()
        try: b.begin()
        except Refused as e: raise Violation('the lock was not released (%s)' % how, why=str(e))
        b.push('/q', b'q'); b.commit('q')
        # a connection ending while idle releases, one that never had the lock does not
        a = w.conn('alice', '10.0.0.1'); a.begin(); b2 = w.conn('bob', '10.0.0.2'); refused(lambda: b2.begin()); b2.end()
        c3 = w.conn('bob', '10.0.0.2'); unchanged(lambda: c3.begin(), 'begin after a connection without the lock ended')
        a.push('/r', b'r'); a.commit('r')
        # another process holds the lock
        import fcntl
        with open(os.path.join(st.path, 'lock_file'), 'w') as lf:
            fcntl.flock(lf, fcntl.LOCK_EX); unchanged(lambda: c3.begin(), 'begin while another process holds the lock'); writes(c3, 'while another process holds the lock')
        c3.begin(); c3.commit(mode='abort')
        # switching repositories inside one connection keeps the locks apart
        x = w.conn('alice', '10.0.0.1'); x.login('alice', 'other')
        x.begin(); x.push('/m', b'm')
        if refused(lambda: x.begin(prev=w.head('other'), repo='other')): pass
        else:
            s = st.state()
            for f in (lambda: x.push('/nn', b'nn'), lambda: x.commit('nn')):
                if not refused(f):
                    # if it was accepted the connection must still hold that lock
                    y = w.conn('bob', '10.0.0.2'); check(refused(lambda: y.begin()) or st.db('active_commit_exists') == [], 'a write was accepted without the lock being held'); y.end()
        x.end()
        z = w.conn('bob', '10.0.0.2')
        try: z.begin()
        except Refused as e: raise Violation('the lock was not released when the connection ended', why=str(e))
        z.end()

# ----------------------------------------------------------------- C13
def c13(rng, rep):
    with world() as w:
        c = w.conn(); c.begin(); c.push('/keep', b'k'); st = w.store(); want = {'/keep': sha(b'k')}
        comps = ['.', '..', 'a', 'b', '...', '..a', 'a..', '.a', 'a.', '', '. .', ' ..', '.. ', '..;', '%2e%2e', '․․', 'x..y', '\u2025', '. ']
        for i in range(60):
            n = rng.randint(1, 5); parts = [rng.choice(comps) for _ in range(n)]; seps = [rng.choice('/\\/') for _ in range(n)]
            p = ''.join(s + q for s, q in zip(seps, parts))
            if rng.random() < 0.75: p = '/' + p.lstrip('/\\') if rng.random() < 0.8 else p
            import re
            cs = re.split(r'[\\/]', p); bad = any(x in ('.', '..') for x in cs)
            rep.count((bad, tuple(cs)[:3]))
            before = (st.tree_state(), st.db('active_commit_changes')); rootb = sorted(os.listdir(w.base))
            d = b'data %d' % i
            if bad or not p.startswith('/'):
                r = refused(lambda: c.push(p, d))
                check(r, 'a push with a traversal component or without leading slash was accepted', path=p)
                check((st.tree_state(), st.db('active_commit_changes')) == before and sorted(os.listdir(w.base)) == rootb, 'a refused push wrote something', path=p)
                # the handler may have ended the connection only if it raised; make sure we still hold the lock
                if not c.context.lock: c = w.conn(); c.begin()
            else:
                try: inf = c.push(p, d)
                except Refused as e: raise Violation('a harmless path was refused', path=p, why=str(e))
                check(inf['path'] == p, 'the path was altered', sent=p, stored=inf['path']); want[p] = sha(d)
        c.commit('m'); got = hashes(c.files()); check(got == want, 'paths were not stored exactly as sent', missing=sorted(set(want) - set(got)), extra=sorted(set(got) - set(want)))

# ----------------------------------------------------------------- C14
def c14(rng, rep):
    install_effects()
    if rng.random() < 0.12 or not rep.seen: return c14_sweep(rng, rep)
    with world() as w:
        m = Model(); paths = rpaths(rng, 5); pool = [b'z']
        c = w.conn(); c.begin(); c.push(paths[0], b'base'); c.push('/other', b'o'); c.commit('1'); base_files = hashes(c.files()); c.end(); Conn.all.clear()
        st = w.store(); before = (st.head(), st.objects('index'), st.objects('files'))
        o = Open(base_files); ops = some_ops(rng, o, paths, pool, rng.randint(1, 6))
        base = w.base; end = rng.choice(['drop', 'drop', 'crash'])
        owner = rng.choice([('alice', '10.0.0.1'), ('bob', '10.0.0.2')])
        if end == 'drop':
            c = w.conn(*owner); c.begin(); apply_ops(c, ops); c.end(); Conn.all.clear(); exact = True
        else:
            k = rng.randint(1, 25)
            def crash():
                c = Conn(w, owner[1]); c.login(owner[0]); c.begin(); fx.root = base; fx.n = 0; fx.crash_at = k; fx.on = True; apply_ops(c, ops); os._exit(77)
            r, v = forked(crash); check(r == 'crash', 'setup', r=r, v=v); exact = False
        rows = {r['path']: r for r in st.db('active_commit_changes') or []}
        who = rng.choice([('alice', '10.0.0.1'), ('bob', '10.0.0.2'), ('alice', '10.0.0.2'), ('bob', '10.0.0.1'), ('alice', '10.0.0.1 ')])
        own = who == owner; d = dict(owner=owner, who=who, end=end, ops=repr(ops)[:1000]); rep.count((owner, who, end, len(ops)))
        n = w.conn(*who)
        # what the request says about the user does not matter
        h, b = n.req('begin_commit', {'previous_revision': w.head(), 'user': rng.choice([owner[0], 'alice', 'bob', '']), 'ip': owner[1]})
        prior = json.loads(b)['partial_commit']; reported = {f['path']: f['hash'] for f in prior} if prior else {}
        check(len(reported) == len(prior), 'an upload is reported twice', **d)
        files = st.objects('files')
        if own:
            want = {p: h for p, (s, h) in o.ch.items() if s != 'deleted'} if exact else {p: r['hash'] for p, r in rows.items() if r['status'] != 'deleted'}
            check(reported == want, 'the owner is not told exactly the uploads which were recorded', expected=want, got=reported, **d)
            for p, h in reported.items(): check(files.get(h) is not None and sha(files[h]) == h, 'a reported upload is not in the store', path=p, **d)
            extra = b'extra %d' % rng.getrandbits(20); n.push('/extra', extra)
            exp = dict(base_files); exp.update(reported); exp['/extra'] = sha(extra)
            if rng.random() < 0.8:
                n.commit('r'); got = hashes(n.files()); check(got == exp, 'the resumed commit is not the uploads which were kept and the new requests', expected=exp, got=got, **d)
                st.closure()
        else:
            check(not reported, 'uploads of another client were reported', got=reported, **d)
            check((st.head(), st.objects('index'), files) == before, 'an abandoned commit of another client was not rolled back', **d)
            n.push('/mine', b'mine'); n.commit('mine'); exp = dict(base_files); exp['/mine'] = sha(b'mine')
            got = hashes(n.files()); check(got == exp, 'the new commit contains parts of the abandoned one', expected=exp, got=got, **d)
            check(st.commit_obj(st.head())['commit_by'] == who[0], 'wrong author', **d)

def c14_sweep(rng, rep):
    """the server dies before every single effect of two uploads; their owner resumes"""
    with world() as w:
        c = w.conn(); c.begin(); c.push('/base', b'base'); c.commit('1'); c.end(); Conn.all.clear(); base = w.base; save = base + '_save'; shutil.copytree(base, save); head = w.head()
        data = {'/one': b'fresh one %d' % rng.getrandbits(30), '/two': rng.choice([b'base', b'', b'fresh two']), '/base': b'other'}
        for k in range(1, 200):
            shutil.rmtree(base); shutil.copytree(save, base)
            def go():
                c = Conn(w); c.login(); c.begin(); fx.root = base; fx.n = 0; fx.crash_at = k; fx.on = True
                for p, d in data.items(): c.push(p, d)
                fx.on = False
            r, v = forked(go)
            st = w.store(); rows = {x['path']: x['hash'] for x in st.db('active_commit_changes') or [] if x['status'] != 'deleted'}
            n = w.conn(); told = {f['path']: f['hash'] for f in n.begin()}; objs = st.objects('files'); rep.count(('sweep', k, len(told)))
            check(told == rows and all(data.get(p) is not None and sha(data[p]) == h for p, h in told.items()), 'the owner is not told exactly the uploads which were recorded', expected=rows, got=told, crash_before_effect=k)
            for p, h in told.items(): check(objs.get(h) == data[p], 'a reported upload is not in the store', path=p, crash_before_effect=k)
            n.commit('resumed'); st.closure()
            if told: check(st.listing() == dict({'/base': sha(b'base')}, **told), 'the resumed commit is not the uploads which were kept', got=st.listing(), told=told)
            n.end(); Conn.all.clear()
            if r != 'crash': break

CASES = {'C01': (c01, 7, 90), 'C02': (c02, 40, 300), 'C03': (c03, 80, 600), 'C04': (c04, 80, 600), 'C05': (c05, 60, 400), 'C06': (c06, 12, 80),
         'C07': (c07, 25, 150), 'C08': (c08, 25, 150), 'C09': (c09, 3, 12), 'C10': (c10, 6, 40), 'C11': (c11, 5, 40), 'C12': (c12, 12, 80), 'C13': (c13, 20, 200), 'C14': (c14, 60, 500)}

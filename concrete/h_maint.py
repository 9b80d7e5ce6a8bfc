"""Contracts of verification, garbage collection and path joining (C27, C28)."""
from .lib import *
from .h_crypto import history, inthread, needed
from bversion import common
from bversion.storage.versioned_storage import versioned_storage

def vs(p): return versioned_storage(p)

def c27(rng, rep):
    with world() as w:
        st = w.store(); p = st.path
        c = history(w, rng, rng.choice([0, 1, 2, 3, 4])); head = st.head()
        def verify():
            def go():
                with quiet(): return vs(p).verify_fs()
            try: ok, issues = inthread(go)
            except Exception as e: return False, 'raised %r' % e
            check(ok == (len(issues) == 0), 'verification contradicts itself', ok=ok, issues=issues); return ok, issues
        def drop(kind, data):
            h = sha(data); os.makedirs(os.path.join(p, kind, h[:2]), exist_ok=True)
            with open(os.path.join(p, kind, h[:2], h[2:]), 'wb') as f: f.write(data)
            return h
        # orphans do not disturb
        orph = {'index': set(), 'files': set()}
        for _ in range(rng.randint(0, 3)):
            k = rng.choice(['index', 'files']); d = json.dumps({'type': 'tree', 'files': {}, 'dirs': {}, 'n': rng.getrandbits(40)}).encode() if k == 'index' else b'orphan %d' % rng.getrandbits(40)
            orph[k].add(drop(k, d))
        # an open commit, and what an interrupted one leaves behind
        opened = rng.random() < 0.5
        if opened:
            c.begin(); c.push('/open/one', b'open %d' % rng.getrandbits(40)); c.push('/open/two', rng.choice([b'shared', b'', b'open two']))
            if rng.random() < 0.5 and st.listing(): c.delete([rng.choice(sorted(st.listing()))])
            if rng.random() < 0.5:
                c.end()
        ok, issues = verify(); rep.count(('clean', ok, head == 'root', opened))
        check(ok, 'verification reports a problem in an intact repository', issues=issues)
        idx, fl = needed(st, head) if head != 'root' else (set(), set())
        if opened and c.t is not None and c.context.lock:
            before = st.tree_state()
            def gc1():
                with quiet(): return vs(p).garbage_collect()
            try: res = inthread(gc1)
            except Exception as e: res = (False, repr(e))
            check(res[0] is False and st.tree_state() == before, 'garbage collection ran although a commit holds the lock', result=res)
            c.end()
        # damage
        save = p + '_save'; shutil.copytree(p, save)
        def reset(): shutil.rmtree(p); shutil.copytree(save, p)
        objs = [('index', x) for x in sorted(st.objects('index'))] + [('files', x) for x in sorted(st.objects('files'))]
        for kind, x in (objs if rep.tier != 'quick' or len(objs) < 8 else rng.sample(objs, 8)):
            f = os.path.join(p, kind, x[:2], x[2:]); need = x in (idx if kind == 'index' else fl)
            how = rng.choice(['remove', 'flip', 'truncate', 'append', 'empty', 'swap'])
            data = open(f, 'rb').read()
            if how == 'remove': os.remove(f)
            else:
                new = {'flip': data[:-1] + bytes([data[-1] ^ 1]) if data else b'x', 'truncate': data[:-1] if data else b'q', 'append': data + b' ', 'empty': b'' if data else b'y', 'swap': b'other'}[how]
                if kind == 'index' and how == 'append': new = data + b'\n'
                with open(f, 'wb') as fh: fh.write(new)
            ok, issues = verify(); rep.count((kind, how, need)); expect = how == 'remove' and not need
            check(ok == expect, 'verification %s' % ('reports a problem although nothing that is needed is missing' if expect else 'does not report a damaged or missing object'), object=x, kind=kind, how=how, needed=need, issues=issues)
            reset()
        if head != 'root':
            os.remove(os.path.join(p, 'head')); ok, issues = verify(); check(not ok, 'verification accepts commits without a head'); reset()
        # garbage collection
        before_i, before_f = st.objects('index'), st.objects('files')
        rows = st.db('active_commit_changes') or []; log = st.db('gc_log') or []
        keep_i = idx | {r['item_hash'] for r in log if r['item_type'] != 'file'}; keep_f = fl | {r['hash'] for r in rows} | {r['item_hash'] for r in log if r['item_type'] == 'file'}
        def gc():
            with quiet(): return vs(p).garbage_collect()
        if rng.random() < 0.25 and idx:
            x = rng.choice(sorted(idx)); os.remove(os.path.join(p, 'index', x[:2], x[2:])); b4 = (st.objects('index'), st.objects('files'))
            try: inthread(gc)
            except Exception: pass
            check((st.objects('index'), st.objects('files')) == b4, 'garbage collection removed objects although the history is damaged', missing=x)
            drop('index', before_i[x])
        res = inthread(gc); rep.count(('gc', len(orph['index']), len(orph['files']), opened))
        check(res[0] is True, 'garbage collection failed', result=res)
        ai, af = st.objects('index'), st.objects('files')
        for n, b, a, keep in (('index', before_i, ai, keep_i), ('files', before_f, af, keep_f)):
            for x, d in b.items():
                if x in keep: check(a.get(x) == d, 'garbage collection removed or altered a needed %s object' % n, object=x, reachable=x in idx | fl)
                else: check(x not in a, 'garbage collection left a %s object nobody needs' % n, object=x)
            check(not set(a) - set(b), 'garbage collection added objects')
        check(st.head() == head, 'garbage collection moved the head')
        c2 = w.conn()
        try: prior = c2.begin()
        except Refused as e: raise Violation('garbage collection did not release the lock', why=str(e))
        if opened: 
            for r in prior: check(sha(st.objects('files')[r['hash']]) == r['hash'], 'an upload of the open commit is gone')
        c2.push('/z', b'z'); c2.commit('z'); st.closure(); c2.end()
        # with no commit at all, and with commits but without head
        if head != 'root' and rng.random() < 0.5:
            os.remove(os.path.join(p, 'head')); b4 = st.objects('index')
            try: inthread(gc)
            except Exception: pass
            check(st.objects('index') == b4, 'garbage collection removed the history of a repository whose head is missing')

def join_spec(args):
    comps = [c for a in args for c in a.split('/') if c != '']
    if not comps: return None
    return ('/' if args[0].startswith('/') else '') + '/'.join(comps) + ('/' if args[-1].endswith('/') else '')
def c28(rng, rep):
    frag = ['a', 'b', '/', '//', '/a', 'a/', '/a/', 'a/b', '//a//b//', '', ' ', ' a', 'a ', '.', '..', './a', '...', 'ü', '\n', '\t/', '/ ', ' /', 'a//b', '\\', 'a\\b']
    for _ in range(60):
        args = [rng.choice(frag) if rng.random() < 0.8 else ''.join(rng.choice('ab/. ') for _ in range(rng.randint(0, 8))) for _ in range(rng.randint(1, 5))]
        want = join_spec(args); got = common.cpjoin(*args); rep.count((len(args), want is None, args[0][:1] == '/', args[-1][-1:] == '/'))
        if want is not None: check(got == want, 'joining gave another path', fragments=args, expected=want, got=got)
        else: check(got.strip('/') == '', 'joining nothing gave a component', fragments=args, got=got)
        if want is not None:
            k = rng.randint(0, len(args))
            left, right = args[:k], args[k:]
            if join_spec(left or ['']) is not None and join_spec(right or ['']) is not None:
                check(common.cpjoin(common.cpjoin(*left), common.cpjoin(*right)) == want, 'joining joined paths differs from joining all at once', left=left, right=right)
        check(all('/' not in c for c in (got.split('/'))), '?')
    import itertools
    if len(rep.seen) < 40:
        for n in (1, 2, 3):
            for args in itertools.product(['a', '/', '/b', 'c/', '/d/', '', 'e/f', ' '], repeat=n):
                want = join_spec(args); got = common.cpjoin(*args); rep.count(('all', n))
                if want is not None: check(got == want, 'joining gave another path', fragments=args, expected=want, got=got)
                else: check(got.strip('/') == '', 'joining nothing gave a component', fragments=args, got=got)

CASES = {'C27': (c27, 40, 400), 'C28': (c28, 60, 600)}

"""C09: version identifiers cannot reach outside the object store."""
import z3
from ..srv import *
from ..store import *

def unit_read(v):
    ip, c, w, me, bp = store(v)
    f = ip.get(STORE + '.read_index_object'); c.func = f.qualname
    h, kind = c.fresh('object_hash'), c.fresh('kind')
    c.bg += [ty(h) == T_STR, ty(kind) == T_STR]
    fs0 = w.fs._t
    want = w.obj_path(bp, 'index', h)
    def touch(k, *info):
        if k == 'db': c.prove('no database access', False)
        else:
            c.prove('only identifiers of lower-case hexadecimal digits are looked up', hexonly(w, h))
            c.prove('only the object of that name in the index of this repository is opened', info[0] == want)
    w.log_touch = touch
    w.effect = lambda *a: c.prove('reading changes nothing', False)
    n = {'ok': 0, 'bad': 0}
    def thunk():
        try: return ip.call(f, [me, Box(h), Box(kind)], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): n['bad'] += 1; return
        n['ok'] += 1
        t = ip.term(r)
        c.prove('what is returned is the stored object', t == jloads(dget(fs0, want)))
        c.prove('an object is returned only when it is of the kind asked for', dget(t, c.const('type')) == kind)
    c.explore(thunk, visit)
    for k in n: c.prove('reachable: ' + k, n[k] > 0)

def reader_contract(w, me, seen, kinds=('commit', 'tree')):
    """read_index_object by its contract; records (hash, kind)"""
    ip, c = w.ip, w.c
    def rd(ip, a, k, f):
        names = ['self', 'object_hash', 'expected_object_type']
        av = dict(zip(names, a)); av.update(k)
        c.prove('objects are read from the same store', av['self'] is me)
        kind = av['expected_object_type']
        c.prove('the kind asked for is a kind of object', isinstance(kind, str) and kind in kinds)
        seen.append((av['object_hash'], kind)); c.log(lambda: seen.pop(), None)
        if c.choose('read fails'): py_raise(IOError, 'object')
        return Box(obj_term(w, ip.term(av['object_hash']), kind))
    ip.overrides[STORE + '.read_index_object'] = rd

READERS = {'read_tree_index_object': 'tree', 'read_commit_index_object': 'commit', 'read_dir_tree': 'tree', 'get_commit_changes': 'commit',
           'get_commit_files': 'commit', 'get_file_info_from_path': 'commit', 'get_changes_since': 'commit', 'get_commit_chain': 'commit'}
ARGS = {'read_tree_index_object': 1, 'read_commit_index_object': 1, 'read_dir_tree': 1, 'get_commit_changes': 1, 'get_commit_files': 1, 'get_file_info_from_path': 2, 'get_changes_since': 2, 'get_commit_chain': 0}

def unit_reader(name, kind):
    def unit(v):
        ip, c, w, me, bp = store(v)
        f = ip.get(STORE + '.' + name); c.func = f.qualname
        args = [c.fresh('arg%d' % j) for j in range(ARGS[name])]
        c.bg += [ty(a) == T_STR for a in args]
        seen = []
        def touch(k, *info):
            c.prove('no file but the head and index objects is opened', k == 'fs' and z3.Or(info[0] == pth(bp, c.const('head'))))
        w.log_touch = touch
        w.effect = lambda *a: c.prove('reading changes nothing', False)
        reader_contract(w, me, seen)
        # recursion on directories: the same claim about the subdirectory
        def any_tree(ip, a, k, f):
            t = c.fresh('subtree'); c.assume([ty(t) == T_DICT, dhas(t, c.const('files')), dhas(t, c.const('dirs'))]); return Box(t)
        recursive(ip, STORE + '.read_dir_tree', any_tree)
        ip.overrides[STORE + '.flatten_dir_tree'] = lambda ip, a, k, f: Box(c.fresh('flat'))
        def info(ip, a, k, f):
            t = c.fresh('info'); c.assume(ty(t) == T_DICT); return Box(t)
        recursive(ip, STORE + '.get_file_info_from_path.helper', info)
        from ..loops import while_inv
        ip.while_hooks[STORE + '.*'] = lambda ip, s, env: while_inv(ip, s, env, lambda: [], 'loop')
        from ..specs.c06 import slice_lists
        slice_lists(ip)
        n = [0]
        def thunk():
            try: return ip.call(f, [me] + [Box(a) for a in args], {})
            except PyExc as e: return e
        def visit(r):
            if isinstance(r, PyExc): return
            n[0] += 1
            if seen and isinstance(seen[0][0], Box): c.prove('the version given is read as a %s' % kind, seen[0][1] == kind)
        c.explore(thunk, visit)
        c.prove('reachable', n[0] > 0)
    return unit

def unit_pull(v):
    """the file sent by pull_file is the object, in the files of the requested repository, that the version names"""
    ip, c, w = server(v); configure(w)
    ip.import_module('bversion.storage.versioned_storage'); chars_hooks(w)
    f = routes(ip)['pull_file']; c.func = f.qualname
    w.initial_active_files = lambda db: None
    rq, cx = request(w), context(w)
    ip.overrides['bversion.server.have_authenticated_user'] = lambda ip, a, k, f: Box(c.fresh('row')) if c.choose('user') else False
    repo = w.hdr('repository'); c.bg.append(dhas(w.R, repo))
    c.bg.append(ty(w.rpath(repo)) == T_STR)
    ip.overrides['bversion.common.make_dirs_if_dont_exist'] = lambda ip, a, k, f: None    # only creates the two directories of the store (C28 for the path)
    info = []
    def gi(ip, a, k, f):
        c.prove('the version is read from the requested repository', ip.term(ip.getattr_(a[0], 'base_path')) == w.rpath(repo))
        if c.choose('no such file'): py_raise(IOError, 'no such file')
        t = c.fresh('info'); h = dget(t, c.const('hash')); c.assume([ty(t) == T_DICT, dhas(t, c.const('hash')), ty(h) == T_STR])
        info.append(t); c.log(lambda: info.pop(), None); return Box(t)
    ip.overrides[STORE + '.get_file_info_from_path'] = gi
    w.log_touch = lambda k, *i: c.prove('no other file is opened', k == 'fs' and z3.Or(*[i[0] == pth(w.rpath(repo), c.const(x)) for x in ('head', 'index', 'files')]))
    n = [0]
    def thunk():
        try: return ip.call(f, [rq, cx], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc): return
        b = ip.getattr_(r, 'body')
        if not isinstance(b, Obj): return
        n[0] += 1
        c.prove('the file sent is the one the version lists for the path', ip.term(ip.getattr_(b, 'path')) == w.obj_path(w.rpath(repo), 'files', dget(info[-1], c.const('hash'))))
    c.explore(thunk, visit)
    c.prove('a file can be sent', n[0] > 0)

UNITS = [('read_index_object', unit_read), ('pull_file', unit_pull)] + [(n, unit_reader(n, k)) for n, k in READERS.items()]

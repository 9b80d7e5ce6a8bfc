"""C06: fetching a path agrees with the version listing."""
import z3
from ..srv import *
from ..store import *
from ..tree import *

HELPER = STORE + '.get_file_info_from_path.helper'

def slice_lists(ip): pass

def read_contract(w):
    """read_index_object by its contract (C09)"""
    ip, c = w.ip, w.c
    def rd(ip, a, k, f):
        d = bind(f, a, k, ip)
        h = ip.term(d['object_hash']); kind = d['expected_object_type']
        if not isinstance(kind, str): raise Unsupported('kind of object is not constant')
        if c.choose('object cannot be read'): py_raise(IOError, 'object')
        t = obj_term(w, h, kind)
        r = c.fresh('object'); c.assume([r == t, ty(r) == T_DICT]); return Box(r)
    ip.overrides[STORE + '.read_index_object'] = rd

def lookup_contract(w, T):
    """helper(h, l): the details listed at l below the tree object h, or IOError when there are none (or an object cannot be read)"""
    ip, c = w.ip, w.c
    state = {}
    def names(args):
        v = list(args.values())
        if len(v) < 2: raise Unsupported('arguments of the lookup helper')
        return v[-2], v[-1]
    def pre(args):
        h, l = names(args)
        c.prove('the helper is given components without slashes', sf(ip.term(l)) if isinstance(l, Box) else z3.BoolVal(isinstance(l, ListObj) and l.concrete and not l.items()))
    def fresh(args, f):
        h, l = c.fresh('tree_hash'), c.fresh('path_left')
        c.assume([ty(h) == T_STR, ty(l) == T_LIST, sf(l)])
        state['hl'] = (h, l)
        ks = list(args); args = dict(args); args[ks[-2]], args[ks[-1]] = Box(h), Box(l)
        return args
    def apply(args):
        h, l = names(args)
        h = ip.term(h)
        if isinstance(l, ListObj): l = T.nil if l.concrete and not l.items() else ip.term(l)
        else: l = ip.term(l)
        if c.choose('lookup fails'):
            gone = c.fresh('notlisted', B); state['gone'] = z3.Not(lk0(h, l))
            if c.choose('not listed'): c.assume(z3.Not(lk0(h, l))); w.why = (h, l); py_raise(IOError, 'No such file or directory')
            w.why = None; py_raise(IOError, 'object')
        r = c.fresh('details')
        c.assume([lk0(h, l), r == lkv0(h, l), ty(r) == T_DICT])
        w.found = (h, l)
        return Box(r)
    def check(args, r):
        h, l = state['hl']
        if isinstance(r, PyExc):
            c.prove('lookup fails only with an input/output error', issubclass(r.exc.cls, OSError) if isinstance(r.exc.cls, type) else False)
            ok = r.exc.args and r.exc.args[0] == 'object'
            if not ok: c.prove('lookup of a listed path does not fail', z3.Not(lk1(h, l)))
            return
        c.prove('lookup succeeds only for a listed path', lk1(h, l))
        c.prove('lookup gives the details listed for exactly this path', ip.term(r) == lkv1(h, l))
    modular(ip, HELPER, fresh, apply, check, pre)

def unit_info(explicit):
    def unit(v):
        ip, c, w, me, bp = store(v)
        T = Tree(ip); T.lemmas(); read_contract(w); lookup_contract(w, T)
        f = ip.get(STORE + '.get_file_info_from_path'); c.func = f.qualname
        p, ver, head = c.fresh('path'), c.fresh('version'), c.fresh('head')
        c.bg += [ty(p) == T_STR, p != c.const(''), ty(ver) == T_STR, ty(head) == T_STR, ver != c.c_none]
        w.effect = lambda *a: c.prove('looking up changes nothing', False)
        ip.overrides[STORE + '.get_head'] = lambda ip, a, k, f: Box(head)
        vid = ver if explicit else head
        root = dget(objd(vid), c.const('tree_root'))
        rooted = z3.And(hd(spl(p)) == c.const(''), llen(spl(p)) > 1)
        full = z3.If(rooted, p, cat(c.const('/'), p))
        u = un(c.const(''), full)
        n = {'found': 0, 'missing': 0, 'norepo': 0}
        def thunk():
            w.why = w.found = None
            try: return ip.call(f, [me, Box(p)], {'version_id': Box(ver)} if explicit else {})
            except PyExc as e: return e
        def visit(r):
            c.assume(z3.And(spl(p) == spl(p), u == u))
            inlist = z3.And(lk1(root, u), jn(c.const(''), u) == full)
            if isinstance(r, PyExc):
                c.prove('failing is an input/output error', isinstance(r.exc.cls, type) and issubclass(r.exc.cls, OSError))
                a = r.exc.args
                if a and a[0] == 'object': return
                if not explicit and c.entails(head == c.const('root')): n['norepo'] += 1; return
                n['missing'] += 1
                c.prove('a path that the listing contains is not refused', z3.Not(inlist))
                return
            n['found'] += 1
            if not explicit: c.prove('without a version the head is read, which must name a commit', head != c.const('root'))
            c.prove('only a path that the listing of the version contains is answered', inlist)
            c.prove('the answer is what the listing records for exactly that path', ip.term(r) == dset(lkv1(root, u), c.const('path'), p))
        c.explore(thunk, visit)
        c.prove('reachable', n['found'] > 0 and n['missing'] > 0)
    return unit

UNITS = [('get_file_info, version given', unit_info(True)), ('get_file_info, head', unit_info(False))]

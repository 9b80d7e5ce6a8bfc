"""C15: three-way classification."""
import z3
from ..core import *
from ..values import *
from .. import env_base as eb

def lists_of(ip, res):
    return {k: ip.load_key(res, k) for k in ('client_push_files', 'client_pull_files', 'to_delete_on_client',
            'to_delete_on_server', 'conflict_files', 'error_files', 'no_op')}

def unit_merge(v):
    ip = v.interp(); c = ip.ctx
    f = ip.get('bversion.merge_client_and_server_changes.merge_client_and_server_changes')
    c.func = f.qualname
    S, C = c.fresh('server'), c.fresh('client')
    p = z3.Const('p', V)
    k_status, k_path = c.const('status'), c.const('path')
    st = lambda d, x: dget(dget(d, x), k_status)
    new, chg, dele, unc = [c.const(x) for x in ('new', 'changed', 'deleted', 'unchanged')]
    def pre(D):
        return z3.ForAll([p], z3.Implies(dhas(D, p), z3.And(
            ty(p) == T_STR, ty(dget(D, p)) == T_DICT, dhas(dget(D, p), k_status), dhas(dget(D, p), k_path),
            dget(dget(D, p), k_path) == p, z3.Or(*[st(D, p) == x for x in (new, chg, dele, unc)]))), patterns=[dhas(D, p)])
    c.bg += [pre(S), pre(C), ty(S) == T_DICT, ty(C) == T_DICT]
    sb, cb = Box(S), Box(C)
    cs, cc = c.fresh('cs'), c.fresh('cc')
    def thunk():
        try: return ip.call(f, [sb, cb], {})
        except PyExc as e: return e
    def visit(r):
        if isinstance(r, PyExc):
            c.prove('does not raise', False); return
        c.prove('server argument unmodified', sb.peek() == S); c.prove('client argument unmodified', cb.peek() == C)
        ls = lists_of(ip, r)
        inS, inC = dhas(S, p), dhas(C, p)
        ss, cl = st(S, p), st(C, p)
        cm = z3.Or(cl == new, cl == chg); sm = z3.Or(ss == new, ss == chg)
        e = dget(S, p); ec = dget(C, p)
        cun = z3.Or(z3.Not(inC), cl == unc); sun = z3.And(inS, ss == unc)
        spec = {
          'client_push_files': [(z3.And(sun, inC, cm), e), (z3.And(z3.Not(inS), inC, cm), ec)],
          'to_delete_on_server': [(z3.And(sun, inC, cl == dele), e), (z3.And(z3.Not(inS), inC, cl == dele), ec)],
          'no_op': [(z3.And(sun, inC, cl == unc), e)],
          'client_pull_files': [(z3.And(inS, cun, z3.Or(sm, z3.And(ss == unc, z3.Not(inC)))), e)],
          'to_delete_on_client': [(z3.And(inS, ss == dele, z3.Or(cun, cl == dele)), e)],
          'error_files': [(z3.And(z3.Not(inS), inC, cl == unc), ec)],
        }
        cf = lambda a, b, x: None
        conf = []
        def mk(a, b):
            return lambda x: (('client_status', c.const(a)), ('server_status', c.const(b)), ('file_info', x))
        conf = [(z3.And(inS, inC, cm, sm), ('Changed', 'Changed')), (z3.And(inS, inC, cm, ss == dele), ('Changed', 'Deleted')),
                (z3.And(inS, inC, cl == dele, sm), ('Deleted', 'Changed'))]
        def confterm(a, b):
            t = c.c_empty
            for k, x in (('client_status', c.const(a)), ('server_status', c.const(b)), ('file_info', e)): t = dset(t, c.const(k), x)
            return t
        spec['conflict_files'] = [(g, confterm(*ab)) for g, ab in conf]
        for name, cases in spec.items():
            def keyf(x, nm=name):
                if nm == 'conflict_files': x = ip.dget_simp(x, c.const('file_info'))
                return dget(x, k_path)
            v.multiset(ip, name, ls[name], p, cases, keyf)
    c.explore(thunk, visit)

UNITS = [('merge', unit_merge)]

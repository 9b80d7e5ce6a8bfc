"""Running the verification units of a property."""
import importlib, time, traceback, sys
import z3
from .core import *
from .values import *
from . import env_base, values
from .builtins_ import *

class Verifier:
    def __init__(self, deadline=None, root='/repo'):
        self.deadline, self.root, self.ips = deadline, root, []
    def interp(self):
        ip = env_base.new_interp(self.deadline, self.root); self.ips.append(ip); return ip

    # -------- helpers for postconditions over lists
    def multiset(self, ip, name, lst, p, cases, keyf=None):
        """the list holds exactly one element value(p) for every p with cond(p), for each (cond, value) case, and nothing else.
        The cases are mutually exclusive and value is injective in p by construction of the specification."""
        c = ip.ctx
        segs = ip.iter_segs(lst)
        # soundness: every element is an expected one; remember its witness p and check no duplicates
        fams = []
        for j, s in enumerate(segs):
            if isinstance(s, PSeg):
                for x in s.items: fams.append(([], z3.BoolVal(True), ip.term(x)))
            else: fams.append((s.bvs, s.cond, ip.term(s.value)))
        import itertools
        for j, (bvs, cond, val) in enumerate(fams):
            ks = [c.fresh('e', b.sort()) for b in bvs]; sub = list(zip(bvs, ks))
            hyp = z3.substitute(cond, *sub) if sub else cond
            vv = z3.substitute(val, *sub) if sub else val
            cand = ks[0] if len(ks) == 1 and ks[0].sort() == V else None
            if cand is None: 
                c.prove('%s: element %d is expected' % (name, j), z3.Implies(hyp, self.some(c, p, cases, vv)))
            else:
                s2 = [(p, cand)]
                c.prove('%s: every element is one that belongs there' % name, z3.Implies(hyp, z3.Or(*[z3.And(z3.substitute(g, *s2), self.same(ip, vv, z3.substitute(e, *s2))) for g, e in cases])))
        # completeness
        q = c.fresh('q')
        for g, e in cases:
            g1, e1 = z3.substitute(g, (p, q)), z3.substitute(e, (p, q))
            alts = []
            for bvs, cond, val in fams:
                if len(bvs) == 1 and bvs[0].sort() == V: alts.append(z3.And(z3.substitute(cond, (bvs[0], q)), self.same(ip, z3.substitute(val, (bvs[0], q)), e1)))
                elif not bvs: alts.append(self.same(ip, val, e1))
                else: alts.append(z3.Exists(bvs, z3.And(cond, self.same(ip, val, e1))))
            c.prove('%s: nothing that belongs there is missing' % name, z3.Implies(g1, z3.Or(*alts) if alts else z3.BoolVal(False)))
        # no duplicates: two families (or two indices of one) never contribute the same path
        for a in range(len(fams)):
            for b in range(a, len(fams)):
                (b1, c1, v1), (b2, c2, v2) = fams[a], fams[b]
                k1 = [c.fresh('d', x.sort()) for x in b1]; k2 = [c.fresh('d', x.sort()) for x in b2]
                h1 = z3.substitute(c1, *zip(b1, k1)) if b1 else c1; h2 = z3.substitute(c2, *zip(b2, k2)) if b2 else c2
                w1 = z3.substitute(v1, *zip(b1, k1)) if b1 else v1; w2 = z3.substitute(v2, *zip(b2, k2)) if b2 else v2
                if keyf is not None: w1, w2 = keyf(w1), keyf(w2)
                if a == b:
                    if not b1: continue
                    c.prove('%s: no element twice' % name, z3.Implies(z3.And(h1, h2, w1 == w2), z3.And(*[x == y for x, y in zip(k1, k2)])))
                else:
                    c.prove('%s: no element twice (cross)' % name, z3.Not(z3.And(h1, h2, w1 == w2)))
    def same(self, ip, a, b): return a == b
    def some(self, c, p, cases, vv):
        return z3.Exists([p], z3.Or(*[z3.And(g, vv == e) for g, e in cases]))

def run_unit(modname, idx, deadline, root='/repo'):
    mod = importlib.import_module(modname)
    name, fn = mod.UNITS[idx]
    v = Verifier(deadline, root)
    err = None
    t0 = time.time()
    try: fn(v)
    except Unsupported as e: err = 'undecided: %s' % e + ' [line %s]' % (v.ips[-1].ctx.where if v.ips else '?')
    except PyExc as e: err = 'undecided: uncaught exception %r while setting up the verification' % e
    except RecursionError: err = 'undecided: recursion'
    except Exception as e:
        err = 'undecided: engine error ' + traceback.format_exc()[-1500:]
    if err is None:
        for ip in v.ips:
            s = z3.Solver(); s.set('timeout', 1500); s.set('smt.mbqi', False); s.add(*ip.ctx.bg)
            if s.check() == z3.unsat: err = 'undecided: the assumptions of this unit contradict each other'
    obs = [o for ip in v.ips for o in ip.ctx.obs]
    return dict(unit=name, error=err, wall=time.time() - t0, obs=[(o.func, o.name, o.status, o.time, o.backend, o.where, str(o.model) if o.model else None, o.pathinfo) for o in obs],
                funcs=sorted(set(f for ip in v.ips for f in ip.funcs_run)), contracts=sorted(set(f for ip in v.ips for f in ip.contracts_used)),
                solver=sum(ip.ctx.solver_time for ip in v.ips), queries=sum(ip.ctx.nqueries for ip in v.ips), paths=sum(ip.ctx.npaths for ip in v.ips),
                trusted=sorted(set(t for ip in v.ips for t in ip.trusted)))

if __name__ == '__main__':
    m = 'pyvc.specs.' + sys.argv[1]
    mod = importlib.import_module(m)
    for i, (n, f) in enumerate(mod.UNITS):
        if len(sys.argv) > 2 and sys.argv[2] != '-v' and sys.argv[2] not in n: continue
        r = run_unit(m, i, time.time() + 600, __import__('os').environ.get('VROOT','/repo'))
        bad = [o for o in r['obs'] if o[2] != 'proved']
        print(n, 'obligations', len(r['obs']), 'not proved', len(bad), 'paths', r['paths'], 'wall %.1f solver %.1f' % (r['wall'], r['solver']), 'err', r['error'])
        for o in bad[:12]: print('   ', o[:3], o[5], (o[6] or '')[:300] if '-v' in sys.argv else '', '\n        '.join([''] + (o[7] or [])) if '-v' in sys.argv else '')

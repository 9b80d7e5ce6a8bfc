"""Terms, path exploration and obligations.

All Python values that the verifier does not know concretely live in one uninterpreted SMT sort V.
Dictionaries are V terms read by dhas/dget and updated functionally by dset/ddel; lists are V terms read
by llen/lnth; integers, reals and booleans have their own SMT sorts and injections into V.
"""
import time, subprocess, os, tempfile
import z3

V = z3.DeclareSort('V')
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()

def F(name, *sorts):
    return z3.Function(name, *sorts)

cid    = F('cid', V, I)           # identity number of constants (makes them distinct)
ty     = F('ty', V, I)            # type tag
mkint  = F('mkint', I, V)
intval = F('intval', V, I)
mkreal = F('mkreal', R, V)
realval= F('realval', V, R)
dget   = F('dget', V, V, V)
dhas   = F('dhas', V, V, B)
dset   = F('dset', V, V, V, V)
ddel   = F('ddel', V, V, V)
llen   = F('llen', V, I)
lnth   = F('lnth', V, I, V)
truthy = F('truthy', V, B)
cat    = F('cat', V, V, V)
slen   = F('slen', V, I)

T_NONE, T_BOOL, T_INT, T_REAL, T_STR, T_BYTES, T_DICT, T_LIST, T_OBJ, T_TUPLE = range(10)

class Unsupported(Exception):
    """The verifier cannot treat this construct: the obligation is undecided."""

class PathEnd(Exception):
    """The current path is infeasible / must not be continued."""

class Timeout(Unsupported):
    pass

_tagname = {T_NONE: 'NoneType', T_BOOL: 'bool', T_INT: 'int', T_REAL: 'float', T_STR: 'str', T_BYTES: 'bytes',
            T_DICT: 'dict', T_LIST: 'list', T_OBJ: 'object', T_TUPLE: 'tuple'}

def background():
    d, k, k2, v, x, y = z3.Consts('d k k2 v x y', V)
    i = z3.Int('i'); r = z3.Real('r')
    A = []
    def fa(vs, body, *pats):
        A.append(z3.ForAll(vs, body, patterns=list(pats)))
    fa([i], z3.And(intval(mkint(i)) == i, ty(mkint(i)) == T_INT), mkint(i))
    fa([r], z3.And(realval(mkreal(r)) == r, ty(mkreal(r)) == T_REAL), mkreal(r))
    fa([d, k, v, k2], dget(dset(d, k, v), k2) == z3.If(k == k2, v, dget(d, k2)), dget(dset(d, k, v), k2))
    fa([d, k, v, k2], dhas(dset(d, k, v), k2) == z3.Or(k == k2, dhas(d, k2)), dhas(dset(d, k, v), k2))
    fa([d, k, k2], dget(ddel(d, k), k2) == dget(d, k2), dget(ddel(d, k), k2))
    fa([d, k, k2], dhas(ddel(d, k), k2) == z3.And(k != k2, dhas(d, k2)), dhas(ddel(d, k), k2))
    fa([d, k, v], ty(dset(d, k, v)) == T_DICT, dset(d, k, v))
    fa([d], llen(d) >= 0, llen(d))
    fa([d], slen(d) >= 0, slen(d))
    return A

def is_app_of(t, f):
    return z3.is_app(t) and t.decl().eq(f)

class Ob:
    __slots__ = ('name', 'func', 'status', 'time', 'backend', 'model', 'where', 'pathinfo')
    def __init__(self, name, func, status, t, backend, model=None, where=None, pathinfo=None):
        self.name, self.func, self.status, self.time, self.backend, self.model = name, func, status, t, backend, model
        self.where = where; self.pathinfo = pathinfo

class Decisions:
    def __init__(self, prefix):
        self.prefix, self.pos, self.taken, self.alts = prefix, 0, [], []

class Ctx:
    """One verification run: solver state, path condition, undo trail, obligations."""
    def __init__(self, deadline=None):
        self.solver = z3.SolverFor('ALL') if False else z3.Solver()
        self.solver.set('timeout', 1500)
        self.solver.set('smt.mbqi', False)   # path feasibility only: e-matching is enough, unknown = feasible
        self.bg = []            # background facts (constants, axioms), asserted in every scope
        self.bg_upto = 0
        self.scopes = []        # (bg_upto, len(pc))
        self.pc = []            # (term, is_decision)
        self.trail = []         # (undo closure, location, info)
        self.dec = []           # stack of Decisions
        self.fresh_n = 0
        self.consts = {}
        self.obs = []
        self.loose = 0          # >0: only looking for what a loop changes (failures, which change less, are left out)
        self.suppress = 0       # >0: obligations are not checked (effect discovery)
        self.suppressed = 0
        self.func = '?'
        self.npaths = 0
        self.max_paths = 4000
        self.deadline = deadline
        self.solver_time = 0.0
        self.nqueries = 0
        self.axioms_used = []
        self.reads = None       # read log (boxes) during loop-effect discovery
        self.accesses = None    # read/write log (variables, attributes) during loop-effect discovery
        self.where = None
        self.inplace = {}       # id(root box) -> keys below which elements are changed in place
        for a in background():
            self.bg.append(a)
        self.c_empty = self._const('{}', T_DICT)
        k = z3.Const('k', V)
        self.bg.append(z3.ForAll([k], z3.Not(dhas(self.c_empty, k)), patterns=[dhas(self.c_empty, k)]))
        self.c_true = self.const(True); self.c_false = self.const(False); self.c_none = self.const(None)
        self.bg.append(truthy(self.c_true)); self.bg.append(z3.Not(truthy(self.c_false)))
        self.bg.append(z3.Not(truthy(self.c_none)))
        self.proof_timeout = 8000
        self.failures = 0

    # ---------------------------------------------------------------- constants
    def _const(self, key, tag):
        if key in self.consts: return self.consts[key]
        n = len(self.consts)
        c = z3.Const('c!%s' % (key,), V)
        self.consts[key] = c
        self.bg.append(cid(c) == n)
        self.bg.append(ty(c) == tag)
        return c

    def const(self, py):
        if py is None: return self._const('None', T_NONE)
        if py is True: return self._const('True', T_BOOL)
        if py is False: return self._const('False', T_BOOL)
        if isinstance(py, int): return mkint(z3.IntVal(py))
        if isinstance(py, float): return mkreal(z3.RealVal(repr(py)))
        if isinstance(py, str):
            new = ('s' + py) not in self.consts
            c = self._const('s' + py, T_STR)
            if new:
                self.bg.append(truthy(c) if py else z3.Not(truthy(c)))
                self.bg.append(slen(c) == len(py))
            return c
        if isinstance(py, bytes):
            new = ('b' + repr(py)) not in self.consts
            c = self._const('b' + repr(py), T_BYTES)
            if new:
                self.bg.append(truthy(c) if py else z3.Not(truthy(c)))
                self.bg.append(slen(c) == len(py))
            return c
        raise Unsupported('constant %r' % (py,))

    def fresh(self, name, sort=None):
        self.fresh_n += 1
        sort = V if sort is None else sort
        return z3.Const('%s!%d!%s' % (name, self.fresh_n, sort), sort)

    def tick(self):
        self.fresh_n += 1
        return self.fresh_n

    def fresh_fun(self, name, *sorts):
        self.fresh_n += 1
        return z3.Function('%s!f%d!%s' % (name, self.fresh_n, '_'.join(str(s) for s in sorts)), *sorts)

    # ---------------------------------------------------------------- solver plumbing
    def _sync(self):
        while self.bg_upto < len(self.bg):
            self.solver.add(self.bg[self.bg_upto]); self.bg_upto += 1

    def push(self):
        self._sync()
        self.scopes.append((self.bg_upto, len(self.pc)))
        self.solver.push()

    def pop(self):
        self.solver.pop()
        self.bg_upto, n = self.scopes.pop()
        del self.pc[n:]

    def add(self, t, decision=False):
        if isinstance(t, bool):
            if not t: raise PathEnd()
            return
        if z3.is_true(t): return
        self.pc.append((t, decision))
        self.solver.add(t)

    def assume(self, t):
        """A fact (not a branch)."""
        if isinstance(t, (list, tuple)):
            for x in t: self.assume(x)
            return
        self.add(t, False)

    # Paths are explored by running the same code again with other decisions.  What the solver answered before the decision
    # that differs is kept (the run up to there is the same), each answer under the hash of its question.
    olog = None; opos = 0
    def recall(self, kind, t):
        if self.olog is None: return None
        k = (kind, t.hash() if t is not None else 0)
        if self.opos < len(self.olog):
            e = self.olog[self.opos]
            if e[0] == k: self.opos += 1; self.recalled += 1; return e
            del self.olog[self.opos:]
        return None
    recalled = 0
    def keep(self, kind, t, ans):
        if self.olog is not None:
            self.olog.append(((kind, t.hash() if t is not None else 0), ans)); self.opos = len(self.olog)

    def feasible(self, t=None):
        self._sync()
        e = self.recall('f', t)
        if e is not None: return e[1]
        t0 = time.time()
        r = self.solver.check(t) if t is not None else self.solver.check()
        self.solver_time += time.time() - t0; self.nqueries += 1
        self.keep('f', t, r != z3.unsat)
        return r != z3.unsat

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Timeout('time budget of the check exhausted')

    # ---------------------------------------------------------------- branching
    def decide(self, cond, free=False):
        """Python-level truth of an SMT condition: forks the path when both values are possible."""
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        d = self.dec[-1]
        if d.pos < len(d.prefix):
            v = d.prefix[d.pos]; d.pos += 1
            d.taken.append(v)
            self.add(cond if v else z3.Not(cond), True)
            return v
        self.check_deadline()
        log = self.olog
        if len(self.dec) == 1: self.olog = None          # replayed by the prefix, not by the log
        try:
            can_t = free and self.suppress > 0 or self.feasible(cond)
            can_f = (free and can_t or self.feasible(z3.Not(cond))) if can_t else True
        finally: self.olog = log
        d.pos += 1
        if can_t and can_f:
            d.alts.append((d.taken + [False], list(log) if len(self.dec) == 1 and log is not None else None))
            d.taken.append(True)
            d.prefix = list(d.taken)
            self.add(cond, True)
            return True
        v = bool(can_t)
        d.taken.append(v); d.prefix = list(d.taken)
        # implied: record as a decision all the same, guards stay complete
        self.add(cond if v else z3.Not(cond), True)
        return v

    def exists(self, bvs, body, name='ex'):
        """a Boolean equivalent to (exists bvs. body)"""
        if z3.is_false(z3.simplify(body)): return z3.BoolVal(False)
        e = self.fresh(name, B)
        sk = [self.fresh('w', b.sort()) for b in bvs]
        self.assume(z3.Implies(e, z3.substitute(body, *list(zip(bvs, sk)))))
        q = [z3.Const('q%d!%s' % (j, b.sort()), b.sort()) for j, b in enumerate(bvs)]
        self.assume(z3.ForAll(q, z3.Implies(z3.substitute(body, *list(zip(bvs, q))), e)))
        return e

    def entails(self, f):
        self._sync()
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        e = self.recall('e', f)
        if e is not None: return e[1]
        t0 = time.time()
        r = self.solver.check(z3.Not(f))
        self.solver_time += time.time() - t0; self.nqueries += 1
        self.keep('e', f, r == z3.unsat)
        return r == z3.unsat

    def maybe_equal(self, a, b):
        if a.eq(b): return True
        return not self.entails(a != b)

    def choose(self, name='choice'):
        """Demonic choice."""
        return self.decide(self.fresh(name, B), free=True)

    def fails(self, name):
        return not self.loose and self.choose(name)

    def explore(self, thunk, visit):
        """Run thunk over every feasible path from the current state, calling visit(kind, value) at the end of
        each with the final state in place, then undo it."""
        work = [([], [])]
        base = self.fresh_n; mx = base
        n = 0
        while work:
            prefix, log = work.pop()
            if not self.dec: self.olog, self.opos = log, 0
            mark = len(self.trail)
            self.push()
            d = Decisions(prefix)
            self.dec.append(d)
            self.fresh_n = base
            try:
                try:
                    out = thunk()
                    ok = True
                except PathEnd:
                    ok = False
                if ok and len(self.dec) == 1 and not self.feasible(): ok = False     # contradictory path
                if ok:
                    self.npaths += 1; n += 1
                    if n > self.max_paths: raise Unsupported('too many paths')
                    visit(out)
            finally:
                self.dec.pop()
                if not self.dec: self.olog = None
                self.undo(mark)
                self.pop()
                mx = max(mx, self.fresh_n)
            work.extend(d.alts)
        self.fresh_n = mx
        return n

    def undo(self, mark):
        while len(self.trail) > mark:
            self.trail.pop()[0]()

    def log(self, undo, loc, info=None):
        self.trail.append((undo, loc, info))

    # ---------------------------------------------------------------- obligations
    def assertions(self):
        self._sync()
        return list(self.bg) + [t for t, _ in self.pc]

    def prove(self, name, goal, where=None):
        if self.suppress:
            self.suppressed += 1
            return None
        t0 = time.time()
        if isinstance(goal, (list, tuple)):
            r = True
            for j, g in enumerate(goal):
                r = self.prove(name if len(goal) == 1 else '%s.%d' % (name, j), g, where) and r
            return r
        gt = z3.BoolVal(goal) if isinstance(goal, bool) else goal
        e = self.recall('p' + name, gt)
        if e is not None: return e[1]                   # proved (or reported) before, in the same state
        if isinstance(goal, bool):
            st, be, m = ('proved', 'trivial', None) if goal else (None, None, None)
            if not goal:
                st, be, m = self._prove(z3.BoolVal(False))
        else:
            st, be, m = self._prove(goal)
        self.keep('p' + name, gt, st == 'proved')
        dt = time.time() - t0
        self.solver_time += dt
        dec = [str(t)[:300] for t, isd in self.pc if isd][-12:] if st != 'proved' else None
        self.obs.append(Ob(name, self.func, st, dt, be, m, where or self.where, dec))
        if st != 'proved':
            self.failures += 1
            if self.failures >= 2: self.proof_timeout = min(self.proof_timeout, 1500)
            if self.failures >= 8: raise Unsupported('%d obligations failed, the rest of this unit was not tried' % self.failures)
        return st == 'proved'

    def _prove(self, goal):
        self.check_deadline()
        self.nqueries += 1
        g = z3.simplify(goal)
        if z3.is_true(g): return 'proved', 'simplifier', None
        self._sync()
        # skolemise / split conjunctions cheaply
        if z3.is_and(g):
            be = None
            for c in g.children():
                st, be, m = self._prove(c)
                if st != 'proved': return st, be, m
            return 'proved', be, None
        r = self.solver.check(z3.Not(g))
        if r == z3.unsat: return 'proved', 'z3', None
        asserts = self.assertions() + [z3.Not(g)]
        s = z3.Solver(); s.set('timeout', self.proof_timeout)
        s.add(*asserts)
        r = s.check()
        if r == z3.unsat: return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', self._model(s)
        st = cvc5_check(asserts, self.proof_timeout)
        if st == 'unsat': return 'proved', 'cvc5', None
        s = z3.Solver(); s.set('timeout', self.proof_timeout); s.set('smt.random_seed', 7); s.set('smt.qi.eager_threshold', 100.0)
        s.add(*asserts)
        r = s.check()
        if r == z3.unsat: return 'proved', 'z3', None
        if os.environ.get('PYVC_DUMP'):
            open('%s_%d.smt2' % (os.environ['PYVC_DUMP'], len(self.obs)), 'w').write('(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n')
        return 'unknown', 'z3+cvc5', 'solver gave no answer (%s)' % s.reason_unknown()

    def _model(self, s):
        try:
            return str(s.model())[:4000]
        except Exception as e:   # pragma: no cover
            return 'model unavailable: %r' % (e,)


def cvc5_check(asserts, timeout_ms):
    s = z3.Solver(); s.add(*asserts)
    txt = s.sexpr()
    import re
    # z3 prints symbols such as c!s/x as |c!s/x|; that is legal SMT-LIB
    txt = '(set-logic ALL)\n' + txt + '\n(check-sat)\n'
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout_ms, '-q'], input=txt.encode('utf8'),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout_ms / 1000 + 5)
        out = p.stdout.decode().strip().split('\n')[-1]
        return out
    except Exception:
        return 'error'

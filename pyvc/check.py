"""One property's check:  python3-vt -m pyvc.check C15

1. every unit of pyvc/specs/<id>.py is verified against /repo's current source (one process per unit);
2. the contracts are run on concrete executions of a copy of /repo's code (concrete/), as an unprivileged user in a
   scratch directory: the replay of a failed proof, and the stated bounded stand-in for what is outside the verifier's reach.
Exit 0: nothing failed.  Exit 1: a VIOLATION line.
"""
import sys, os, json, time, subprocess, shutil, tempfile, importlib, importlib.util, concurrent.futures as cf, multiprocessing, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VROOT', '/repo')
PYREAL = '/opt/venv/bin/python'
TECH = 'contract-based deductive verification (symbolic execution to SMT obligations, z3/cvc5)'

def scratch_dir():
    for base in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(base)
            if base == '/dev/shm' and st.f_bavail * st.f_frsize < 300 << 20: continue
            d = tempfile.mkdtemp(prefix='bvn_', dir=base)
            os.chmod(d, 0o755); return d
        except OSError: continue
    raise SystemExit('no scratch space')

def start_harness(prop, seed, tier, limit, scratch, case=None):
    code = os.path.join(scratch, 'code'); work = os.path.join(scratch, 'work'); os.makedirs(code); os.makedirs(work)
    ign = shutil.ignore_patterns('__pycache__')
    shutil.copytree(os.path.join(REPO, 'bversion'), os.path.join(code, 'bversion'), ignore=ign)
    shutil.copytree(os.path.join(HERE, 'concrete'), os.path.join(code, 'concrete'), ignore=ign)
    env = {'PATH': '/usr/bin:/bin', 'PYTHONPATH': code, 'VSCRATCH': work, 'HOME': work, 'TMPDIR': work, 'PYTHONDONTWRITEBYTECODE': '1', 'LANG': 'C.UTF-8', 'PYTHONHASHSEED': '0'}
    out = os.path.join(work, 'result.json')
    cmd = [PYREAL if os.path.exists(PYREAL) else sys.executable, '-m', 'concrete.run', prop, '--seed', str(seed), '--tier', tier, '--out', out, '--limit', str(limit)]
    if case is not None: cmd += ['--case', str(case)]
    kw = dict(cwd=work, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(os.path.join(scratch, 'stderr'), 'wb'), start_new_session=True)
    if os.getuid() == 0:
        try:
            for r, ds, fs in os.walk(scratch):
                os.chown(r, 65534, 65534)
                for f in fs: os.chown(os.path.join(r, f), 65534, 65534)
            return subprocess.Popen(cmd, user=65534, group=65534, extra_groups=[], **kw), out, True
        except (OSError, subprocess.SubprocessError): pass
    return subprocess.Popen(cmd, **kw), out, False

def finish_harness(p, out, scratch, budget):
    t0 = time.monotonic()
    try: p.wait(timeout=budget)
    except subprocess.TimeoutExpired: pass
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait()
    try: return json.load(open(out))
    except (OSError, ValueError):
        try: err = open(os.path.join(scratch, 'stderr'), 'rb').read()[-1500:].decode('utf8', 'replace')
        except OSError: err = ''
        return dict(violation=None, error=dict(case=None, what='the concrete checks ended without a result (exit %s)' % p.returncode, detail={'stderr': err}), cases=0, evaluations=0, distinct=0, samples=[], wall=time.monotonic() - t0)

def run_unit(a):
    modname, idx, deadline = a
    sys.setrecursionlimit(6000)
    from pyvc import verify
    return verify.run_unit(modname, idx, deadline, REPO)

def units_of(prop):
    name = 'pyvc.specs.' + prop.lower()
    if importlib.util.find_spec(name) is None: return []
    m = importlib.import_module(name)
    return [(name, i) for i in range(len(m.UNITS))]

def main():
    prop = sys.argv[1]; seed = int(os.environ.get('VERIF_SEED', '1') or 1); tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.monotonic()
    hlimit, hkill, plimit = (240, 420, 420) if tier == 'quick' else (3000, 3600, 3000)
    scratch = scratch_dir()
    evd = os.path.join(HERE, 'evidence'); os.makedirs(evd, exist_ok=True)
    try:
        hp, hout, unpriv = start_harness(prop, seed, tier, hlimit, scratch)
        us = units_of(prop); res = []
        if us:
            ex = cf.ProcessPoolExecutor(max_workers=min(len(us), max(1, (os.cpu_count() or 4) - 1)), mp_context=multiprocessing.get_context('fork'))
            futs = [(u, ex.submit(run_unit, (u[0], u[1], time.time() + plimit))) for u in us]
            found = None      # when the concrete checks ended with a failing input: what the verifier says is extra, and gets a minute more
            while not all(f.done() for u, f in futs) and time.monotonic() - t0 < plimit + 60:
                cf.wait([f for u, f in futs if not f.done()], timeout=2)
                if found is None and hp.poll() is not None:
                    try: found = time.monotonic() if json.load(open(hout)).get('violation') else False
                    except (OSError, ValueError, AttributeError): found = False
                if found and time.monotonic() - found > 60: break
            for u, f in futs:
                try:
                    if not f.done(): raise TimeoutError('stopped')
                    res.append(f.result())
                except Exception as e:
                    res.append(dict(unit='%s[%d]' % u, error='undecided: worker failed or stopped: %r' % e, wall=0, obs=[], funcs=[], contracts=[], solver=0, queries=0, paths=0, trusted=[]))
            procs = list((getattr(ex, '_processes', None) or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for pr in procs:
                try: pr.kill()
                except Exception: pass
        h = finish_harness(hp, hout, scratch, max(5, hkill - (time.monotonic() - t0)))
        stderr = ''
        try: stderr = open(os.path.join(scratch, 'stderr'), 'rb').read()[-1500:].decode('utf8', 'replace')
        except OSError: pass
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    obs = [dict(unit=r['unit'], func=o[0], name=o[1], status=o[2], time=round(o[3], 3), backend=o[4], line=o[5], model=o[6], path=o[7]) for r in res for o in r['obs']]
    bad = [o for o in obs if o['status'] != 'proved']
    undecided = [dict(unit=r['unit'], error=r['error']) for r in res if r['error']]
    for r in res:
        if not r['error'] and not r['obs']: undecided.append(dict(unit=r['unit'], error='no obligation was generated'))
    viol, nofail = None, False
    rp = os.path.join(evd, 'replay_%s.json' % prop)
    if h['violation']:
        v = h['violation']
        viol = dict(kind='failing input', property=prop, seed=seed, tier=tier, case=v['case'], what=v['what'], detail=v['detail'],
                    rerun='cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3-vt -m pyvc.replay %s %s' % (seed, tier, prop, v['case']), failed_obligations=bad[:20], undecided=undecided)
    elif bad or undecided:
        nofail = True
        viol = dict(kind='proof obligation not discharged', property=prop, failed_obligations=bad[:40], undecided=undecided, note='the verifier does not accept the current source; no failing input was found by the concrete checks (%d executions)' % h['evaluations'])
    elif h['error']:
        nofail = True
        viol = dict(kind='the contracts could not be run on the code', property=prop, error=h['error'], stderr=stderr)
    funcs = sorted({f for r in res for f in r['funcs']}); contracts = sorted({f for r in res for f in r['contracts']}); trusted = sorted({t for r in res for t in r['trusted']})
    from pyvc import levels
    L = levels.LEVELS[prop]
    be = {}
    for o in obs:
        if o['status'] == 'proved': be[o['backend']] = be.get(o['backend'], 0) + 1
    cov = {}
    if us:
        from pyvc import env_base
        cov.update(obligations=len(obs), discharged=len(obs) - len(bad), checker_cmd='python3-vt -m pyvc.check %s' % prop,
                   trusted_base=list(levels.TRUST_BASE) + ['%s: %s' % (t, env_base.TRUST.get(t, '')) for t in trusted] + list(L.get('trusted', [])),
                   functions_verified=funcs, contracts_assumed_at_calls=contracts, discharged_by=be, solver_s=round(sum(r['solver'] for r in res), 2),
                   solver_queries=sum(r['queries'] for r in res), paths=sum(r['paths'] for r in res),
                   units=[dict(unit=r['unit'], obligations=len(r['obs']), wall=round(r['wall'], 2), paths=r['paths'], error=r['error']) for r in res],
                   obligation_list=[dict(unit=o['unit'], func=o['func'], name=o['name'], status=o['status'], backend=o['backend'], time=o['time']) for o in obs][:1500])
    cov.update(evaluations=h['evaluations'], distinct_nontrivial=h['distinct'], samples=h['samples'] or ['none'],
               rule='BOUNDED, never counted as proved: %s  A case is one seeded scenario on the real code; distinct = different signature recorded by the scenario (operation sequence / input shape).' % L['bounded'],
               concrete_cases=h['cases'], concrete_wall_s=round(h.get('wall', 0), 2), concrete_unprivileged=unpriv, concrete_truncated=h.get('truncated'))
    ev = dict(property=prop, tier=tier, seed=seed, level=L['level'], coverage=cov, assumptions=list(L.get('assumptions', [])), wall_s=round(time.monotonic() - t0, 2), violations=1 if viol else 0)
    tmp = os.path.join(evd, '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evd, prop + '.json'))
    print('%s: %d obligations, %d discharged, %d undecided units; %d concrete cases, %d executions; %.1f s' % (prop, len(obs), len(obs) - len(bad), len(undecided), h['cases'], h['evaluations'], time.monotonic() - t0))
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        if l.startswith('known: property=%s ' % prop): print('KNOWN-FINDING: ' + l[len('known: '):].strip())
    if viol:
        with open(rp, 'w') as f: json.dump(viol, f, indent=1)
        for o in bad[:6]: print('  obligation %s / %s: %s (%s)' % (o['unit'], o['name'], o['status'], o['backend']))
        for u in undecided[:4]: print('  %s: %s' % (u['unit'], u['error'][:400]))
        if h['violation']: print('  failing input: case %s: %s' % (h['violation']['case'], h['violation']['what']))
        if h['error']: print('  harness: %s' % json.dumps(h['error'])[:1500])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, ' no-failing-input-found' if nofail else ''))
        sys.exit(1)
    if os.path.exists(rp): os.remove(rp)
    sys.exit(0)

if __name__ == '__main__': main()

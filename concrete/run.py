"""Runs the concrete contract checks of one property: python -m concrete.run C04 --seed 1 --tier quick --out result.json [--case N]"""
import sys, os, signal, json, time, argparse, traceback, random, hashlib
from concrete import lib
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--tier', default='quick')
    ap.add_argument('--out'); ap.add_argument('--case', type=int); ap.add_argument('--limit', type=float, default=300); a = ap.parse_args()
    import importlib
    fn = None; err = None
    for m in ('h_server', 'h_client', 'h_http', 'h_crypto', 'h_maint'):
        try: mod = importlib.import_module('concrete.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'concrete.' + m: raise
            continue
        if a.prop in mod.CASES: fn, nq, nt = mod.CASES[a.prop]; break
    class Rep:
        tier = a.tier; evaluations = 0; seen = set(); samples = []
        def count(self, sig):
            self.evaluations += 1
            if sig not in self.seen:
                self.seen.add(sig)
                if len(self.samples) < 5: self.samples.append(repr(sig)[:300])
    rep = Rep(); t0 = time.monotonic(); out = dict(prop=a.prop, seed=a.seed, tier=a.tier, violation=None, error=None, cases=0)
    def late(*x): raise lib.Violation('the case did not finish within 150 s')
    signal.signal(signal.SIGALRM, late)
    cases = [a.case] if a.case is not None else range(nq if a.tier == 'quick' else nt)
    for i in cases:
        if time.monotonic() - t0 > a.limit: out['truncated'] = i; break
        rng = random.Random(int.from_bytes(hashlib.sha256(('%s %s %d' % (a.seed, a.prop, i)).encode()).digest()[:8], 'big'))
        try:
            signal.alarm(150)
            with lib.quiet(): fn(rng, rep)
        except lib.Violation as e:
            out['violation'] = dict(case=i, what=e.what, detail=json.loads(json.dumps(e.detail, default=repr))); break
        except lib.Refused as e:
            out['violation'] = dict(case=i, what='a request the contract requires to succeed was refused: %s' % e, detail={'trace': traceback.format_exc()[-2500:]}); break
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__); real = any('/bversion/' in f.filename for f in tb)
            out['violation' if real else 'error'] = dict(case=i, what='%s: %s' % (type(e).__name__, e), detail={'trace': traceback.format_exc()[-2500:]}); break
        out['cases'] += 1
    signal.alarm(0)
    out.update(evaluations=rep.evaluations, distinct=len(rep.seen), samples=rep.samples, wall=time.monotonic() - t0)
    s = json.dumps(out, indent=1)
    if a.out: open(a.out, 'w').write(s)
    else: print(s)
    sys.stdout.flush(); os._exit(0)
if __name__ == '__main__': main()

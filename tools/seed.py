"""Authoring helper for /verif/seeded (no check uses it): each file of tools/seed_defs/ defines one planted bug;
this writes patch.diff, demo.sh and meta.json for it and confirms build, tests and demonstration in a scratch copy."""
import sys, os, subprocess, json, shutil, tempfile, re, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 when the property held in this demonstration, 1 when it was broken; everything happens in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''
HEAD = '''import os, sys, tempfile, shutil, threading
S = tempfile.mkdtemp(prefix='bvdemo_'); os.environ['VSCRATCH'] = S; os.chdir(S)
%s
def main():
%s
rc = 1; t = threading.Timer(200, lambda: os._exit(3)); t.daemon = True; t.start()
try: main(); rc = 0; print('held')
except BaseException as e:
    import traceback; traceback.print_exc(); print('BROKEN:', e, getattr(e, 'detail', ''))
finally:
    sys.stdout.flush(); os.chdir('/'); shutil.rmtree(S, ignore_errors=True)
os._exit(rc)
'''
def client_part():
    s = open(V + '/concrete/h_client.py').read()
    a = s.index('# ----------------------------------------------------------------- a working copy'); b = s.index('# ----------------------------------------------------------------- C17')
    e = s.index('def expected_changes'); e2 = s.index('def statuses')
    return ('from bvh import *\nimport fnmatch\nfrom bversion import client, crypto, common\nfrom bversion.storage.client_db import client_db\n'
            'from bversion.storage.journaling_filesystem import journaling_filesystem\nfrom bversion.storage.client_filesystem_interface import client_filesystem_interface\n'
            'def snapshot(d):\n    out = {}\n    for b, ds, fs in os.walk(d):\n        if b == d and ".bvn" in ds: ds.remove(".bvn")\n        for f in fs:\n'
            '            with open(os.path.join(b, f), "rb") as fh: out["/" + os.path.relpath(os.path.join(b, f), d)] = fh.read()\n    return out\n\n' + s[e:e2] + s[a:b])
def remote_part():
    s = open(V + '/concrete/h_crypto.py').read()
    a = s.index('# ----------------------------------------------------------------- an object store'); b = s.index('def c24')
    return ('from bvh import *\nimport struct, binascii\nfrom bversion import crypto, repo_manager\nfrom bversion.backup import s3_interface, pipeline, pipeline_common\n'
            'from bversion.storage.versioned_storage import versioned_storage\nEMPTY = hashlib.sha256(b"").hexdigest()\n' + s[a:b])
def main():
    ids = sys.argv[1:] or [os.path.basename(f)[:-3] for f in sorted(glob.glob(V + '/tools/seed_defs/*.py'))]
    if len(ids) > 1:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex: rs = list(ex.map(lambda i: subprocess.run([sys.executable, __file__, i], capture_output=True, text=True), ids))
        for r in rs: print(r.stdout + r.stderr, end='')
        sys.exit(any(r.returncode for r in rs))
    bad = 0
    for i in ids:
        d = runpy.run_path(V + '/tools/seed_defs/%s.py' % i)
        out = V + '/seeded/' + i; os.makedirs(out, exist_ok=True)
        T = tempfile.mkdtemp(prefix='seed_'); r = T + '/repo'
        shutil.copytree('/repo', r, symlinks=True)
        try:
            run = lambda *c, **k: subprocess.run(c, cwd=r, capture_output=True, text=True, **k)
            for f, old, new in d['EDITS']:
                s = open(r + '/' + f).read()
                assert s.count(old) == 1, (i, f, s.count(old), old)
                open(r + '/' + f, 'w').write(s.replace(old, new))
            patch = run('git', 'diff').stdout
            open(out + '/patch.diff', 'w').write(patch)
            open(out + '/demo.sh', 'w').write(DEMO_SH); os.chmod(out + '/demo.sh', 0o755)
            body = d['DEMO'].strip('\n')
            open(out + '/demo.py', 'w').write(HEAD % (body.split('\n')[0], '\n'.join('    ' + l if l else '' for l in body.split('\n')[1:])))
            shutil.copy(V + '/concrete/lib.py', out + '/bvh.py')
            if 'bvc' in body: open(out + '/bvc.py', 'w').write(client_part())
            if 'bvr' in body: open(out + '/bvr.py', 'w').write(remote_part())
            json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
            # blame: a removed line which is original
            blame = 0
            for f in {e[0] for e in d['EDITS']}:
                b = subprocess.run(['git', 'blame', '-s', f], cwd='/repo', capture_output=True, text=True).stdout.split('\n')
                df = run('git', 'diff', '-U0', f).stdout
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', df, re.M):
                    st, n = int(m.group(1)), int(m.group(2) or 1)
                    for k in range(st, st + n): blame += b[k - 1].startswith('^')
            base = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
            mut = subprocess.run(['bash', out + '/demo.sh'], cwd=r, capture_output=True, text=True)
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'sorted_listdir', 'tests'], cwd=r, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=r + ':/opt/vp/plugins', PYTHONDONTWRITEBYTECODE='1'))
            okt = t.returncode == 0 or re.search(r'13 passed', t.stdout)
            ok = base.returncode == 0 and mut.returncode != 0 and okt and blame > 0 and 'BROKEN' in mut.stdout
            bad += not ok
            print('%s %s base=%d mutant=%d tests=%s original lines=%d | %s' % ('ok ' if ok else 'BAD', i, base.returncode, mut.returncode, t.stdout.strip().split('\n')[-1], blame, [l for l in mut.stdout.split('\n') if 'BROKEN' in l][-1:]), flush=True)
            if base.returncode: print(base.stdout[-1500:], base.stderr[-1500:])
            if not ok and mut.returncode != base.returncode and 'BROKEN' not in mut.stdout: print(mut.stdout[-1500:], mut.stderr[-1500:])
        finally: shutil.rmtree(T, ignore_errors=True)
    sys.exit(bool(bad))
main()

"""Development aid: build /verif/seeded/<id> from a definition file and confirm it in a scratch copy.
usage: plant.py DEF.py [id ...] [--notests]
DEF.py: SEEDS = {id: dict(property=, needs=, breaks=, edits=[(file, old, new)], demo=source of demo.py)}
Confirms: demo passes on /repo, fails with the change, stable tests pass with the change; then runs the property's check."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import threading
LOCK = threading.Lock()      # (the tests take up to 16 GB)
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')

def demo(dst, cwd):
    try: r = subprocess.run(['bash', dst + '/demo.sh'], cwd=cwd, capture_output=True, text=True, timeout=300, env=ENV)
    except subprocess.TimeoutExpired: return 99, 'timeout'
    return r.returncode, (r.stdout + r.stderr)[-400:]

def one(sid, s, notests):
    d = tempfile.mkdtemp(prefix='plant')
    try:
        wt = d + '/repo'
        shutil.copytree('/repo', wt, symlinks=True)
        for f, old, new in s['edits']:
            p = os.path.join(wt, 'xrd_simulator', f); t = open(p).read()
            if t.count(old) != 1: return sid, 'pattern found %d times in %s: %s' % (t.count(old), f, old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
        dst = '/verif/seeded/' + sid; os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(diff)
        open(dst + '/demo.py', 'w').write(s['demo'])
        open(dst + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(dst + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        a = demo(dst, '/repo'); b = demo(dst, wt)
        msg = []
        if a[0] != 0: msg.append('demo FAILS on unchanged: ' + a[1])
        if b[0] == 0: msg.append('demo PASSES with the change')
        if notests: tests = 'not run'
        else:
            with LOCK: r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=600', 'tests'], cwd=wt, env=dict(ENV, PYTHONPATH=wt), capture_output=True, text=True)
            tests = 'tests pass' if r.returncode == 0 else 'TESTS FAIL: ' + r.stdout[-300:]
        r = subprocess.run(['python3-vt', '/verif/checks/run.py', s['property']], capture_output=True, text=True, env=dict(ENV, VERIF_REPO=wt, VERIF_NOEVIDENCE='1', VERIF_DEBUG='1'))
        hit = 'caught' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode
        info = [l[:200] for l in r.stdout.splitlines() if 'broken' in l][:1] or [l[:200] for l in r.stdout.splitlines() if 'UNDEC' in l][:2]
        return sid, '%s; %s; %s; %s\n       demo: %s\n       %s' % (s['property'], '; '.join(msg) or 'demo ok', tests, hit, b[1].strip().splitlines()[-1][:150] if b[1].strip() else '', ' | '.join(info))
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    seeds = runpy.run_path(sys.argv[1])['SEEDS']; ids = [a for a in sys.argv[2:] if not a.startswith('-')] or list(seeds)
    with ThreadPoolExecutor(4) as ex:
        for sid, m in ex.map(lambda i: one(i, seeds[i], '--notests' in sys.argv), ids): print(sid, '::', m, flush=True)

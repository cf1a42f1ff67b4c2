"""Development aid: behaviour-preserving edits, applied one by one to a scratch copy; every check must stay quiet.
usage: refac.py FILE.py [names] [--checks C01,C02] [--workers N]; FILE.py defines R = {name: (file, [(old, new), ...])}"""
import os, shutil, subprocess, sys, tempfile, runpy, re
from concurrent.futures import ThreadPoolExecutor

def one(name, f, edits, ids):
    d = tempfile.mkdtemp(prefix='ref')
    try:
        shutil.copytree('/repo/xrd_simulator', d + '/xrd_simulator')
        todo = edits if f is None else [(f,) + e for e in edits]
        for f, old, new in todo:
            p = os.path.join(d, 'xrd_simulator', f); s = open(p).read()
            if s.count(old) != 1: return name, 'PATTERN x%d: %r' % (s.count(old), old[:60]), ''
            open(p, 'w').write(s.replace(old, new))
            try: compile(open(p).read(), p, 'exec')
            except SyntaxError as e: return name, 'SYNTAX %s' % e, ''
        env = dict(os.environ, OMP_NUM_THREADS='1', VERIF_REPO=d, VERIF_NOEVIDENCE='1', VERIF_DEBUG='1')
        r = subprocess.run(['python3-vt', os.environ.get('RUN', '/verif/checks/run.py')] + ids, capture_output=True, text=True, env=env, timeout=3000)
        hit = [l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        und = ['%s:%s' % m for m in re.findall(r'^(C\d+): .* (\d+) undecided', r.stdout, re.M) if m[1] != '0']
        info = [l[:260] for l in r.stdout.splitlines() if 'broken' in l][:4] or [l[:260] for l in r.stdout.splitlines() if 'UNDECIDED' in l][:3]
        return name, ('ALARM ' + ' '.join(hit) if hit else 'quiet') + ('  undecided ' + ' '.join(und) if und else ''), '\n      '.join(info)
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    a = sys.argv[1:]; opt = {}
    for k in ('--checks', '--workers'):
        if k in a: i = a.index(k); opt[k] = a[i + 1]; del a[i:i + 2]
    R = runpy.run_path(a[0])['R']; names = a[1:] or list(R)
    ids = opt.get('--checks', 'all').split(',')
    with ThreadPoolExecutor(int(opt.get('--workers', 6))) as ex:
        for n, h, info in ex.map(lambda n: one(n, *R[n], ids), names):
            print('%-46s %s' % (n, h), flush=True)
            if info: print('      ' + info, flush=True)

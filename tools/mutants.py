"""Development aid: apply textual mutants to a scratch copy and list which checks report them.
usage: mutants.py FILE(json list of [name, file, old, new]) [check ids]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

def one(m, ids):
    name, f, old, new = m
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/xrd_simulator', d + '/xrd_simulator')
        p = os.path.join(d, 'xrd_simulator', f); s = open(p).read()
        if old not in s: return name, 'PATTERN NOT FOUND', ''
        open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=d, VERIF_NOEVIDENCE='1', VERIF_DEBUG='1')
        r = subprocess.run(['python3-vt', os.environ.get('RUN', '/verif/checks/run.py')] + ids, capture_output=True, text=True, env=env, timeout=1800)
        hit = [l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        info = [l[:170] for l in r.stdout.splitlines() if 'broken' in l][:2] or [l[:170] for l in r.stdout.splitlines() if 'UNDECIDED' in l][:3]
        return name, ' '.join(hit) or '---- missed', '\n      '.join(info) if '-v' in sys.argv else ''
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    ms = json.load(open(sys.argv[1])); ids = [a for a in sys.argv[2:] if not a.startswith('-')] or ['all']
    with ThreadPoolExecutor(int(os.environ.get("W", 7))) as ex:
        for n, h, info in ex.map(lambda m: one(m, ids), ms):
            print('%-50s %s' % (n, h)); 
            if info: print('      ' + info)

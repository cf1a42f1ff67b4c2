"""each repaired defect, brought back in a scratch copy, is reported by its check: reverts.py [ids...]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/s/rev'
def main():
    for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']:
        if k['status'] != 'fixed' or (sys.argv[1:] and k['commit'] not in sys.argv[1:]): continue
        subprocess.run(['rm', '-rf', S]); os.makedirs(S)
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % S, shell=True, check=True)
        d = subprocess.run(['git', '-C', '/repo', 'diff', k['commit'], k['commit'] + '^'], stdout=subprocess.PIPE).stdout
        r = subprocess.run(['git', 'apply', '--3way', '-'] if 0 else ['patch', '-p1', '-s', '-F3'], input=d, cwd=S, stdout=subprocess.PIPE)
        if r.returncode: print(k['commit'], k['property'], 'DOES NOT REVERT', r.stdout.decode()[:200]); continue
        o = subprocess.run(['python3-vt', os.path.join(HERE, 'checks/run.py'), k['property']], env={**os.environ, 'VERIF_REPO': S, 'VERIF_NOEVIDENCE': '1'}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
        hit = 'VIOLATION property=%s' % k['property'] in o
        print(k['commit'], k['property'], 'reported' if hit else 'MISSED', k['what'][:80], '' if not hit else '\n     ' + next((l for l in o.splitlines() if 'broken:' in l), '')[:200], flush=True)
    subprocess.run(['rm', '-rf', S])
main()

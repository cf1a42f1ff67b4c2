"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import lib, specs
HERE = lib.HERE
VG = 'value-graph dataflow analysis (abstract interpretation of the source with global value numbering)'
NOTE = {}
NA = {
 'C30': 'Containment and minimality of bounding spheres are inequalities between floating point quantities chosen at run time (longest side, obtuse or acute faces); no static argument in reach bounds them, and the geometric centring rule that is visible in the code is part of C27.',
 'C32': 'Agreement of two devices is a numerical comparison of two runs of external kernels (and no cuda device exists here); the structural part, that the selected and the default device agree, is C26.',
 'C33': 'The distribution of random draws is a statistical property of run-time values; only the assembly of the sample (C29) is visible in the code.',
 'C34': 'Convergence of three renderers is a quantitative limit of run-time intensities; the structural parts (normalisation, selection, frame, factors) are C10, C11, C12, C15 and C28.',
}

def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if pid in lib.REGISTRY:
            checks.append({'property': pid, 'quick_cmd': 'python3-vt checks/run.py %s' % pid,
                           'thorough_cmd': 'python3-vt checks/run.py %s --thorough' % pid,
                           'technique': lib.TECHNIQUE.get(pid, VG), 'level': 'other', 'level_note': lib.NOTE.get(pid, lib.DEFAULT_NOTE)})
        else: na.append({'property': pid, 'reason': NA.get(pid, 'No check built yet.')})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks;', len(na), 'not applicable')
main()

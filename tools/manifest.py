#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py, notes below and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS
NA = {
 'C18': 'pure sequential functions of the input graph: no schedule, clock, fault, I/O or second party for a simulator to vary',
 'C19': 'pure sequential data structures: no schedule, clock, fault, I/O or second party for a simulator to vary',
}
TODO = 'planned, no check registered yet'
NOTE = {
 'default': 'Sampled, not exhaustive: seeded search over schedules, team sizes, faults and workloads running the real code under a simulated thread runtime; every violation is replayed exactly in a fresh process before it is reported. Assumes sequentially consistent interleavings and the reference models in sim/oracle.cpp.',
}
import subprocess
HOOKS = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'], stdout=subprocess.PIPE).stdout.decode().split()
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='mkdir -p build evidence', hooks=dict(guard='VIECUT_COARSE_LIMIT', enable='harness/gmc.cpp defines VIECUT_COARSE_LIMIT as a variable drawn per run; unset it is 10000 as shipped', source_commits=HOOKS), checks=[], not_applicable=[],
         notes='Checks compile the simulator and /repo sources themselves (build.sh); the only hook in /repo is a size threshold (VIECUT_COARSE_LIMIT): all other seams are at the compiler instrumentation, the thread runtime, libc and the absent submodules. See DESIGN.md.')
for i in ids:
    if i in CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 tools/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + i,
                                technique=CHECKS[i].get('technique', 'deterministic simulation: seeded schedule and fault search'), level='exploration', level_note=NOTE.get(i, NOTE['default'])))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, TODO)))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))

"""Write MANIFEST.json from the properties and the simulations that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'P01': 'deterministic simulation: seeded scheduler over simulated worker processes and pipes, with crash and send faults, against sequential map',
 'P02': 'deterministic simulation: ensemble operations under simulated workers and faults, refinement against per-state execution',
 'P03': 'deterministic simulation: differential re-execution of one history under hostile clocks, global generators and hash seeds',
 'P04': 'deterministic simulation: random operation histories, structural invariants after every step',
 'P05': 'deterministic simulation: random operation histories, refinement against a from-scratch reference model after every step',
 'P06': 'deterministic simulation: random client histories with hostile aliasing and rejected operations, against a model table',
 'P07': 'deterministic simulation with fault injection: invalid operations injected into random histories, before/after comparison',
 'P08': 'deterministic simulation: random histories under constraints, with a simulated external engine that may violate them',
 'P09': 'deterministic simulation: random histories with a recording random generator, proposal vectors against the reference model',
 'P10': 'deterministic simulation with fault injection: save and restore at random points over a simulated disk with torn and failing writes',
 'P11': 'deterministic simulation: simulated clock with stalls and jumps, recorded kernel schedule against a budget model',
 'P12': 'deterministic simulation with fault injection: queries with failing draws inside random histories, before/after comparison',
 'P13': 'deterministic simulation: densities and seeded samples at states reached by random histories, against enumeration and a reference model',
 'P14': 'deterministic simulation: random component networks composed in random order, against the product formula and a recorded call history',
 'P15': 'deterministic simulation with fault injection: random observe/forget histories of every component against a fresh model',
 'P16': 'deterministic simulation with fault injection: simulated external engines returning scripted or invalid structures',
 'P17': 'deterministic simulation: random histories, summaries against the partitions and an enumeration of cluster assignments',
 'P19': 'deterministic simulation with fault injection: random histories, estimates against enumeration or independent sampling of the reference model',
 'P20': 'deterministic simulation with fault injection: random component histories and failing draws, densities and seeded samples against closed forms',
 'P21': 'deterministic simulation with fault injection: random operation histories with figures drawn in between on an in-memory canvas whose calls can fail, read back against the client\'s table and the partitions',
 'P22': 'deterministic simulation: seeded kernel schedules from exact posterior draws of enumerable models, exact-law test of the states they leave',
 'P23': 'deterministic simulation: random client histories against a simulated interpreter with injected call failures, stalled and backward clocks and restarts, checked against the client\'s own record and the enumerated law',
 'P18': 'deterministic simulation: ensembles reached by random histories, weights and resampling against per-state densities',
}
NA = {
}
checks = []
for p in sorted(TECH):
    if not os.path.exists(os.path.join(HERE, 'dst/props/%s.py' % p.lower())):
        NA[p] = 'no simulation has been built for it yet'
        continue
    checks.append(dict(property=p,
        quick_cmd='./check.py %s --tier quick' % p,
        thorough_cmd='./check.py %s --tier thorough' % p,
        technique=TECH[p], level='exploration',
        level_note='seeded search over simulated histories, schedules and '
        'faults of the real code; coverage is reported in the evidence file'))
m = dict(version=1,
    setup_cmd='./setup.sh',
    checks=checks,
    not_applicable=[dict(property=p, reason=NA[p]) for p in sorted(NA)],
    notes='The checks translate /repo/src from Python 2 at import time in '
    'memory; no hooks were added to /repo, every seam is an existing '
    'argument, an import or a module attribute replaced in the simulator.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')

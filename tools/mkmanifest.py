"""Regenerates /verif/MANIFEST.json from the checks present in checks/."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'runtime monitoring: every forward-task result compared with an independent per-station joint-likelihood oracle, metamorphic monitors',
 'C02': 'runtime monitoring: formula oracle on every returned likelihood, sum-to-one / monotonicity / hard-limit monitors, compiled and Python builds',
 'C03': 'runtime monitoring: density oracle and numerical-mass monitors on returned likelihoods, compiled and Python builds',
 'C04': 'runtime monitoring: extended-precision log-sum-exp oracle on returned arrays, ASan/UBSan build of the native code',
 'C05': 'runtime monitoring: detailed-balance residual of observed acceptance probabilities, proposal density measured independently',
 'C06': 'runtime monitoring: domain/norm/model monitors on every proposal, two-stage distribution tests, width-adaptation history monitor',
 'C07': 'runtime monitoring: online trace checker of the chain protocol over recorded iterate/sample histories',
 'C08': 'runtime monitoring: pattern monitors on every draw and two-stage uniformity tests',
 'C09': 'runtime monitoring: shadow-store model checked against the sample store over random batch histories',
 'C10': 'runtime monitoring: extended-precision identity oracles on returned numbers',
 'C11': 'runtime monitoring: tensor-contraction oracle and station-by-station pairing monitor',
 'C12': 'runtime monitoring: round-trip and range monitors with an independent tensor oracle, ASan/UBSan build',
 'C13': 'runtime monitoring: round-trip, orthonormality and same-tensor monitors with an independent oracle',
 'C14': 'runtime monitoring: eigen / source-type / stiffness oracles and invariance monitors, ASan/UBSan build',
 'C15': 'runtime monitoring: independent joint-posterior oracle per tuple of sources, scale-factor monitors',
 'C16': 'runtime monitoring: exactly-once / liveness checker over recorded task-pool histories under injected delays, faults and worker kills',
 'C17': 'runtime monitoring: write/read and generate/parse round-trip monitors against an independent reader',
 'C18': 'runtime monitoring: mass-conservation and record monitors over parsed and binned files, ASan/UBSan build',
 'C19': 'runtime monitoring: alignment / statistics / projection oracles on the result container',
 'C20': 'runtime monitoring: differential monitor of compiled against pure-Python results on the same inputs, ASan/UBSan build, two-stage distribution tests',
}
NOTE = {}
p = os.path.join(V, 'tools', 'notes.json')
if os.path.exists(p):
    NOTE = json.load(open(p))
checks = []
for i in range(1, 21):
    k = 'C%02d' % i
    if not os.path.exists(os.path.join(V, 'checks', k.lower()+'.py')):
        continue
    checks.append(dict(property=k, quick_cmd='./run.sh %s quick' % k.lower(), thorough_cmd='./run.sh %s thorough' % k.lower(),
                       technique=T[k], level='exploration',
                       level_note=NOTE.get(k, 'Decided on the executions observed: seeded generated inputs and histories plus hostile corners; see DESIGN.md section %s for what is generated, the oracle and its tolerance.' % k)))
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable':
           [dict(property='C%02d' % i, reason='check not built yet') for i in range(1, 21) if 'C%02d' % i not in [c['property'] for c in checks]]},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')

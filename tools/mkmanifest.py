"""Writes MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = 'trace validation against an executable Quint specification (quint run), '
TECH = {
    'P24': 'Quint cache state machine: model behaviours (quint run, ITF) replayed on the real caches, recorded sessions judged by the specification; thorough: model proved by quint verify (Apalache, one-step induction)',
    'P27': TR + 'purity machine over recorded histories, orders and threads',
}
TECH['P25'] = TECH['P24']
NOTE = {
    'P24': 'Within the model universe histories of any length are covered by the one-step induction (thorough); the binding to the code is by replayed model behaviours and judged recordings, which are sampled. Trusts Quint, the driver, and that equal bits mean equal values.',
    'P27': 'Every repetition of a call must give the same outcome in every recorded history (orders, neighbours, fresh processes, eight threads). Histories and schedules are sampled.',
}
NOTE['P25'] = NOTE['P24']
KIND = {'P05': 'laws between calls', 'P09': 'laws between calls', 'P16': 'laws between calls', 'P21': 'laws between calls',
        'P28': 'laws between calls across modules', 'P26': 'panic and NaN contract'}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks = []
    for p in props:
        i = p['id']
        checks.append({
            'property': i,
            'quick_cmd': 'python3 tools/check.py %s' % i,
            'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
            'technique': TECH.get(i, TR + KIND.get(i, 'values judged against exact-arithmetic references in the specification')),
            'level': 'model_checking',
            'level_note': NOTE.get(i, 'Every recorded call is judged by the Quint specification with exact integer arithmetic; calls are generated from the seed over the stated domain and around every change of method, so inputs are sampled, not exhausted. Trusts Quint\'s evaluator, the references of the specification (validated against mpmath) and the driver.'),
        })
    m = {'version': 1,
         'setup_cmd': 'cd driver && CARGO_NET_OFFLINE=true cargo build --offline --locked --quiet && cd ../spec && for f in trace cache cachetrace; do quint typecheck $f.qnt || exit 1; done && quint run selfcheck.qnt --backend=typescript --invariant=allHold --max-samples=1 --max-steps=1500 --seed=1 --verbosity=1',
         'checks': checks, 'not_applicable': [],
         'notes': 'No hooks: the specification is bound to the public API only. Design, bounds and findings: DESIGN.md. Repairs: known-findings.txt.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

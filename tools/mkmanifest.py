"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = {
 'C01': 'Executions are run under overflow checks with guard pages and a time limit; the walk model proves termination and the step bound on all small tables.',
 'C02': 'Each case is run at seven places in memory (guard pages on either side, five fillings) and in two orders; the specification demands one answer.',
 'C27': 'Four builds (debug/release, with/without std) execute the same cases; the specification demands one answer.',
}
checks = []
for p in props:
    i = p['id']
    checks.append(dict(
        property=i, quick_cmd='python3 tools/check.py %s quick' % i, thorough_cmd='python3 tools/check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='TLA+ specification model-checked with TLC; spec-derived cases executed on the code and every recorded execution validated against the specification (trace validation)',
        level='model_checking',
        level_note=NOTE.get(i, 'The specification is checked exhaustively within small bounds; the code is bound to it by trace validation over spec-derived and randomised cases, so the code itself is explored, not proved.')))
json.dump(dict(version=1, setup_cmd='sh tools/setup.sh',
               hooks=dict(guard='none', enable='no hooks: the checks observe the public API only', source_commits=[]),
               checks=checks, not_applicable=[],
               notes='spec/: TLA+ modules; harness/: executor crate; tools/check.py: driver. See DESIGN.md.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'default': 'bounded: every scenario of the stated finite families is executed on the implementation and compared with an independent reference model; the bounds per family are in the evidence file and DESIGN.md',
}
TECH = {
 'C12': 'explicit-state exploration of operation histories (all sequences up to a depth) on the real objects against a reference state machine',
 'C05': 'exhaustive enumeration of (valid call, defect, position) triples on the implementation against the refuse/accept model',
 'C15': 'exhaustive enumeration of entry points and option combinations with deep snapshots of every caller-owned object',
 'C16': 'exhaustive enumeration of save/load histories over all model types and estimation states',
 'C19': 'exhaustive enumeration of the random generator\'s answers (controlled nondeterminism) and of datasets against the sampling model',
}
D = 'bounded exhaustive enumeration of datasets, configurations and call histories executed on the implementation and compared with an executable reference model'
checks = []
for l in open(os.path.join(here, 'properties.jsonl')):
    i = json.loads(l)['id']
    checks.append(dict(property=i, quick_cmd='bash run.sh %s quick' % i,
                       thorough_cmd='bash run.sh %s thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='model checking: ' + TECH.get(i, D),
                       level='model_checking', level_note=NOTE['default']))
json.dump(dict(version=1, setup_cmd='true', checks=checks,
               not_applicable=[]),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)

import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {
 'C22': 'two runs of two processes are compared (hash seeds, random state of numpy): a relational property of histories, outside of contracts on one call; the iteration order of Python sets is not specified by any contract of the dependencies',
}
NOTES = json.load(open(os.path.join(H, 'tools', 'notes.json')))
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    n = NOTES.get(i, {})
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
        thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
        evidence_file='evidence/%s.json' % i,
        technique=n.get('technique', 'contracts evaluated on the real code (bounded stand-in)'),
        level=n.get('level', 'exploration'), level_note=n.get('note', 'bounded evaluation of the contracts of the property on the real code')))
m = dict(version=1, setup_cmd='true', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='No hook in /repo: the contracts are sidecar files in /verif/contracts; the functions are extracted from the working tree on every run.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')

#!/usr/bin/env python3
"""Writes MANIFEST.json; CLAIMED lists the properties with a driver in mc/."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(root+'/properties.jsonl')]
src = ''.join(open(root+'/mc/'+f).read() for f in sorted(os.listdir(root+'/mc')) if f.endswith('.go'))
claimed = set(re.findall(r'register\(&Prop\{\s*ID:\s*"(C\d+)"', src))
TECH = {
 'C23': 'stateless exploration of all interleavings of the real code up to a preemption bound, plus a race pass',
 'C22': 'bounded exhaustive enumeration of spellings, corruptions and map iteration orders, executed on the real parser',
}
NOTE = {}
checks = []
for i in ids:
    if i not in claimed: continue
    checks.append({
        'property': i,
        'quick_cmd': f'bash check.sh {i} quick',
        'thorough_cmd': f'bash check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': TECH.get(i, 'bounded exhaustive enumeration of an explicit reference model, every model trace replayed on the real engine'),
        'level': 'model_checking',
        'level_note': NOTE.get(i, 'exhaustive within the bounds printed in the evidence file; every model trace is executed on the code built from /repo and compared'),
    })
m = {'version': 1, 'setup_cmd': 'bash check.sh build', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': 'no check built yet'} for i in ids if i not in claimed],
     'notes': 'No hooks in /repo. Checks build mc/ against /repo in a scratch directory under /tmp.'}
json.dump(m, open(root+'/MANIFEST.json', 'w'), indent=1)
open(root+'/MANIFEST.json', 'a').write('\n')
print('claimed', sorted(claimed))

"""Writes MANIFEST.json from properties.jsonl and the contracts (development time)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from ptv import driver, runner
driver.load_contracts()
NA = json.load(open(os.path.join(H, 'tools', 'not_applicable.json')))
NOTES = json.load(open(os.path.join(H, 'tools', 'notes.json')))
checks, na = [], []
TECH = 'contract-based deductive verification: contracts on the real functions, obligations generated by executing their source on symbolic tensors, discharged by exact ring normalisation, linear arithmetic and z3'
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)['id']
    cs = [c for c in runner.CONTRACTS.values() if p in c.props]
    if p in NA or not cs:
        na.append(dict(property=p, reason=NA.get(p, 'no contract written yet')))
        continue
    cmd = '/opt/venv/bin/python /verif/check.py %s' % p
    n = NOTES.get(p, {})
    checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd=cmd + ' --thorough', technique=TECH, level=n.get('level', 'proof'),
                       level_note=n.get('note', 'proved for all inputs and batch sizes in real arithmetic; see evidence for contracts only sampled'),
                       evidence_file='evidence/%s.json' % p))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

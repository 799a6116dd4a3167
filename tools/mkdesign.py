"""Fills the generated tables of DESIGN.md (development time)."""
import json, os, re, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from ptv import driver, runner
driver.load_contracts()
ex = set(driver.read_expected())
p = os.path.join(H, 'DESIGN.md')
s = open(p).read()


def put(tag, body):
    global s
    s = re.sub(r'(<!-- %s:begin -->\n).*?(<!-- %s:end -->)' % (tag, tag), lambda m: m.group(1) + body + '\n' + m.group(2), s, flags=re.S)


rows = ['| property | contracts |', '|---|---|']
for l in open(os.path.join(H, 'properties.jsonl')):
    d = json.loads(l)
    cs = [c for c in runner.CONTRACTS.values() if d['id'] in c.props]
    rows.append('| %s %s | %s |' % (d['id'], d['title'], ', '.join(c.name + (' (S)' if c.name not in ex else ' (B)' if c.bounded else '') for c in cs) or 'none'))
n = len(runner.CONTRACTS)
rows.append('')
rows.append('%d contracts: %d proved without bound, %d proved within a structural bound, %d sampled.' % (
    n, sum(1 for c in runner.CONTRACTS.values() if c.name in ex and not c.bounded), sum(1 for c in runner.CONTRACTS.values() if c.name in ex and c.bounded),
    sum(1 for c in runner.CONTRACTS.values() if c.name not in ex)))
put('contracts', '\n'.join(rows))
ks = [json.loads(l) for l in open(os.path.join(H, 'known_findings.jsonl')) if l.startswith('{')]
put('fixed', '\n'.join('* ' + k['entry'].replace('fixed: property=', '') for k in ks if k['status'] == 'fixed'))
put('findings', '\n'.join('* `%s` (%s): %s' % (k['id'], k['property'], k['what']) for k in ks if k['status'] == 'finding'))
caught = json.load(open(os.path.join(H, 'tools', 'seeds.json')))
rows = ['| id | property | what it breaks | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join('/verif', 'seeded', '*', 'meta.json'))):
    i = m.split('/')[-2]
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'].split('\n')[0][:160], caught.get(i, 'check of ' + d['property'])))
put('seeds', '\n'.join(rows))
open(p, 'w').write(s)

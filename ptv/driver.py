"""Command line: decide a property, write evidence, print violations."""
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import sys
import time
from . import runner

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_contracts():
    import contracts
    for m in sorted(pkgutil.iter_modules(contracts.__path__), key=lambda m: m.name):
        importlib.import_module('contracts.' + m.name)


def read_known():
    """known_findings.jsonl: {property, contract, label, when, what}; only exact matches are suppressed"""
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('status') == 'finding': out.append(d)
    return out


def _known(c, label, w):
    for k in KNOWN:
        if k['contract'] == c.name and k['label'] == label.split('[')[0] and getattr(w, 'finding', None) == k['site']:
            return k['id']
    return None


KNOWN = []


def _work(a):
    name, tier, seed, scale = a
    try:
        return runner.run_contract(name, tier, seed, scale, _known)
    except BaseException as e:
        import traceback
        traceback.print_exc()
        return dict(name=name, error='%s: %s' % (type(e).__name__, e), violation=None, proved=False, obligations=0, discharged=0,
                    functions=[], failures=[], unsupported=[], backends={}, paths=0, labels={}, wall=0, concrete={}, known=[], bounded=None, doc='')


def run_many(names, tier, seed, scale=1.0, jobs=None):
    jobs = jobs or min(8, os.cpu_count() or 8, max(1, len(names)))
    order = sorted(names, key=lambda n: -runner.CONTRACTS[n].weight)
    if jobs == 1 or len(names) == 1: return [_work((n, tier, seed, scale)) for n in order]
    # import the heavy parts once, before forking
    from . import shadow, prove
    try: shadow.default_loader().load('pytorch_kinematics')
    except Exception: pass
    try: runner.real_torch()
    except Exception: pass
    with mp.get_context('fork').Pool(jobs, maxtasksperchild=1) as pool:
        return list(pool.imap_unordered(_work, [(n, tier, seed, scale) for n in order]))


ASSUMPTIONS = [
    'real arithmetic: float32/float64 rounding, overflow and denormals are not modelled in the proofs; float literals are read as their decimal value and math.pi as the real number pi (the concrete cross-check runs in float64/float32)',
    'the symbolic torch (ptv/symtorch.py) implements the torch operations it accepts; it is cross-checked on every run by evaluating the same contracts with the real torch on sampled inputs',
    'trusted external contracts: Python interpreter and standard library; real torch dtype promotion rules are queried from torch itself',
]


def decide(prop, tier, seed):
    t0 = time.time()
    load_contracts()
    KNOWN[:] = read_known()
    cs = [c for c in runner.CONTRACTS.values() if prop in c.props and (tier == 'thorough' or c.tier == 'quick')]
    if not cs:
        print('no contract for property', prop)
        return 2
    res = run_many([c.name for c in cs], tier, seed)
    res.sort(key=lambda r: r['name'])
    viols = [r['violation'] for r in res if r['violation']]
    errs = [r for r in res if r.get('error') or (not r['obligations'] and not r['concrete'].get('checks'))]
    expected = read_expected()
    if not viols:
        # an obligation that the committed tree discharges is now refuted, and no input was found
        for r in res:
            if r.get('definite') and r['name'] in expected and r['concrete'].get('runs', 0) > r['concrete'].get('errors', 0):
                l, why = r['definite'][0]
                viols.append(dict(contract=r['name'], label=l, detail=why, seed=None, inputs=None, no_input=True))
    ob = sum(r['obligations'] for r in res if not r['bounded'])
    di = sum(r['discharged'] for r in res if not r['bounded'])
    bob = sum(r['obligations'] for r in res if r['bounded'])
    bdi = sum(r['discharged'] for r in res if r['bounded'])
    lines = []
    for r in res:
        st = 'PROVED' if r['proved'] else ('sampled' if not r['obligations'] and not r['failures'] and not r['unsupported'] else 'UNDISCHARGED')
        if r['proved'] and r['bounded']: st = 'PROVED-BOUNDED'
        print('%-14s %-44s obligations %d/%d paths %d sym %.1fs concrete %s%s' % (st, r['name'], r['discharged'], r['obligations'], r['paths'],
              r.get('sym_wall', 0), r['concrete'].get('runs', 0), ' VIOLATED' if r['violation'] else ''))
        for l, w in r['failures'][:4]: print('     undischarged %s: %s' % (l, w[:300]))
        for l, w in r['unsupported'][:3]: print('     not decided  %s: %s' % (l, w[:300]))
        if r.get('error'): print('     ERROR', r['error'])
    rep = None
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    paths = []
    for v in viols:
        p = os.path.join(HERE, 'evidence', 'replay', '%s_%s.json' % (prop, v['contract']))
        r = [x for x in res if x['name'] == v['contract']][0]
        v = dict(v, property=prop, undischarged=r['failures'][:10])
        if v.get('no_input'): v['verifier_output'] = dict(refuted=r['definite'], undischarged=r['failures'], not_decided=r['unsupported'])
        with open(p, 'w') as f: json.dump(v, f, indent=1, default=str)
        paths.append((p, v))
    known_ids = sorted({k for r in res for k in r['known']})
    listed = [k for k in KNOWN if k['property'] == prop]
    agree = conformance(seed, 10 if tier == 'thorough' else 2)
    ev = evidence(prop, tier, seed, res, ob, di, bob, bdi, time.time() - t0, viols, listed)
    ev['coverage']['symbolic_torch_conformance'] = agree
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for k in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viols:
        for p, v in paths:
            print('violated: contract %s, obligation %s: %s' % (v['contract'], v['label'], str(v['detail'])[:400]))
            print('   inputs: %s' % str(v['inputs'])[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, paths[0][0], ' no-failing-input-found' if paths[0][1].get('no_input') else ''))
        return 1
    if len(errs) == len(res):
        print('check error: nothing was decided: %s' % '; '.join(str(r.get('error')) for r in errs)[:1000])
        return 3
    print('property %s: held (%d/%d obligations proved without bound, %d/%d in stated bounds, %.0f s)' % (prop, di, ob, bdi, bob, time.time() - t0))
    return 0


def conformance(seed, rounds):
    """the trusted symbolic torch against the real one, at random sizes and values (says nothing about the code under test)"""
    import warnings
    try:
        from . import conformance as c
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g, u, b = c.main(rounds, seed)
        return dict(operation_cases=len(c.CASES), comparisons_agreeing=g, disagreeing=[list(x) for x in b], unsupported_operations=sorted(u))
    except Exception as e:
        return dict(error='%s: %s' % (type(e).__name__, e))


def evidence(prop, tier, seed, res, ob, di, bob, bdi, wall, viols, listed):
    proved = [r for r in res if r['proved'] and not r['bounded']]
    pb = [r for r in res if r['proved'] and r['bounded']]
    rest = [r for r in res if not r['proved']]
    be = {}
    z3t = 0.0
    ring = 0.0
    for r in res:
        for k, v in r['backends'].items(): be[k] = be.get(k, 0) + v
        z3t += r.get('stats', {}).get('z3_time', 0)
        ring += r.get('stats', {}).get('ring_time', 0)
    cov = dict(
        explanation='%d obligations discharged without bound, %d of %d within the stated structural bounds (see contracts_proved_within_bound); each contract also evaluated on the real code' % (di, bdi, bob),
        obligations=ob, discharged=di, bounded_obligations=bob, bounded_discharged=bdi,
        checker_cmd='/opt/venv/bin/python /verif/check.py %s' % prop,
        trusted_base=['ptv/symtorch.py (symbolic semantics of torch operations)', 'ptv/ring.py (exact rational-function normal forms)',
                      'z3', 'CPython'],
        back_ends=be, solver_seconds=round(z3t, 2), normaliser_seconds=round(ring, 2),
        functions_under_contract=sorted({f for r in res for f in r['functions']}),
        contracts_proved=[r['name'] for r in proved],
        contracts_proved_within_bound=[dict(name=r['name'], bound=r['bounded']) for r in pb],
        contracts_sampled_only=[dict(name=r['name'], reason=(r['failures'][:3] + r['unsupported'][:3]) or 'no symbolic run', bound='%d concrete executions of the contract on the real code' % r['concrete'].get('runs', 0)) for r in rest],
        concrete_cross_check=dict(executions=sum(r['concrete'].get('runs', 0) for r in res), checks=sum(r['concrete'].get('checks', 0) for r in res)),
        mathematical_axioms=sorted({r['name'] + ': ' + a for r in res for a in r.get('axioms', [])}),
        paths=sum(r['paths'] for r in res),
        per_contract=[dict(name=r['name'], obligations=r['obligations'], discharged=r['discharged'], paths=r['paths'], bound=r['bounded'],
                           proved=r['proved'], postconditions=r['labels'], wall_s=r['wall']) for r in res],
        known_findings=[k['id'] for k in listed])
    return dict(property=prop, tier=tier, seed=seed, level=level_of(prop), coverage=cov, assumptions=ASSUMPTIONS, wall_s=round(wall, 1), violations=len(viols))


def read_expected():
    p = os.path.join(HERE, 'expected_proved.json')
    return set(json.load(open(p))) if os.path.exists(p) else set()


def write_expected():
    """record which contracts the committed tree discharges completely (development time only)"""
    load_contracts()
    res = run_many(list(runner.CONTRACTS), 'quick', 1)
    ok = sorted(r['name'] for r in res if r['proved'] and not r['violation'])
    with open(os.path.join(HERE, 'expected_proved.json'), 'w') as f: json.dump(ok, f, indent=0)
    for r in res:
        if not r['proved'] or r['violation'] or r['wall'] > 60: print(r['name'], 'proved' if r['proved'] else 'NOT PROVED', r['wall'], 'VIOLATION' if r['violation'] else '')
    print(len(ok), 'of', len(res))


def level_of(prop):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop: return c['level']
    except Exception: pass
    return 'proof'


def replay(path):
    v = json.load(open(path))
    if v.get('no_input'):
        print(json.dumps(v, indent=1)[:6000])
        return 1
    load_contracts()
    c = runner.CONTRACTS[v['contract']]
    r, w, label, detail = runner.concrete_run(c, v['seed'], runner.dec_hint(v.get('hint')))
    print('contract  ', c.name)
    print('result    ', r, label, detail)
    print('inputs    ', json.dumps(w.chosen, default=str)[:4000])
    return 1 if r == 'violation' else 0


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'; argv = [a for a in argv if a != '--thorough']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if argv[0] == 'replay': return replay(argv[1])
    if argv[0] == 'expect': return write_expected()
    if argv[0] == 'contract':
        load_contracts()
        KNOWN[:] = read_known()
        names = [n for n in runner.CONTRACTS if any(n == a or (a.endswith('*') and n.startswith(a[:-1])) for a in argv[1:])]
        for r in run_many(names, tier, seed, jobs=1 if os.environ.get('PTV_DEBUG') else None):
            if r['proved'] and not r['violation'] and not r.get('error') and not os.environ.get('PTV_V'):
                print(r['name'], 'PROVED', r['obligations'], 'paths', r['paths'], 'sym %.1fs' % r.get('sym_wall', 0), 'conc', r['concrete'].get('runs'), r['concrete'].get('rejected'), r['slow'] or '')
                continue
            print(r['name'], 'PROVED' if r['proved'] else 'NOT PROVED', '%d/%d' % (r['discharged'], r['obligations']), 'paths', r['paths'], 'sym %.1fs' % r.get('sym_wall', 0), 'concrete', r['concrete'], 'labels', r['labels'])
            for f in r['failures'][:int(os.environ.get('PTV_N', 4))]: print('   F', f[0], f[1][:260])
            if r.get('probed'): print('   probed', r['probed'])
            print('   definite', [l for l, _ in r.get('definite', [])][:5])
            for f in r['unsupported'][:4]: print('   U', f)
            if r['slow']: print('   slow', r['slow'][:5])
            if r['violation']: print('   VIOLATION', json.dumps(r['violation'], default=str)[:1500])
            if r['known']: print('   known', r['known'])
            if r.get('error'): print('   ERROR', r['error'])
        return 0
    return decide(argv[0], tier, seed)

"""Runs contracts: generation and discharge of the obligations, counterexample search, cross-check."""
import os
import random
import signal
import sys
import time
import traceback
import zlib
from . import terms as tm
from .terms import T, Unsupported
from . import world as W

CONTRACTS = {}      # name -> Contract


class Contract:
    def __init__(self, f, prop, name, functions, bounded, tier, samples, budget, sym, weight, real_only):
        self.f, self.props, self.name = f, prop, name
        self.functions = functions
        self.bounded = bounded          # None, or the stated bound (the obligation set is finite in it)
        self.tier = tier
        self.samples = samples
        self.budget = budget
        self.sym = sym
        self.weight = weight
        self.doc = (f.__doc__ or '').strip()


def contract(prop, functions=(), bounded=None, tier='quick', samples=40, budget=60, sym=True, name=None, weight=1, standins=False):
    props = (prop,) if isinstance(prop, str) else tuple(prop)

    def deco(f):
        n = name or f.__name__
        if n in CONTRACTS: raise RuntimeError('duplicate contract ' + n)
        CONTRACTS[n] = Contract(f, props, n, tuple(functions), bounded, tier, samples, budget, sym, weight, False)
        CONTRACTS[n].standins = standins       # arbitrary names, sequences or records stand in for arguments: an exception says nothing about the code
        return f
    return deco


class SymRunner:
    def __init__(self, c, loader, budget, tier):
        self.c = c
        self.loader = loader
        self.queue = [[]]
        self.functions = set()
        self.axioms = set()
        self.obl = {}            # (label, facts, goal) -> True/False
        self.n_obl = 0
        self.n_dis = 0
        self.backends = {}
        self.failures = []
        self.unsupported = []
        self.paths = 0
        self.empty_paths = 0
        self.deadline = time.time() + budget
        self.per_obligation = 60 if tier == "thorough" else 15
        self.timeouts = 0
        self.labels = {}
        self.slow = []
        self.probes = 0
        self.probed = []
        self.hints = []

    def fork(self, prefix): self.queue.append(list(prefix))

    def oblige(self, w, label, goal):
        from .prove import prove, Fail, OutOfTime
        key = (label, goal.id, tuple(sorted(l.id for l in w.facts.lits)), tuple(f.id for f in w.facts.foralls))
        r = self.obl.get(key)
        if r is None:
            self.n_obl += 1
            t0 = time.time()
            try:
                hk = tm.set_branch_hook(None)
                try:
                    with time_limit(min(self.per_obligation, self.deadline - time.time() + 1)): used = prove(w.facts.copy(), goal)
                finally: tm.set_branch_hook(w.branch)
                r = True
                self.n_dis += 1
                for u in set(used): self.backends[u] = self.backends.get(u, 0) + 1
                self.labels[_base(label)] = self.labels.get(_base(label), 0) + 1
            except Fail as e:
                r = False
                self._fail(w, label, e.why, e.facts, e.goal, goal)
            except (Unsupported, OutOfTime, RecursionError) as e:
                r = False
                self._probe(w, goal)
                self.unsupported.append((label, '%s: %s' % (type(e).__name__, str(e)[:300])))
                self._hint(w, None)
                if isinstance(e, (OutOfTime, RecursionError)): self.timeouts += 1
            dt = time.time() - t0
            if dt > 2: self.slow.append((label, round(dt, 1)))
            self.obl[key] = r
        if r: w.facts.truth.setdefault(goal.id, True)
        return r

    def _fail(self, w, label, why, facts, goal, whole=None):
        hint, vetoed = None, False
        if len(self.failures) < 6 and facts is not None:
            try: hint = make_hint(facts, goal)
            except Exception as e: hint = None
        definite = hint is not None or why.startswith(DEFINITE) or label == 'no exception'
        if whole is not None and definite and not why.startswith('value is '):
            p = self._probe(w, whole, facts)
            vetoed = p is not None and not p[1] and p[0] >= 12
        # a loop may be rewritten so that another invariant holds, and code may move between a function and its callee: only what the caller sees is a violation
        self.failures.append((label, why, hint, definite and not vetoed and not label.startswith(('loop invariant', 'precondition'))))
        self._hint(w, hint)

    def _hint(self, w, hint):
        """inputs for the concrete side: the options this path took, and values if the solver gave any"""
        h = dict(hint or {}, opts=dict(w.picked))
        if h not in self.hints and (hint or sum(x['opts'] == h['opts'] for x in self.hints) == 0): self.hints.append(h)

    def _probe(self, w, goal, sub=None):
        """the obligation in floating point: candidate inputs on which it is false, points where it is true"""
        from . import numeric
        if self.probes > 12 or w.facts.contradiction: return None
        self.probes += 1
        hk = tm.set_branch_hook(None)
        try:
            with time_limit(4): p = numeric.probe(w.facts, goal, sub, seed=self.probes)
        except Exception as e:
            if os.environ.get('PTV_DEBUG'): traceback.print_exc()
            return None
        finally: tm.set_branch_hook(w.branch)
        self.probed.append((p[0], len(p[1]), p[2]))
        for h in p[1][:2]: self._hint(w, h)
        return p

    def fail_hard(self, w, label, why):
        from .prove import z3_unsat
        self.n_obl += 1
        if w.facts.contradiction or z3_unsat(w.facts, [], 2.0):
            self.n_dis += 1
            raise W.Stop()
        self._fail(w, label, why, w.facts, tm.FALSE)
        raise W.Stop()

    def run(self):
        from . import symtorch as st, prove as pv
        W._mode[0] = 'sym'
        pv.set_deadline(self.deadline)
        first = None
        while self.queue:
            if time.time() > self.deadline:
                self.unsupported.append(('paths', 'time budget exhausted with %d paths left' % len(self.queue)))
                break
            if len(self.failures) >= 12 or self.timeouts >= 3:
                self.unsupported.append(('paths', 'stopped after %d undischarged obligations with %d paths left' % (len(self.failures) + self.timeouts, len(self.queue))))
                break
            if self.paths > 5000:
                self.unsupported.append(('paths', 'more than 5000 paths'))
                break
            dec = self.queue.pop()
            tm.reset_fresh()
            w = W.SymWorld(self, self.loader, dec, None)
            st._state['world'] = w
            st._state['rand'] = 0
            st._state['grad'] = True
            st._state['compiling'] = False
            tm.set_branch_hook(w.branch)
            n0 = self.n_obl
            try:
                with time_limit(self.deadline - time.time() + 5): self.c.f(w)
                self.paths += 1
                if first is None: first = w
            except W.Stop:
                self.paths += 1
            except (Unsupported, pv.OutOfTime, RecursionError) as e:
                self.unsupported.append(('execution', '%s: %s' % (type(e).__name__, e) + _where(e)))
                self._hint(w, None)
            except pv.Fail as e:
                self.unsupported.append(('execution', 'Fail: %s' % e))
            except Exception as e:
                if harness_error(e) or self.c.standins:
                    self.unsupported.append(('harness', '%s: %s' % (type(e).__name__, e) + _where(e)))
                    self._hint(w, None)
                    continue
                try: infeasible = w.facts.contradiction or pv.z3_unsat(w.facts, [], 2.0)
                except Exception: infeasible = False
                self.paths += 1
                if not infeasible:
                    if os.environ.get('PTV_FACTS'):
                        for l in w.facts.lits + w.facts.foralls: print('   fact', tm.show(l, 12)[:600])
                    self.n_obl += 1
                    self._fail(w, 'no exception', '%s: %s%s' % (type(e).__name__, e, _where(e)), w.facts, tm.TRUE)
            finally:
                tm.set_branch_hook(None)
                st._state['world'] = None
                w.restore()
        pv.set_deadline(None)
        return self


class time_limit:
    """raise OutOfTime in this block after the given number of seconds (nests)"""

    def __init__(self, s): self.s = max(s, 0.05)

    def __enter__(self):
        self.prev = signal.getitimer(signal.ITIMER_REAL)[0]
        self.t0 = time.time()
        signal.signal(signal.SIGALRM, self.fire)
        signal.setitimer(signal.ITIMER_REAL, min(self.s, self.prev) if self.prev else self.s)

    def fire(self, s, f):
        from .prove import OutOfTime
        raise OutOfTime('time limit')

    def __exit__(self, *a):
        rest = self.prev - (time.time() - self.t0) if self.prev else 0
        signal.setitimer(signal.ITIMER_REAL, max(rest, 0.05) if self.prev else 0)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if 'pytorch_kinematics' in f.filename] or tb
    f = fr[-1]
    return ' (at %s:%d)' % (f.filename.replace('/repo/', ''), f.lineno)


def _base(label): return label.split('[')[0]


def spread(xs, n):
    """n of them, over the whole list: later paths differ in the first choices"""
    if len(xs) <= n: return list(xs)
    return [xs[i * len(xs) // n] for i in range(n)]


def make_hint(facts, goal):
    """values for the inputs from a z3 model of  facts & not goal"""
    from .prove import z3_unsat
    neg = tm.lnot(goal) if goal is not tm.TRUE else tm.TRUE
    unsat, model, zz = z3_unsat(facts, [neg], 2.0, want_model=True)
    if model is None: return None
    ints, dims = {}, {}
    for i, a in zz.names.items():
        if type(a) is T and a.op in ('ivar', 'iapp'):
            v = model.eval(zz.memo[i], model_completion=True)
            try: ints[a.id] = v.as_long()
            except Exception: pass
            if a.op == 'ivar' and a.args[0].isidentifier(): dims[a.args[0]] = ints.get(a.id)
    vals = {}

    def iv(x):
        if isinstance(x, int): return x
        s = 0
        for m, c in x.args:
            p = c
            for a in m: p *= ints.get(a.id, 0)
            s += p
        return s
    import z3
    for i, a in zz.names.items():
        if type(a) is T and a.op == 'app':
            v = model.eval(zz.memo[i], model_completion=True)
            try:
                if z3.is_algebraic_value(v): v = v.approx(12)
                f = float(v.as_fraction())
            except Exception: continue
            vals.setdefault(a.args[0], {})[tuple(iv(x) for x in a.args[1])] = f
    for s, val in facts.subs.items(): pass
    return {'vals': vals, 'dims': {k: v for k, v in dims.items() if v is not None}}


# ------------------------------------------------------------------ concrete side
_real = [None]


def real_torch():
    if _real[0] is None:
        src = os.path.join(os.environ.get('PTV_REPO', '/repo'), 'src')
        if src not in sys.path: sys.path.insert(0, src)
        import torch
        torch.set_num_threads(1)
        import pytorch_kinematics
        got = os.path.realpath(pytorch_kinematics.__file__)
        if not got.startswith(os.path.realpath(src)): raise RuntimeError('wrong package imported: ' + got)
        _real[0] = torch
    return _real[0]


def concrete_run(c, seed, hint=None, forced=None):
    """('ok'|'reject'|'violation'|'error', world, label, detail)"""
    t = real_torch()
    W._mode[0] = 'con'
    t.manual_seed(seed & 0x7fffffff)
    w = W.ConWorld(t, seed, hint, forced=forced)
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c.f(w)
        return 'ok', w, None, None
    except W.Reject: return 'reject', w, None, None
    except W.Violation as v: return 'violation', w, v.label, v.detail
    except Exception as e:
        if harness_error(e): return 'error', w, 'harness', '%s: %s%s' % (type(e).__name__, e, _where(e))
        return 'violation', w, 'no exception', '%s: %s%s' % (type(e).__name__, e, _where(e))
    finally:
        W._mode[0] = 'sym'


def harness_error(e):
    """raised by the contract or the harness itself (a private function was renamed, say), not by the code under contract"""
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1].filename
    mine = ('/contracts/' in last and 'pytorch_kinematics' not in last) or '/ptv/' in last
    return mine and isinstance(e, (AttributeError, TypeError, ImportError, NameError, KeyError, Unsupported))


def concrete_campaign(c, seed, n, hints, deadline, known=None):
    stats = {'runs': 0, 'rejected': 0, 'checks': 0}
    found = None
    rng = random.Random(zlib.crc32(c.name.encode()) ^ seed)
    jobs = []
    for h in hints:
        for k in range(6): jobs.append((rng.getrandbits(30), h))
    for k in range(4 * n): jobs.append((rng.getrandbits(30), None))
    n += 6 * len(hints)
    suppressed = []
    for s, h in jobs:
        if time.time() > deadline or stats['runs'] - stats['rejected'] >= n: break
        r, w, label, detail = concrete_run(c, s, h)
        stats['runs'] += 1
        stats['checks'] += w.n_checks
        if r == 'reject': stats['rejected'] += 1
        if r == 'error':
            stats['errors'] = stats.get('errors', 0) + 1
            stats['error'] = detail
            if stats['errors'] > 5: break
            continue
        if r == 'violation':
            k = known(c, label, w) if known else None
            if k:
                if k not in suppressed: suppressed.append(k)
                continue
            found = dict(contract=c.name, seed=s, hint=_enc_hint(h), label=label, detail=detail, inputs=_jsonable(w.chosen))
            break
    return stats, found, suppressed


def _enc_hint(h):
    if not h: return None
    return dict(h, vals={k: [[list(i), v] for i, v in d.items()] for k, d in h.get('vals', {}).items()})


def dec_hint(h):
    if not h: return None
    return dict(h, vals={k: {tuple(i): v for i, v in d} for k, d in h.get('vals', {}).items()})


def _jsonable(x):
    import json
    try:
        s = json.dumps(x)
        return x if len(s) < 20000 else s[:20000]
    except Exception:
        return {k: str(v)[:2000] for k, v in x.items()}


# reasons that are refutations of the obligation, as opposed to a prover giving up
DEFINITE = ('not equal: difference', 'goal is false on this path', 'value is ', 'shape ', 'no exception was raised', 'result is not a tensor')


# ------------------------------------------------------------------ one contract, start to end
def run_contract(name, tier, seed, budget_scale=1.0, known=None):
    c = CONTRACTS[name]
    out = dict(name=name, props=list(c.props), bounded=c.bounded, functions=[], obligations=0, discharged=0, backends={},
               failures=[], unsupported=[], paths=0, labels={}, wall=0.0, concrete={}, violation=None, known=[], doc=c.doc, slow=[])
    t0 = time.time()
    hints = []
    proved = False
    if c.sym:
        try:
            from . import shadow, prove as pv
            for k in pv.STATS: pv.STATS[k] = 0
            ld = shadow.default_loader()
            r = SymRunner(c, ld, c.budget * budget_scale * (3 if tier == 'thorough' else 1), tier).run()
            out.update(obligations=r.n_obl, discharged=r.n_dis, backends=r.backends, paths=r.paths, labels=r.labels, slow=r.slow)
            out['failures'] = [(f[0], f[1]) for f in r.failures[:20]]
            out['definite'] = [(f[0], f[1]) for f in r.failures if f[3]][:20]
            if any('loop frame condition' in u[1] for u in r.unsupported): out['definite'] = []      # the loop rule was not applied to the right state
            out['n_failures'] = len(r.failures)
            out['unsupported'] = r.unsupported[:20]
            out['functions'] = sorted(set(c.functions) | r.functions)
            out['stats'] = dict(pv.STATS)
            out['axioms'] = sorted(r.axioms)
            hints = spread(r.hints, 14)
            out['probed'] = r.probed
            proved = not r.failures and not r.unsupported and r.n_obl > 0
        except Exception as e:
            out['unsupported'] = [('load', '%s: %s' % (type(e).__name__, e) + _where(e))]
            if os.environ.get('PTV_DEBUG'): traceback.print_exc()
    else:
        out['functions'] = list(c.functions)
    out['proved'] = proved
    out['sym_wall'] = round(time.time() - t0, 2)
    n = c.samples
    if not proved and c.sym: n = max(n, 60) * 12
    if tier == 'thorough': n *= 8
    dl = time.time() + ((45 if not proved else 40) if tier == 'quick' else 300)
    try:
        st_, found, sup = concrete_campaign(c, seed, n, hints, dl, known)
        out['concrete'] = st_
        out['violation'] = found
        out['known'] = sup
    except Exception as e:
        out['error'] = '%s: %s%s' % (type(e).__name__, e, _where(e))
        if os.environ.get('PTV_DEBUG'): traceback.print_exc()
    if not out['functions']: out['functions'] = list(c.functions)
    out['wall'] = round(time.time() - t0, 2)
    return out

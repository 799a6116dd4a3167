"""Conformance of the trusted symbolic torch: operations executed over tensors with symbolic sizes and entries, evaluated
at random sizes and values, against the real torch.

    /opt/venv/bin/python -m ptv.conformance [rounds]

A test of the trusted base, not a proof; every check also runs one round and reports the outcome in its evidence.
"""
import itertools
import math
import os
import random
import sys
os.environ.setdefault('OMP_NUM_THREADS', '1')
import torch
from . import symtorch as st
from . import terms as tm
from . import numeric
from .terms import Unsupported


class _Facts:
    subs = {}


class _World:
    """branches decided by the values of this round"""

    def __init__(self, val): self.val, self.hooks = val, {}

    def branch(self, cond):
        v = self.val.bool(cond, {})
        if v is None: raise numeric.Undecided()
        return v

    def __getattr__(self, n): return lambda *a, **k: None


# a, b: (B, 3); A, C: (B, N, 3); M, K: (B, 3, 3); T: (B, 4, 4); q: (4,); s: (); k: (N,) indices below B; m: (B, 3) Boolean; J: (B, 6, N)
CASES = {}


def case(n, f, tol=1e-9): CASES[n] = (f, tol)


for n in ('abs', 'neg', 'square', 'sin', 'cos', 'sign', 'floor', 'ceil', 'round', 'isfinite', 'isnan', 'isinf', 'zeros_like', 'ones_like',
          'trunc', 'frac', 'relu', 'atan', 'tan', 'exp', 'sinh', 'cosh', 'reciprocal', 'nan_to_num', 'logical_not', 'clone', 'positive'):
    case(n, lambda t, v, n=n: getattr(t, n)(v['a']))
    if hasattr(torch.Tensor, n): case('.' + n, lambda t, v, n=n: getattr(v['a'], n)())
for n in ('sqrt', 'rsqrt', 'log'): case(n, lambda t, v, n=n: getattr(t, n)(v['a'].abs() + 1))
for n in ('asin', 'acos'): case(n, lambda t, v, n=n: getattr(t, n)(v['a'].clamp(-1, 1)))
for n in ('add', 'sub', 'mul', 'maximum', 'minimum', 'max', 'min', 'atan2', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'hypot', 'logical_and',
          'logical_or', 'logical_xor', 'allclose', 'equal', 'isclose'):
    case(n, lambda t, v, n=n: getattr(t, n)(v['a'], v['b']))
    case(n + ' broadcast', lambda t, v, n=n: getattr(t, n)(v['A'], v['a'][:, None]))
for n in ('div', 'fmod', 'remainder', 'floor_divide'):
    case(n, lambda t, v, n=n: getattr(t, n)(v['a'], v['b'].abs() + .5))
    case(n + ' number', lambda t, v, n=n: getattr(t, n)(v['a'], .75))
for n in ('sum', 'mean', 'amax', 'amin', 'prod', 'any', 'all', 'cumsum', 'argmax', 'argmin', 'std'):
    for d in (0, 1, -1):
        case('%s dim %d' % (n, d), lambda t, v, n=n, d=d: getattr(t, n)(v['A'] if n not in ('any', 'all') else v['A'] > 0, dim=d))
        if n in ('sum', 'mean', 'amax', 'any'): case('%s keepdim %d' % (n, d), lambda t, v, n=n, d=d: getattr(t, n)(v['A'] if n != 'any' else v['A'] > 0, dim=d, keepdim=True))
for n in ('sum', 'mean', 'max', 'min', 'numel'): case(n + ' full', lambda t, v, n=n: getattr(t, n)(v['A']))
case('sum dims', lambda t, v: v['A'].sum(dim=(0, 2)))
case('max dim', lambda t, v: tuple(v['A'].max(dim=1)))
case('min dim', lambda t, v: tuple(t.min(v['a'], dim=0)))
case('norm', lambda t, v: t.norm(v['a'], p=2, dim=-1))
case('norm keep', lambda t, v: v['A'].norm(dim=1, keepdim=True))
case('norm 1', lambda t, v: v['a'].norm(p=1, dim=0))
case('linalg.norm', lambda t, v: t.linalg.norm(v['A'], dim=-1))
case('vector_norm', lambda t, v: t.linalg.vector_norm(v['A'], dim=-1))
case('normalize', lambda t, v: t.nn.functional.normalize(v['a'], dim=-1))
case('cosine', lambda t, v: (v['a'] * v['b']).sum(-1) / (v['a'].norm(dim=-1) * v['b'].norm(dim=-1)))
case('where', lambda t, v: t.where(v['a'] > v['b'], v['a'], v['b']))
case('where number', lambda t, v: t.where(v['A'] > 0, v['A'], 0.))
case('where mixed', lambda t, v: t.where(v['a'][..., None] > 0, v['M'], v['K'].transpose(1, 2)))
case('clamp', lambda t, v: v['a'].clamp(-.5, .5))
case('clamp min', lambda t, v: t.clamp(v['a'], min=0))
case('clamp max', lambda t, v: t.clamp(v['a'], max=.25))
case('clamp tensors', lambda t, v: t.clamp(v['A'], v['b'][:, None].abs().neg(), v['a'][:, None].abs()))
case('lerp', lambda t, v: t.lerp(v['a'], v['b'], .25))
case('addcmul', lambda t, v: t.addcmul(v['a'], v['b'], v['b'], value=2))
case('addcdiv', lambda t, v: t.addcdiv(v['a'], v['b'], v['b'].abs() + 1, value=2))
case('pow', lambda t, v: v['a'] ** 3 + t.pow(v['b'], 2))
case('pow tensor', lambda t, v: (v['a'].abs() + 1) ** 2)
case('copysign', lambda t, v: t.copysign(v['a'], v['b'] + .01))
case('signbit', lambda t, v: t.signbit(v['a'] + .01))
case('arith', lambda t, v: (2 - v['a']) / (1 + v['b'] ** 2) - v['a'] * 3 + (-v['b']))
case('int arith', lambda t, v: v['k'] * 2 + 1)
case('int mod', lambda t, v: (v['k'] * 3 + 1) % 2)
case('int div', lambda t, v: (v['k'] * 5) // 2)
case('promote', lambda t, v: v['k'] * .5 + v['A'][0, :, 0])
case('bool sum', lambda t, v: (v['a'] > 0).sum(dim=0))
case('bool ops', lambda t, v: ~(v['a'] > 0) & (v['b'] > 0) | (v['a'] < -1) ^ v['m'])
case('masked_fill', lambda t, v: v['a'].masked_fill(v['m'], 9.))
case('unsqueeze', lambda t, v: v['a'].unsqueeze(1) * v['A'])
case('squeeze', lambda t, v: v['a'][:, None].squeeze(1))
case('permute', lambda t, v: v['A'].permute(2, 0, 1))
case('transpose', lambda t, v: t.transpose(v['A'], 0, 2))
case('mT', lambda t, v: v['A'].mT)
case('.T', lambda t, v: v['a'].T)
case('movedim', lambda t, v: t.movedim(v['A'], 0, -1))
case('expand', lambda t, v: v['a'][:, None].expand(-1, 4, -1))
case('expand lead', lambda t, v: v['q'].expand(v['a'].shape[0], 4))
case('repeat', lambda t, v: v['a'].repeat(2, 3))
case('repeat sym', lambda t, v: v['q'].repeat(v['A'].shape[1], 1))
case('repeat_interleave', lambda t, v: v['a'].repeat_interleave(3, dim=0))
case('repeat_interleave sym', lambda t, v: t.repeat_interleave(v['a'], v['A'].shape[1], dim=0))
case('reshape join', lambda t, v: v['A'].reshape(-1, 3))
case('reshape all', lambda t, v: v['M'].reshape(v['M'].shape[0], 9))
case('reshape split', lambda t, v: v['M'].reshape(-1, 9).reshape(-1, 3, 3))
case('reshape back', lambda t, v: v['A'].reshape(-1, 3).reshape(v['A'].shape))
case('view', lambda t, v: v['A'].view(v['A'].shape[0] * v['A'].shape[1], 3))
case('view last', lambda t, v: v['T'].view(-1, 2, 2, 4))
case('flatten', lambda t, v: t.flatten(v['A'], 0, 1))
case('flatten end', lambda t, v: v['M'].flatten(start_dim=1))
case('unflatten', lambda t, v: v['T'].unflatten(1, (2, 2)))
case('atleast', lambda t, v: t.atleast_2d(v['q']))
case('select', lambda t, v: v['A'].select(1, 0))
case('narrow', lambda t, v: v['T'].narrow(1, 1, 2))
case('unbind', lambda t, v: t.unbind(v['a'], -1))
case('split', lambda t, v: t.split(v['T'], [1, 3], dim=-1))
case('chunk', lambda t, v: t.chunk(v['T'], 2, dim=1))
case('stack', lambda t, v: t.stack([v['a'], v['b']], dim=1))
case('stack last', lambda t, v: t.stack((v['a'], v['b']), -1))
case('cat', lambda t, v: t.cat([v['a'], v['b'][:, :1]], dim=-1))
case('cat rows', lambda t, v: t.cat([v['a'], v['b'], v['A'][:, 0]], dim=0))
case('cat middle', lambda t, v: t.cat([v['A'], v['a'][:, None]], dim=1))
case('hstack', lambda t, v: t.hstack([v['a'], v['b']]))
case('vstack', lambda t, v: t.vstack([v['a'], v['q'][:3]]))
case('flip', lambda t, v: t.flip(v['a'], [0]))
case('flip last', lambda t, v: v['a'].flip(-1))
case('roll', lambda t, v: t.roll(v['a'], 1, dims=-1))
case('diag_embed', lambda t, v: t.diag_embed(v['a']))
case('diagonal', lambda t, v: t.diagonal(v['M'], dim1=-2, dim2=-1))
case('trace', lambda t, v: t.trace(v['M'][0]))
case('diag', lambda t, v: t.diag(v['q']))
case('triu', lambda t, v: t.triu(v['M']))
case('tril', lambda t, v: t.tril(v['M'], -1))
case('eye', lambda t, v: t.eye(3, dtype=torch.float64) + v['M'])
case('arange', lambda t, v: t.arange(v['a'].shape[0]))
case('arange step', lambda t, v: t.arange(1, 9, 2))
case('linspace', lambda t, v: t.linspace(0, 1, 5, dtype=torch.float64))
case('full', lambda t, v: t.full((v['a'].shape[0], 2), 2.5, dtype=torch.float64))
case('new_zeros', lambda t, v: v['a'].new_zeros(2, 3) + v['a'].new_ones(3))
case('full_like', lambda t, v: t.full_like(v['a'], 3.))
case('one_hot', lambda t, v: t.nn.functional.one_hot(v['k'] * 0 + 1, 3))
case('pad', lambda t, v: t.nn.functional.pad(v['a'], (1, 2), value=3.))
case('pad rows', lambda t, v: t.nn.functional.pad(v['a'], (0, 1, 2, 0)))
case('index int', lambda t, v: v['A'][0, :, 1])
case('index neg', lambda t, v: v['A'][-1, ..., -1])
case('index slice', lambda t, v: v['T'][:, :3, 3])
case('index slice step', lambda t, v: v['T'][:, ::2, 1:])
case('index tail', lambda t, v: v['a'][1:])
case('index head', lambda t, v: v['a'][:-1])
case('index none', lambda t, v: v['a'][None, :, None])
case('index list', lambda t, v: v['a'][:, [2, 0, 1]])
case('index tensor', lambda t, v: v['a'][v['k']])
case('index tensor mid', lambda t, v: v['A'].transpose(0, 1)[:, v['k']])
case('index pair', lambda t, v: v['a'][v['k'], v['k'] * 0 + 1])
case('index mixed', lambda t, v: v['J'][v['k'], 2])
case('index bool const', lambda t, v: v['a'][:, torch_const(t, [True, False, True])])
case('index tensor 2d', lambda t, v: v['a'][v['k'][:, None], t.arange(3)[None]])
case('gather', lambda t, v: t.gather(v['A'], 1, (v['k'] * 0)[None, :, None].expand(v['A'].shape[0], -1, 3)))
case('take_along_dim', lambda t, v: t.take_along_dim(v['a'], v['a'].argmax(dim=1, keepdim=True), dim=1))
case('index_select', lambda t, v: t.index_select(v['a'], 0, v['k']))
case('index_fill', lambda t, v: t.index_fill(v['M'], 1, torch_const(t, [0, 2]), 9.))
case('index_copy', lambda t, v: t.index_copy(v['M'], 1, torch_const(t, [2, 0]), v['K'][:, :2]))
case('set int', lambda t, v: setit(v['M'].clone(), (0, 1), 5.))
case('set slice', lambda t, v: setit(v['T'].clone(), (slice(None), slice(0, 3), 3), v['a']))
case('set block', lambda t, v: setit(v['T'].clone(), (Ellipsis, slice(None, 3), slice(None, 3)), v['M']))
case('set mask', lambda t, v: setit(v['a'].clone(), v['a'] > 0, 7.))
case('set row mask', lambda t, v: setit(v['a'].clone(), v['m'][:, 0], 7.))
case('set list', lambda t, v: setit(v['a'].clone(), (slice(None), [0, 2]), v['b'][:, :2]))
case('set column mask', lambda t, v: setit(v['a'].clone(), (Ellipsis, torch_const(t, [True, False, True])), v['b'][:, 1:]))
case('iadd', lambda t, v: iadd(v['a'].clone(), v['b']))
case('iadd view', lambda t, v: iadd_view(v['T'].clone(), v['a']))
case('inplace', lambda t, v: v['a'].clone().abs_().add_(1).sqrt_().mul_(2).clamp_(max=3))
case('matmul', lambda t, v: v['M'] @ v['K'])
case('matmul broadcast', lambda t, v: v['M'] @ v['K'][0])
case('matmul lead', lambda t, v: v['M'].unsqueeze(1) @ v['A'].unsqueeze(-1))
case('matmul vec', lambda t, v: t.matmul(v['M'][0], v['a'][0]))
case('matmul vecs', lambda t, v: (v['M'] @ v['a'].unsqueeze(-1)).squeeze(-1))
case('matmul sym', lambda t, v: v['A'].transpose(1, 2) @ v['A'])
case('matmul 2d', lambda t, v: t.mm(v['a'], v['a'].T))
case('bmm', lambda t, v: t.bmm(v['A'], v['M']))
case('mv', lambda t, v: t.mv(v['M'][0], v['b'][0]))
case('dot', lambda t, v: t.dot(v['a'][0], v['b'][0]))
case('outer', lambda t, v: t.outer(v['a'][0], v['q']))
case('cross', lambda t, v: t.cross(v['a'], v['b'], dim=-1))
case('cross linalg', lambda t, v: t.linalg.cross(v['A'], v['a'][:, None].expand_as(v['A'])))
case('cross dim1', lambda t, v: t.cross(v['M'], v['K'], dim=1))
case('einsum', lambda t, v: t.einsum('nbij,nj->nbi', v['M'].unsqueeze(1), v['a']))
case('einsum mm', lambda t, v: t.einsum('bij,bjk->bik', v['M'], v['K']))
case('einsum trace', lambda t, v: t.einsum('bii->b', v['M']))
case('einsum dots', lambda t, v: t.einsum('...i,...i->...', v['A'], v['A']))
case('tensordot', lambda t, v: t.tensordot(v['a'], v['q'][:3], dims=1))
case('baddbmm', lambda t, v: t.baddbmm(v['M'], v['K'], v['M']))
case('det', lambda t, v: t.det(v['M']), 1e-8)
case('det linalg', lambda t, v: t.linalg.det(v['M'][:, :2, :2]), 1e-8)
case('inverse', lambda t, v: t.inverse(v['M'] + 4 * t.eye(3, dtype=torch.float64)), 1e-8)
case('linalg.inv', lambda t, v: t.linalg.inv(v['M'] + 4 * t.eye(3, dtype=torch.float64)), 1e-8)
case('type', lambda t, v: (v['a'] > 0).type_as(v['a']) + (v['b'] > 0).to(torch.float64))
case('float', lambda t, v: (v['a'] > 0).float().double())
case('long', lambda t, v: (v['a'] > 0).long() * 3)
case('detach', lambda t, v: v['a'].detach() + v['a'].contiguous())
case('broadcast_tensors', lambda t, v: tuple(t.broadcast_tensors(v['A'], v['q'][:3])))
case('broadcast_to', lambda t, v: t.broadcast_to(v['q'], (v['a'].shape[0], 4)))
case('masked_select full', lambda t, v: t.masked_select(v['q'], torch_const(t, [True, False, True, True])))
case('nonzero const', lambda t, v: torch_const(t, [True, False, True]).nonzero())
case('count_nonzero', lambda t, v: t.count_nonzero(v['a'] > 0))
case('shape', lambda t, v: t.tensor([v['A'].shape[1], v['A'].numel(), v['A'].dim(), len(v['a'])]))
case('item', lambda t, v: t.tensor([v['a'][0, 0].item() * 2], dtype=torch.float64))
case('tensor of numbers', lambda t, v: t.tensor([[1., 2], [3, 4]]))
case('as_tensor', lambda t, v: t.as_tensor([1.5, 2], dtype=torch.float64))
case('iterate', lambda t, v: sum_rows(v['M']))
case('tolist', lambda t, v: t.tensor(v['q'].tolist(), dtype=torch.float64))
case('result_type', lambda t, v: (v['k'] > 0).float() + 1)


def sum_rows(m):
    r = 0
    for x in m[0]: r = r + x
    return r


def torch_const(t, l): return t.tensor(l)
def setit(x, k, v): x[k] = v; return x


def iadd(x, y): x += y; return x


def iadd_view(x, y):
    v = x[:, :3, 3]
    v += y
    return x


SHAPES = dict(a='B3', b='B3', A='BN3', M='B33', K='B33', T='B44', q='4', s='', J='B6N', k='N', m='B3')


def round_(seed):
    """one round; returns (passed, unsupported, failures)"""
    rng = random.Random(seed)
    m = st.build_module()
    good, uns, bad = 0, [], []
    from . import world as W
    for n, (f, tol) in CASES.items():
        B, N = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3])
        g = torch.Generator().manual_seed(rng.randrange(1 << 30))
        dims = dict(B=B, N=N)
        bd, nd = tm.ivar('cB', 1), tm.ivar('cN', 1)
        sd = dict(B=bd, N=nd)
        val = numeric.Val(rng, _Facts())
        for t_, d in ((bd, B), (nd, N)):
            for mon, c in t_.args: val.iv[mon[0].id] = d
        real, sym = {}, {}
        for nm, sp in SHAPES.items():
            shp = [dims.get(c) or int(c) for c in sp]
            sshp = tuple(sd.get(c) if c in sd else int(c) for c in sp)
            if nm == 'k': x = torch.randint(0, B, shp, generator=g)
            elif nm == 'm': x = torch.rand(shp, generator=g) > .5
            else:
                x = torch.randn(shp, generator=g, dtype=torch.float64)
                if rng.random() < .4: x = (x * 2).round() / 2
            real[nm] = x
            mk = {'R': tm.app, 'B': tm.bapp, 'I': tm.iapp}[st.kind(x.dtype)]
            store = {'R': val.r, 'B': val.b, 'I': val.i}[st.kind(x.dtype)]
            if nm == 'k': tm.iapp_bounds['c_k'] = (0, bd)
            for ix in itertools.product(*[range(d) for d in shp]): store[('c_' + nm, ix)] = x[ix].item()
            sym[nm] = st.new(lambda idx, mk=mk, nm=nm: mk('c_' + nm, idx), sshp, x.dtype, torch.device('cpu'))
        try: r = f(torch, real)
        except Exception as e: continue         # not an operation of this torch at this shape
        old = st._state['world']
        st._state['world'] = _World(val)
        try:
            s = f(m, sym)
            rs, ss = (tuple(r), tuple(s)) if isinstance(r, (tuple, list)) else ((r,), (s,))
            for x, y in zip(rs, ss):
                if not isinstance(x, torch.Tensor):
                    y = val.any(y, {}) if type(y) is tm.T else y
                    if bool(x) != bool(y) if isinstance(x, bool) else abs(x - y) > tol: bad.append((n, seed, 'value %s instead of %s' % (y, x)))
                    continue
                shp = tuple(val.int(d, {}) for d in y.shape)
                if shp != tuple(x.shape): bad.append((n, seed, 'shape %s instead of %s' % (shp, tuple(x.shape)))); break
                if x.dtype != y.dtype: bad.append((n, seed, 'dtype %s instead of %s' % (y.dtype, x.dtype))); break
                rd = y._reader()
                for ix in itertools.product(*[range(d) for d in shp]):
                    v = rd(ix)
                    v = val.any(v, {}) if type(v) is tm.T else v
                    e = x[ix].item()
                    if v is None: raise numeric.Undecided()
                    if abs(float(v) - e) > tol * (1 + abs(e)): bad.append((n, seed, 'entry %s is %s instead of %s' % (ix, v, e))); break
            else: good += 1
        except Unsupported as e: uns.append(n)
        except numeric.Undecided: uns.append(n)
        except Exception as e: bad.append((n, seed, '%s: %s' % (type(e).__name__, str(e)[:200])))
        finally: st._state['world'] = old
    return good, uns, bad


def main(rounds=20, seed=0):
    g, u, b = 0, {}, []
    for i in range(rounds):
        x, y, z = round_(seed * 1000 + i)
        g += x
        for n in y: u[n] = u.get(n, 0) + 1
        b += z
    return g, u, b


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    g, u, b = main(int(sys.argv[1]) if len(sys.argv) > 1 else 20)
    print('%d cases, %d comparisons agree, %d disagree' % (len(CASES), g, len(b)))
    print('outside the symbolic torch:', dict(sorted(u.items())))
    for x in b[:40]: print('DISAGREE', x)
    sys.exit(1 if b else 0)

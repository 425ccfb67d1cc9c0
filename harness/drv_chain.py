"""Records chains of the real samplers step by step."""
import copy

import jax
import jax.numpy as jnp
import numpy as np

from harness import tables
from harness.util import *
from harness import drv_kernel


def spec_cfg(a, cfg):
  s = cfg.sampler
  n = prod(a['shape'])
  kind = a['kind']
  return {
      'kind': kind, 'K': a['K'], 'n': n, 'blk': int(s.get('block_size', 1)),
      'adaptive': bool(s.get('adaptive', False)), 'coopt': bool(a.get('co_opt', False)),
      'target': R(s.get('target_acceptance_rate', 0.0)),
      'schedule': int(s.get('schedule_step', 0)), 'reset': int(s.get('reset_z_est', 0)),
      'tau0': R(s.get('n', 3.0) if kind == 'dlmc' else 3.0),
      'numflips': int(s.get('num_flips', 1)),
      'exactratio': bool(a.get('exact_ratio', False)), 'ratiocalls': n + 1,
      'mask': a.get('mask') or [1] * n,
      'bal': s.get('balancing_fn_type', 'SQRT'), 'flat': int(bool(a.get('flat'))),
  }


def proj(state):
  g = lambda k, d: state[k] if k in state else d
  return {'steps': int(g('steps', -1)), 'calls': int(g('num_ll_calls', -1)),
          'index': int(g('index', 0)), 'radius': R(g('radius', 1.0)),
          'logtau': R(g('log_tau', 0.0)), 'logz': R(g('log_z', 0.0))}


def same(a, b):
  la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
  return int(len(la) == len(lb) and all(
      np.shape(u) == np.shape(v) and np.array_equal(np.asarray(u), np.asarray(v), equal_nan=True)
      for u, v in zip(la, lb)))


def one(rec, a, seed):
  K, shape = a['K'], tuple(a['shape'])
  n = prod(shape)
  rng = np.random.default_rng(seed)
  over = dict(a.get('over', {}))
  if 'bal' in a:
    over['balancing_fn_type'] = a['bal']
  cfg = sampler_config(a['kind'], shape, K, co_opt=a.get('co_opt', False), **over)
  sampler = build_sampler(cfg)
  if a.get('flat'):   # a large space with a constant target
    ll, gr = np.zeros(K), np.zeros((K, 1) if K == 2 else (K, 1, K))
  else:
    ll, gr = tables.random_target(rng, K, n, a.get('scale', 1.0), a.get('grad', 'random'))
  cls = tables.NeighbourModel if a.get('exact_ratio') else tables.TableModel
  if a.get('flat'):
    model = tables.GroupModel(K, shape, 1, ll, gr)
  else:
    model = cls(K, shape, ll, gr * a.get('gscale', 1.0))
  B = a.get('B', 3)
  state = sampler.make_init_state(jax.random.PRNGKey(seed))
  x = jnp.asarray(rng.integers(0, K, size=(B,) + shape), jnp.int32)
  flat = lambda v: Is(np.asarray(v).reshape(np.shape(v)[0], -1))
  rec('init', cfg=spec_cfg(a, cfg), ll=Rs(ll), gr=Rs(gr * a.get('gscale', 1.0)), st=proj(state),
      x=flat(x), label=a['label'])
  kw = {'x_mask': jnp.asarray(a['mask'], jnp.int32)} if a.get('mask') else {}

  def raw(key, x, state):
    return sampler.step(model=model, rng=key, x=x, model_param={}, state=state, **kw)
  step = jax.jit(raw)
  key = jax.random.PRNGKey(seed + 1)
  seats = {int(k): dict(v) for k, v in a.get('seats', {}).items()}
  # late in a long run: more steps and evaluations than short types can count
  if a.get('T', 24) <= 60:
    for t, k in ((10, 97), (13, 255), (16, 510), (19, 998)):
      seats.setdefault(t, {}).setdefault('steps', k)
  if a.get('T', 24) < 100:
    seats.setdefault(21, {}).update({'steps': 70001, 'num_ll_calls': 16777217})
  for t in range(a.get('T', 24)):
    if t in seats:
      state = dict(state)
      for k, v in seats[t].items():
        if k not in state:
          continue
        state[k] = jnp.asarray(v, jnp.int32 if k in ('steps', 'index', 'num_ll_calls') else jnp.float32)
      rec('seat', st=proj(state), label=a['label'])
    key = jax.random.fold_in(key, t)
    if t in a.get('twice', []):
      x0, s0 = np.array(x), {k: np.array(v) for k, v in state.items()}
      st1 = {k: jnp.array(v) for k, v in state.items()}
      xx = jnp.array(x)
      r1 = raw(key, xx, st1)
      kept = int(set(st1) == set(s0) and same(st1, {k: s0[k] for k in st1}) == 1)
      r2 = raw(key, jnp.array(x0), {k: jnp.array(v) for k, v in s0.items()})
      r3 = step(key, jnp.array(x0), {k: jnp.array(v) for k, v in s0.items()})
      rec('twice', samey=same(r1[0], r2[0]), samest=same(r1[1], r2[1]),
          sameacc=same(r1[2], r2[2]), jit=same(r1[0], r3[0]),
          xkept=same(xx, x0), stkept=kept, label=a['label'])
    y, state, acc = step(key, x, state)
    shapeok = int(np.shape(y) == np.shape(x))
    intok = int(np.issubdtype(np.asarray(y).dtype, np.integer))
    yy = np.asarray(y)
    if not np.all(np.isfinite(yy.astype(np.float64))):
      yy = np.full(np.shape(x), -1)
    rec('step', y=flat(np.round(yy).astype(np.int64)) if shapeok else [[0] * n], shapeok=shapeok,
        intok=intok, acc=R(np.asarray(acc)), st=proj(state), label=a['label'])
    x = y


def configs(tier):
  L = []
  T = 60 if tier == 'thorough' else 24
  def add(**a):
    a.setdefault('T', T)
    a.setdefault('twice', [0, 1, 5])
    a['label'] = ' '.join('%s=%s' % (k, v) for k, v in sorted(a.items()))
    a['sid'] = len(L)
    L.append(a)
  for B in (1, 3):
    for K, shape in ((2, [4]), (3, [3]), (2, [2, 2]), (5, [2])):
      for ad in (True, False):
        add(kind='randomwalk', K=K, shape=shape, B=B, over={'adaptive': ad}, scale=0.3)
      add(kind='gibbs', K=K, shape=shape, B=B)
  add(kind='randomwalk', K=2, shape=[4], B=4, over={'adaptive': True, 'target_acceptance_rate': 0.9}, scale=3.0,
      seats={'3': {'radius': 3.95}, '9': {'radius': 4.0}})
  for K, shape, blk in ((2, [4], 2), (2, [5], 2), (3, [3], 2), (2, [2, 2], 3), (3, [2, 2], 1), (2, [6], 4), (4, [2], 2)):
    for kind in ('blockgibbs', 'hammingball'):
      add(kind=kind, K=K, shape=shape, over={'block_size': blk}, B=3)
  for shape, B in (([4], 3), ([2, 3], 2), ([5], 1)):
    for nf in (1, 2, 3):
      add(kind='gwg', K=2, shape=shape, B=B, over={'adaptive': False, 'num_flips': nf}, bal='SQRT')
      add(kind='path_auxiliary', K=2, shape=shape, B=B, over={'adaptive': False, 'num_flips': nf}, bal='RATIO')
    add(kind='gwg', K=2, shape=shape, B=B, over={'adaptive': True}, bal='MIN', scale=0.2, gscale=0.3,
        seats={'12': {'radius': 2.5}, '16': {'radius': 3.9}})
    add(kind='path_auxiliary', K=2, shape=shape, B=B, over={'adaptive': True}, bal='MAX', scale=0.2, gscale=0.3,
        seats={'12': {'radius': 2.5}, '16': {'radius': 3.9}, '18': {'radius': float(prod(shape))}})
    add(kind='path_auxiliary', K=2, shape=shape, B=B, over={'adaptive': True, 'num_flips': 3, 'target_acceptance_rate': 0.95},
        bal='SQRT', scale=2.0)
    add(kind='gwg', K=2, shape=shape, B=B, over={'adaptive': True, 'target_acceptance_rate': 0.95},
        bal='SQRT', scale=3.0, gscale=3.0, seats={'8': {'radius': 1.2}, '14': {'radius': 1.02}})
  for K, shape in ((3, [3]), (4, [2, 2]), (5, [2])):
    for ad in (True, False):
      add(kind='gwg', K=K, shape=shape, B=3, over={'adaptive': ad}, bal='RATIO')
      add(kind='path_auxiliary', K=K, shape=shape, B=3, over={'adaptive': ad, 'num_flips': 2}, bal='SQRT',
          scale=0.3, gscale=0.3)
  for mask in ([1, 0, 1, 1, 1], [1, 1, 1, 1, 0], [0, 1, 1, 1, 0]):
    for ad in (True, False):
      add(kind='gwg', K=2, shape=[5], B=3, over={'adaptive': ad, 'num_flips': 2}, bal='SQRT', mask=mask,
          scale=0.2, gscale=0.3)
      add(kind='path_auxiliary', K=2, shape=[5], B=3, over={'adaptive': ad, 'num_flips': 2,
          'target_acceptance_rate': 0.8}, bal='SQRT', mask=mask, scale=0.6)
      for bal in ('SQRT', 'MIN'):
        add(kind='gwg', K=2, shape=[5], B=3, over={'adaptive': ad, 'num_flips': 2}, bal=bal, mask=mask, scale=0.2, grad='reluctant')
        add(kind='path_auxiliary', K=2, shape=[5], B=3, over={'adaptive': ad, 'num_flips': 2}, bal=bal, mask=mask, scale=0.2, grad='reluctant')
      for kind in ('gwg', 'path_auxiliary'):   # as at low temperature
        add(kind=kind, K=2, shape=[5], B=3, over={'adaptive': ad, 'num_flips': 2}, bal='SQRT', mask=mask, scale=0.2, grad='reluctant', gscale=100.0, T=16)
  add(kind='path_auxiliary', K=3, shape=[4], B=2, over={'adaptive': True, 'num_flips': 2, 'target_acceptance_rate': 0.9},
      bal='SQRT', mask=[1, 1, 0, 1], scale=0.6)
  add(kind='path_auxiliary', K=3, shape=[4], B=2, over={'adaptive': False, 'num_flips': 2},
      bal='SQRT', mask=[1, 1, 0, 1], scale=0.2, grad='reluctant')
  add(kind='path_auxiliary', K=3, shape=[4], B=2, over={'adaptive': False, 'num_flips': 2},
      bal='SQRT', mask=[1, 1, 0, 1], scale=0.2, grad='reluctant', gscale=100.0, T=16)
  add(kind='path_auxiliary', K=2, shape=[4], B=3, over={'adaptive': True, 'approx_with_grad': False},
      bal='SQRT', exact_ratio=True, grad='exact', scale=0.5)
  add(kind='path_auxiliary', K=2, shape=[4], B=1, over={'adaptive': False, 'num_flips': 2, 'approx_with_grad': False},
      bal='MIN', exact_ratio=True, grad='exact', scale=0.5)
  for kind in ('dmala', 'dlmc'):
    for K, shape, B in ((2, [4], 3), (2, [2, 2], 1), (3, [3], 3), (4, [2], 2)):
      for sch, rz in ((100, 20), (5, 3), (4, -1), (1, 4)):
        add(kind=kind, K=K, shape=shape, B=B, bal='SQRT', over={'adaptive': True, 'schedule_step': sch, 'reset_z_est': rz},
            seats={'15': {'log_tau': 1.0}, '18': {'log_tau': -6.0}, '20': {'log_tau': -6.0, 'log_z': -2.0}})
      add(kind=kind, K=K, shape=shape, B=B, bal='RATIO', over={'adaptive': False})
      add(kind=kind, K=K, shape=shape, B=B, bal='MAX', over={'adaptive': True}, co_opt=True)
    add(kind=kind, K=2, shape=[4], B=2, bal='MIN', over={'adaptive': True, 'schedule_step': 100, 'reset_z_est': 20}, T=130)
    add(kind=kind, K=2, shape=[4], B=2, bal='SQRT', over={'adaptive': True, 'target_acceptance_rate': 0.99,
        'schedule_step': 3, 'reset_z_est': 2}, scale=4.0, gscale=3.0)
    for K, shape in ((2, [4]), (3, [3])):   # a large batch
      add(kind=kind, K=K, shape=shape, B=70, bal='SQRT', over={'adaptive': True, 'schedule_step': 5, 'reset_z_est': 3}, T=8)
  for kind, over in (('randomwalk', {'adaptive': True}), ('gwg', {'adaptive': True}), ('path_auxiliary', {'adaptive': True})):
    add(kind=kind, K=2, shape=[4], B=70, bal='SQRT', over=over, T=8)
  for kind, over in (('gibbs', {}), ('blockgibbs', {'block_size': 3}), ('hammingball', {'block_size': 5})):
    add(kind=kind, K=2, shape=[2, 2, 2], B=2, over=over)
  # more coordinates or categories than a byte can count
  for K, shape in ((2, [300]), (2, [17, 16]), (300, [5])):
    for kind, over in (('randomwalk', {'adaptive': True}), ('randomwalk', {'adaptive': False}), ('gibbs', {}),
                       ('blockgibbs', {'block_size': 3 if K == 2 else 1}), ('hammingball', {'block_size': 7 if K == 2 else 2}),
                       ('gwg', {'adaptive': True, 'num_flips': 9}), ('gwg', {'adaptive': False, 'num_flips': 9}),
                       ('path_auxiliary', {'adaptive': True, 'num_flips': min(21, prod(shape) - 1)}),
                       ('path_auxiliary', {'adaptive': False, 'num_flips': min(21, prod(shape) - 1)}),
                       ('dmala', {'adaptive': True}), ('dlmc', {'adaptive': True}), ('dlmc', {'adaptive': False})):
      n = prod(shape)
      add(kind=kind, K=K, shape=shape, over=over, B=2, flat=True, twice=[0], T=23,
          seats={'3': {'radius': n - 0.1, 'index': n - 2, 'log_tau': -2.0}, '5': {'index': n // 2 - 1, 'radius': 0.9 * n},
                 '18': {'index': n - 1, 'radius': 1.3}})
  return L


def jumper(rec, seed):
  """The locally balanced sampler's own step: evaluations are those the model reports."""
  from discs.samplers import locallybalanced
  rng = np.random.default_rng(seed)
  ll, gr = tables.random_target(rng, 2, 4, 1.0, 'exact')
  model = tables.NeighbourModel(2, (4,), ll, gr)
  s = locallybalanced.build_sampler(sampler_config('locallybalanced', (4,), 2, balancing_fn_type='SQRT'))
  st = s.make_init_state(jax.random.PRNGKey(0))
  x = jnp.asarray(rng.integers(0, 2, (3, 4)), jnp.int32)
  calls = int(model.logratio_in_neighborhood({}, x)[2])
  seen = [int(st['num_ll_calls'])]
  for t in range(5):
    x, st = s.step(model, jax.random.PRNGKey(seed + t), x, {}, st)[:2]
    seen.append(int(st['num_ll_calls']))
  rec('jumper', calls=calls, seen=seen, label='locallybalanced')


def chains(rec, arg):
  L = configs(TIER)
  if arg['part'] == 0:
    try:
      jumper(rec, SEED * 1000)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised('locallybalanced', ex)
  for a in L[arg['part']::arg['parts']]:
    try:
      one(rec, a, SEED * 1000 + a['sid'])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(a['label'], ex)

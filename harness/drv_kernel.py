"""Drives real samplers on table models and counts one-step transitions."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

from harness import tables
from harness.util import *


def spec_cfg(a):
  """The specification's view of a configuration."""
  n = prod(a['shape'])
  c = {'kind': a['kind'], 'K': a['K'], 'n': n,
       'mask': a.get('mask') or [1] * n}
  k = a['kind']
  if k == 'randomwalk':
    c['radius'] = R(np.float32(a['radius']))
  if k in ('gibbs', 'blockgibbs', 'hammingball'):
    c['index'] = a.get('index', 0)
    c['blk'] = a.get('blk', 1)
  if k in ('gwg', 'path_auxiliary'):
    c['bal'] = a['bal']
    c['flips'] = a['eff_flips']
  if k in ('dmala', 'dlmc'):
    c['bal'] = a['bal']
    c['solver'] = a.get('solver', 'interpolate')
    c['taumode'] = a['taumode']
    c['logtau'] = R(np.float32(a.get('logtau', 0)))
    c['tau0'] = R(a.get('tau0', 3.0))
  return c


def make(a, rng):
  """Sampler, model, tuning state and target tables for configuration a."""
  K, shape = a['K'], tuple(a['shape'])
  n = prod(shape)
  over = dict(a.get('over', {}))
  if 'bal' in a:
    over['balancing_fn_type'] = a['bal']
  if 'blk' in a:
    over['block_size'] = a['blk']
  cfg = sampler_config(a['kind'], shape, K, co_opt=a.get('co_opt', False), **over)
  sampler = build_sampler(cfg)
  ll, gr = tables.random_target(rng, K, n, a.get('scale', 1.0),
                                a.get('grad', 'random'))
  # log-likelihoods are defined up to a constant, large ones included
  ll = (ll + (0, 300, -300)[a.get('sid', 0) % 3]).astype(np.float32)
  cls = tables.NeighbourModel if a.get('exact_ratio') else tables.TableModel
  model = cls(K, shape, ll, gr)
  state = dict(sampler.make_init_state(jax.random.PRNGKey(0)))
  for k, v in a.get('state', {}).items():
    if k in state:
      dt = jnp.int32 if k in ('steps', 'index', 'num_ll_calls') else jnp.float32
      state[k] = jnp.asarray(v, dt)
  return sampler, model, state, ll, gr


def one(rec, a, N, seed):
  K, shape = a['K'], tuple(a['shape'])
  n = prod(shape)
  rng = np.random.default_rng(seed)
  sampler, model, state, ll, gr = make(a, rng)
  st = tables.states(K, n)
  M = len(st)
  # several chains per call (all states at once, in a random order); single
  # chains when the tuning is re-normalised from the batch
  B = 1 if a.get('single') else M
  order = rng.permutation(M)
  mask = None
  if a.get('mask'):
    mask = jnp.asarray(a['mask'], jnp.int32)
  w = jnp.asarray([K ** (n - 1 - i) for i in range(n)], jnp.int32)

  def step(key, x):
    kw = {} if mask is None else {'x_mask': mask}
    y, _, acc = sampler.step(model=model, rng=key, x=x, model_param={},
                             state=dict(state), **kw)
    return y, acc

  def count(key, xs):
    """xs: [M] state numbers; returns dst index of each, -1 if outside."""
    x = jnp.asarray(st)[xs].reshape((-1,) + shape)
    if B == 1:
      keys = jax.random.split(key, M)
      y = jax.vmap(lambda k, v: step(k, v[None])[0][0])(keys, x)
    else:
      y, _ = step(key, x)
    y = jnp.reshape(y, (M, -1))
    ok = jnp.all((y >= 0) & (y < K) & (y == jnp.round(y)), -1)
    return jnp.where(ok, jnp.sum(y.astype(jnp.int32) * w, -1), -1)

  chunk = 2000
  reps = max(1, N // chunk)
  xs = jnp.asarray(order)

  @jax.jit
  def run(key):
    def body(cnt, k):
      ks = jax.random.split(k, chunk)
      dst = jax.vmap(lambda kk: count(kk, xs))(ks)      # chunk x M
      flat = xs[None] * (M + 1) + jnp.where(dst < 0, M, dst)
      c = jnp.zeros((M * (M + 1),), jnp.int32).at[flat.reshape(-1)].add(1)
      return cnt + c, None
    cnt0 = jnp.zeros((M * (M + 1),), jnp.int32)
    return jax.lax.scan(body, cnt0, jax.random.split(key, reps))[0]

  cnt = np.asarray(run(jax.random.PRNGKey(seed))).reshape(M, M + 1)
  rec('kernel', cfg=spec_cfg(a), ll=Rs(ll), gr=Rs(gr), N=chunk * reps,
      cnt=Is(cnt[:, :M]), outside=int(cnt[:, M].sum()),
      balance=int(a.get('balance', 1)), label=a['label'])

  if a.get('acc', True) and a['kind'] not in ('gibbs', 'blockgibbs', 'hammingball'):
    reps = 12
    ks = jax.random.split(jax.random.PRNGKey(seed + 7), M * reps).reshape(M, reps, -1)
    f = jax.jit(jax.vmap(jax.vmap(lambda k, v: step(k, v[None]), (0, None)), (0, 0)))
    y, acc = f(ks, jnp.asarray(st).reshape((M,) + shape))
    y = np.asarray(y).reshape(M, reps, n)
    acc = np.asarray(acc).reshape(M, reps)
    dst = (y * np.asarray(w)).sum(-1)
    obs = [[s + 1, int(dst[s, r]) + 1, R(acc[s, r])] for s in range(M)
           for r in range(reps)]
    rec('accs', cfg=spec_cfg(a), ll=Rs(ll), gr=Rs(gr), obs=obs, label=a['label'])


def kernels(rec, arg):
  for i, a in enumerate(arg['configs']):
    try:
      one(rec, a, arg['N'], SEED * 1000 + a['sid'])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(a['label'], ex)


def accepts(rec, arg):
  """Mean reported acceptance of batches of several chains."""
  for a in arg['configs']:
    try:
      seed = SEED * 1000 + a['sid']
      K, shape = a['K'], tuple(a['shape'])
      n = prod(shape)
      rng = np.random.default_rng(seed)
      sampler, model, state, ll, gr = make(a, rng)
      st = tables.states(K, n)
      kw = {'x_mask': jnp.asarray(a['mask'], jnp.int32)} if a.get('mask') else {}
      N = arg['N']
      obs = []
      for B in (2, 5):
        pick = rng.integers(0, len(st), size=B)
        x = jnp.asarray(st[pick].reshape((B,) + shape), jnp.int32)
        f = jax.jit(jax.vmap(lambda k: sampler.step(model=model, rng=k, x=x, model_param={}, state=dict(state), **kw)[2]))  # pylint: disable=cell-var-from-loop
        acc = np.asarray(f(jax.random.split(jax.random.PRNGKey(seed + B), N)), np.float64)
        obs.append({'chains': [int(v) + 1 for v in pick], 'acc': R(acc.reshape(N, -1).mean())})
      rec('meanacc', cfg=spec_cfg(a), ll=Rs(ll), gr=Rs(gr), N=N, obs=obs, label=a['label'])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(a['label'], ex)


def scale(rec, arg):
  """Many coordinates, categories and flips: exact samples must stay exact."""
  for a in arg['configs']:
    try:
      one_scale(rec, a, int(arg['N'] * a.get('n', 1)), SEED * 1000 + a['sid'])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(a['label'], ex)


def one_scale(rec, a, N, seed):
  K, shape, g = a['K'], tuple(a['shape']), a.get('g', 1)
  rng = np.random.default_rng(seed)
  over = dict(a.get('over', {}))
  for k, v in (('bal', 'balancing_fn_type'), ('blk', 'block_size')):
    if k in a:
      over[v] = a[k]
  sampler = build_sampler(sampler_config(a['kind'], shape, K, **over))
  if g == 1:
    # the value's density depends on its parity only
    ll = np.array([0.0, -a.get('gap', 0.8)])[np.arange(K) % 2].astype(np.float32)
    gr = (np.full((2, 1), 0.5 * (ll[1] - ll[0])) if K == 2 else
          0.7 * np.repeat(ll[None, None, :], K, 0))
  else:
    ll, gr = tables.random_target(rng, K, g, a.get('scale', 0.8), 'exact')
    gr = gr + rng.normal(size=gr.shape) * 0.2
  model = tables.GroupModel(K, shape, g, ll, gr)
  state = dict(sampler.make_init_state(jax.random.PRNGKey(0)))
  for k, v in a.get('state', {}).items():
    if k in state:
      state[k] = jnp.asarray(v, jnp.int32 if k in ('steps', 'index', 'num_ll_calls') else jnp.float32)
  scan = a['kind'] in ('gibbs', 'blockgibbs', 'hammingball')
  x0 = model.draw(rng, N)

  @jax.jit
  def run(key, x):
    def body(c, k):
      x, st = c
      y, new, acc = sampler.step(model=model, rng=k, x=x, model_param={}, state=dict(st))
      # tuning is held at the configured value, scans go on
      return (y.astype(x.dtype), dict(new) if scan else st), (jnp.mean(acc), jnp.any((y < 0) | (y >= K)))
    (y, _), (acc, out) = jax.lax.scan(body, (x, dict(state)), jax.random.split(key, a['T']))
    return y, acc, out

  y, acc, out = run(jax.random.PRNGKey(seed), jnp.asarray(x0))
  s0, s1 = np.asarray(model.copies(x0)), np.asarray(model.copies(y))
  L = K ** g
  y = np.clip(np.asarray(y), 0, K - 1).reshape(N, -1)
  x0 = x0.reshape(N, -1)
  moved = y != x0
  cnt = np.stack([(s1 == s).sum(0) for s in range(L)], 1)
  rec('scale', ll=Rs(ll), N=N, cnt=Is(cnt), moved=Is(moved.sum(0)), g=g, exch=int(a.get('exch', 1)),
      arrived=Is([(moved & (y == v)).sum() for v in range(K)]), parity=int(g == 1), steps=a['T'],
      outside=int(np.asarray(out).any()), acc=R(np.asarray(acc).mean()), label=a['label'])


def flat(rec, arg):
  """Constant target on a large space, all chains of the batch from one state."""
  for a in arg['configs']:
    try:
      one_flat(rec, a, arg['N'], SEED * 1000 + a['sid'])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(a['label'], ex)


def one_flat(rec, a, N, seed):
  K, shape = a['K'], tuple(a['shape'])
  D = prod(shape)
  rng = np.random.default_rng(seed)
  over = dict(a.get('over', {}))
  for k, v in (('bal', 'balancing_fn_type'), ('blk', 'block_size')):
    if k in a:
      over[v] = a[k]
  sampler = build_sampler(sampler_config(a['kind'], shape, K, **over))
  model = tables.GroupModel(K, shape, 1, np.zeros(K), np.zeros((K, 1) if K == 2 else (K, 1, K)))
  state = dict(sampler.make_init_state(jax.random.PRNGKey(0)))
  for k, v in a.get('state', {}).items():
    if k in state:
      state[k] = jnp.asarray(v, jnp.int32 if k in ('steps', 'index', 'num_ll_calls') else jnp.float32)
  scan = a['kind'] in ('gibbs', 'blockgibbs', 'hammingball')
  x0 = np.broadcast_to(rng.integers(0, K, size=shape), (N,) + shape).astype(np.int32)

  @jax.jit
  def run(key, x):
    def body(c, k):
      x, st = c
      y, new, acc = sampler.step(model=model, rng=k, x=x, model_param={}, state=dict(st))
      return (y.astype(x.dtype), dict(new) if scan else st), (y, jnp.min(acc))
    (y, _), (ys, acc) = jax.lax.scan(body, (x, dict(state)), jax.random.split(key, a['T']))
    return y, ys[0], acc

  y, y1, acc = run(jax.random.PRNGKey(seed), jnp.asarray(x0))
  moved = (np.asarray(y1) != x0).reshape(N, D)
  y = np.asarray(y).reshape(N, D)
  c = dict(spec_cfg(dict(a, shape=[1], eff_flips=a.get('flips', 1))), D=D)
  rec('flat', cfg=c, N=N, moved=[] if scan else Is(moved.sum(0)),
      sizes=sorted(set(int(v) for v in moved.sum(1))), twins=int(N - len(np.unique(y, axis=0))),
      changed=Is((y != x0.reshape(N, D)).sum(0)),
      shifts=Is(np.bincount((((y if scan else np.asarray(y1).reshape(N, D)) - x0.reshape(N, D)) % K).ravel(), minlength=K)[1:]), acc=R(np.asarray(acc).min()), label=a['label'])

"""Log-likelihoods, gradients, parameters and initial samples of the models."""
import jax
import jax.numpy as jnp
import numpy as np
from ml_collections import ConfigDict

from harness.util import *

MODELS = [
    # name, spec name, configuration
    ('bernoulli', 'bernoulli', dict(shape=(5,), num_categories=2, init_sigma=1.5)),
    ('bernoulli', 'bernoulli', dict(shape=(3, 4), num_categories=2, init_sigma=0.5)),
    ('bernoulli', 'bernoulli', dict(shape=(1,), num_categories=2, init_sigma=3.0)),
    ('categorical', 'categorical', dict(shape=(4,), num_categories=4, init_sigma=1.5)),
    ('categorical', 'categorical', dict(shape=(2, 3), num_categories=3, init_sigma=1.0)),
    ('categorical', 'categorical', dict(shape=(3,), num_categories=3, init_sigma=1.0)),
    ('ising', 'ising', dict(shape=(3, 3), num_categories=2, lambdaa=0.5, mu=0.5, init_sigma=1.5, external_field_type=1)),
    ('ising', 'ising', dict(shape=(2, 5), num_categories=2, lambdaa=1.0, mu=0.25, init_sigma=0.7, external_field_type=1)),
    ('ising', 'ising', dict(shape=(4, 2), num_categories=2, lambdaa=0.3, mu=0.0, init_sigma=0.0, external_field_type=1)),
    ('ising', 'ising', dict(shape=(1, 4), num_categories=2, lambdaa=0.3, mu=1.0, init_sigma=0.2, external_field_type=1)),
    ('potts', 'potts', dict(shape=(3, 3), num_categories=3, lambdaa=1.0, mu=0.5, init_sigma=1.5, external_field_type=1)),
    ('potts', 'potts', dict(shape=(2, 4), num_categories=4, lambdaa=0.5, mu=0.3, init_sigma=0.5, external_field_type=1)),
    ('potts', 'potts', dict(shape=(4, 2), num_categories=3, lambdaa=0.7, mu=0.3, init_sigma=0.5, external_field_type=1)),
    ('fhmm', 'fhmm2', dict(shape=(4, 3), num_categories=2, sigma=2.0, alpha=0.1, beta=0.8)),
    ('fhmm', 'fhmm2', dict(shape=(2, 5), num_categories=2, sigma=0.7, alpha=0.6, beta=0.3)),
    ('fhmm', 'fhmmK', dict(shape=(4, 2), num_categories=3, sigma=1.3, alpha=0.3, beta=0.8)),
    ('fhmm', 'fhmmK', dict(shape=(3, 4), num_categories=4, sigma=0.8, alpha=0.5, beta=0.4)),
    ('fhmm', 'fhmmK', dict(shape=(2, 3), num_categories=3, sigma=2.0, alpha=0.2, beta=0.7)),
    ('rbm', 'rbm2', dict(shape=(5,), num_visible=5, num_hidden=3, num_categories=2)),
    ('rbm', 'rbm2', dict(shape=(3,), num_visible=3, num_hidden=4, num_categories=2)),
    ('rbm', 'rbmK', dict(shape=(3,), num_visible=3, num_hidden=2, num_categories=4)),
    ('rbm', 'rbmK', dict(shape=(4,), num_visible=4, num_hidden=3, num_categories=3)),
    ('rbm', 'rbmK', dict(shape=(3,), num_visible=3, num_hidden=2, num_categories=3)),
    ('rbm', 'rbmK', dict(shape=(3,), num_visible=3, num_hidden=3, num_categories=3)),
    # large ones
    ('bernoulli', 'bernoulli', dict(shape=(300,), num_categories=2, init_sigma=1.0)),
    ('categorical', 'categorical', dict(shape=(20, 3), num_categories=40, init_sigma=1.0)),
    ('categorical', 'categorical', dict(shape=(3,), num_categories=300, init_sigma=1.0)),
    ('ising', 'ising', dict(shape=(11, 26), num_categories=2, lambdaa=0.5, mu=0.5, init_sigma=1.5, external_field_type=1)),
    ('potts', 'potts', dict(shape=(7, 6), num_categories=12, lambdaa=0.5, mu=0.5, init_sigma=1.5, external_field_type=1)),
    ('fhmm', 'fhmm2', dict(shape=(60, 4), num_categories=2, sigma=1.5, alpha=0.2, beta=0.8)),
    ('fhmm', 'fhmmK', dict(shape=(30, 3), num_categories=7, sigma=1.3, alpha=0.3, beta=0.8)),
    ('potts', 'potts', dict(shape=(2, 2), num_categories=300, lambdaa=0.5, mu=0.5, init_sigma=1.5, external_field_type=1)),
    ('fhmm', 'fhmmK', dict(shape=(2, 2), num_categories=140, sigma=1.3, alpha=0.3, beta=0.8)),
    ('rbm', 'rbmK', dict(shape=(2,), num_visible=2, num_hidden=3, num_categories=270)),
    ('rbm', 'rbm2', dict(shape=(50,), num_visible=50, num_hidden=70, num_categories=2)),
    ('rbm', 'rbmK', dict(shape=(12,), num_visible=12, num_hidden=40, num_categories=6)),
]


def make(name, kw):
  cfg = base_config()
  cfg.model.update(ConfigDict(dict(kw, name=name)))
  return build_model(cfg)


def spec_params(spec, m, kw, params, rng):
  """Random parameters: (for the model, for the specification)."""
  sh = kw['shape']
  if spec in ('bernoulli', 'categorical'):
    th = np.asarray(params['params'])
    th = (th + rng.normal(size=th.shape) * 0.5).astype(np.float32)
    flat = th.reshape(-1) if spec == 'bernoulli' else th.reshape(-1, kw['num_categories'])
    return {'params': jnp.asarray(th)}, {'th': Rs(flat)}
  if spec in ('ising', 'potts'):
    th = np.asarray(params['params'])
    th = (th + rng.normal(size=th.shape) * 0.5).astype(np.float32)
    return {'params': jnp.asarray(th)}, {'wh': Rs(th[0]), 'wv': Rs(th[1]), 'b': Rs(th[2])}
  if spec in ('fhmm2', 'fhmmK'):
    p = {k: np.asarray(v) for k, v in params.items()}
    sp = dict(sigma=R(kw['sigma']), b=R(p['b'].reshape(-1)[0]), y=Rs(p['y'].reshape(-1)), beta=R(kw['beta']))
    if spec == 'fhmm2':
      sp.update(alpha=R(kw['alpha']), w=Rs(p['w'].reshape(-1)))
    else:
      sp.update(la=Rs(p['alpha'].reshape(-1)), ncat=kw['num_categories'], w=Rs(p['w']))
    return params, sp
  if spec == 'rbm2':
    nv, nh = kw['num_visible'], kw['num_hidden']
    w, bv, bh = rng.normal(size=(nv, nh)) * 1.5, rng.normal(size=(nv,)), rng.normal(size=(nh,))
  else:
    nv, nh = kw['num_visible'], kw['num_hidden']
    w = rng.normal(size=(nh, nv, kw['num_categories'])) * 1.5
    bv, bh = rng.normal(size=(nv, kw['num_categories'])), rng.normal(size=(nh,))
  w, bv, bh = w.astype(np.float32), bv.astype(np.float32), bh.astype(np.float32)
  return ({'w': jnp.asarray(w), 'b_v': jnp.asarray(bv), 'b_h': jnp.asarray(bh)},
          {'w': Rs(w), 'bv': Rs(bv), 'bh': Rs(bh)})


def _samples(rng, n, shape, K):
  x = rng.integers(0, K, size=(n,) + shape)
  x[0] = 0
  x[1] = K - 1
  x[2] = np.arange(prod(shape)).reshape(shape) % K   # checkerboard-like
  return x.astype(np.int32)


def energies(rec, arg):
  for idx, (name, spec, kw) in enumerate(MODELS):
    if idx % arg['parts'] != arg['part']:
      continue
    rng = np.random.default_rng(SEED * 1000 + idx)
    K = kw['num_categories']
    sh = tuple(kw['shape'])
    for rep in range(arg['reps']):
      try:
        m = make(name, kw)
        if name == 'rbm':
          raw = {}
        else:
          raw = m.make_init_params(jax.random.PRNGKey(SEED * 10 + rep))
        params, sp = spec_params(spec, m, kw, raw, rng)
        n = arg['n'] if prod(sh) < 30 and K < 30 else 5
        x = _samples(rng, n, sh, K)
        onehot = np.eye(K, dtype=np.float32)[x]
        outs = [m.forward(params, jnp.asarray(x)), jax.jit(m.forward)(params, jnp.asarray(x))]
        if K == 2:
          outs.append(m.forward(params, jnp.asarray(x, jnp.float32)))
          v, g = m.get_value_and_grad(params, jnp.asarray(x))
        else:
          outs.append(m.forward(params, jnp.asarray(onehot)))
          v, g = m.get_value_and_grad(params, jnp.asarray(onehot))
        outs.append(v)
        v2, _ = jax.jit(m.get_value_and_grad)(params, jnp.asarray(x if K == 2 else onehot))
        outs.append(v2)
        # one sample at a time, and in reversed order
        outs.append(jnp.concatenate([m.forward(params, jnp.asarray(x[i:i + 1])) for i in range(n)]))
        outs.append(m.forward(params, jnp.asarray(x[::-1]))[::-1])
        # inside a large batch
        many = np.concatenate([np.roll(x, 1, 0)] * (260 // n + 1) + [x])
        outs.append(m.forward(params, jnp.asarray(many))[-n:])
        outs = [np.asarray(o) for o in outs]
        if any(o.shape != (n,) for o in outs):
          raise ValueError('log-likelihood shapes %s' % [o.shape for o in outs])
        rows = []
        g = np.asarray(g)
        gsh = sh + (() if K == 2 else (K,))
        if g.shape != (n,) + gsh:
          raise ValueError('gradient shape %s' % (g.shape,))
        for i in range(n):
          xi, gi = x[i], g[i]
          if spec == 'bernoulli':
            xi, gi = xi.reshape(-1), gi.reshape(-1)
          elif spec == 'categorical':
            xi, gi = xi.reshape(-1), gi.reshape(-1, K)
          rows.append({'x': Is(xi), 'vals': [R(o[i]) for o in outs], 'gr': Rs(gi)})
        rec('energy', label='%s %s' % (name, kw), m=spec, p=sp, rows=rows)
      except Exception as ex:
        rec.raised('%s %s' % (name, kw), ex)


def resnet_reference(params, x, image_shape, data_mean=None):
  """The network in numpy: 3x3 convolution, two strided and six plain residual blocks, mean, linear."""
  f64 = lambda v: np.asarray(v, np.float64)
  swish = lambda v: v / (1 + np.exp(-v))

  def conv(p, v, stride=1):
    k, b = f64(p['kernel']), f64(p['bias'])
    kh, kw = k.shape[:2]
    v = np.pad(v, ((0, 0), (kh // 2,) * 2, (kw // 2,) * 2, (0, 0)))
    ho, wo = (v.shape[1] - kh) // stride + 1, (v.shape[2] - kw) // stride + 1
    out = np.zeros((v.shape[0], ho, wo, k.shape[3])) + b
    for i in range(kh):
      for j in range(kw):
        out += v[:, i:i + stride * (ho - 1) + 1:stride, j:j + stride * (wo - 1) + 1:stride] @ k[i, j]
    return out
  v = conv(params['Conv_0'], f64(x).reshape((len(x),) + tuple(image_shape) + (1,)))
  for l in range(8):
    p, stride = params['BasicBlock_%d' % l], 2 if l < 2 else 1
    out = conv(p['Conv_1'], swish(conv(p['Conv_0'], v, stride)))
    v = swish(out + (conv(p['shortcut_conv'], v, stride) if stride != 1 else v))
  e = (v.mean(axis=(1, 2)) @ f64(params['Dense_0']['kernel']) + f64(params['Dense_0']['bias']))[:, 0]
  if data_mean is not None:
    m = f64(np.asarray(data_mean, np.float32))
    e = e + (x * np.log(m + 1e-20) + (1 - x) * np.log(1 - m + 1e-20)).sum(-1)
  return e


def net(rec, arg):
  """Resnet EBM: reference network, entry points and derivative."""
  rng = np.random.default_rng(SEED)
  for rep, dm in enumerate((None, True, 'edge')):
    try:
      sh = (36,)
      kw = dict(shape=sh, num_categories=2, n_channels=4, image_shape=(6, 6))
      if dm:
        mean = rng.uniform(0.1, 0.9, size=36)
        if dm == 'edge':  # pixels that are the same in all images
          mean[3], mean[17] = 0.0, 1.0
        kw['data_mean'] = tuple(float(v) for v in mean)
      m = make('resnet', kw)
      params = m.make_init_params(jax.random.PRNGKey(SEED))
      params = jax.tree_util.tree_map(lambda v: v + 0.3 * jnp.asarray(rng.normal(size=v.shape), jnp.float32), params)
      x = _samples(rng, 5, sh, 2)
      if dm == 'edge':
        x[0, 17], x[1, 17], x[0, 3], x[1, 3] = 1, 0, 0, 1
      outs = [resnet_reference(params, x, (6, 6), kw.get('data_mean')), m.forward(params, jnp.asarray(x, jnp.float32)), jax.jit(m.forward)(params, jnp.asarray(x)),
              m.forward(params, jnp.asarray(x))]
      v, g = m.get_value_and_grad(params, jnp.asarray(x))
      outs.append(v)
      outs.append(jnp.concatenate([m.forward(params, jnp.asarray(x[i:i + 1])) for i in range(5)]))
      rows = []
      for i in range(5):
        dirs = []
        for _ in range(3):
          d = rng.normal(size=sh).astype(np.float32)
          d /= np.linalg.norm(d)
          h = 1e-5
          f = resnet_reference(params, np.stack([x[i] + h * d, x[i] - h * d]), (6, 6), kw.get('data_mean'))
          dirs.append([R((f[0] - f[1]) / (2 * h)), R(float(np.asarray(g)[i].reshape(-1) @ d))])
        rows.append({'vals': [R(np.asarray(o)[i]) for o in outs], 'dir': dirs})
      rec('net', m='resnet', rows=rows)
    except Exception as ex:
      rec.raised('resnet', ex)


def _outcomes(x, K):
  """Row-major index of each flattened sample, -1 if outside the domain."""
  x = np.asarray(x).reshape(x.shape[0], -1)
  ok = np.all((x >= 0) & (x < K) & (x == np.round(x)), axis=1)
  w = np.array([K ** (x.shape[1] - 1 - i) for i in range(x.shape[1])])
  q = (x.astype(np.int64) * w).sum(1)
  return np.where(ok, q, -1)


def _record_samples(rec, label, m, K, shape, law, N, pm=None, key=3):
  """Joint law of initial samples drawn in one call, and across keys."""
  n = prod(shape)
  for mode in ('one call', 'many keys'):
    if mode == 'one call':
      x = m.get_init_samples(jax.random.PRNGKey(SEED + key), N)
      sok = tuple(x.shape) == (N,) + tuple(shape)
    else:
      f = jax.jit(jax.vmap(lambda k: m.get_init_samples(k, 2)))
      x = f(jax.random.split(jax.random.PRNGKey(SEED + key + 1), N // 2))
      sok = tuple(x.shape) == (N // 2, 2) + tuple(shape)
    iok = jnp.issubdtype(x.dtype, jnp.integer)
    x = np.asarray(x).reshape((-1, n))
    q = _outcomes(x, K)
    cnt = np.bincount(q[q >= 0], minlength=K ** n)
    e = dict(m=label + ' (' + mode + ')', K=K, n=n, law=law, N=int(len(q)), shape_ok=int(sok), int_ok=int(iok),
             other=int((q < 0).sum()), cnt=Is(cnt))
    if pm is not None:
      e['pm'] = Rs(pm)
    rec('sample', **e)


def inits(rec, arg):
  N = arg['N']
  rng = np.random.default_rng(SEED + 77)
  small = [
      ('bernoulli', dict(shape=(2, 2), num_categories=2, init_sigma=1.0)),
      ('categorical', dict(shape=(3,), num_categories=3, init_sigma=1.0)),
      ('ising', dict(shape=(2, 2), num_categories=2, lambdaa=1.0, mu=1.0, init_sigma=1.0)),
      ('potts', dict(shape=(1, 3), num_categories=3, lambdaa=1.0, mu=1.0, init_sigma=1.0)),
      ('fhmm', dict(shape=(2, 2), num_categories=2, sigma=1.0, alpha=0.1, beta=0.8)),
      ('fhmm', dict(shape=(1, 2), num_categories=4, sigma=1.0, alpha=0.1, beta=0.8)),
      ('rbm', dict(shape=(4,), num_visible=4, num_hidden=2, num_categories=2)),
      ('rbm', dict(shape=(2,), num_visible=2, num_hidden=2, num_categories=4)),
      ('resnet', dict(shape=(4,), num_categories=2, n_channels=2, image_shape=(2, 2))),
  ]
  for name, kw in small:
    try:
      _record_samples(rec, '%s K=%d' % (name, kw['num_categories']), make(name, kw), kw['num_categories'], kw['shape'], 'uniform', N)
    except Exception as ex:
      rec.raised('initial samples of %s' % name, ex)
  # many values
  for name, kw in (
      ('categorical', dict(shape=(1,), num_categories=300, init_sigma=1.0)),
      ('potts', dict(shape=(1, 1), num_categories=300, lambdaa=1.0, mu=1.0, init_sigma=1.0)),
      ('fhmm', dict(shape=(1, 1), num_categories=300, sigma=1.0, alpha=0.3, beta=0.7)),
      ('rbm', dict(shape=(1,), num_visible=1, num_hidden=2, num_categories=300))):
    try:
      _record_samples(rec, '%s K=300' % name, make(name, kw), 300, kw['shape'], 'uniform', N)
    except Exception as ex:
      rec.raised('initial samples of %s' % name, ex)
  # trained networks start from the data mean
  for name, kw, pm in (
      ('rbm', dict(shape=(3,), num_visible=3, num_hidden=2, num_categories=2), np.array([0.1, 0.5, 0.85])),
      ('resnet', dict(shape=(4,), num_categories=2, n_channels=2, image_shape=(2, 2)), np.array([0.05, 0.3, 0.6, 0.9])),
      ('rbm', dict(shape=(2,), num_visible=2, num_hidden=2, num_categories=3), np.array([[0.2, 0.3, 0.5], [0.7, 0.2, 0.1]]))):
    try:
      K = kw['num_categories']
      fresh = make(name, kw)
      params = jax.device_get(fresh.make_init_params(jax.random.PRNGKey(SEED)))
      params = dict(params)
      params['data_mean'] = pm.tolist() if K == 2 else pm.astype(np.float32)
      m = make_trained(name, kw, params)
      _record_samples(rec, '%s data mean K=%d' % (name, K), m, K, kw['shape'], 'product', N,
                      pm=(np.stack([1 - pm, pm], -1) if K == 2 else pm))
      got = m.make_init_params(jax.random.PRNGKey(SEED + 5))
      same = all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(
          jax.tree_util.tree_leaves({k: v for k, v in got.items() if k != 'data_mean'}),
          jax.tree_util.tree_leaves({k: v for k, v in params.items() if k != 'data_mean'})))
      ll = np.asarray(m.forward(got, m.get_init_samples(jax.random.PRNGKey(1), 3)))
      rec('netparams', m=name, loaded=int(same), fresh=int(ll.shape == (3,) and np.all(np.isfinite(ll))))
    except Exception as ex:
      rec.raised('trained %s' % name, ex)
  # normalised cut
  try:
    import shutil
    from harness import graphs
    for n, K in ((4, 3), (5, 2)):
      root = graphs.scratch()
      f = graphs.write('nets', root, [graphs.rand_graph(rng, n, 0.6)], [1.0])
      m = build_model(graphs.config('nets', root, f, 1, K=K, penalty=0.0, tolerance=0.03))
      _record_samples(rec, 'normcut n=%d K=%d' % (n, K), m, K, (n,), 'cover', N)
      shutil.rmtree(root)
    # binary graph problems
    for kind in ('er', 'ertest', 'rb'):
      root = graphs.scratch()
      f = graphs.write(kind, root, [graphs.rand_graph(rng, 4, 0.6, graphs.WEIGHTS['unit'])], [1.0])
      m = build_model(graphs.config(kind, root, f, 1, K=2))
      _record_samples(rec, graphs.PROBLEM[kind], m, 2, (4,), 'uniform', N)
      shutil.rmtree(root)
  except Exception as ex:
    rec.raised('initial samples of graph models', ex)


def make_trained(name, kw, params):
  """A network model read back from a data_path, as the experiments do."""
  import os
  import pickle
  import shutil
  import tempfile
  d = tempfile.mkdtemp(prefix='trained-', dir=os.getcwd())
  cfg = base_config()
  cfg.model.update(ConfigDict(dict(kw, name=name)))
  with open(os.path.join(d, 'params.pkl'), 'wb') as f:
    pickle.dump({'params': params}, f)
  with open(os.path.join(d, 'config.yaml'), 'w') as f:
    f.write(cfg.to_yaml())
  cfg2 = base_config()
  cfg2.model.update(ConfigDict(dict(name=name, data_path=d, num_categories=kw['num_categories'])))
  m = build_model(cfg2)
  shutil.rmtree(d)
  return m


def laws(rec, arg):
  N = arg['N']
  rng = np.random.default_rng(SEED + 78)
  for name, kw in (
      ('ising', dict(shape=(16, 16), num_categories=2, lambdaa=0.5, mu=0.5, init_sigma=1.5)),
      ('ising', dict(shape=(12, 20), num_categories=2, lambdaa=1.0, mu=2.0, init_sigma=0.3)),
      ('ising', dict(shape=(7, 3), num_categories=2, lambdaa=0.25, mu=1.0, init_sigma=0.0)),
      ('potts', dict(shape=(10, 10), num_categories=4, lambdaa=1.0, mu=0.5, init_sigma=1.5)),
      ('potts', dict(shape=(6, 12), num_categories=3, lambdaa=0.4, mu=-0.5, init_sigma=0.2))):
    try:
      th = np.asarray(make(name, kw).make_init_params(jax.random.PRNGKey(SEED + 2))['params'])
      rec('lattice', m=name, wh=Rs(th[0]), wv=Rs(th[1]), b=Rs(th[2]), lam=R(kw['lambdaa']), mu=R(kw['mu']), sig=R(kw['init_sigma']))
    except Exception as ex:
      rec.raised('parameters of %s' % name, ex)
  for name, kw in (('bernoulli', dict(shape=(4000,), num_categories=2, init_sigma=0.5)),
                   ('bernoulli', dict(shape=(40, 50), num_categories=2, init_sigma=2.0)),
                   ('categorical', dict(shape=(1000,), num_categories=4, init_sigma=1.5))):
    try:
      m = make(name, kw)
      th = np.asarray(m.make_init_params(jax.random.PRNGKey(SEED + 2))['params'], np.float64)
      ok = th.shape == tuple(kw['shape']) + (() if name == 'bernoulli' else (kw['num_categories'],))
      if not ok:
        raise ValueError('parameter shape %s' % (th.shape,))
      rec('normal', m=name, sig=R(kw['init_sigma']), n=th.size, mean=R(th.mean()), var=R((th ** 2).mean()),
          pairs=[[int(np.diff(th > 0, axis=k).size), int((~np.diff(th > 0, axis=k)).sum())] for k in range(th.ndim)])
      if name == 'bernoulli':
        p = {'params': jnp.asarray(np.concatenate([th.reshape(-1)[:20], [-12., 0., 12., 30.]]), jnp.float32)}
        rec('expval', th=Rs(p['params']), mean=Rs(m.get_expected_val(p)), var=Rs(m.get_var(p)))
    except Exception as ex:
      rec.raised('parameters of %s' % name, ex)
  # RBM conditionals; as many hidden as visible units, or fewer
  for nh in (2, 3):
    try:
      kw = dict(shape=(3,), num_visible=3, num_hidden=nh, num_categories=2)
      m = make('rbm', kw)
      from discs.samplers import blockgibbs
      smp = blockgibbs.RBMBlockGibbsSampler(base_config().sampler)
      params, sp = spec_params('rbm2', m, kw, None, rng)
      keys = jax.random.split(jax.random.PRNGKey(SEED + 9 + nh), N)
      V = [(q >> 2 & 1, q >> 1 & 1, q & 1) for q in range(8)]
      H = [(q >> 1 & 1, q & 1) for q in range(4)] if nh == 2 else V
      hv, vh, sw = [], [], []
      # both rows of a batch of two, so that row mixing shows
      for v in V[::2] + V[7:]:
        vb = jnp.asarray([v, (1, 0, 0)], jnp.int32)
        o = jax.jit(jax.vmap(lambda k: m.step_h(params, k, vb)))(keys)[:, 0]
        hv.append({'v': list(v), 'cnt': Is(np.bincount(_outcomes(np.asarray(o).astype(int), 2), minlength=2 ** nh))})
        o = jax.jit(jax.vmap(lambda k: smp.step(m, k, vb, params, smp.make_init_state(k))[0]))(keys)[:, 0]
        sw.append({'v': list(v), 'cnt': Is(np.bincount(_outcomes(np.asarray(o).astype(int), 2), minlength=8))})
      for h in H:
        hb = jnp.asarray([h, H[2]], jnp.int32)
        o = jax.jit(jax.vmap(lambda k: m.step_v(params, k, hb)))(keys)[:, 0]
        vh.append({'h': list(h), 'cnt': Is(np.bincount(_outcomes(np.asarray(o).astype(int), 2), minlength=8))})
      rec('rbm', p=sp, N=N, h=hv, v=vh, s=sw)
    except Exception as ex:
      rec.raised('RBM conditionals', ex)
  # FHMM synthetic data
  import itertools
  for K, k, alpha, beta in ((2, 2, 0.1, 0.8), (2, 1, 0.4, 0.3), (3, 1, 0.3, 0.8), (3, 2, 0.5, 0.4)):
    try:
      L, M = 13, N // 10
      m = make('fhmm', dict(shape=(L, k), num_categories=K, sigma=1e-5, alpha=alpha, beta=beta))
      def f(key):
        p = m.make_init_params(key)
        return p['y'].reshape(-1), p['w'].reshape(k, -1), p['b'].reshape(-1)[0], p.get('alpha', jnp.zeros(K)).reshape(-1)
      y, w, b, la = [np.asarray(a, np.float64) for a in jax.jit(jax.vmap(f))(jax.random.split(jax.random.PRNGKey(SEED), M))]
      combos = np.array(list(itertools.product(range(K), repeat=k)))
      if K == 2:
        sig = (w[:, :, 0] @ combos.T)
      else:
        sig = sum(w[:, j][:, combos[:, j]] for j in range(k))
      d = np.abs((y - b[:, None])[:, :, None] - sig[:, None, :])
      x = combos[d.argmin(-1)]
      sep = np.sort(np.abs(sig[:, :, None] - sig[:, None, :]).reshape(M, -1), -1)[:, len(combos)] > 1e-3
      unexplained = int((d.min(-1) > 2e-4).sum())
      x = x[sep]
      tr = np.zeros((K, K), int)
      np.add.at(tr, (x[:, :-1].reshape(-1), x[:, 1:].reshape(-1)), 1)
      stay = x[:, 1:] == x[:, :-1]
      both = [[int((stay[:, d:] & stay[:, :-d]).sum()), int(stay[:, d:].size)] for d in (1, 2, 5)]
      late = stay[:, 7:]
      both.append([int((late[:, 1:] & late[:, :-1]).sum()), int(late[:, 1:].size)])
      if k > 1:
        both.append([int((stay[..., 0] & stay[..., 1]).sum()), int(stay[..., 0].size)])
      x1o = int((x[:, 0] == 1).sum())
      x1e = float(np.exp(la[sep, 1]).sum() * k) if K > 2 else alpha * x.shape[0] * k
      m2 = make('fhmm', dict(shape=(3000, k), num_categories=K, sigma=0.5, alpha=1e-9, beta=1 - 1e-7))
      p2 = m2.make_init_params(jax.random.PRNGKey(SEED + 1))
      y2 = np.asarray(p2['y'], np.float64).reshape(-1)
      rec('fhmm', label='K=%d chains=%d' % (K, k), alpha=R(alpha), beta=R(beta), x0=Is(np.bincount(x[:, 0].reshape(-1), minlength=K)),
          N0=int(x.shape[0] * k), tr=Is(tr), both=both, unexplained=unexplained, la=([] if K == 2 else Rs(la[:50])),
          x1obs=x1o, x1exp=R(x1e), sigma='0.5', sd=R(y2.std()))
    except Exception as ex:
      rec.raised('FHMM data K=%d' % K, ex)

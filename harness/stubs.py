"""Scripted model, sampler and saver to drive the real experiment classes.

Every sampler step reports its inputs and outputs through a host callback, so
the recording is the same under jit, vmap and pmap.
"""
import time

import jax
import jax.numpy as jnp
import numpy as np

LOG = []


def report(**kw):
  names = sorted(kw)

  def cb(*vals):
    LOG.append({k: np.array(v) for k, v in zip(names, vals)})
  jax.debug.callback(cb, *[kw[k] for k in names])


class Sampler:
  """Resamples every coordinate with probability 1/2."""

  def __init__(self, K, calls=3, delay=0):
    self.K, self.calls, self.delay = K, calls, delay

  def make_init_state(self, rng):
    return {'steps': jnp.zeros((), jnp.int32), 'num_ll_calls': jnp.zeros((), jnp.int32),
            'birth': jnp.ravel(jnp.asarray(rng))[-1].astype(jnp.uint32)}

  def step(self, model, rng, x, model_param, state, x_mask=None):
    if self.delay:  # while tracing
      time.sleep(self.delay)
    k = jnp.ravel(rng)[-2:]
    k1, k2, k3 = jax.random.split(k, 3)
    new = jax.random.randint(k1, x.shape, 0, self.K).astype(x.dtype)
    y = jnp.where(jax.random.bernoulli(k2, 0.5, x.shape), new, x)
    acc = jax.random.uniform(k3)
    report(ident=model.ident(model_param), T=model.temperature(model_param), step=state['steps'], x=x, y=y, key=k, acc=acc,
           mask=x_mask if x_mask is not None else jnp.zeros((0,), jnp.int32), calls=state['num_ll_calls'], birth=state['birth'])
    new_state = dict(state, steps=state['steps'] + 1, num_ll_calls=state['num_ll_calls'] + self.calls)
    return y, new_state, acc


class COModel:
  """Linear objectives; the instance stream is given."""

  def __init__(self, batches, K, shape):
    self.batches, self.K, self.shape = list(batches), K, tuple(shape)
    self.inits = []
    self.served = 0

  def ident(self, p):
    return p['ident']

  def temperature(self, p):
    return p['temperature']

  def make_init_params(self, rng):
    if self.served >= len(self.batches):
      return None
    b = self.batches[self.served]
    self.served += 1
    return b

  def get_init_samples(self, rng, num_samples):
    x = jax.random.randint(rng, (num_samples,) + self.shape, 0, self.K)
    self.inits.append(np.array(x))
    return x

  def forward(self, params, x):
    return self.evaluate(params, x) / params['temperature']

  def evaluate(self, params, x):
    x = x.astype(jnp.float32).reshape(x.shape[0], -1)
    return x @ params['w'] + params['c']


class PlainModel:
  """One set of parameters; values are never used."""

  def __init__(self, K, shape):
    self.K, self.shape = K, tuple(shape)
    self.inits, self.params = [], None

  def ident(self, p):
    return jnp.zeros((), jnp.int32)

  def temperature(self, p):
    return jnp.zeros(())

  def make_init_params(self, rng):
    self.params = jax.random.normal(jnp.ravel(rng)[-2:], self.shape)
    return {'params': self.params}

  def get_init_samples(self, rng, num_samples):
    x = jax.random.randint(rng, (num_samples,) + self.shape, 0, self.K)
    self.inits.append(np.array(x))
    return x

  def forward(self, params, x):
    return jnp.sum(params['params'] * x, axis=tuple(range(1, x.ndim)))


class AisModel(PlainModel):
  """Linear base and target log-likelihoods."""

  def __init__(self, K, shape, wb, wt, ct):
    super().__init__(K, shape)
    self.wb, self.wt, self.ct = jnp.asarray(wb), jnp.asarray(wt), ct

  def temperature(self, p):
    return p['temperature']

  def make_init_params(self, rng):
    return {'params': jnp.zeros(self.shape)}

  def forward(self, params, x):
    b = params['temperature']
    x = x.reshape(x.shape[0], -1).astype(jnp.float32)
    return (1 - b) * (x @ self.wb) + b * (x @ self.wt + self.ct)


class Evaluator:
  """Records what the real evaluator is given."""

  def __init__(self, real):
    self.real, self.seen = real, []

  def evaluate(self, *a, **k):
    jax.debug.callback(lambda v: self.seen.append(np.array(v)), k.get('samples', a[0] if a else None))
    return self.real.evaluate(*a, **k)

  def __getattr__(self, name):
    return getattr(self.real, name)


class Saver:
  """Records what the experiments hand over."""

  def __init__(self):
    self.calls = []

  def __getattr__(self, name):
    if name.startswith('_'):
      raise AttributeError(name)

    def f(*a, **k):
      self.calls.append((name, jax.tree_util.tree_map(lambda v: np.array(v), a), k))
    return f

"""Table model: an arbitrary target and gradient field on a finite space."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np


def states(K, n):
  return np.array(list(itertools.product(range(K), repeat=n)), dtype=np.int32)


class TableModel:
  """log-density and gradient by lookup; accepts int, float or one-hot x."""

  def __init__(self, K, shape, ll, gr):
    self.K, self.shape = K, tuple(shape)
    self.n = int(np.prod(shape))
    self.ll = jnp.asarray(ll, jnp.float32)
    self.gr = jnp.asarray(gr, jnp.float32)
    self.w = jnp.asarray([K ** (self.n - 1 - i) for i in range(self.n)],
                         jnp.int32)

  def _idx(self, x):
    x = jnp.asarray(x)
    onehot = x.ndim == 2 + len(self.shape)
    if onehot:
      x = jnp.argmax(x, axis=-1)
    x = jnp.reshape(x, (x.shape[0], -1))
    return jnp.sum(jnp.round(x).astype(jnp.int32) * self.w, -1), onehot

  def forward(self, params, x):
    return self.ll[self._idx(x)[0]]

  def get_value_and_grad(self, params, x):
    i, _ = self._idx(x)
    x = jnp.asarray(x)
    g = self.gr[i]
    tail = (self.K,) if self.K > 2 else ()
    return self.ll[i], jnp.reshape(g, (x.shape[0],) + self.shape + tail)


class NeighbourModel(TableModel):
  """Also offers exact neighbourhood log-ratios (binary)."""

  def logratio_in_neighborhood(self, params, x):
    i, _ = self._idx(x)
    ll = self.ll[i]
    xf = jnp.reshape(x, (x.shape[0], -1)).astype(jnp.int32)
    j = i[:, None] + (1 - 2 * xf) * self.w[None]
    ratio = self.ll[j] - ll[:, None]
    return ll, jnp.reshape(ratio, x.shape), self.n + 1, self.neighbour

  def neighbour(self, params, x, u):
    xf = jnp.reshape(x, (x.shape[0], -1))
    b = jnp.arange(x.shape[0])
    return jnp.reshape(xf.at[b, u].set(1 - xf[b, u]), x.shape)


def exact_gradient(K, n, ll):
  """Gradient field giving exact one-flip differences (binary) or slices."""
  st = states(K, n)
  w = np.array([K ** (n - 1 - i) for i in range(n)])
  if K == 2:
    g = np.zeros((len(st), n))
    for s, x in enumerate(st):
      for i in range(n):
        g[s, i] = (ll[s + (1 - 2 * x[i]) * w[i]] - ll[s]) * (1 - 2 * x[i])
    return g
  g = np.zeros((len(st), n, K))
  for s, x in enumerate(st):
    for i in range(n):
      for v in range(K):
        g[s, i, v] = ll[s + (v - x[i]) * w[i]]
  return g


def random_target(rng, K, n, scale=1.0, grad='random'):
  ll = np.round(rng.normal(size=K ** n) * scale, 4)
  if grad == 'exact':
    gr = exact_gradient(K, n, ll)
  elif grad == 'reluctant':  # every change looks very bad
    x = states(K, n)
    gr = -60.0 * (1 - 2 * x) if K == 2 else 60.0 * (x[:, :, None] == np.arange(K))
  else:
    gshape = (K ** n, n) if K == 2 else (K ** n, n, K)
    gr = rng.normal(size=gshape) * 1.2
  return ll.astype(np.float32), gr.astype(np.float32)


class GroupModel:
  """Many independent copies of one small target (exact samples are easy).

  Copy i owns the coordinates i, i + m, i + 2m, ...; its log-density and
  gradient are looked up by the state of the copy.
  """

  def __init__(self, K, shape, g, ll, gr):
    self.K, self.shape, self.g = K, tuple(shape), g
    self.m = int(np.prod(shape)) // g
    self.ll = jnp.asarray(ll, jnp.float32)
    self.gr = jnp.asarray(gr, jnp.float32)
    self.w = jnp.asarray([K ** (g - 1 - j) for j in range(g)], jnp.int32)

  def copies(self, x):
    x = jnp.asarray(x)
    if x.ndim == 2 + len(self.shape):
      x = jnp.argmax(x, axis=-1)
    x = jnp.reshape(x, (x.shape[0], self.g, self.m))
    return jnp.sum(jnp.round(x).astype(jnp.int32) * self.w[:, None], 1)

  def forward(self, params, x):
    return jnp.sum(self.ll[self.copies(x)], -1)

  def get_value_and_grad(self, params, x):
    i = self.copies(x)
    gr = jnp.moveaxis(self.gr[i], 2, 1)     # B, g, m[, K]
    tail = (self.K,) if self.K > 2 else ()
    return jnp.sum(self.ll[i], -1), jnp.reshape(gr, (i.shape[0],) + self.shape + tail)

  def draw(self, rng, n):
    p = np.exp(np.asarray(self.ll, np.float64))
    s = rng.choice(len(p), size=(n, self.m), p=p / p.sum())
    st = states(self.K, self.g)[s]          # n, m, g
    return np.moveaxis(st, 2, 1).reshape((n,) + self.shape).astype(np.int32)

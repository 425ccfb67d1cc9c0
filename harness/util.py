"""Shared helpers for drivers (run inside the repo's interpreter)."""
import importlib
import os

import numpy as np

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')


def R(v):
  """A real number for the specification."""
  v = float(v)
  if v != v:
    return 'NaN'
  if v == float('inf'):
    return 'Infinity'
  if v == float('-inf'):
    return '-Infinity'
  return repr(v)


def Rs(a):
  """Nested list of reals."""
  a = np.asarray(a, dtype=np.float64)
  if a.ndim == 0:
    return R(a)
  return [Rs(b) for b in a]


def Is(a):
  a = np.asarray(a)
  if a.ndim == 0:
    return int(a)
  return [Is(b) for b in a]


def base_config():
  from discs.common import configs
  return configs.get_config()


def sampler_config(name, shape, K, co_opt=False, **over):
  """Config with the sampler's shipped defaults, overridden."""
  cfg = base_config()
  mod = importlib.import_module('discs.samplers.configs.%s_config' % name)
  cfg.sampler.update(mod.get_config())
  cfg.sampler.update(over)
  cfg.model.update(dict(shape=tuple(shape), num_categories=K, name='table'))
  cfg.experiment.co_opt_prob = co_opt
  return cfg


def build_sampler(cfg):
  mod = importlib.import_module('discs.samplers.%s' % cfg.sampler.name)
  return mod.build_sampler(cfg)


def build_model(cfg):
  mod = importlib.import_module('discs.models.%s' % cfg.model.name)
  return mod.build_model(cfg)


def prod(t):
  r = 1
  for v in t:
    r *= int(v)
  return r

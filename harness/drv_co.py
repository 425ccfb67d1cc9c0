"""Combinatorial models on instances read back through the real loaders."""
import contextlib
import io
import shutil

import jax
import jax.numpy as jnp
import networkx as nx
import numpy as np

from harness import graphs
from harness.util import *

OBJ_KINDS = ['er', 'ba', 'optsicom', 'ertest', 'er_density', 'rb', 'twitter', 'nets', 'gap_rand', 'satlib']


def quiet(f, *a, **k):
  with contextlib.redirect_stdout(io.StringIO()):
    return f(*a, **k)


def spec_graph(g):
  es = []
  for u, v, d in g.edges(data=True):
    es.append([int(u), int(v), R(np.float32(d.get('weight', 1.0)))])
  return {'n': len(g), 'edges': es}


def instances(rng, kind, count, lo, hi):
  if kind == 'satlib':
    return [graphs.rand_cnf(rng) for _ in range(count)]
  wts = {'maxcut': ['unit', 'sign', 'real']}.get(graphs.PROBLEM[kind], [None])
  out = []
  for i in range(count):
    n = int(rng.integers(lo, hi + 1))
    w = wts[i % len(wts)]
    out.append(graphs.rand_graph(rng, n, rng.uniform(0.2, 0.9) if n < 10 else 5 / n, graphs.WEIGHTS[w] if w else None))
  return out


def setup(rng, kind, count=4, lo=3, hi=7, num_models=2, K=2, given=False, equal=False, last=0, **over):
  """Writes instances, builds the model. Returns cfg, model, instances, root."""
  root = graphs.scratch()
  if equal:
    lo = hi
  gs = instances(rng, kind, 1 if kind == 'nets' else count, lo, hi)
  if last and len(gs) > 1:  # the largest instance comes last
    gs[-1:] = instances(rng, kind, 1, last, last)
  sols = [float(rng.integers(1, 9)) for _ in gs]
  fields = graphs.write(kind, root, gs, sols)
  if kind == 'satlib':
    gs = [graphs.cnf_graph(c) for c in gs]
  if given or kind == 'gap_rand':
    pad = int(rng.integers(0, 3)) if not equal else 0
    over = dict(over, max_num_nodes=max(len(g) for g in gs) + pad,
                max_num_edges=max(g.number_of_edges() for g in gs) + int(rng.integers(0, 4)), num_instances=len(gs))
  cfg = graphs.config(kind, root, fields, num_models, K=K, **over)
  return cfg, gs, sols, root


def spec_const(cfg, T):
  m = cfg.model
  pen = m.get('penalty', 2.0) if m.name != 'maxcut' else 0.0
  return dict(prob=m.name, pen=R(pen), K=int(m.num_categories), N=int(m.max_num_nodes),
              tol=R(m.get('tolerance', 0.0)), stype=m.get('stype', 'span'), T=R(np.float32(T)))


def cases(rng):
  out = []
  for i, kind in enumerate(OBJ_KINDS):   # large instances beside small ones
    c = dict(kind=kind, given=bool(i % 2), lo=5, hi=[40, 150][i % 2], count=3, n=4)
    if graphs.PROBLEM[kind] == 'normcut':
      c.update(K=4, penalty=0.0, lo=8, hi=30)
      out.append(dict(c, penalty=0.6, tolerance=0.1, equal=True))
    out.append(c)
  for kind in OBJ_KINDS:
    prob = graphs.PROBLEM[kind]
    for given in (False, True):
      if prob == 'normcut':
        for K in (2, 3):
          out.append(dict(kind=kind, given=given, K=K, lo=4, penalty=0.0))
          out.append(dict(kind=kind, given=given, K=K, lo=4, equal=True, penalty=0.6, tolerance=0.1, stype='span'))
          out.append(dict(kind=kind, given=given, K=K, lo=4, equal=True, penalty=1.3, tolerance=0.05, stype='quad'))
          out.append(dict(kind=kind, given=given, K=K, lo=4, equal=True, penalty=0.3, tolerance=0.2))
      elif prob == 'maxcut':
        out.append(dict(kind=kind, given=given))
      else:
        out.append(dict(kind=kind, given=given))
        out.append(dict(kind=kind, given=given, penalty=float(rng.choice([1.001, 3.5]))))
  return out


def batches(model):
  while True:
    b = model.make_init_params(jax.random.split(jax.random.PRNGKey(0), 1))
    if b is None:
      return
    yield b


def assignments(rng, cfg, n):
  K, N = int(cfg.model.num_categories), int(cfg.model.max_num_nodes)
  x = rng.integers(0, K, size=(n, N))
  x[0] = 1
  x[1] = 0
  if K > 2 or cfg.model.name == 'normcut':   # every part inhabited
    for i in range(2, n):
      if N >= K:
        x[i, :K] = rng.permutation(K)
  return x.astype(np.int32)


def runs(arg):
  rng = np.random.default_rng(SEED * 1000 + 11)
  cs = cases(rng) * arg.get('reps', 1)
  for i, c in enumerate(cs):
    if i % arg['parts'] == arg['part']:
      yield np.random.default_rng(SEED * 7919 + i), dict(c)


def objectives(rec, arg):
  for rng, c in runs(arg):
    kind = c.pop('kind')
    n = c.pop('n', arg['n'])
    label = '%s %s' % (kind, c)
    try:
      cfg, gs, _, root = quiet(setup, rng, kind, **c)
      model = quiet(build_model, cfg)
      fwd = jax.jit(model.forward)
      for batch in quiet(lambda: list(batches(model))):
        for idx, params, _ in batch:
          if idx < 0:
            continue
          g = gs[idx]
          T = float(rng.choice([1.0, 0.25, 3.7, 0.05]))
          p = dict(params, temperature=jnp.float32(T))
          p1 = dict(params, temperature=jnp.float32(0.7))
          x = assignments(rng, cfg, n)
          xf = x.astype(np.float32)
          if cfg.model.name == 'normcut':
            xf = np.eye(int(cfg.model.num_categories), dtype=np.float32)[x]
          lls = [model.forward(p, jnp.asarray(x)), fwd(p, jnp.asarray(xf)), model.get_value_and_grad(p, jnp.asarray(xf))[0]]
          objs = [model.evaluate(p, jnp.asarray(x)), model.evaluate(p1, jnp.asarray(x))]
          _, gr = model.get_value_and_grad(p, jnp.asarray(xf))
          one = model.forward(p, jnp.asarray(x[-1:]))
          lls = [np.asarray(v, np.float64) for v in lls]
          rows = []
          for i in range(len(x)):
            rows.append(dict(x=Is(x[i]), ll=[R(v[i]) for v in lls] + ([R(one[0])] if i == len(x) - 1 else []),
                             obj=[R(v[i]) for v in objs], gr=Rs(gr[i])))
          rec('co', label=label, c=spec_const(cfg, T), g=spec_graph(g), rows=rows)
      shutil.rmtree(root)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


def neighbourhoods(rec, arg):
  for rng, c in runs(arg):
    kind = c.pop('kind')
    n = c.pop('n', arg['n'])
    if graphs.PROBLEM[kind] == 'maxclique':
      continue
    label = '%s %s' % (kind, c)
    try:
      cfg, gs, _, root = quiet(setup, rng, kind, **c)
      model = quiet(build_model, cfg)
      for batch in quiet(lambda: list(batches(model))):
        for idx, params, _ in batch:
          if idx < 0:
            continue
          T = float(rng.choice([1.0, 0.25, 3.7]))
          p = dict(params, temperature=jnp.float32(T))
          x = assignments(rng, cfg, n)
          xx = jnp.asarray(x)
          if rng.random() < 0.5:
            xx = jax.nn.one_hot(xx, int(cfg.model.num_categories)) if cfg.model.name == 'normcut' else xx.astype(jnp.float32)
          ll, lr, calls, fn = model.logratio_in_neighborhood(p, xx)
          rows = []
          for i in range(len(x)):
            moves = []
            if fn is not None:
              for _ in range(2):
                u = int(rng.integers(0, x.shape[1]))
                y = fn(p, jnp.asarray(x), jnp.asarray(np.full(len(x), u, np.int32)))
                moves.append([u, Is(y[i])])
            rows.append(dict(x=Is(x[i]), ll=R(ll[i]), lr=Rs(lr[i]), calls=int(calls), moves=moves))
          rec('nbr', label=label, c=spec_const(cfg, T), g=spec_graph(gs[idx]), rows=rows)
      shutil.rmtree(root)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
  if arg['part'] == 0:
    bern(rec, np.random.default_rng(SEED + 5))


def bern_model(shape, sigma):
  cfg = base_config()
  cfg.model.update(dict(name='bernoulli', shape=shape, num_categories=2, init_sigma=sigma))
  return cfg, build_model(cfg)


def bern(rec, rng):
  for shape in ((5,), (2, 3), (1,)):
    _, m = bern_model(shape, 1.5)
    p = m.make_init_params(jax.random.PRNGKey(int(rng.integers(1 << 20))))
    x = rng.integers(0, 2, size=(6,) + shape).astype(np.int32)
    ll, lr, calls, fn = m.logratio_in_neighborhood(p, jnp.asarray(x))
    rows = []
    for i in range(len(x)):
      u = rng.integers(0, prod(shape), size=len(x)).astype(np.int32)
      y = np.asarray(fn(p, jnp.asarray(x), jnp.asarray(u)))
      rows.append(dict(x=Is(x[i].reshape(-1)), ll=R(ll[i]), lr=Rs(np.asarray(lr[i]).reshape(-1)), calls=int(calls),
                       moves=[[int(u[i]), Is(y[i].reshape(-1))]]))
    rec('bern', label='bernoulli %s' % (shape,), p=Rs(np.asarray(p['params']).reshape(-1)), rows=rows)


def jumps(rec, arg):
  """LocallyBalancedSampler: law of the jump over the exact neighbourhood."""
  from discs.samplers import locallybalanced
  rng = np.random.default_rng(SEED * 13 + 2)
  N = arg['N']
  todo = [('bernoulli', (4,)), ('bernoulli', (2, 2)), ('er', None), ('optsicom', None), ('ertest', None)]
  for name, shape in todo:
    for b in ('SQRT', 'RATIO', 'MAX', 'MIN'):
      label = 'locally balanced %s %s' % (name, b)
      try:
        g, pp = {'n': 0, 'edges': []}, []
        if name == 'bernoulli':
          cfg, model = bern_model(shape, 1.2)
          p = model.make_init_params(jax.random.PRNGKey(int(rng.integers(1 << 20))))
          pp = Rs(np.asarray(p['params']).reshape(-1))
          c = dict(prob='bernoulli', pen='0', K=2, N=0, tol='0', stype='', T='1')
          x1 = rng.integers(0, 2, size=shape)
        else:
          cfg, gs, _, root = quiet(setup, rng, name, lo=3, hi=6)
          model = quiet(build_model, cfg)
          batch = quiet(lambda: list(batches(model)))[0]
          idx, params, _ = batch[0]
          T = 0.8
          p = dict(params, temperature=jnp.float32(T))
          c, g = spec_const(cfg, T), spec_graph(gs[idx])
          x1 = assignments(rng, cfg, 3)[2]
          shutil.rmtree(root)
        cfg.sampler.balancing_fn_type = b
        s = locallybalanced.build_sampler(cfg)
        st = s.make_init_state(jax.random.PRNGKey(0))
        x = jnp.asarray(np.broadcast_to(x1, (N,) + x1.shape).astype(np.int32))
        out = s.step(model, jax.random.PRNGKey(int(rng.integers(1 << 20))), x, p, st)
        y, new = np.asarray(out[0]).reshape(N, -1), out[1]
        d = y != x1.reshape(-1)[None]
        one = d.sum(1) == 1
        cnt = [int(v) for v in d[one].sum(0)]
        rec('jump', label=label, c=c, g=g, p=pp, b=b, x=Is(x1.reshape(-1)), N=N, cnt=cnt, other=[int((~one).sum())],
            calls=int(new['num_ll_calls']) - int(st['num_ll_calls']))
      except Exception as ex:  # pylint: disable=broad-except
        rec.raised(label, ex)

"""Sampling primitives of discs.common.math_util and joint chain laws."""
import jax
import jax.numpy as jnp
import numpy as np

from harness import drv_kernel, tables
from harness.util import *


def _mu():
  from discs.common import math_util
  return math_util


def draws(rec, arg):
  mu = _mu()
  rng = np.random.default_rng(SEED * 31 + 5)
  N = arg['N']
  for C, L in ((3, 1), (4, 2), (3, 3), (4, 3)):
    lg = rng.normal(size=(2, C)) * 1.3
    lp = np.asarray(jax.nn.log_softmax(jnp.asarray(lg, jnp.float32), -1))
    w = jnp.asarray([C ** (L - 1 - k) for k in range(L)], jnp.int32)
    for repl in (True, False):
      tag = 'replacement' if repl else 'no-replacement'
      # constant size
      def f(key):
        idx = mu.multinomial(key, jnp.asarray(lp), num_samples=L, replacement=repl)
        return jnp.sum(idx.astype(jnp.int32) * w, -1)
      try:
        q = np.asarray(jax.jit(jax.vmap(f))(jax.random.split(jax.random.PRNGKey(SEED + C * 10 + L), N)))
        for row in range(2):
          cnt = np.bincount(np.clip(q[:, row], -1, C ** L) + 1, minlength=C ** L + 2)
          rec('draw', mode='const ' + tag, lp=Rs(lp[row]), L=L, repl=int(repl), N=N,
              cnt=Is(cnt[1:-1]), other=int(cnt[0] + cnt[-1]))
      except Exception as ex:
        rec.raised('multinomial const ' + tag, ex)
      # likelihoods of constant-size draws
      try:
        obs = []
        for t in range(12):
          idx, ll = mu.multinomial(jax.random.PRNGKey(SEED * 100 + t), jnp.asarray(lp), num_samples=L,
                                   replacement=repl, return_ll=True)
          for row in range(2):
            obs.append({'lp': Rs(lp[row]), 'seq': Is(np.asarray(idx)[row] + 1), 'll': Rs(np.asarray(ll)[row]), 'rest': 0})
        rec('ll', mode='const ' + tag, repl=int(repl), obs=obs)
      except Exception as ex:
        rec.raised('multinomial const ll ' + tag, ex)
      # run-time size
      for bs in ((1, 2, 3) if repl else (1,)):
        def g(key, ns):
          kw = dict(replacement=repl, is_nsample_const=False)
          if repl:
            kw['batch_size'] = bs
          return mu.multinomial(key, jnp.asarray(lp), num_samples=ns, **kw)
        try:
          v = np.asarray(jax.jit(jax.vmap(g, (0, None)))(
              jax.random.split(jax.random.PRNGKey(SEED + C * 10 + L + 3), N), jnp.asarray(L, jnp.int32)))
          for row in range(2):
            u, c = np.unique(v[:, row].reshape(N, C), axis=0, return_counts=True)
            rec('count', mode='run-time %s bs=%d' % (tag, bs), lp=Rs(lp[row]), L=L, repl=int(repl), N=N,
                outs=[[Is(a), int(b)] for a, b in zip(u, c)])
        except Exception as ex:
          rec.raised('multinomial run-time ' + tag, ex)
      # likelihoods of run-time-size draws
      try:
        obs = []
        for t in range(12):
          kw = dict(replacement=repl, is_nsample_const=False, return_ll=True)
          if not repl:
            kw['need_ordering_info'] = True
          sel, ll = mu.multinomial(jax.random.PRNGKey(SEED * 100 + t), jnp.asarray(lp),
                                   num_samples=jnp.asarray(L, jnp.int32), **kw)
          ll = np.asarray(ll)
          for row in range(2):
            if repl:
              cntv = np.asarray(sel)[row]
              # each draw of class i contributes lp[i]
              seq = [i for i in range(C) for _ in range(int(cntv[i]))]
              per = [ll[row][i] / cntv[i] for i in seq]
              rest = int(any(ll[row][i] != 0 for i in range(C) if cntv[i] == 0))
            else:
              mask = np.asarray(sel['selected_mask'])[row]
              order = np.argsort(-np.asarray(sel['perturbed_ll'])[row])
              seq = [int(i) for i in order if mask[i]]
              per = [ll[row][i] for i in seq]
              rest = int(any(ll[row][i] != 0 for i in range(C) if not mask[i]))
            obs.append({'lp': Rs(lp[row]), 'seq': [i + 1 for i in seq], 'll': Rs(per), 'rest': rest})
        rec('ll', mode='run-time ' + tag, repl=int(repl), obs=obs)
      except Exception as ex:
        rec.raised('multinomial run-time ll ' + tag, ex)


def many(rec, arg):
  """Many classes, draws and rows."""
  mu = _mu()
  rng = np.random.default_rng(SEED * 41 + 3)
  N = arg['N'] // 30
  for C, L, B in ((300, 20, 3), (40, 40, 2), (64, 9, 70)):
    for repl in (True, False):
      tag = 'replacement' if repl else 'no-replacement'
      # rows differ, one of them is uniform; the others are steep
      lg = rng.normal(size=(B, C)) * np.linspace(0.0, 1.5, B)[:, None]
      lp = np.asarray(jax.nn.log_softmax(jnp.asarray(lg, jnp.float32), -1))
      for const in (True, False):
        mode = 'many, %s %s' % ('const' if const else 'run-time', tag)
        ns = L if const else jnp.asarray(L, jnp.int32)
        kw = dict(replacement=repl, is_nsample_const=const)
        try:
          f = lambda k: mu.multinomial(k, jnp.asarray(lp), num_samples=ns, **kw)
          v = np.asarray(jax.jit(jax.vmap(f))(jax.random.split(jax.random.PRNGKey(SEED + C + L), N)))
          for row in (0, B - 1):
            w = v[:, row]
            if const:
              cnt = np.stack([(w == i).sum(1) for i in range(C)], 1)
            else:
              cnt = w.reshape(N, C)
            rec('many', mode=mode, lp=Rs(lp[row]), L=L, repl=int(repl), N=N, cnt=Is(cnt.sum(0)), top=int(cnt.max()),
                sizes=sorted(set(int(t) for t in cnt.sum(1))), uniform=int(row == 0),
                twins=int(N - len(np.unique(cnt, axis=0))) if L < C and C * L > 1000 else 0)
          kw2 = dict(kw, return_ll=True)
          if not const and not repl:
            kw2['need_ordering_info'] = True
          obs = []
          for t in range(3):
            sel, ll = mu.multinomial(jax.random.PRNGKey(SEED * 100 + t), jnp.asarray(lp), num_samples=ns, **kw2)
            ll = np.asarray(ll)
            for row in (0, B // 2, B - 1):
              rest = 0
              if const:
                seq, per = list(np.asarray(sel)[row]), ll[row]
              elif repl:
                cntv = np.asarray(sel)[row]
                seq = [i for i in range(C) for _ in range(int(cntv[i]))]
                per = [ll[row][i] / cntv[i] for i in seq]
                rest = int(any(ll[row][i] != 0 for i in range(C) if cntv[i] == 0))
              else:
                mask = np.asarray(sel['selected_mask'])[row]
                order = np.argsort(-np.asarray(sel['perturbed_ll'])[row])
                seq = [int(i) for i in order if mask[i]]
                per = [ll[row][i] for i in seq]
                rest = int(any(ll[row][i] != 0 for i in range(C) if not mask[i]))
              if L == C and not repl:   # the last draw of all classes is certain: its float32 likelihood is noise
                seq, per = seq[:L // 2], per[:L // 2]
              obs.append({'lp': Rs(lp[row]), 'seq': [int(i) + 1 for i in seq], 'll': Rs(per), 'rest': rest})
          rec('ll', mode=mode, repl=int(repl), obs=obs)
        except Exception as ex:  # pylint: disable=broad-except
          rec.raised(mode, ex)


def prims(rec, arg):
  mu = _mu()
  N = arg['N']
  rng = np.random.default_rng(SEED * 37 + 1)
  lp = np.array([-70.0, -1e9, -4.0, -1.2, -0.5, -0.05, 0.0, 0.3, 5.0, 1e9], np.float32)
  c = jax.jit(jax.vmap(lambda k: mu.bernoulli_logp(k, jnp.asarray(lp))))(
      jax.random.split(jax.random.PRNGKey(SEED + 5), N))
  rec('bern', lp=Rs(lp), N=N, cnt=Is(np.asarray(c).astype(np.int64).sum(0)))
  rows = []
  for t, tail in enumerate([(3,), (2, 2), (2, 3), ()]):
    for r in range(3):
      B = 4
      cur = rng.integers(0, 9, size=(B,) + tail)
      new = cur + 1 + rng.integers(0, 9, size=(B,) + tail)
      out, used = mu.mh_step(jax.random.PRNGKey(SEED + 10 * t + r), jnp.asarray(np.full(B, -0.7), jnp.float32),
                             jnp.asarray(cur), jnp.asarray(new))
      out, used = np.asarray(out), np.asarray(used)
      for b in range(B):
        rows.append({'cur': Is(cur[b].reshape(-1)), 'new': Is(new[b].reshape(-1)),
                     'out': Is(out[b].reshape(-1)), 'used': int(used[b])})
  rec('mh', rows=rows)
  xs = np.concatenate([-np.geomspace(1e-6, 30, 60), np.geomspace(1e-6, 30, 60), [-0.693, -0.6931, -0.7, 0.69]]).astype(np.float32)
  rec('fn', fn='log1mexp', xs=Rs(xs), ys=Rs(mu.log1mexp(jnp.asarray(xs))))
  xs = []
  for _ in range(20):
    p = rng.dirichlet(np.ones(6) * 0.8) + 1e-3
    p = p / p.sum()
    xs.append(np.log(p[:rng.integers(1, 6)]).astype(np.float32))
  xs += [np.asarray(v, np.float32) for v in ([-1.0, -30.0], [-0.7, -45.0, -1.5], [-60.0, -1.0, -2.0], [-1e9, -0.5], [-2.0, -1e9, -3.0], [-80.0])]
  ys = [np.asarray(mu.noreplacement_sampling_renormalize(jnp.asarray(v))) for v in xs]
  rec('fn', fn='renorm', xs=[Rs(v) for v in xs], ys=[Rs(v) for v in ys])
  xs = [[n, r] for n in range(0, 13) for r in range(0, n + 1)] + [[40, 1], [100, 1], [170, 1], [30, 2], [25, 3]]
  rec('fn', fn='comb', xs=xs, ys=[int(mu.comb(*v)) for v in xs])
  xs = [[], [5], [2, 3], [4, 4, 4], [1, 7, 2, 3], [10, 0, 4]]
  rec('fn', fn='prod', xs=xs, ys=[int(mu.prod(v)) for v in xs])


JOINT = [
    dict(kind='randomwalk', K=2, shape=[2], radius=1.0, over={'adaptive': False}, state={'radius': 1.0, 'steps': 5}),
    dict(kind='randomwalk', K=3, shape=[1], radius=1.0, over={'adaptive': False}, state={'radius': 1.0, 'steps': 5}),
    dict(kind='gibbs', K=3, shape=[2], index=1, state={'index': 1, 'steps': 1}),
    dict(kind='blockgibbs', K=2, shape=[2], blk=2, index=0, state={'index': 0, 'steps': 1}),
    dict(kind='hammingball', K=2, shape=[3], blk=2, index=0, state={'index': 0, 'steps': 1}),
    dict(kind='hammingball', K=3, shape=[2], blk=1, index=1, state={'index': 1, 'steps': 1}),
    dict(kind='gwg', K=2, shape=[2], bal='SQRT', eff_flips=1, over={'adaptive': False, 'num_flips': 1}),
    dict(kind='gwg', K=2, shape=[2], bal='SQRT', eff_flips=2, over={'adaptive': True}, state={'radius': 2.0, 'steps': 1}),
    dict(kind='gwg', K=3, shape=[2], bal='SQRT', eff_flips=1),
    dict(kind='path_auxiliary', K=2, shape=[3], bal='SQRT', eff_flips=2, over={'adaptive': True}, state={'radius': 2.0, 'steps': 1}),
    dict(kind='path_auxiliary', K=2, shape=[2], bal='SQRT', eff_flips=1, over={'adaptive': False, 'num_flips': 1}),
    dict(kind='path_auxiliary', K=3, shape=[2], bal='SQRT', eff_flips=1, over={'adaptive': True}, state={'radius': 1.0, 'steps': 1}),
    dict(kind='path_auxiliary', K=3, shape=[2], bal='SQRT', eff_flips=2, over={'adaptive': False, 'num_flips': 2}),
    dict(kind='dmala', K=2, shape=[2], bal='SQRT', taumode='fixed', logtau=0.2, over={'adaptive': True}, state={'steps': 3, 'log_tau': 0.2}),
    dict(kind='dmala', K=3, shape=[2], bal='SQRT', taumode='fixed', logtau=0.2, over={'adaptive': True}, state={'steps': 3, 'log_tau': 0.2}),
    dict(kind='dlmc', K=2, shape=[2], bal='SQRT', taumode='fixed', logtau=0.2, over={'adaptive': True}, state={'steps': 3, 'log_tau': 0.2}),
    dict(kind='dlmc', K=3, shape=[2], bal='SQRT', taumode='fixed', logtau=0.2, over={'adaptive': True}, state={'steps': 3, 'log_tau': 0.2}),
]


def joint(rec, arg):
  N = arg['N']
  for j, a in enumerate(JOINT):
    if j % arg['parts'] != arg['part']:
      continue
    a = dict(a)
    a['label'] = ' '.join('%s=%s' % kv for kv in sorted(a.items()))
    try:
      K, shape = a['K'], tuple(a['shape'])
      n = prod(shape)
      rng = np.random.default_rng(SEED * 77 + j)
      sampler, model, state, ll, gr = drv_kernel.make(a, rng)
      st = jnp.asarray(tables.states(K, n))
      M = len(st)
      w = jnp.asarray([K ** (n - 1 - i) for i in range(n)], jnp.int32)
      num = lambda y: jnp.sum(jnp.reshape(y, (y.shape[0], -1)).astype(jnp.int32) * w, -1)

      def f(key, s):
        x = jnp.broadcast_to(st[s].reshape(shape), (3,) + shape)
        k1, k2 = jax.random.split(key)
        y, _, _ = sampler.step(model=model, rng=k1, x=x, model_param={}, state=dict(state))
        z, _, _ = sampler.step(model=model, rng=k2, x=y, model_param={}, state=dict(state))
        y, z = num(y), num(z)
        return y[0] * M + y[2], y[1] * M + z[1]
      g = jax.jit(jax.vmap(jax.vmap(f, (0, None)), (0, 0)))
      ks = jax.random.split(jax.random.PRNGKey(SEED + j), M * N).reshape(M, N, 2)
      a1, a2 = g(ks, jnp.arange(M))
      cnt = [np.bincount(np.asarray(a1)[s], minlength=M * M) for s in range(M)]
      cnt2 = [np.bincount(np.asarray(a2)[s], minlength=M * M) for s in range(M)]
      if any(len(c) != M * M for c in cnt + cnt2):
        raise ValueError('sample outside the space')
      rec('joint', cfg=drv_kernel.spec_cfg(a), ll=Rs(ll), gr=Rs(gr), N=N, cnt=Is(cnt), cnt2=Is(cnt2), label=a['label'])
    except Exception as ex:
      rec.raised(a['label'], ex)


def lags(rec, arg):
  """A large batch from one state: how often chains a given distance apart coincide."""
  for j, a in enumerate(JOINT):
    if j % arg['parts'] != arg['part']:
      continue
    a = dict(a)
    a['label'] = ' '.join('%s=%s' % kv for kv in sorted(a.items()))
    try:
      K, shape = a['K'], tuple(a['shape'])
      n = prod(shape)
      rng = np.random.default_rng(SEED * 77 + j)
      sampler, model, state, ll, gr = drv_kernel.make(a, rng)
      st = jnp.asarray(tables.states(K, n))
      M = len(st)
      w = jnp.asarray([K ** (n - 1 - i) for i in range(n)], jnp.int32)
      num = lambda y: jnp.sum(jnp.reshape(y, (y.shape[0], -1)).astype(jnp.int32) * w, -1)
      B, R6 = 1200, 40

      def h(key, s):
        x = jnp.broadcast_to(st[s].reshape(shape), (B,) + shape)
        return num(sampler.step(model=model, rng=key, x=x, model_param={}, state=dict(state))[0])
      jh = jax.jit(h)
      for s in (0, M - 1):
        y = np.stack([np.asarray(jh(jax.random.PRNGKey(SEED * 5000 + 70 * s + r), s)) for r in range(R6)])
        rec('lags', cfg=drv_kernel.spec_cfg(a), ll=Rs(ll), gr=Rs(gr), s=s + 1, N=B * R6,
            agree=[int((y == np.roll(y, d, 1)).sum()) for d in range(1, B // 2)], label=a['label'])
    except Exception as ex:
      rec.raised(a['label'], ex)

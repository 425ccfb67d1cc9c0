"""Runs the real experiment classes on scripted models and samplers."""
import collections
import importlib
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from harness import stubs
from harness.drv_co import quiet
from harness.util import *


def exp_config(K, shape, **over):
  cfg = base_config()
  cfg.model.update(dict(name=over.pop('model_name', 'maxcut'), shape=tuple(shape), num_categories=K))
  cfg.experiment.update(over)
  return cfg


def evaluator(cfg):
  import tensorflow_probability.substrates.jax  # pylint: disable=unused-import
  return importlib.import_module('discs.evaluators.%s' % cfg.experiment.evaluator).build_evaluator(cfg)


def experiment(cfg):
  from discs.experiment import sampling
  return getattr(sampling, cfg.experiment.name)(cfg)


CO_CASES = [
    # L, ratio, log, M, B, instances, schedule, name, save
    dict(L=6, ratio=0.5, log=1, M=1, B=2, n=1, sched='constant', name='maxcut', save=True),
    dict(L=7, ratio=0.5, log=2, M=2, B=3, n=3, sched='linear', name='maxcut', save=True, mask=False),
    dict(L=9, ratio=0.3, log=3, M=3, B=2, n=4, sched='exp_decay', name='maxclique', save=True),
    dict(L=5, ratio=0.0, log=1, M=2, B=2, n=4, sched='exp_decay', name='normcut', save=False),
    dict(L=8, ratio=0.9, log=2, M=2, B=2, n=2, sched='linear', name='mis', save=False),
    dict(L=8, ratio=1.0, log=4, M=4, B=1, n=5, sched='constant', name='mis', save=True),
    dict(L=10, ratio=0.25, log=5, M=1, B=4, n=3, sched='exp_decay', name='maxcut', save=True, rate=0.05, T1=0.3),
    dict(L=6, ratio=0.5, log=7, M=2, B=2, n=2, sched='linear', name='maxcut', save=True),
    dict(L=6, ratio=0.5, log=1, M=2, B=2, n=2, sched='exp_decay', name='maxcut', save=False, rate=1.5, T1=1.2),
    # long runs, many instances and chains
    dict(L=130, ratio=0.5, log=1, M=2, B=2, n=3, sched='exp_decay', name='maxcut', save=True, rate=0.9, T1=0.01),
    dict(L=301, ratio=0.1, log=50, M=1, B=2, n=1, sched='linear', name='maxclique', save=True),
    dict(L=1103, ratio=0.5, log=100, M=1, B=1, n=1, sched='linear', name='maxcut', save=True),
    dict(L=6, ratio=0.5, log=2, M=5, B=40, n=13, sched='linear', name='mis', save=True),
]
CO_PARALLEL = [  # 4 devices
    dict(L=6, ratio=0.5, log=2, M=4, B=2, n=5, sched='linear', name='maxcut', save=True),
    dict(L=6, ratio=0.5, log=1, M=8, B=3, n=9, sched='exp_decay', name='maxclique', save=True),
    dict(L=5, ratio=0.2, log=1, M=1, B=4, n=3, sched='constant', name='maxcut', save=True),
    dict(L=5, ratio=0.2, log=2, M=2, B=8, n=5, sched='exp_decay', name='mis', save=True),
    dict(L=4, ratio=0.5, log=1, M=2, B=4, n=2, sched='linear', name='normcut', save=False),
    dict(L=4, ratio=0.5, log=1, M=1, B=4, n=2, sched='linear', name='normcut', save=False, par=False),
    dict(L=120, ratio=0.5, log=7, M=4, B=2, n=6, sched='exp_decay', name='maxcut', save=True, rate=0.9, T1=0.01),
    dict(L=5, ratio=0.5, log=1, M=12, B=3, n=14, sched='linear', name='maxcut', save=True),
    dict(L=5, ratio=0.5, log=2, M=1, B=24, n=2, sched='linear', name='maxclique', save=True),
]


def rows(a):
  a = np.asarray(a)
  return [[int(v) for v in r] for r in a.reshape(a.shape[0], -1)]


def co(rec, arg):
  cases = CO_PARALLEL if arg['devices'] > 1 else CO_CASES
  assert jax.local_device_count() == arg['devices']
  for rep, (ci, a) in itertools.product(range(arg.get('reps', 1)), enumerate(cases)):
    if ci % arg.get('parts', 1) != arg.get('part', 0):
      continue
    label = 'CO_Experiment devices=%d %s' % (arg['devices'], a)
    rng = np.random.default_rng(SEED * 101 + ci + 1000 * rep)
    K, dim = (3 if a['name'] == 'normcut' else 2), 3
    try:
      nb = -(-a['n'] // a['M'])
      batches, spec_b = [], []
      for b in range(nb):
        ents, sp = [], []
        for m in range(a['M']):
          i = b * a['M'] + m
          idx = i if i < a['n'] else -1
          ident = 100 * (b + 1) + m
          w = rng.integers(-4, 5, size=dim).astype(np.float32)
          c = float(rng.integers(-6, 7))
          ref = float(rng.choice([1.0, 2.0, 4.0, 0.5]))
          p = {'ident': jnp.int32(ident), 'w': jnp.asarray(w), 'c': jnp.float32(c), 'mask': None}
          mask = []
          if a.get('mask', True):
            mask = [int(v) for v in rng.integers(0, 2, size=dim)]
            p['mask'] = jnp.asarray(mask, jnp.int32)
          ents.append((idx, p, ref))
          sp.append(dict(idx=idx, ident=ident, w=Rs(w), c=R(c), ref=R(1.0 if a['name'] == 'mis' else ref), mask=mask))
        batches.append(ents)
        spec_b.append(sp)
      T0, T1, rate = 1.5, a.get('T1', 0.2), a.get('rate', 0.3)
      cfg = exp_config(K, (dim,), model_name=a['name'], name='CO_Experiment', evaluator='co_eval', num_models=a['M'], batch_size=a['B'],
                       chain_length=a['L'], ess_ratio=a['ratio'], log_every_steps=a['log'], t_schedule=a['sched'],
                       init_temperature=T0, final_temperature=T1, decay_rate=rate, save_samples=a['save'], co_opt_prob=True,
                       get_additional_metrics=True, run_parallel=a.get('par', True))
      model, sampler, saver = stubs.COModel(batches, K, (dim,)), stubs.Sampler(K), stubs.Saver()
      stubs.LOG.clear()
      quiet(lambda: experiment(cfg).get_results(model, sampler, evaluator(cfg), saver))
      jax.effects_barrier()
      steps = collections.defaultdict(list)
      for r in stubs.LOG:
        steps[int(r['ident']), int(r['step'])].append(r)
      out = []
      for b, sp in enumerate(spec_b):
        ms = []
        for e in sp:
          seq = []
          for s in range(max([k[1] for k in steps if k[0] == e['ident']], default=-1) + 1):
            rs = steps[e['ident'], s]
            pairs = [(list(x), list(y)) for r in rs for x, y in zip(rows(r['x']), rows(r['y']))]
            seq.append(dict(T=[R(r['T']) for r in rs], ins=sorted(p[0] for p in pairs), outs=sorted(p[1] for p in pairs),
                            pairs=pairs, keys=['%d.%d' % tuple(int(v) for v in r['key']) for r in rs], acc=[R(r['acc']) for r in rs],
                            masks=[[int(v) for v in r['mask']] for r in rs]))
          ms.append(seq)
        out.append(ms)
      names = [c[0] for c in saver.calls]
      sv = []
      res = [c[1] for c in saver.calls if c[0] == 'save_co_resuts']
      met = [c[1] for c in saver.calls if c[0] == 'save_results']
      for b in range(len(res)):
        chain, best, time, samples = res[b][:4]
        acc, hops = met[b][:2] if b < len(met) else ([], [])
        sv.append(dict(chain=[Rs(v) for v in chain], best=Rs(best), time=R(time),
                       samples=[[int(v) for v in r] for r in np.asarray(samples)] if len(samples) else [],
                       acc=Rs(acc), hops=Rs(hops)))
      rec('co', label=label, L=a['L'], ratio=R(a['ratio']), log=a['log'], M=a['M'], B=a['B'], sched=a['sched'], T0=R(T0), T1=R(T1), rate=R(rate),
          keep=bool(a['save'] or a['name'] == 'normcut'), copies=arg['devices'] if a['M'] < arg['devices'] and a.get('par', True) else 1,
          batches=spec_b, steps=out, saved=sv, nsaves=len(res), inits=[sorted(rows(v)) for v in model.inits[:nb]])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


# ---------------------------------------------------------------- sampling
RUNS = [
    # L, ratio, save interval, B, shape
    dict(L=12, ratio=0.5, every=3, B=6, shape=(3,), name='bernoulli', est=True),
    dict(L=9, ratio=0.5, every=2, B=5, shape=(2, 2), name='rbm', save=True),
    dict(L=10, ratio=0.3, every=4, B=2, shape=(3,), name='resnet', save=True, extra=False),
    dict(L=10, ratio=0.7, every=1, B=1, shape=(2,), name='bernoulli', est=True),
    dict(L=14, ratio=0.25, every=5, B=4, shape=(3,), name='bernoulli', save=True),
    dict(L=6, ratio=0.5, every=20, B=8, shape=(2,), name='rbm', save=True),
    dict(L=20, ratio=0.0, every=7, B=3, shape=(2, 3), name='ising', est=True, ratios=False),
    dict(L=30, ratio=0.5, every=7, B=5, shape=(2,), name='ising', slow=True),
    dict(L=8, ratio=0.5, every=2, B=7, shape=(2, 2), name='resnet', est=True, save=False),
    dict(L=270, ratio=0.5, every=1, B=3, shape=(2,), name='bernoulli', est=True),
    dict(L=1503, ratio=0.3, every=100, B=2, shape=(2,), name='bernoulli', est=True),
    dict(L=10, ratio=0.5, every=4, B=130, shape=(2,), name='rbm', save=True),
    dict(L=10, ratio=0.5, every=4, B=5, shape=(12, 11), name='resnet', save=True),
]
RUNS_PARALLEL = [
    dict(L=12, ratio=0.5, every=3, B=8, shape=(3,), name='bernoulli', est=True),
    dict(L=10, ratio=0.3, every=4, B=4, shape=(2, 2), name='rbm', save=True),
    dict(L=9, ratio=0.5, every=2, B=12, shape=(2,), name='resnet', save=True, extra=False),
    dict(L=8, ratio=0.5, every=2, B=3, shape=(2, 2), name='bernoulli', est=True, par=False),
    dict(L=16, ratio=0.5, every=2, B=8, shape=(2, 2), name='potts'),
    dict(L=150, ratio=0.2, every=10, B=8, shape=(5,), name='bernoulli', est=True),
    dict(L=8, ratio=0.5, every=2, B=80, shape=(2,), name='rbm', save=True),
]


def flat(a):
  a = np.asarray(a)
  return [[int(v) for v in r] for r in a.reshape(a.shape[0], -1)]


def link(model, B, D):
  """Follows the chains of each device through the reported steps."""
  x0 = flat(model.inits[0])
  nn = B // D
  cur = [x0[d * nn:(d + 1) * nn] for d in range(D)]
  by = collections.defaultdict(list)
  for r in stubs.LOG:
    by[int(r['step'])].append(r)
  steps = []
  for s in range(len(by)):
    left, row = list(by[s]), []
    for d in range(D):
      hit = [r for r in left if flat(r['x']) == cur[d]]
      if hit:
        r = hit[0]
        left = [q for q in left if q is not r]
        cur[d] = flat(r['y'])
      row.append(dict(linked=bool(hit), x=flat(r['x']) if hit else [], y=flat(r['y']) if hit else [],
                      key='%d.%d' % tuple(int(v) for v in r['key']) if hit else '', acc=R(r['acc']) if hit else 'NaN',
                      T=R(r['T']) if hit else 'NaN'))
    for q in left:
      row.append(dict(linked=False, x=[], y=[], key='', acc='NaN', T='NaN'))
    steps.append(row)
  return x0, steps


def sampling(rec, arg):
  devices = arg['devices']
  assert jax.local_device_count() == devices
  cases = RUNS_PARALLEL if devices > 1 else RUNS
  K = 60
  for ci, a in enumerate(cases):
    if ci % arg.get('parts', 1) != arg.get('part', 0):
      continue
    label = 'Sampling_Experiment devices=%d %s' % (devices, a)
    try:
      D = devices if devices > 1 and a.get('par', True) else 1
      cfg = exp_config(K, a['shape'], model_name=a['name'], name='Sampling_Experiment', evaluator='ess_eval', num_models=1, batch_size=a['B'],
                       chain_length=a['L'], ess_ratio=a['ratio'], save_every_steps=a['every'], save_samples=a.get('save', False),
                       get_estimation_error=a.get('est', False), get_additional_metrics=a.get('extra', True), run_parallel=a.get('par', True))
      model, saver = stubs.PlainModel(K, a['shape']), stubs.Saver()
      sampler = stubs.Sampler(K, calls=3, delay=3 if a.get('slow') else 0)
      ev = stubs.Evaluator(evaluator(cfg))
      stubs.LOG.clear()
      quiet(lambda: experiment(cfg).get_results(model, sampler, ev, saver))
      jax.effects_barrier()
      x0, steps = link(model, a['B'], D)
      met, snaps, dumped = [], [], []
      for name, args, _ in saver.calls:
        if name == 'save_results':
          acc, hops, m, time = args[:4]
          m = [np.asarray(v, np.float64).reshape(-1) for v in m]
          met.append(dict(acc=Rs(acc), hops=Rs(hops), ess=Rs(m[0]), mh=Rs(m[1]), t=Rs(m[2]), ee=Rs(m[3]), time=R(time)))
        elif name == 'dump_samples':
          snaps.append([flat(v) for v in args[0]])
        elif name == 'dump_params':
          dumped.append(Rs(np.asarray(args[0]).reshape(-1)) if tuple(args[0].shape) == tuple(a['shape']) else ['shape %s' % (args[0].shape,)])
      mapped = np.asarray(ev.seen[0])
      mapped = mapped.reshape(-1, mapped.shape[-1]) if len(ev.seen) == 1 else []
      want = (a['name'] in ('rbm', 'resnet') and a.get('save', False)) or (a['name'] == 'bernoulli' and a.get('est', False))
      rec('run', label=label, L=a['L'], ratio=R(a['ratio']), every=a['every'], B=a['B'], D=D, calls=3, slow=bool(a.get('slow')),
          extra=a.get('extra', True), x0=x0, refs=[r for i in model.inits[1:] for r in flat(i)], steps=steps, mapped=Rs(mapped), metrics=met,
          want=want, nsnaps=len(snaps), snaps=snaps[0] if snaps else [], wantp=a['name'] == 'bernoulli' and a.get('est', False),
          dumped=dumped[0] if dumped else [], params=Rs(model.params.reshape(-1)))
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


def ess(rec, arg):
  """The evaluator on correlated, alternating, constant and mixed chains."""
  cfg = exp_config(2, (2,), evaluator='ess_eval', chain_length=10, ess_ratio=0.5)
  ev = evaluator(cfg)
  rng = np.random.default_rng(SEED)
  for i in range(arg['n']):
    N, B = int(rng.integers(2, 25)), int(rng.integers(1, 5))
    if i % 8 == 7:    # long records, and many chains
      N, B = (int(rng.integers(200, 500)), 2) if i % 16 == 7 else (12, int(rng.integers(60, 150)))
    kind = i % 5
    v = rng.integers(0, 4, size=(N, B)).astype(float)
    if kind == 1:
      v = np.cumsum(rng.integers(-1, 2, size=(N, B)), 0).astype(float)
    elif kind == 2:
      v[:, 0] = 3
    elif kind == 3:
      v = np.abs(np.cumsum(rng.normal(size=(N, B)), 0))
    elif kind == 4:
      v = (np.arange(N)[:, None] % (2 + np.arange(B))).astype(float)
    v = v.astype(np.float32) if kind == 3 else v.astype(np.int32)
    label = 'ess N=%d B=%d kind=%d' % (N, B, kind)
    try:
      m = ev.evaluate(samples=jnp.asarray(v), rnd=jax.random.PRNGKey(0))
      rec('ess', label=label, B=B, m=Rs(v), ess=Rs(np.asarray(m).reshape(-1)))
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


MODELS = [
    ('bernoulli', dict(shape=(5,), num_categories=2, init_sigma=1.0)),
    ('categorical', dict(shape=(4,), num_categories=3, init_sigma=1.0)),
    ('ising', dict(shape=(3, 2), num_categories=2, init_sigma=0.5, mu=0.5, lambdaa=0.3)),
    ('potts', dict(shape=(2, 3), num_categories=3, init_sigma=0.5, mu=0.5, lambdaa=0.3)),
    ('fhmm', dict(shape=(4, 2), num_categories=2, sigma=0.5, alpha=0.1, beta=0.5)),
    ('fhmm', dict(shape=(4, 2), num_categories=3, sigma=0.5, alpha=0.1, beta=0.5)),
    ('rbm', dict(shape=(5,), num_categories=2, num_visible=5, num_hidden=3)),
    ('rbm', dict(shape=(4,), num_categories=3, num_visible=4, num_hidden=3)),
]
SAMPLERS = ['gibbs', 'randomwalk', 'hammingball', 'blockgibbs', 'gwg', 'path_auxiliary', 'dmala', 'dlmc']


def combos(rec, arg):
  """Every shipped classical model with every sampler, through the real experiment."""
  devices = arg['devices']
  assert jax.local_device_count() == devices
  L, B = 24, 4
  for i, ((mname, mk), sname) in enumerate(itertools.product(MODELS, SAMPLERS)):
    if i % arg['parts'] != arg['part'] or (arg.get('some') and i % arg['some'] != SEED % arg['some']):
      continue
    label = 'combination %s%s K=%d %s devices=%d' % (mname, mk['shape'], mk['num_categories'], sname, devices)
    try:
      cfg = sampler_config(sname, mk['shape'], mk['num_categories'])
      cfg.model.update(dict(mk, name=mname))
      cfg.experiment.update(dict(batch_size=B, chain_length=L, get_additional_metrics=True))
      saver = stubs.Saver()
      quiet(lambda: experiment(cfg).get_results(build_model(cfg), build_sampler(cfg), evaluator(cfg), saver))
      (acc, hops, m, _), = [c[1][:4] for c in saver.calls if c[0] == 'save_results']
      rec('end', label=label, L=L, n=L - L // 2, metrics=[R(np.asarray(v).reshape(-1)[0]) for v in m], acc=Rs(acc), hops=Rs(hops),
          maxhop=prod(mk['shape']) * (mk['num_categories'] - 1))
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


# ---------------------------------------------------------------- annealed importance sampling
AIS = [dict(L=6, B=5, shape=(3,)), dict(L=1, B=3, shape=(2,)), dict(L=11, B=1, shape=(2, 2)), dict(L=4, B=8, shape=(2,), big=True),
       dict(L=130, B=3, shape=(2,)), dict(L=3, B=150, shape=(2,))]
AIS_PARALLEL = [dict(L=6, B=8, shape=(3,)), dict(L=5, B=4, shape=(2, 2)), dict(L=4, B=3, shape=(2,), par=False),
                dict(L=60, B=8, shape=(5,)), dict(L=3, B=120, shape=(2,))]


def ais(rec, arg):
  devices = arg['devices']
  assert jax.local_device_count() == devices
  K = 40
  for rep, (ci, a) in itertools.product(range(arg.get('reps', 1)), enumerate(AIS_PARALLEL if devices > 1 else AIS)):
    label = 'EBM_Experiment devices=%d %s' % (devices, a)
    rng = np.random.default_rng(SEED * 31 + ci + 97 * rep)
    D = devices if devices > 1 and a.get('par', True) else 1
    try:
      n = prod(a['shape'])
      sc = 3.0 if a.get('big') else 0.05
      wb, wt = (np.round(rng.normal(size=n) * sc, 3).astype(np.float32) for _ in range(2))
      ct = 1.25
      cfg = exp_config(K, a['shape'], model_name='resnet', name='EBM_Experiment', batch_size=a['B'], chain_length=a['L'], run_parallel=a.get('par', True))
      model, saver = stubs.AisModel(K, a['shape'], wb, wt, ct), stubs.Saver()
      stubs.LOG.clear()
      quiet(lambda: experiment(cfg).get_results(model, stubs.Sampler(K), None, saver))
      jax.effects_barrier()
      x0, steps = link(model, a['B'], D)
      lz = [c[1][0] for c in saver.calls if c[0] == 'save_logz']
      rec('run', label=label, L=a['L'], B=a['B'], D=D, wb=Rs(wb), wt=Rs(wt), ct=R(ct), x0=x0, steps=steps, nsaves=len(lz), logz=Rs(lz[0]) if lz else [])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


def ais_law(rec, arg):
  """Real samplers on a tabulated target: the estimate approaches the truth."""
  from harness import tables

  class M(tables.TableModel):
    """Uniform base, tabulated target."""

    def make_init_params(self, rng):
      return {}

    def get_init_samples(self, rng, num):
      return jax.random.randint(rng, (num,) + self.shape, 0, self.K)

    def forward(self, params, x):
      return super().forward(params, x) * params['temperature']

    def get_value_and_grad(self, params, x):
      v, g = super().get_value_and_grad(params, x)
      return v * params['temperature'], g * params['temperature']
  rng = np.random.default_rng(SEED)
  for s in arg['samplers']:
    label = 'EBM_Experiment estimate %s' % s
    try:
      ll, gr = tables.random_target(rng, 2, 3, scale=1.5, grad='exact')
      cfg = sampler_config(s, (3,), 2)
      cfg.experiment.update(dict(name='EBM_Experiment', batch_size=arg['B'], chain_length=12))
      saver = stubs.Saver()
      quiet(lambda: experiment(cfg).get_results(M(2, (3,), ll, gr), build_sampler(cfg), None, saver))
      lz, = [c[1][0] for c in saver.calls if c[0] == 'save_logz']
      rec('law', label=label, logz=R(np.asarray(lz)[-1]), table=Rs(ll), tol=R(arg['tol']))
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
  from harness.drv_models import make
  for rep in range(arg['nets']):
    label = 'resnet path %d' % rep
    try:
      mean = [float(np.float32(v)) for v in rng.uniform(0.1, 0.9, size=36)]
      m = make('resnet', dict(shape=(36,), num_categories=2, n_channels=4, image_shape=(6, 6), data_mean=tuple(mean)))
      params = m.make_init_params(jax.random.PRNGKey(SEED + rep))
      x = rng.integers(0, 2, size=(5, 36)).astype(np.int32)
      f = lambda b: Rs(m.forward(dict(params) if b is None else dict(params, temperature=b), jnp.asarray(x, jnp.float32)))
      betas = [0.125, 0.5, 0.9]
      rec('net', label=label, mean=Rs(mean), xs=[[int(v) for v in r] for r in x], v0=f(0), v1=f(1.0), plain=f(None), betas=Rs(betas), vb=[f(b) for b in betas])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)

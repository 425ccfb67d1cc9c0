"""The evaluators: text metrics, Bernoulli estimation errors, partitions."""
import csv
import os
import pickle
import sys

import jax.numpy as jnp
import numpy as np

from harness.drv_co import quiet
from harness.util import *

WORDS = ['the', 'cat', 'sat', 'on', 'a', 'mat', 'dog', '"', '[UNK]', 'ran', 'off', ',', '.', '--', '-', '...', "'s", '`', "'", 'n\'t', '@-@', '@,@', '@.@', '1990', '<unk>', '!', '(', ')']


def lm(rec, arg):
  from discs.evaluators import lm_eval
  rng = np.random.default_rng(SEED)
  for ci in range(arg['n']):
    label = 'lm evaluator, case %d' % ci
    try:
      root = 'lm%d' % ci
      os.makedirs(root)
      words = WORDS[:int(rng.integers(4, 14))] + list(rng.choice(WORDS[13:], size=ci % 3 * 3, replace=False).tolist())

      def sentence(lo, hi):
        return [words[int(q)] for q in rng.integers(0, len(words), size=int(rng.integers(lo, hi)))]

      def vary(ws):
        """A near copy."""
        ws = list(ws)
        for _ in range(int(rng.integers(0, 3))):
          ws[int(rng.integers(len(ws)))] = words[int(rng.integers(len(words)))]
        return ws
      refs = {}
      for f, quotes, unk in (('tbc_remove_infill.5k.txt', ['``', "''"], '[UNK]'), ('wiki103_remove_infill.5k.txt', ['"'], '@@unknown@@')):
        lines = [sentence(4, 10) for _ in range(int(rng.integers(2, 6)))]
        raw = []
        for ws in lines:
          ws = [quotes[int(rng.integers(len(quotes)))] if w == '"' else unk if w == '[UNK]' else w for w in ws]
          ws = [w.upper() if rng.uniform() < 0.2 else w for w in ws]
          raw.append(ws)
        with open(os.path.join(root, f), 'w') as fh:
          fh.writelines(' '.join(ws) + ' \n' for ws in raw)
        refs[f[0]] = (lines, [[w.lower() for w in ws] for ws in raw])
      pool = refs['t'][0] + refs['w'][0]
      gen = [vary(pool[int(rng.integers(len(pool)))]) if rng.uniform() < 0.7 else sentence(4, 9) for _ in range(int(rng.integers(1, 6)))]
      if ci % 5 == 1:
        gen.append(list(gen[0]))
      if ci % 7 == 2:
        gen[-1] = gen[-1][:2]
        gen.append(sentence(8, 12))
      maxn = int(rng.integers(1, 5))
      cfg = base_config()
      cfg.experiment.max_n_grams = maxn
      texts = [' '.join(g) for g in gen]
      given = list(texts)
      import warnings
      warnings.simplefilter('ignore')
      res = quiet(lambda: lm_eval.build_evaluator(cfg).evaluate(texts, root))
      arr = lambda s: [R(res['unique_%s_%d_grams' % (s, i)]) for i in range(1, maxn + 1)]
      rec('lm', label=label, gen=gen, tbc=refs['t'][1], wiki=refs['w'][1], maxn=maxn, hasself='self_bleu' in res,
          res={k: R(res[k]) for k in ('tbc_bleu', 'wiki_bleu', 'tbc_wiki_bleu', 'self_bleu') if k in res},
          nwiki=arr('wiki'), ntbc=arr('tbc'), nself=arr('self'), kept=list(res['infill_sents']) == given)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


def sig(p):
  return 1.0 / (1.0 + np.exp(-np.asarray(p, np.float64)))


def bernoulli(rec, arg):
  from discs.evaluators import bernoulli_eval
  from discs.models import bernoulli as bm
  rng = np.random.default_rng(SEED)
  for ci in range(arg['n']):
    label = 'Bernoulli evaluator, case %d' % ci
    try:
      T, B, D = int(rng.integers(2, 9)), int(rng.integers(2, 5)), int(rng.integers(1, 5))
      cfg = base_config()
      cfg.model.update(dict(name='bernoulli', shape=(D,), num_categories=2, init_sigma=1.0))
      par = (rng.normal(size=D) * 2).astype(np.float32)
      xs = (rng.uniform(size=(T, B, D)) < sig(par)).astype(np.int32)
      if ci % 3 == 0:
        xs[-1] = 1 - xs[-1]
      ev = bernoulli_eval.build_evaluator(cfg)
      got = quiet(lambda: ev.evaluate(jnp.asarray(xs), bm.build_model(cfg), {'params': jnp.asarray(par)}))
      rec('bern', label=label, xs=Is(xs), p=Rs(sig(par)), got=[R(v) for v in got])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


  from harness import drv_figures
  for ci in range(max(3, arg['n'] // 4)):
    label = 'Bernoulli error curves, case %d' % ci
    try:
      D, size, stride = int(rng.integers(1, 4)), int(rng.integers(2, 5)), int(rng.integers(1, 6))
      cfg = base_config()
      cfg.model.update(dict(name='bernoulli', shape=(D,), num_categories=2, init_sigma=1.0))
      cfg.experiment.update(dict(window_size=size, window_stride=stride))
      pars = [(rng.normal(size=D) * 2).astype(np.float32) for _ in range(3)]
      chains = [(rng.uniform(size=(int(rng.integers(size, 17)), 2, D)) < sig(q)).astype(np.int32) for q in pars]
      fig, = drv_figures.capture(lambda: bernoulli_eval.build_evaluator(cfg).plot_mixing_time_graph_over_chain(
          '.', bm.build_model(cfg), [{'params': jnp.asarray(q)} for q in pars], [jnp.asarray(c) for c in chains], ['a', 'b', 'c'])).values()
      curves = [c['y'] for c in sorted(fig['lines'], key=lambda c: c['label'])]
      rec('curve', label=label, size=size, stride=stride, curves=curves, runs=[dict(xs=Is(c), p=Rs(sig(q))) for c, q in zip(chains, pars)])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


def run_main(mod, **fl):
  """Runs a script's main with its flags."""
  from absl import flags
  flags.FLAGS.unparse_flags()
  flags.FLAGS([mod.__name__] + ['--%s=%s' % kv for kv in fl.items()])
  quiet(lambda: mod.main([mod.__name__]))


def estimation(rec, arg):
  """From the sampling experiment to the plotted estimation errors."""
  from harness import drv_figures
  import tensorflow_probability.substrates.jax  # pylint: disable=unused-import
  from discs.common import experiment_saver
  from discs.evaluators import ess_eval
  from discs.models import bernoulli as bm
  from discs.plot_results import plot_estimation_error as script
  from harness import drv_exp, stubs
  label = 'estimation error pipeline'
  try:
    root = os.path.abspath('sweep')
    size = 10
    for i, (name, D, B, L, every) in enumerate([('gibbs', 4, 3, 46, 2), ('gwg', 3, 2, 120, 3), ('dmala', 5, 4, 45, 1)]):
      save = os.path.join(root, "%d_config.sampler.name='%s',config.model.init_sigma=1.5" % (i, name))
      cfg = sampler_config(name, (D,), 2)
      cfg.model.update(dict(name='bernoulli', shape=(D,), num_categories=2, init_sigma=1.5))
      cfg.experiment.update(dict(batch_size=B, chain_length=L, ess_ratio=0.5, run_parallel=bool(i % 2), save_every_steps=every, get_estimation_error=True,
                                 save_root=save))
      model, sampler = bm.build_model(cfg), build_sampler(cfg)
      quiet(lambda: drv_exp.experiment(cfg).get_results(model, sampler, ess_eval.build_evaluator(cfg), experiment_saver.build_saver(cfg)))
    runs = []
    fig, = drv_figures.capture(lambda: run_main(script, gcs_results_path='sweep')).values()
    curves = [(c['label'], c['y']) for c in fig['lines']]
    for folder in os.listdir('sweep'):
      with open(os.path.join('sweep', folder, 'samples.pkl'), 'rb') as f:
        xs = np.asarray(pickle.load(f)['trajectory'])
      with open(os.path.join('sweep', folder, 'params.pkl'), 'rb') as f:
        par = pickle.load(f)
      par = np.asarray(par['params'] if isinstance(par, dict) else par)
      runs.append((folder, dict(xs=Is(xs), p=Rs(sig(par)))))
    key = lambda lab: [k for k, (f, _) in enumerate(runs) if "'%s'" % str(lab)[:4].rstrip('$') in f or str(lab)[:3] in f][0]
    order = sorted(range(len(curves)), key=lambda k: key(curves[k][0]))
    rec('curve', label=label, size=size, stride=size, curves=[curves[k][1] for k in order], runs=[r for _, r in runs])
  except Exception as ex:  # pylint: disable=broad-except
    rec.raised(label, ex)


def partitions(rec, arg):
  import networkx as nx
  from discs.common import normcut_evaluator as ne
  rng = np.random.default_rng(SEED)
  for ci in range(arg['n']):
    label = 'partition evaluator, case %d' % ci
    try:
      n, K = int(rng.integers(4, 10)), int(rng.integers(2, 5))
      g = nx.gnp_random_graph(n, 0.5, seed=int(rng.integers(1 << 30)))
      g.add_edge(0, n - 1)
      x = rng.integers(0, K if ci % 3 else max(1, K - 1), size=n)
      import scipy.sparse
      a = nx.to_numpy_array(g)
      sparse = ci % 4 == 3
      if sparse:
        a = scipy.sparse.csr_matrix(a)
      cut, bal, _ = quiet(lambda: ne.evaluate(x, n, 2 * len(g.edges()), a, K, sparse=sparse))
      rec('part', label=label, n=1, rows=[dict(edges=[sorted(map(int, e)) for e in g.edges()], groups=Is(x), K=K, cut=R(cut), bal=R(bal))])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
  # the script, on saved results of one graph
  for ci in range(3):
    label = 'partition script, graph %d' % ci
    try:
      n = 7 + ci
      g = nx.Graph()
      if ci == 1:
        g.add_nodes_from(rng.permutation(n).tolist())  # nodes in any order
      for u, v in nx.gnp_random_graph(n, 0.5, seed=5 + ci).edges():
        g.add_edge(u, v)
      for u in range(n - 1):
        g.add_edge(u, u + 1)
      with open('g%d.pkl' % ci, 'wb') as f:
        pickle.dump(g, f)
      rows = []
      for name in ('gwg', 'dlmc', 'path_auxiliary'):
        d = "nc%d/1_config.sampler.name='%s',config.experiment.batch_size=4" % (ci, name)
        os.makedirs(d)
        x = rng.integers(0, 3, size=(1, n))
        with open(os.path.join(d, 'results.pkl'), 'wb') as f:
          pickle.dump({'best_samples': x}, f)
        rows.append((d.split('/')[1], x[0]))
      rows.sort(key=lambda r: r[0])
      run_main(ne, graph_file='g%d.pkl' % ci, gcs_results_path='./nc%d' % ci)
      found = [os.path.join(p, f) for p, _, fs in os.walk('discs') for f in fs if f == 'res.csv' and 'nc%d' % ci in p]
      with open(found[0], newline='') as f:
        table = list(csv.reader(f))[1:]
      rec('part', label=label, n=3, rows=[dict(edges=[sorted(map(int, e)) for e in g.edges()], groups=Is(x), K=3, cut=R(float(t[1])), bal=R(float(t[2])))
                                          for (_, x), t in zip(rows, table)])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)

"""C22: optimisation runs from the command line, judged by their result files."""
import importlib
import os
import pickle
import shutil

import numpy as np

from harness import drv_co, graphs
from harness.core import REPO
from harness.drv_co import quiet, spec_graph
from harness.drv_config import script, SAMPLERS
from harness.util import *

KINDS = ['ba', 'er', 'optsicom', 'ertest', 'er_density', 'satlib', 'rb', 'twitter', 'nets', 'gap_rand']
EXP = '''from ml_collections import config_dict


def get_config():
  return config_dict.ConfigDict(dict(experiment=%r))
'''


def one(rec, kind, sampler, i, over=()):
  prob = graphs.PROBLEM[kind]
  rng = np.random.default_rng(SEED * 131 + i)
  label = '%s %s %s run %d' % (prob, kind, sampler, i)
  root = os.path.abspath('run%d' % i)
  try:
    n = 1 if kind == 'nets' else int(rng.integers(3, 6))
    equal = prob == 'normcut'
    lo, hi = (6, 6) if equal else (4, 7)
    gs = drv_co.instances(rng, kind, n, lo, hi)
    sols = [float(rng.integers(1, 9)) for _ in gs]
    data = root + '-data'
    fields = graphs.write(kind, data, gs, sols)
    if kind == 'satlib':
      gs = [graphs.cnf_graph(c) for c in gs]
    if kind == 'gap_rand':
      os.rename(os.path.join(data, 'gap_rand', 'toy'), os.path.join(data, 'gap_rand', 'test-1000'))
    # the shipped setting, with sizes of the small data set
    mod = importlib.import_module('discs.models.configs.%s.%s' % (prob, kind))
    real = getattr(mod, 'shipped', mod.get_model_config)
    mod.shipped = real
    num = 1 if kind in ('nets', 'optsicom') else int(rng.integers(2, 4))
    sizes = dict(num_models=num, max_num_nodes=max(len(g) for g in gs), max_num_edges=max(g.number_of_edges() for g in gs), num_instances=len(gs))

    def small(cfg_str):
      c = real(cfg_str)
      c.update(sizes if kind == 'gap_rand' else dict(sizes, max_num_nodes=0, max_num_edges=0, num_instances=0))
      return c
    mod.get_model_config = small
    exp = importlib.import_module('discs.experiment.configs.%s.%s' % (prob, kind)).get_config().experiment.to_dict()
    L, log = int(rng.integers(5, 9)), int(rng.integers(1, 3))
    exp.update(dict(chain_length=L, log_every_steps=log, batch_size=4, save_samples=True, save_root=root))
    exp.update(dict(over))
    with open(root + '_exp.py', 'w') as f:
      f.write(EXP % (exp,))
    args = {'config': root + '_exp.py', 'model_config': REPO + '/discs/models/configs/%s_config.py' % prob, 'sampler_config': REPO + '/discs/samplers/configs/%s_config.py' % sampler,
            'model_config.graph_type': kind, 'model_config.data_root': data, 'model_config.cfg_str': 'r-' + fields['rand_type']}
    m = script('discs.experiment.main_sampling', args)
    cfg = quiet(m.get_main_config)
    quiet(m.main, ['main_sampling'])
    with open(os.path.join(root, 'results.pkl'), 'rb') as f:
      res = pickle.load(f)
    cfg.model.max_num_nodes = max(len(g) for g in gs)
    best = np.asarray(res['best_samples'])
    refs = [1.0 if prob in ('mis', 'normcut') else s for s in sols]
    rec('end', label=label, c=drv_co.spec_const(cfg, 1.0), gs=[spec_graph(g) for g in gs], refs=[R(v) for v in refs], L=L, log=log,
        best=Rs(np.asarray(res['best_ratio']).reshape(-1)), xs=[Is(np.round(b)) for b in best.reshape(len(best), -1)], curve=Rs(np.asarray(res['trajectory'])), time=R(res['running_time']),
        mean=R(res['best_ratio_mean']))
  except (Exception, SystemExit) as ex:  # pylint: disable=broad-except
    rec.raised(label, ex if isinstance(ex, Exception) else RuntimeError(str(ex)))
  finally:
    shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(root + '-data', ignore_errors=True)


def runs(rec, arg):
  names = [s for s in sorted(SAMPLERS) if s != 'locallybalanced']  # not a sampler of the experiments
  todo = [(k, s) for a, k in enumerate(KINDS) for b, s in enumerate(names) if arg['all'] or (a + b) % arg.get('of', 4) == arg.get('phase', 0)]
  for i, (k, s) in enumerate(todo):
    if i % arg['parts'] == arg['part']:
      one(rec, k, s, i)

"""Scratch data sets in every on-disk format the graph loaders read."""
import os
import pickle
import tempfile

import networkx as nx
import numpy as np


def rand_graph(rng, n, p, weights=None, shuffle=True):
  """Nodes 0..n-1 in random insertion order; edges in random order/direction."""
  order = rng.permutation(n) if shuffle else np.arange(n)
  g = nx.Graph()
  g.add_nodes_from(int(v) for v in order)
  es = [(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < p]
  if not es:
    es = [(0, n - 1)]
  rng.shuffle(es)
  for i, j in es:
    if rng.random() < 0.5:
      i, j = j, i
    if weights:
      g.add_edge(int(i), int(j), weight=float(weights(rng)))
    else:
      g.add_edge(int(i), int(j))
  return g


WEIGHTS = {
    'unit': lambda r: 1.0,
    'sign': lambda r: r.choice([-1.0, 1.0]),
    'real': lambda r: round(r.normal() * 2, 3),
}


def dump(path, objs):
  """A stream of pickles, or one pickle."""
  os.makedirs(os.path.dirname(path), exist_ok=True)
  with open(path, 'wb') as f:
    for o in objs:
      pickle.dump(o, f)


def write(kind, root, graphs, sols, split=2):
  """Writes the graphs in the format of one loader.

  Returns the model configuration fields selecting it.
  """
  n = len(graphs)
  if n > 60:
    split = 1   # one large file
  elif n > 6:
    split = 7   # several files, in an order of creation that is not that of their names
  once = [(3 * i + 1) % split for i in range(split)] if split == 7 else range(split)
  files = sorted(range(n), key=lambda i: (7 * i + 3) % 11)
  if kind in ('er', 'ba'):
    base = os.path.join(root, 'maxcut-%s' % kind, 'maxcut-small')
    k = (n + split - 1) // split
    for s in once:
      dump(os.path.join(base, 'test-%d.pkl' % s),
           [(g, [v, None]) for g, v in zip(graphs[s * k:(s + 1) * k], sols[s * k:(s + 1) * k])])
    dump(os.path.join(base, 'train-0.pkl'), [(nx.complete_graph(3), [0.0])])
    return dict(graph_type=kind, rand_type='small')
  if kind == 'optsicom':
    dump(os.path.join(root, 'optsicom', 'b.pkl'), [(g, [v]) for g, v in zip(graphs, sols)])
    return dict(graph_type=kind, rand_type='b')
  if kind == 'ertest':
    for i in files:
      g, v = graphs[i], sols[i]
      left = int(v)
      for node in list(g.nodes()):
        if left > 0:
          g.nodes[node]['label'] = 1
          left -= 1
      dump(os.path.join(root, 'er_800_test', 'ER_%03d.gpickle' % i), [g])
    return dict(graph_type=kind, rand_type='800')
  if kind == 'er_density':
    dump(os.path.join(root, 'er_700_800', 'ER-700-800-0.20.pkl'), [graphs])
    return dict(graph_type=kind, rand_type='0.20')
  if kind == 'rb':
    k = (n + split - 1) // split
    for s in once:
      dump(os.path.join(root, 'RB_test', 'RB_%d.pkl' % s),
           [[(v, g) for g, v in zip(graphs[s * k:(s + 1) * k], sols[s * k:(s + 1) * k])]])
    return dict(graph_type=kind, rand_type='')
  if kind == 'twitter':
    k = (n + split - 1) // split
    for s in once:
      dump(os.path.join(root, 'twitter', 'twitter_%d.pkl' % s),
           [[graphs[s * k:(s + 1) * k], sols[s * k:(s + 1) * k]]])
    return dict(graph_type=kind, rand_type='')
  if kind == 'nets':
    dump(os.path.join(root, 'nets', 'TOY.pkl'), [graphs[0]])
    return dict(graph_type=kind, rand_type='TOY')
  if kind == 'gap_rand':
    for i in files:
      g = graphs[i]
      dump(os.path.join(root, 'gap_rand', 'toy', 'g%03d.pkl' % i), [g])
    return dict(graph_type=kind, rand_type='toy')
  if kind == 'satlib':   # graphs are (number of variables, clauses)
    d = os.path.join(root, 'satlib_test')
    os.makedirs(d, exist_ok=True)
    for i in files:
      nv, cls = graphs[i]
      with open(os.path.join(d, 'f%03d.cnf' % i), 'w') as f:
        f.write('p cnf %d %d\n' % (nv, len(cls)))
        for c in cls:
          f.write(' '.join(str(v) for v in c) + ' 0\n')
    with open(os.path.join(d, 'readme.txt'), 'w') as f:
      f.write('not a formula')
    return dict(graph_type=kind, rand_type='')
  raise ValueError(kind)


def rand_cnf(rng, nv=4):
  nc = int(rng.integers(2, 5))
  out = []
  for _ in range(nc):
    vs = rng.choice(np.arange(1, nv + 1), 3, replace=False)
    out.append([int(v) * int(rng.choice([-1, 1])) for v in vs])
  return nv, out


def cnf_graph(nc):
  """Independent construction: one node per literal occurrence, a triangle per
  clause, an edge between contradictory occurrences."""
  _, cls = nc
  occ = [(i, k) for i in range(len(cls)) for k in range(3)]
  g = nx.Graph()
  g.add_nodes_from(range(len(occ)))
  for a in range(len(occ)):
    for b in range(a + 1, len(occ)):
      (i, k), (j, m) = occ[a], occ[b]
      if i == j or cls[i][k] == -cls[j][m]:
        g.add_edge(a, b)
  return g


PROBLEM = {'er': 'maxcut', 'ba': 'maxcut', 'optsicom': 'maxcut', 'ertest': 'mis', 'er_density': 'mis', 'satlib': 'mis',
           'rb': 'maxclique', 'twitter': 'maxclique', 'nets': 'normcut', 'gap_rand': 'normcut'}


def scratch():
  return tempfile.mkdtemp(prefix='graphs-', dir=os.getcwd())


def config(kind, root, fields, num_models, K=2, **over):
  """A full configuration as main_sampling would assemble it."""
  from harness import util
  cfg = util.base_config()
  m = dict(name=PROBLEM[kind], data_root=root, num_models=num_models, max_num_nodes=0, max_num_edges=0,
           num_instances=0, num_categories=K, shape=(0,))
  m.update(fields)
  m.update(over)
  cfg.model.update(m)
  cfg.experiment.evaluator = 'co_eval'
  cfg.experiment.name = 'CO_Experiment'
  cfg.experiment.co_opt_prob = True
  cfg.experiment.num_models = num_models
  return cfg

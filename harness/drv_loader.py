"""Graph loaders, iterators and generators."""
import itertools
import os
import shutil

import jax
import networkx as nx
import numpy as np

from harness import drv_co, graphs
from harness.drv_co import quiet, spec_graph
from harness.util import *


def spec_entry(p):
  arr = lambda k: Is(p[k]) if k in p and p[k] is not None else []
  reals = lambda k: Rs(p[k]) if k in p and p[k] is not None else []
  return {'num_edges': arr('num_edges'), 'from': arr('edge_from'), 'to': arr('edge_to'), 'emask': arr('edge_mask'),
          'weight': reals('edge_weight'), 'bfrom': arr('bidir_edge_from'), 'bto': arr('bidir_edge_to'),
          'bweight': reals('bidir_edge_weight'),
          'nmask': [int(v) for v in np.asarray(p['mask'])] if p.get('mask') is not None else [],
          'nnodes': int(p['num_nodes']) if 'num_nodes' in p else -1, 'deg': reals('node_degrees')}


def shapes(p):
  leaves, tree = jax.tree_util.tree_flatten(p)
  return str(tree) + ' '.join('%s%s' % (np.asarray(v).dtype, np.shape(v)) for v in leaves)


class Procs:
  """Stand-in for a run with several processes."""

  def __init__(self, idx, count):
    self.idx, self.count = idx, count

  def __enter__(self):
    self.old = jax.process_index, jax.process_count
    jax.process_index = lambda *a, **k: self.idx
    jax.process_count = lambda *a, **k: self.count

  def __exit__(self, *a):
    jax.process_index, jax.process_count = self.old


def reference(kind, g, sol):
  if kind in ('er', 'ba', 'optsicom', 'rb', 'twitter'):
    return sol
  if kind == 'ertest':
    s = sum(d.get('label', 0) for _, d in g.nodes(data=True))
    return s if s else 1
  return 1.0


def optsicom_gen(rng, root):
  """The ten torus files, small."""
  from discs.graph_loader import maxcut_loader
  names = ['sg3dl05%d000.mc' % i for i in range(1, 11)]
  d = os.path.join(root, 'optsicom')
  os.makedirs(d)
  gs = []
  for nm in names:
    n = int(rng.integers(4, 7))
    g = nx.Graph()
    for u in range(n):
      g.add_edge(u, (u + 1) % n, weight=float(rng.choice([-1, 1])))
    with open(os.path.join(d, nm), 'w') as f:
      f.write('%d %d\n' % (n, g.number_of_edges()))
      for u, v, w in g.edges(data=True):
        f.write('%d %d %d\n' % (u + 1, v + 1, w['weight']))
    gs.append(g)
  old = maxcut_loader.__file__
  maxcut_loader.__file__ = os.path.join(os.path.realpath(root), 'maxcut_loader.py')
  return gs, lambda: setattr(maxcut_loader, '__file__', old)


def loaders(rec, arg):
  from discs.common import utils
  from discs.graph_loader import graph_gen
  todo = []
  for kind in drv_co.OBJ_KINDS + ['optsicom_gen']:
    for given in (False, True):
      for count in (1, 2, 3, 5, 6):
        todo.append((kind, given, count))
    todo.append((kind, False, 13))
    if kind != 'optsicom_gen':
      todo.append((kind, False, 70))
  todo = todo * arg.get('reps', 1)
  for i, (kind, given, count) in enumerate(todo):
    if i % arg['parts'] != arg['part']:
      continue
    label = '%s count=%d sizes given=%s' % (kind, count, given)
    rng = np.random.default_rng(SEED * 31 + i)
    undo = None
    try:
      K = int(rng.integers(2, 4))
      if kind == 'optsicom_gen':
        root = graphs.scratch()
        gs, undo = optsicom_gen(rng, root)
        sols = [1.0] * len(gs)
        cfg = graphs.config('optsicom', root, dict(graph_type='optsicom', rand_type='0.5'), 2)
      else:
        cfg, gs, sols, root = quiet(drv_co.setup, rng, kind, count=count, lo=4 if K == 3 else 3, hi=60 if count == 13 else 7, last=15 if count == 70 else 0, K=K, given=given, penalty=0.0)
      n = len(gs)
      gen = quiet(graph_gen.get_graphs, cfg)
      want = [max(len(g) for g in gs), max(g.number_of_edges() for g in gs), n]
      if (given and kind not in ('optsicom', 'er_density', 'nets', 'optsicom_gen')) or kind == 'gap_rand':
        want = [int(cfg.model.max_num_nodes), int(cfg.model.max_num_edges), n]
      quiet(utils.get_datagen, cfg)
      ident = {id(None): -1}
      # the position of an instance in the data set, by content
      canon = lambda g: (sorted(g.nodes()), sorted((min(u, v), max(u, v), float(d.get('weight', 1))) for u, v, d in g.edges(data=True)))
      cans = [canon(g) for g in gs]
      rep, seen = [], 0
      for g, _ in itertools.islice(quiet(gen.sample_gen, 'test', repeat=True), 2 * n + 1):
        k = seen % n
        rep.append(k if canon(g) == cans[k] else -1)
        seen += 1
      rec('sizes', label=label, got=[int(gen.max_num_nodes), int(gen.max_num_edges), int(gen.num_instances)], want=want,
          shape=[int(v) for v in cfg.model.shape] if [int(cfg.model.max_num_nodes), int(cfg.model.max_num_edges)] == want[:2] else [-1], rep=rep)
      for P in (1, 2, 3) if count < 70 else (1, 2):
        for B in ((P, 2 * P, 4 * P) + ((16 * P,) if count == 13 else ())) if count < 70 else (32 * P,):
          for p in range(P):
            with Procs(p, P):
              stream = list(gen.get_iterator('test', B, sharding=P > 1))
            rec('iter', label=label, n=n, B=B, P=P, p=p, out=[[int(e[0]) for e in b] for b in stream],
                shapes=[shapes(e[1]) for b in stream for e in b])
            if P == 1 and B == 4 or P == 2 and B == 4 and p == 1:
              for b in stream:
                for idx, params, sol in b:
                  if idx >= 0:
                    rec('instance', label=label, g=spec_graph(gs[idx]), p=spec_entry(params), sol=R(sol),
                        ref=R(reference(kind, gs[idx], sols[idx])), maxn=want[0], maxm=want[1],
                        masked=graphs.PROBLEM.get(kind, 'maxcut') != 'maxcut')
      # the unsharded iterator ignores the process it runs on
      with Procs(1, 2):
        stream = list(quiet(utils.get_datagen, cfg))
      rec('iter', label=label, n=n, B=int(cfg.model.num_models), P=1, p=0, out=[[int(e[0]) for e in b] for b in stream],
          shapes=[shapes(e[1]) for b in stream for e in b])
      shutil.rmtree(root)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
    finally:
      if undo:
        undo()


def formulas(rec, arg):
  from discs.graph_loader import mis_loader
  from pysat.formula import CNF
  rng = np.random.default_rng(SEED * 17)
  gen = mis_loader.SatLibGraphGen.__new__(mis_loader.SatLibGraphGen)
  for i in range(arg['n']):
    nv = int(rng.integers(2, 6))
    nc = int(rng.integers(1, 7))
    cls = [[int(v) * int(rng.choice([-1, 1])) for v in rng.integers(1, nv + 1, size=3)] for _ in range(nc)]
    try:
      src = [list(c) for c in cls]
      if i % 3 == 0:
        src.insert(int(rng.integers(0, len(src) + 1)), [])   # SATLIB files end with an empty clause
      cnf = CNF(from_clauses=src)
      cnf.nv = nv
      g = gen.cnf2graph(cnf)
      rec('cnf', label='cnf %s' % cls, cls=cls, nodes=[int(v) for v in g.nodes()], edges=[[int(u), int(v)] for u, v in g.edges()])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised('cnf2graph %s' % cls, ex)


def generators(rec, arg):
  from discs.graph_loader import common
  np.random.seed(SEED)
  import random
  random.seed(SEED)
  for i in range(arg['n']):
    for gt, kw in (('erdos_renyi', dict(er_p=0.15)), ('erdos_renyi', dict(er_p=0.35)), ('erdos_renyi', dict(er_p=0.7)),
                   ('barabasi_albert', dict(ba_m=2)), ('barabasi_albert', dict(ba_m=3))):
      for wt, wkw in (('none', {}), ('int', dict(w_type='int', w_min=-2, w_max=3)),
                      ('uniform', dict(w_type='uniform', w_min=0.5, w_max=1.5)),
                      ('normal', dict(w_type='normal', w_std=0.5, w_mean=2.0))):
        lo, hi = [(5, 9), (6, 6), (4, 12)][i % 3]
        try:
          g = common.gen_connected(gt, lo, hi, **kw, **wkw)
        except Exception as ex:  # pylint: disable=broad-except
          rec.raised('gen_connected %s %s' % (gt, wkw), ex)
          continue
        if g is None:   # gave up: allowed, the caller sees it
          continue
        bounds = {'none': (0, 0), 'int': (-2, 3), 'uniform': (0.5, 1.5), 'normal': (-3, 7)}[wt]
        rec('conn', label='gen_connected %s %s %s' % (gt, kw, wt), n=len(g), lo=lo, hi=hi, nodes=[int(v) for v in g.nodes()],
            edges=[[int(u), int(v), R(d.get('weight', 0.0))] for u, v, d in g.edges(data=True)],
            wt=wt, wlo=R(bounds[0]), whi=R(bounds[1]), m=kw.get('ba_m', 0))

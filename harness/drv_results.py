"""Saves results with the real saver and reads them back; builds the tables."""
import ast
import csv
import os
import pickle
import re
import shutil

import jax.numpy as jnp
import numpy as np
from PIL import Image

from harness import stubs
from harness.drv_co import quiet
from harness.util import *


def saver_for(cfg):
  from discs.common import experiment_saver
  return experiment_saver.build_saver(cfg)


def config(root, sampler='gwg', extra=False, evaluator='ess_eval', **samp):
  cfg = base_config()
  cfg.sampler.update(dict(name=sampler, **samp))
  cfg.model.update(dict(name='categorical', shape=(4,), num_categories=3))
  cfg.experiment.update(dict(save_root=root, get_additional_metrics=extra, evaluator=evaluator, batch_size=7, chain_length=30, ess_ratio=0.5))
  return cfg


def load(root, name):
  with open(os.path.join(root, name), 'rb') as f:
    return pickle.load(f)


def co_rec(traj, best, time, samples):
  return dict(traj=[Rs(v) for v in traj], best=Rs(best), time=R(time), samples=[Rs(v) for v in samples])


def co_file(root):
  r = load(root, 'results.pkl')
  d = co_rec(r['trajectory'], r['best_ratio'], r['running_time'], r.get('best_samples', []))
  d['mean'] = R(r['best_ratio_mean'])
  return d


def nums(s):
  return [R(v) for v in str(s).replace('[', ' ').replace(']', ' ').replace(',', ' ').split()]


SETTINGS = [
    dict(sampler='gwg', adaptive=True, balancing_fn_type='SQRT'), dict(sampler='gwg', adaptive=False, balancing_fn_type='RATIO'),
    dict(sampler='dlmc', adaptive=True, solver='euler_forward', balancing_fn_type='MIN'), dict(sampler='dlmc', adaptive=False, solver='interpolate', balancing_fn_type='MAX'),
    dict(sampler='gibbs'), dict(sampler='randomwalk', adaptive=True), dict(sampler='hammingball', block_size=3),
]


def saves(rec, arg):
  rng = np.random.default_rng(SEED)
  for ci in range(arg['n']):
    root = os.path.abspath('res%d/deep' % ci)
    label = 'saver %d' % ci
    try:
      cfg = config(root, extra=ci % 3 == 0, evaluator='co_eval')
      sv = saver_for(cfg)
      rec('open', label=label)
      logs = int(rng.integers(1, 4)) if ci != 1 else 300
      keep = bool(ci % 2)
      for b in range(int(rng.integers(1, 4))):
        m = int(rng.integers(1, 4)) if ci else int(rng.integers(90, 140))
        traj = [np.float32(rng.normal(size=m)) for _ in range(logs)]
        smp = rng.integers(0, 3, size=(m, 4)) if keep else []
        t = float(rng.uniform(0.1, 2))
        sv.save_co_resuts(traj, jnp.asarray(traj[-1]), t, jnp.asarray(smp) if keep else [])
        sv.save_results([0.5] * 3, [1.0] * 3, None, t)
        rec('co', label='%s batch %d' % (label, b), given=co_rec(traj, traj[-1], t, smp), file=co_file(root))
      x = rng.integers(0, 2, size=(3, 4, 9))
      sv.dump_samples([jnp.asarray(v) for v in x], visualize=ci % 2 == 0)
      rec('same', what='snapshots', label=label, given=Is(x), file=Is(load(root, 'samples.pkl')['trajectory']))
      # the pictures show the samples (blocks of 4 by 4, which the compression of the picture keeps)
      x = np.kron(rng.integers(0, 2, size=(2, 3, 4, 4)), np.ones((4, 4), int))
      x[..., :4, :4], x[..., :4, -4:] = 0, 1
      sv.dump_samples([jnp.asarray(v.reshape(3, 256)) for v in x], visualize=True)
      pics = {}
      for f in os.listdir(root):
        m = re.match('^sample_([0-9]+)_of_chain_([0-9]+)[.]', f)
        if m:
          pics.setdefault((int(m.group(1)), int(m.group(2))), np.asarray(Image.open(os.path.join(root, f)).convert('L')))
      rec('same', what='pictures of the samples', label=label, given=Is(x.reshape(2, 3, 256)),
          file=[[Is((pics[(s, c)] > 127).astype(int).ravel()) if (s, c) in pics else [] for c in range(3)] for s in range(2)])
      p = rng.normal(size=5)
      sv.dump_params(jnp.asarray(p))
      rec('same', what='parameters', label=label, given=Rs(np.float32(p)), file=Rs(load(root, 'params.pkl')['params']))
      z = [jnp.float32(v) for v in rng.normal(size=6)]
      sv.save_logz(z)
      rec('same', what='log normalising constants', label=label, given=Rs(z), file=Rs(load(root, 'logz.pkl')['logz']))
      r1, r2 = ({'infill_sents': ['a b', 'c'], 'tbc_bleu': float(rng.uniform())} for _ in range(2))
      for topk in (r2, []):
        shutil.rmtree(root)
        sv = saver_for(cfg)
        sv.save_lm_results(r1, topk)
        got = load(root, 'results.pkl')
        topf = os.path.join(root, 'results_topk.pkl')
        gotk = load(root, 'results_topk.pkl') if os.path.exists(topf) else []
        enc = lambda d: [d['infill_sents'], R(d['tbc_bleu']), sorted(d)] if d else []
        rec('same', what='text results', label=label, given=[enc(r1), enc(topk)], file=[enc(got), enc(gotk)])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
  for ci, s in enumerate(SETTINGS):
    for dev in (False, True):
      root = os.path.abspath('ess%d%d' % (ci, dev))
      label = 'summary %s devices=%s' % (s, dev)
      try:
        cfg = config(root, extra=bool(ci % 2), **s)
        m = [np.float32(np.exp(rng.normal(size=2) * 3)) for _ in range(4)]
        t = float(rng.uniform(0.1, 2))
        saver_for(cfg).save_results([0.25, 0.5], [1.0, 2.0], tuple(jnp.asarray([v] if dev else v) for v in m), t)
        with open(os.path.join(root, 'results.csv')) as f:
          row, = list(csv.DictReader(f))
        given = ['categorical', '3', '(4,)', '7', '30', '0.5']
        rec('ess', label=label, cfg=dict(name=s['sampler'], adaptive=bool(s.get('adaptive', False)), solver=s.get('solver', ''), balancing=s.get('balancing_fn_type', '')),
            sampler=row['sampler'], setting=[row[k] for k in ('model', 'num_categories', 'shape', 'batch_size', 'chain_length', 'ess_ratio')], given=given,
            vals=[nums(row[k]) for k in ('ESS', 'ESS_M-H', 'ESS_T', 'ESS_EE')], metrics=[Rs(v) for v in m], time=R(row['Time']), running=R(t))
      except Exception as ex:  # pylint: disable=broad-except
        rec.raised(label, ex)


def experiment_saves(rec, arg):
  """An annealing experiment over several batches with the real saver."""
  from harness import drv_exp
  from discs.common import experiment_saver

  class Rec(experiment_saver.Saver):
    """Also keeps what it is handed."""
    calls = []

    def save_co_resuts(self, trajectory, best_ratio, running_time, best_samples):
      Rec.calls.append((np.array(trajectory), np.array(best_ratio), running_time, np.array(best_samples)))
      super().save_co_resuts(trajectory, best_ratio, running_time, best_samples)
  rng = np.random.default_rng(SEED + 5)
  for ci, (n, M, keep) in enumerate([(5, 2, True), (3, 1, False), (4, 4, True), (2, 3, True)]):
    label = 'annealing %d instances in batches of %d' % (n, M)
    try:
      root = os.path.abspath('exp%d' % ci)
      batches = []
      for b in range(-(-n // M)):
        ents = []
        for m in range(M):
          i = b * M + m
          ents.append((i if i < n else -1, {'ident': jnp.int32(i), 'w': jnp.asarray(rng.integers(-3, 4, size=3), jnp.float32),
                                            'c': jnp.float32(i), 'mask': jnp.zeros(3, jnp.int32)}, 2.0))
        batches.append(ents)
      cfg = drv_exp.exp_config(2, (3,), model_name='maxcut', name='CO_Experiment', evaluator='co_eval', num_models=M, batch_size=2, chain_length=6, ess_ratio=0.5,
                               log_every_steps=2, t_schedule='linear', init_temperature=1.0, final_temperature=0.5, decay_rate=0.1, save_samples=keep, co_opt_prob=True,
                               get_additional_metrics=True, save_root=root)
      cfg.sampler.name = 'gwg'
      Rec.calls = []
      quiet(lambda: drv_exp.experiment(cfg).get_results(stubs.COModel(batches, 2, (3,)), stubs.Sampler(2), drv_exp.evaluator(cfg), Rec(cfg)))
      tot = [np.concatenate([c[0] for c in Rec.calls], -1), np.concatenate([c[1] for c in Rec.calls]), sum(c[2] for c in Rec.calls),
             np.concatenate([c[3] for c in Rec.calls]) if keep else []]
      rec('open', label=label)
      rec('co', label=label, given=co_rec(*tot), file=co_file(root))
      rec('same', what='annealing: number of instances in the results', label=label, given=n, file=len(load(root, 'results.pkl')['best_ratio']))
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


# ---------------------------------------------------------------- tables
TABLE_SAMPLERS = [
    dict(name='hammingball'), dict(name='blockgibbs'), dict(name='randomwalk', adaptive='True'),
    dict(name='gwg', balancing='SQRT', adaptive='True'), dict(name='gwg', balancing='RATIO', adaptive='True'),
    dict(name='dmala', balancing='SQRT', adaptive='False', step_size='0.2'), dict(name='path_auxiliary', balancing='MAX'),
    dict(name='dlmc', solver='euler_forward', balancing='RATIO'), dict(name='dlmc', solver='interpolate', balancing='MIN'),
    dict(name='dlmc', balancing='SQRT', adaptive='False', step_size='0.5'), dict(name='dlmc', balancing='SQRT', adaptive='False', step_size='0.75'),
    dict(name='dmala', balancing='SQRT', adaptive='False', step_size='0.1'), dict(name='dmala', balancing='RATIO', adaptive='False', step_size='0.1'),
    dict(name='gwg', balancing='RATIO', adaptive='False', num_flips='1'), dict(name='gwg', balancing='RATIO', adaptive='False', num_flips='3'),
    dict(name='dlmc', balancing='SQRT', adaptive='False', n='2'), dict(name='dlmc', balancing='SQRT', adaptive='False', n='4'),
]


def folder(i, group, s, rng):
  """Folder of one run, named after its configuration."""
  items = [("model_config.%s" % k, v) for k, v in group]
  items.append(('sampler_config.name', "'%s'" % s['name']))
  for k, key in (('solver', 'solver'), ('balancing', 'balancing_fn_type'), ('adaptive', 'adaptive'), ('step_size', 'step_size'), ('n', 'n'), ('num_flips', 'num_flips')):
    if s.get(k):
      items.append(('sampler_config.' + key, s[k] if k in ('adaptive', 'step_size', 'n', 'num_flips') else "'%s'" % s[k]))
  rng.shuffle(items)
  return '%d_%s' % (i, ','.join('%s=%s' % kv for kv in items))


def cfg_of(s):
  return dict(name=s['name'], solver=s.get('solver', ''), balancing=s.get('balancing', ''), adaptive=s.get('adaptive', ''), step_size=s.get('step_size', ''),
              n=s.get('n', ''), num_flips=s.get('num_flips', ''))


def tables(rec, arg):
  from harness import drv_figures
  rng = np.random.default_rng(SEED + 9)
  import random
  shuf = random.Random(SEED)
  for ci, kind in enumerate(['co', 'co', 'lm', 'ess', 'ess', 'lm', 'co'] * arg['reps']):
    label = 'tables %d %s' % (ci, kind)
    try:
      root = './discs-categorical-sweep%d' % ci
      os.makedirs(root)
      ngroups = 1 + ci % 3
      groups = [[('num_categories', str(3 + g)), ('init_sigma', '0.5')] for g in range(ngroups)]
      runs, i = [], 0
      for g in groups:
        names = [TABLE_SAMPLERS[k] for k in rng.permutation(len(TABLE_SAMPLERS))[:int(rng.integers(2, 12))]]
        for s in names:
          d = os.path.join(root, folder(i, g, s, shuf))
          os.makedirs(d)
          cfg = config(d, evaluator='ess_eval' if kind == 'ess' else kind)
          sv = saver_for(cfg)
          if kind == 'co':
            traj = [np.float32(rng.uniform(size=4)) for _ in range(3)]
            sv.save_co_resuts(traj, traj[-1], 1.5 + i, [])
            t64 = np.float64(traj[-1])
            vals = [np.mean(t64), 2 * (1.5 + i), np.std(t64)]
          elif kind == 'lm':
            r = {'infill_sents': ['x'], 'tbc_bleu': float(rng.uniform()), 'self_bleu': float(rng.uniform())}
            sv.save_lm_results({'infill_sents': ['y'], 'tbc_bleu': 0.0, 'self_bleu': 0.0}, r)
            vals = [r['tbc_bleu'], r['self_bleu']]
          else:
            m = [np.float32(np.exp(rng.normal(size=2) * 2)) for _ in range(4)]
            dev = bool(rng.integers(0, 2))
            sv.save_results([], [], tuple(jnp.asarray([v] if dev else v) for v in m), 1.0)
            vals = [m[3][0] * 50000.0, m[3][1] * 50000.0, m[2][0], m[2][1]]
          runs.append(dict(group=g[0][1], cfg=cfg_of(s), vals=Rs(np.asarray(vals, np.float64)), folder=os.path.basename(d)))
          i += 1
      # runs are read in the order of their folders
      runs.sort(key=lambda r: r['folder'])
      figs = drv_figures.figures('plot_results', gcs_results_path=root, evaluation_type=kind, key='name')
      tabs = []
      if kind != 'ess':
        cols = ['best_ratio_mean', 'running_time', 'best_ratio_std'] if kind == 'co' else ['tbc_bleu', 'self_bleu']
        d = os.path.join(kind + '_csv', root[2:])
        for f in sorted(os.listdir(d)):
          with open(os.path.join(d, f)) as fh:
            rows = list(csv.DictReader(fh))
          g = [p.split('=')[1] for p in f[:-4].split(',') if p.startswith('num_categories=')]
          tabs.append(dict(group=g[0] if g else f, rows=[dict(sampler=r['sampler'], vals=[nums(r[c]) for c in cols]) for r in rows]))
      else:
        cols = ['ess_ee', 'ess_ee_std', 'ess_clock', 'ess_clock_std']
        acc = {}
        for base, fig in figs.items():
          key = 'ess_ee' if base.startswith('ess_ee') else 'ess_clock'
          g = [p.split('=')[1] for p in base.split(',') if 'num_categories=' in p][0]
          for b in fig['bars']:
            e = acc.setdefault(g, {}).setdefault(b['label'], {}).setdefault(key, ([], []))
            e[0].append(b['h'])
            e[1].append(b['err'])
        for g in sorted(acc):
          rows = []
          for nme in sorted(acc[g]):
            e = acc[g][nme]
            rows.append(dict(sampler=nme, vals=[e[k][j] for k in ('ess_ee', 'ess_clock') for j in (0, 1)]))
          tabs.append(dict(group=g, rows=rows))
      rec('tables', label=label, runs=runs, tables=tabs, cols=cols)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)

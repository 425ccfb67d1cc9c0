"""C21: launching sweeps, assembling settings, building runs."""
import ast
import asyncio
import contextlib
import glob
import importlib
import importlib.util
import io
import itertools
import json
import os
import re
import subprocess
import sys
import types

import numpy as np

from harness import graphs
from harness.core import REPO
from harness.util import SEED


def quiet(f):
  with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    return f()


def text(v):
  """A value as the specification compares it."""
  if isinstance(v, bool) or v is None:
    return str(v)
  if isinstance(v, (int, np.integer)):
    return repr(int(v))
  if isinstance(v, float):
    return repr(int(v)) if v == int(v) and abs(v) < 1e9 else repr(v)
  if isinstance(v, (tuple, list)):
    return '(' + ','.join(text(x) for x in v) + ')'
  return str(v)


def flat(d, pre=''):
  out = {}
  for k, v in d.items():
    if hasattr(v, 'items'):
      out.update(flat(v, pre + k + '.'))
    else:
      out[pre + k] = v
  return out


def texts(d):
  return {k: text(v) for k, v in d.items()}


# ---- command line ----
def forget(prefixes):
  from absl import flags
  for k in list(flags.FLAGS):
    if k.split('.')[0] in prefixes:
      delattr(flags.FLAGS, k)


def script(name, args, extra=()):
  """Imports a script afresh and parses its command line."""
  from absl import flags
  forget(('config', 'model_config', 'sampler_config', 'run_local', 'save_folder_pattern', 'launch_locally', 'num_gpus', 'use_batch'))
  sys.modules.pop(name, None)
  m = importlib.import_module(name)
  sys.argv = [name] + ['--%s=%s' % kv for kv in args.items()] + list(extra)
  flags.FLAGS(sys.argv)
  return m


# ---- stand-in for the cluster ----
class Anything:
  def __init__(self, *a, **k):
    self.__dict__.update(k)

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    return Anything()

  def __call__(self, *a, **k):
    return Anything(*a, **k)


class Job:
  def __init__(self, executable=None, args=None, executor=None, **k):
    self.args = args


class Unit:
  def __init__(self, i, exp):
    self.work_unit_id, self.exp = i, exp

  def add(self, job, args=None, **k):
    self.exp.jobs.append((self.work_unit_id, dict(job.args, **(args or {}))))


class Cluster:
  """Experiment: runs the job generators it is given, keeps the jobs."""
  experiment_id = 4711
  made = []

  def __init__(self, title):
    self.title, self.n, self.jobs = title, 0, []
    Cluster.made.append(self)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def package(self, specs):
    return [Anything() for _ in specs]

  def add(self, job, args=None, **k):
    self.n += 1
    u = Unit(self.n, self)
    if isinstance(job, Job):
      u.add(job, args)
      return
    r = job(u, **(args or {}))
    if asyncio.iscoroutine(r):
      asyncio.run(r)


def stub_cluster():
  def mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    m.__getattr__ = lambda n: Anything()
    sys.modules[name] = m
    return m
  create = lambda experiment_title=None, *a, **k: Cluster(experiment_title)
  xm = mod('xmanager.xm', Job=Job, ServiceTier=Anything(BATCH=1, PROD=2), JobRequirements=Anything, GiB=1, ModuleName=lambda x: x)
  xa = mod('xmanager.xm_abc', create_experiment=create, Gcp=Anything)
  xl = mod('xmanager.xm_local', create_experiment=create, Local=Anything)
  fd = mod('xmanager.contrib.framework_defaults', base_image=lambda *a: '')
  mod('xmanager.contrib', framework_defaults=fd)
  mod('xmanager', xm=xm, xm_abc=xa, xm_local=xl)


def load(path):
  spec = importlib.util.spec_from_file_location('cfg_%d' % abs(hash(path)), path)
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  return m


def launch(path):
  """Jobs launched for a run configuration: [(id, args)]."""
  m = script('discs.xm_launcher', {'config': path})
  Cluster.made.clear()
  quiet(lambda: m.main(['xm_launcher']))
  return [j for e in Cluster.made for j in e.jobs]


def shown(key, v):
  """A swept value as it is read back from the name of the result folder."""
  if isinstance(v, str) and v.startswith('/gcs'):
    return '-'.join(v.split('/')[-3:])
  if key == 'cfg_str':
    return v[2:]
  if isinstance(v, str) and v.startswith('('):
    return v[1:].split(',')[0]
  return str(v)


def record_launch(rec, label, path):
  from discs.plot_results import plot_utils
  cfg = load(path).get_config()
  sweeps = [{k: list(v) for k, v in dict(d).items()} for d in cfg.sweep]
  jobs = launch(path)
  out = []
  for i, args in jobs:
    args = dict(args)
    root = args.pop('config.experiment.save_root', '')
    parts = root.split('/')
    base = '/'.join(parts[:-1])
    swept = sorted({k for d in sweeps for k in d})
    seen = {}
    for k in swept:
      if k in args:
        short = k.split('.')[-1]
        seen.setdefault(short, []).append(shown(short, args[k]))
    read = plot_utils.get_experiment_config(parts[-1])
    rel = {k: re.sub(r'^/workdir/', '', text(v)) for k, v in args.items()}
    data = rel.pop('model_config.data_root', '') if not any('model_config.data_root' in d for d in sweeps) else ''
    out.append(dict(id=i, args=rel, base=base, folder=parts[-1], data=data,
                    own=parts[-1].split('_')[0] == str(i),
                    seen=[dict(key=k, vals=v, read=read.get(k, '<none>')) for k, v in seen.items()], nread=len(read), nseen=len(seen)))
  rec('launched', label=label, model=cfg.model, sampler=cfg.sampler, graph=cfg.get('graph_type', ''),
      sweeps=[[dict(key=k, vals=[text(x) for x in v]) for k, v in d.items()] for d in sweeps], jobs=out)
  return jobs


# ---- assembling ----
def section(args, name, base):
  """Command-line overrides of one configuration file, typed by the file."""
  out = {}
  for k, v in args.items():
    if k.startswith(name + '.'):
      key = k[len(name) + 1:]
      old = base.get(key)
      if isinstance(old, tuple) and isinstance(v, str):
        v = tuple(ast.literal_eval(v))
      elif isinstance(old, bool):
        v = str(v) in ('True', 'true', '1')
      elif isinstance(old, float):
        v = float(v)
      elif isinstance(old, int) and not isinstance(v, bool):
        v = int(v)
      out[key] = v
  return out


def layers(args):
  """The sources of a setting, read independently of the program under test."""
  here = lambda p: p.replace('/workdir/', REPO + '/') if p.startswith('/') else os.path.join(REPO, p)
  exp = flat(load(here(args['config'])).get_config())
  model = flat(load(here(args['model_config'])).get_config())
  sampler = flat(load(here(args['sampler_config'])).get_config())
  expo = section(args, 'config', exp)
  modelo, samplero = section(args, 'model_config', model), section(args, 'sampler_config', sampler)
  from discs.common import configs
  sec = lambda d, s: {s + '.' + k: text(v) for k, v in d.items()}
  m = dict(model, **modelo)
  kind = 'graph' if m.get('graph_type') else 'text' if m.get('bert_model') else 'classical'
  graph = {}
  if kind == 'graph':
    g = importlib.import_module('discs.models.configs.%s.%s' % (m['name'], m['graph_type']))
    graph = flat(g.get_model_config(m['cfg_str']))
  return dict(kind=kind, common=texts(flat(configs.get_config())), exp=texts(exp), expo=texts(expo), model=sec(model, 'model'), modelo=sec(modelo, 'model'),
              sampler=sec(sampler, 'sampler'), samplero=sec(samplero, 'sampler'), graph=sec(graph, 'model'))


def assemble(args):
  here = {k: (str(v).replace('/workdir/', REPO + '/') if k in ('config', 'model_config', 'sampler_config') else v) for k, v in args.items()}
  for k in ('config', 'model_config', 'sampler_config'):
    if not here[k].startswith('/'):
      here[k] = os.path.join(REPO, here[k])
  m = script('discs.experiment.main_sampling', here)
  cfg = quiet(m.get_main_config)
  quiet(lambda: m.update_save_dir(cfg))
  return m, cfg


def record_assembly(rec, label, args, asked=None):
  try:
    c = layers(args)
    _, cfg = assemble(args)
    rec('assembled', label=label, c=c, got=texts(flat(cfg)), local=args.get('run_local') in ('True', True), asked=asked or {'model.name': cfg.model.name})
  except (Exception, SystemExit) as ex:  # pylint: disable=broad-except
    rec.raised('assembling ' + label, ex if isinstance(ex, Exception) else RuntimeError(str(ex)))


def shipped(rec, arg):
  """Every shipped run configuration: the jobs, and the setting of each job."""
  stub_cluster()
  files = sorted(glob.glob(os.path.join(REPO, 'discs/run_configs/*/*/*.py')))
  for f in files[arg['part']::arg['parts']]:
    label = os.path.relpath(f, REPO)
    try:
      jobs = record_launch(rec, label, f)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised('launching ' + label, ex)
      continue
    step = 1 if arg['all'] else max(1, len(jobs) // 12)
    for i, args in jobs[::step]:
      args = dict(args)
      args['config.experiment.save_root'] = 'out/%d' % i
      record_assembly(rec, '%s job %d' % (label, i), args)


TEMPLATE = '''from ml_collections import config_dict


def get_config():
  return config_dict.ConfigDict(%r)
'''
FIELDS = {
    'config.experiment.': [('chain_length', [100, 2000, 30]), ('batch_size', [1, 4, 12]), ('save_samples', [True, False]), ('ess_ratio', [0.25, 0.5])],
    'model_config.': [('init_sigma', [0.5, 1.5, 2.25])],
}
SAMPLERS = {
    'randomwalk': [('adaptive', [True, False])], 'blockgibbs': [('block_size', [1, 3])], 'hammingball': [('block_size', [4])], 'gibbs': [],
    'gwg': [('num_flips', [1, 2]), ('balancing_fn_type', ['SQRT', 'RATIO', 'MAX', 'MIN'])], 'locallybalanced': [('balancing_fn_type', ['SQRT', 'RATIO'])],
    'path_auxiliary': [('num_flips', [3]), ('use_fast_path', [True, False]), ('approx_with_grad', [False])],
    'dmala': [('step_size', [0.1, 0.75]), ('adaptive', [False])], 'dlmc': [('solver', ['interpolate', 'euler_forward']), ('n', [2, 4.5])],
}
GRAPHS = {('maxcut', 'ba'): ['r-ba-4-n-16-20', 'r-ba-4-n-512-600'], ('maxcut', 'er'): ['r-er-0.15-n-256-300'], ('maxcut', 'optsicom'): ['r-b', 'r-t'], ('mis', 'ertest'): ['r-800', 'r-10k'],
          ('mis', 'er_density'): ['r-0.05', 'r-0.25'], ('mis', 'satlib'): ['_'], ('maxclique', 'rb'): ['_'], ('maxclique', 'twitter'): ['_'], ('normcut', 'nets'): ['r-VGG', 'r-MNIST'], ('normcut', 'gap_rand'): ['_']}


def random_sweep(rng):
  """A run configuration of somebody's own."""
  kind = rng.choice(['classical', 'graph', 'graph', 'text'])
  pick = lambda xs: xs[int(rng.integers(len(xs)))]
  cfg = {}
  if kind == 'graph':
    (model, graph) = pick(sorted(GRAPHS))
    cfg = dict(model=model, graph_type=graph)
  elif kind == 'text':
    cfg = dict(model='text_infilling')
  else:
    cfg = dict(model=str(pick(['bernoulli', 'categorical', 'ising', 'potts', 'fhmm'])))
  cfg['sampler'] = pick(sorted(SAMPLERS))
  sweep = []
  for _ in range(int(rng.integers(1, 4))):
    d = []
    names = [pick(sorted(SAMPLERS)) for _ in range(int(rng.integers(0, 3)))]
    names = list(dict.fromkeys(names))
    if names:
      d.append(('sampler_config.name', names))
    for k, v in FIELDS['config.experiment.']:
      if rng.uniform() < .4 and (kind == 'classical' or k in ('chain_length', 'batch_size')):
        d.append(('config.experiment.' + k, v[:int(rng.integers(1, len(v) + 1))]))
    if kind == 'classical' and cfg['model'] in ('bernoulli', 'categorical', 'ising') and rng.uniform() < .6:
      d.append(('model_config.init_sigma', FIELDS['model_config.'][0][1][:int(rng.integers(1, 4))]))
    if kind == 'classical' and rng.uniform() < .5:
      d.append(('model_config.shape', ['(6, 4)', '(9, 2)'] if cfg['model'] in ('ising', 'potts', 'fhmm') else ['(12,)', '(30,)']))
    if kind == 'graph' and GRAPHS[(model, graph)] != ['_']:
      d.append(('model_config.cfg_str', GRAPHS[(model, graph)]))
    if kind == 'graph' and model == 'mis' and graph != 'satlib' and rng.uniform() < .6:
      d.append(('model_config.penalty', [1.01, 2]))
    if kind == 'graph':
      d.append(('config.experiment.t_schedule', ['linear', 'constant'][:int(rng.integers(1, 3))]))
    own = names if len(names) == 1 else [cfg['sampler']] if not names else []
    for nm in own:
      for k, v in SAMPLERS[nm]:
        if rng.uniform() < .7:
          d.append(('sampler_config.' + k, v))
    if not d:
      d.append(('config.experiment.chain_length', [10, 20]))
    order = rng.permutation(len(d))
    sweep.append({d[i][0]: d[i][1] for i in order})
  cfg['sweep'] = sweep
  return cfg


def sweeps(rec, arg):
  """Run configurations of somebody's own."""
  stub_cluster()
  rng = np.random.default_rng(SEED + 17)
  for i in range(arg['n']):
    cfg = random_sweep(rng)
    os.makedirs('own%d' % i)
    path = os.path.abspath('own%d/my_sweep.py' % i)
    with open(path, 'w') as f:
      f.write(TEMPLATE % cfg)
    try:
      jobs = record_launch(rec, 'sweep %d' % i, path)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised('launching %s' % json.dumps(cfg), ex)
      continue
    for j in sorted({0, len(jobs) - 1, len(jobs) // 2}):
      args = dict(jobs[j][1])
      args['config.experiment.save_root'] = 'out/%d' % j
      record_assembly(rec, 'sweep %d job %d' % (i, j), args)


def strings(rec, arg):
  """Setting strings."""
  from discs.common import utils
  rng = np.random.default_rng(SEED + 3)
  alphabet = ['r', 'ba', '4', 'n', '16', '0.15', 'x', '1024', 'INCEPTION']
  for i in range(arg['n']):
    pairs = [dict(key=str(rng.choice(alphabet)), parts=[str(rng.choice(alphabet)) for _ in range(int(rng.integers(1, 6)))]) for _ in range(int(rng.integers(1, 4)))]
    got = utils.parse_cfg_str(','.join('-'.join([p['key']] + p['parts']) for p in pairs))
    rec('parsed', label='string %d' % i, pairs=pairs, got={k: v.split('-') for k, v in got.items()})


LOCAL = [('bernoulli', ''), ('categorical', ''), ('ising', ''), ('potts', ''), ('fhmm', ''), ('rbm', ''), ('resnet', ''), ('text_infilling', '')] + sorted(GRAPHS)


def local(rec, arg):
  """The local run script: what it runs, and the setting it gets."""
  os.makedirs('bin')
  with open('bin/python', 'w') as f:
    f.write('#!/bin/bash\nprintf "%s\\0" "$@" > "$OUT"\n')
  os.chmod('bin/python', 0o755)
  names = sorted(SAMPLERS)
  for i, (model, graph) in enumerate(LOCAL):
    for s in (names[i % len(names)], names[(i + 4) % len(names)]):
      label = 'model=%s graph_type=%s sampler=%s run_sampling_local.sh' % (model, graph, s)
      try:
        out = os.path.abspath('args')
        env = dict(os.environ, PATH=os.path.abspath('bin') + ':' + os.environ['PATH'], OUT=out, model=model, sampler=s)
        env.pop('graph_type', None)
        if graph:
          env['graph_type'] = graph
        r = subprocess.run(['bash', os.path.join(REPO, 'discs/experiment/run_sampling_local.sh')], cwd=os.path.abspath('bin'), env=env, capture_output=True, timeout=60)
        argv = open(out).read().split('\0')[:-1]
        os.remove(out)
        assert r.returncode == 0 and argv[:2] == ['-m', 'discs.experiment.main_sampling'], argv
        args = dict(a[2:].split('=', 1) for a in argv[2:] if a.strip())
        asked = {'model.name': model, 'sampler.name': s}
        if graph:
          asked['model.graph_type'] = graph
        record_assembly(rec, label, args, asked)
      except Exception as ex:  # pylint: disable=broad-except
        rec.raised(label, ex)


def dataset(graph, root):
  """A small data set of one kind; the setting string that selects it."""
  rng = np.random.default_rng(SEED)
  gs = [graphs.rand_cnf(rng) for _ in range(3)] if graph == 'satlib' else [graphs.rand_graph(rng, 5, .5, graphs.WEIGHTS['unit']) for _ in range(5)]
  f = graphs.write(graph, root, gs, [1.0] * len(gs))
  if graph == 'gap_rand':
    os.rename(os.path.join(root, 'gap_rand', 'toy'), os.path.join(root, 'gap_rand', 'test-1000'))
  return 'r-' + f['rand_type']


def built(rec, arg):
  """main(): which model, sampler, evaluator and experiment are run on which setting."""
  import yaml
  from discs.experiment import sampling
  caught = []

  def get_results(self, model, sampler, evaluator, saver, *a, **k):
    caught.append((self, model, sampler, evaluator, saver))
  for c in [v for v in vars(sampling).values() if isinstance(v, type)]:
    if 'get_results' in vars(c):
      c.get_results = get_results
  names = sorted(SAMPLERS)
  runs = [(m, g, s) for i, (m, g) in enumerate(x for x in LOCAL if x[0] not in ('rbm', 'resnet', 'text_infilling')) for s in (names if i in arg['full'] else [names[i % len(names)]])]
  for i, (model, graph, s) in enumerate(runs):
    label = 'main %s %s %s' % (model, graph, s)
    root = os.path.abspath('run%d' % i)
    args = {'model_config': 'discs/models/configs/%s_config.py' % model, 'sampler_config': 'discs/samplers/configs/%s_config.py' % s,
            'config': 'discs/experiment/configs/%s/%s.py' % (model, graph) if graph else 'discs/common/configs.py', 'config.experiment.save_root': root,
            'config.experiment.batch_size': 3 + i}
    try:
      if graph:
        args.update({'model_config.graph_type': graph, 'model_config.data_root': root + '-data', 'model_config.cfg_str': dataset(graph, root + '-data')})
      _, cfg = assemble(args)
      got = texts(flat(cfg))
      m, _ = assemble(args)
      caught.clear()
      quiet(lambda: m.main(['main_sampling']))
      exp, mod, smp, ev, saver = caught[0]
      want = (getattr(sampling, cfg.experiment.name), type(importlib.import_module('discs.models.' + model).build_model(cfg)),
              type(importlib.import_module('discs.samplers.' + s).build_sampler(cfg)), type(importlib.import_module('discs.evaluators.' + cfg.experiment.evaluator).build_evaluator(cfg)))
      with open(os.path.join(root, 'config.yaml')) as f:
        kept = yaml.unsafe_load(f.read())
      name = lambda c: c.__module__ + '.' + c.__name__
      stored = texts(flat(kept))
      for d in (got, stored):
        d.pop('experiment.fig_folder', None)
      rec('built', label=label, runs=len(caught), want=[name(c) for c in want], got=[name(type(x)) for x in (exp, mod, smp, ev)], cfg=got, stored=stored,
          batch=text(exp.config.batch_size), saves=os.path.abspath(saver.save_dir) if hasattr(saver, 'save_dir') else root, root=root)
    except (Exception, SystemExit) as ex:  # pylint: disable=broad-except
      rec.raised(label, ex if isinstance(ex, Exception) else RuntimeError(str(ex)))

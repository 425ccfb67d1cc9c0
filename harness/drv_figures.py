"""C23: figures and tables made from the results of a sweep.

The folders are the ones the real launcher gives the jobs of a sweep, their contents are written by the real saver, and the figures are
looked at as they are when they are saved."""
import csv
import glob
import importlib
import os
import re
import shutil
import sys

import matplotlib
matplotlib.use('Agg')
import jax.numpy as jnp  # pylint: disable=wrong-import-position
import matplotlib.colors as mcolors  # pylint: disable=wrong-import-position
import matplotlib.pyplot as plt  # pylint: disable=wrong-import-position
import numpy as np  # pylint: disable=wrong-import-position

from harness import drv_config as dc  # pylint: disable=wrong-import-position
from harness import drv_results as dr  # pylint: disable=wrong-import-position
from harness.core import REPO  # pylint: disable=wrong-import-position
from harness.util import *  # pylint: disable=wrong-import-position,wildcard-import

SAMPLER_KEYS = ('name', 'solver', 'balancing_fn_type', 'adaptive', 'step_size', 'n', 'num_flips', 'approx_with_grad', 'save_samples', 'log_every_steps')


# ---- looking at figures ----
def plain(label):
  return re.sub('^rmw', 'rwm', str(label).replace('$\\frac{t}{t+1}$', '(r)').replace('$\\sqrt{t}$', '(s)'))


# the balancing functions as they are written at the axis
FUNCTIONS = {'$\\sqrt{t}$': 'SQRT', '$\\frac{t}{t+1}$': 'RATIO', '1 \u2227 t': 'MIN', '1 \u2228 t': 'MAX'}


def color(c):
  try:
    return mcolors.to_hex(c)
  except ValueError:
    return mcolors.to_hex(np.asarray(c)[0])


def look(fig):
  """What a figure shows."""
  ax = fig.axes[0]
  bars = []
  for c in ax.containers:
    if not hasattr(c, 'patches') or not c.patches:
      continue
    err = [None] * len(c.patches)
    if getattr(c, 'errorbar', None) is not None:
      segs = c.errorbar.lines[2][0].get_segments()
      err = [abs(s[1][1] - s[0][1]) / 2 if len(s) == 2 else 0.0 for s in segs]
    for p, e in zip(c.patches, err):
      bars.append(dict(label=plain(c.get_label()), x=R(p.get_x() + p.get_width() / 2), w=R(abs(p.get_width())), h=R(p.get_height()),
                       err=R(0.0 if e is None or not np.isfinite(e) else e), color=color(p.get_facecolor()[:3])))
  lines = [dict(label=plain(l.get_label()), x=Rs(np.asarray(l.get_xdata(), np.float64)), y=Rs(np.asarray(l.get_ydata(), np.float64)), color=color(l.get_color()))
           for l in ax.lines if not str(l.get_label()).startswith('_')]
  bands = []
  for c in ax.collections:
    if hasattr(c, 'get_paths') and type(c).__name__ in ('PolyCollection', 'FillBetweenPolyCollection') and c.get_paths():
      v = np.concatenate([p.vertices for p in c.get_paths()])
      xs = np.unique(v[:, 0])
      bands.append(dict(x=Rs(xs), lo=Rs(np.array([v[v[:, 0] == x, 1].min() for x in xs])), hi=Rs(np.array([v[v[:, 0] == x, 1].max() for x in xs]))))
  leg = ax.get_legend()
  legend = []
  if leg is not None:
    hs = getattr(leg, 'legend_handles', None) or leg.legendHandles
    for h, t in zip(hs, leg.get_texts()):
      c = h.get_facecolor() if hasattr(h, 'get_facecolor') else h.get_color()
      legend.append(dict(label=re.sub('^sampler=', '', plain(t.get_text())), color=color(c[:3] if not isinstance(c, str) else c)))
  ticks = [dict(x=R(x), label=FUNCTIONS.get(t.get_text(), t.get_text())) for x, t in zip(ax.get_xticks(), ax.get_xticklabels())]
  return dict(bars=bars, lines=lines, bands=bands, legend=legend, ticks=ticks)


def images(fig):
  """Rows of images of a figure, with their labels."""
  return [dict(label=plain(a.get_ylabel()), img=np.asarray(a.images[0].get_array())) for a in fig.axes if a.images]


def figures(mod, see=look, **fl):
  """Runs a script; {file without its ending: what the figure shows}."""
  from absl import flags
  for k in ('gcs_results_path', 'evaluation_type', 'key', 'graphtype'):
    if k in flags.FLAGS:
      delattr(flags.FLAGS, k)
  mod = 'discs.plot_results.' + mod
  sys.modules.pop(mod, None)
  m = importlib.import_module(mod)
  flags.FLAGS.unparse_flags()
  flags.FLAGS(['x'] + ['--%s=%s' % kv for kv in fl.items()])
  return capture(lambda: m.main(['x']), see)


def capture(f, see=look):
  """Calls f; {file without its ending: what the figure saved in it shows}."""
  from matplotlib.figure import Figure
  out = {}
  real = Figure.savefig
  Figure.savefig = lambda self, f, *a, **k: out.__setitem__(os.path.basename(os.path.splitext(str(f))[0]), see(self))
  try:
    dc.quiet(f)
  finally:
    Figure.savefig = real
    plt.close('all')
  return out


# ---- sweeps ----
class Run:
  """One job of a sweep: its folder, its sampler and the rest of its setting."""

  def __init__(self, name, args, swept):
    self.folder = name
    own = {}
    for k in swept:
      if k in args:
        own[k.split('.')[-1] if not k.endswith('experiment.name') else 'experiment'] = args[k]
    get = lambda k: str(own[k]) if k in own else ''
    self.cfg = dict(name=get('name'), solver=get('solver'), balancing=get('balancing_fn_type'), adaptive=get('adaptive'), step_size=get('step_size'),
                    n=get('n'), num_flips=get('num_flips'))
    self.setting = {k: dc.shown(k, v) for k, v in own.items() if k not in SAMPLER_KEYS + ('experiment',)}
    self.log = int(own.get('log_every_steps', 1000))
    self.done = True

  def group(self, key):
    return join({k: v for k, v in self.setting.items() if k != key})

  def out(self, key, **k):
    return dict(folder=self.folder, cfg=self.cfg, group=self.group(key), tick=self.cfg['balancing'] if key == 'balancing_fn_type' else self.setting.get(key, ''),
                done=self.done, **k)


def join(d):
  return ','.join('%s=%s' % kv for kv in sorted(d.items()))


def group_in(text, key):
  """The setting in the name of a figure or table."""
  d = dict(p.split('=', 1) for p in text.split(',') if '=' in p)
  return join({k: v for k, v in d.items() if k not in SAMPLER_KEYS and k != key})


def runs_of(path):
  cfg = dc.load(path).get_config()
  swept = sorted({k for d in cfg.sweep for k in dict(d)})
  return [Run(a['config.experiment.save_root'].split('/')[-1], a, swept) for _, a in dc.launch(path)]


def fill(root, runs, rng, write):
  shutil.rmtree(root, ignore_errors=True)
  for r in runs:
    d = os.path.join(root, r.folder)
    os.makedirs(d)
    if r.done:
      write(r, d)


def metrics(r, d, rng, dev):
  m = [np.float32(np.exp(rng.normal(size=2) * 2)) for _ in range(4)]
  dr.saver_for(dr.config(d)).save_results([], [], tuple(jnp.asarray([v] if dev else v) for v in m), 1.0)
  half = int(float(r.setting['chain_length'])) // 2 if 'chain_length' in r.setting else 50000
  r.vals = dict(ess_ee=[R(np.float64(m[3][0]) * half), R(np.float64(m[3][1]) * half)], ess_clock=[R(m[2][0]), R(m[2][1])])


NONE = dict(ess_ee=['0', '0'], ess_clock=['0', '0'])
KEYS = [('chain_length', 'chain_length'), ('chian_length', 'chain_length'), ('lbf', 'balancing_fn_type'), ('shape', 'shape'), ('num_categories', 'num_categories')]


def pick(pattern, arg):
  ps = sorted(glob.glob(os.path.join(REPO, 'discs/run_configs', pattern)))
  return [p for i, p in enumerate(ps) if i % arg.get('parts', 1) == arg.get('part', 0)]


def bar_case(rec, label, root, model, runs, key, rng, dev):
  try:
    fill(root, runs, rng, lambda r, d: metrics(r, d, rng, dev))
    figs = figures('plot_results', gcs_results_path=root, evaluation_type='ess', key=key)
    out = []
    for f, v in sorted(figs.items()):
      m = re.match('^(ess_ee|ess_clock)_(.*?)_based_(.*)$', f)
      v.update(res=m.group(1), group=group_in(m.group(3), key))
      out.append(v)
    rec('bars', label=label, model=model, key=key, runs=[r.out(key, vals=r.vals if r.done else NONE) for r in runs], figs=out)
  except Exception as ex:  # pylint: disable=broad-except
    rec.raised(label, ex)
  finally:
    shutil.rmtree(root, ignore_errors=True)


def bars(rec, arg):
  """Sampling sweeps: bars per sampler and setting."""
  dc.stub_cluster()
  rng = np.random.default_rng(SEED + 77)
  for p in pick('classical_models/*/*.py', arg) + pick('ebm/rbm/*.py', arg):
    base, model = os.path.basename(p)[:-3], p.split('/')[-2]
    if base in ('estimation_error',):
      continue
    key = next((k for b, k in KEYS if base.startswith(b)), 'name')
    for rep in range(arg.get('reps', 1)):
      for gaps in (False, True):
        label = 'figures of %s %s%s' % (model, base, ', some runs unfinished' if gaps else '')
        try:
          runs = runs_of(p)
        except Exception as ex:  # pylint: disable=broad-except
          rec.raised(label, ex)
          continue
        if len(runs) > 60:
          keep = sorted({r.setting.get('lambdaa') for r in runs})[:3]
          runs = [r for r in runs if r.setting.get('lambdaa') in keep]
        if gaps:
          for r in runs:
            r.done = rng.uniform() > 0.2
          runs[int(rng.integers(len(runs)))].done = False
        bar_case(rec, label, './discs-%s-%s' % (model, base), model, runs, key, rng, bool(rng.integers(0, 2)))


def own_bars(rec, arg):
  """Sweeps of somebody's own: several settings of one sampler side by side."""
  dc.stub_cluster()
  rng = np.random.default_rng(SEED + 91)
  kinds = {
      'shape': {'config.experiment.chain_length': [1000], 'model_config.shape': ['(250,)', '(2000,)', '(32000,)', '(512000,)'][:3]},
      'num_categories': {'config.experiment.chain_length': [5000], 'model_config.num_categories': [4, 16, 64]},
      'name': {'config.experiment.chain_length': [1000], 'model_config.init_sigma': [0.5, 1.5]},
  }
  own = [{'sampler_config.name': ['dmala'], 'sampler_config.adaptive': [False], 'sampler_config.step_size': [0.1, 0.2, 0.75], 'sampler_config.balancing_fn_type': ['SQRT']},
         {'sampler_config.name': ['gwg'], 'sampler_config.adaptive': [False], 'sampler_config.num_flips': [1, 3], 'sampler_config.balancing_fn_type': ['SQRT', 'RATIO']},
         {'sampler_config.name': ['path_auxiliary'], 'sampler_config.adaptive': [True], 'sampler_config.num_flips': [1, 2], 'sampler_config.balancing_fn_type': ['SQRT']},
         {'sampler_config.name': ['dlmc'], 'sampler_config.adaptive': [False], 'sampler_config.n': [2, 4], 'sampler_config.balancing_fn_type': ['MIN']},
         {'sampler_config.name': ['randomwalk', 'blockgibbs']}]
  for i in range(arg['n']):
    key = sorted(kinds)[i % 3]
    base = '%s_sweep' % key
    names = [dict(own[k]) for k in rng.permutation(len(own))[:int(rng.integers(2, 4))]]
    cfg = dict(model='categorical', sampler='gwg', sweep=[dict(kinds[key], **o) for o in names])
    os.makedirs('ownbars%d' % i)
    path = os.path.abspath('ownbars%d/%s.py' % (i, base))
    with open(path, 'w') as f:
      f.write(dc.TEMPLATE % cfg)
    label = 'figures of a sweep of its own %d, %s: %s' % (i, key, [o['sampler_config.name'] for o in names])
    try:
      runs = runs_of(path)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
      continue
    if i % 2:
      for r in runs:
        r.done = rng.uniform() > 0.2
      runs[int(rng.integers(len(runs)))].done = False
    bar_case(rec, label, './discs-categorical-%s' % base, 'categorical', runs, key, rng, bool(rng.integers(0, 2)))


def temperatures(rec, arg):
  """Ising sweeps over the temperature: one curve per sampler."""
  dc.stub_cluster()
  rng = np.random.default_rng(SEED + 78)
  for p in pick('classical_models/ising/lamda*.py', arg):
    base = os.path.basename(p)[:-3]
    for gaps in (False, True) * arg.get('reps', 1):
      label = 'temperature figures of %s%s' % (base, ', some runs unfinished' if gaps else '')
      root = './discs-ising-' + base
      try:
        runs = runs_of(p)
        if gaps:
          for r in runs:
            r.done = rng.uniform() > 0.1
        dev = bool(rng.integers(0, 2))
        fill(root, runs, rng, lambda r, d: metrics(r, d, rng, dev))
        figs = figures('plot_ising_temp', gcs_results_path=root, key='name')
        out = [dict(v, res=f) for f, v in sorted(figs.items())]
        rec('curves', label=label, axis='lambdaa', runs=[r.out('lambdaa', vals=r.vals if r.done else NONE, x=r.setting['lambdaa']) for r in runs], figs=out)
      except Exception as ex:  # pylint: disable=broad-except
        rec.raised(label, ex)
      finally:
        shutil.rmtree(root, ignore_errors=True)


def annealing(rec, arg):
  """Optimisation sweeps: tables, and ratios over steps and time."""
  dc.stub_cluster()
  rng = np.random.default_rng(SEED + 79)
  for p in pick('co/*/*.py', arg) * arg.get('reps', 1):
    base, model = os.path.basename(p)[:-3], p.split('/')[-2]
    root = './discs-%s-%s' % (model, base)
    label = 'annealing figures of %s %s' % (model, base)
    try:
      runs = runs_of(p)
      groups = sorted({r.group('') for r in runs})
      runs = [r for r in runs if r.group('') in groups[:3]]
      n = int(rng.choice([1, 7, 10, 49, 98]))

      def write(r, d):
        k = int(rng.integers(1, 5))
        r.traj = [np.float32(rng.normal(size=k) + 0.3) for _ in range(n)]
        r.time = float(rng.uniform(0.5, 9))
        dr.saver_for(dr.config(d, evaluator='co_eval')).save_co_resuts(r.traj, r.traj[-1], r.time, [])
      # the tables need every run
      fill(root, runs, rng, write)
      rec('tables', **table(root, label.replace('figures', 'tables'), 'co', runs, ['best_ratio_mean', 'running_time', 'best_ratio_std'],
                            lambda r: [np.mean(np.float64(r.traj[-1])), 2 * r.time, np.std(np.float64(r.traj[-1]))]))
      for r in runs:
        r.done = rng.uniform() > 0.15
      fill(root, runs, rng, write)
      figs = figures('plot_co_through_time', gcs_results_path=root, graphtype=model)
      out = []
      for f, v in sorted(figs.items()):
        axis = 'Steps' if f.startswith('Steps_') else 'Time'
        out.append(dict(v, axis=axis, group=group_in(f.split('_', 1)[1], '')))
      rec('history', label=label, runs=[r.out('', log=r.log, total=R(2 * r.time), traj=[Rs(v) for v in r.traj]) for r in runs if r.done], figs=out)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
    finally:
      shutil.rmtree(root, ignore_errors=True)
  if arg.get('part', 0):
    return
  for p in sorted(glob.glob(os.path.join(REPO, 'discs/run_configs/ebm/lm/*.py'))):
    base = os.path.basename(p)[:-3]
    label = 'text tables of ' + base
    root = './discs-lm-' + base
    try:
      runs = runs_of(p)

      def write_lm(r, d):
        res = {'infill_sents': ['x'], 'tbc_bleu': float(rng.uniform()), 'self_bleu': float(rng.uniform())}
        r.res = res
        dr.saver_for(dr.config(d)).save_lm_results({'infill_sents': ['y'], 'tbc_bleu': 0.0, 'self_bleu': 0.0}, dict(res))
      fill(root, runs, rng, write_lm)
      rec('tables', **table(root, label, 'lm', runs, ['tbc_bleu', 'self_bleu'], lambda r: [r.res['tbc_bleu'], r.res['self_bleu']]))
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
    finally:
      shutil.rmtree(root, ignore_errors=True)


def table(root, label, kind, runs, cols, vals):
  figures('plot_results', gcs_results_path=root, evaluation_type=kind, key='name')
  tabs = []
  d = os.path.join(kind + '_csv', root[2:])
  for f in sorted(os.listdir(d)):
    with open(os.path.join(d, f)) as fh:
      rows = list(csv.DictReader(fh))
    tabs.append(dict(group=group_in(f[:-4], ''), rows=[dict(sampler=r['sampler'], vals=[dr.nums(r[c]) for c in cols]) for r in rows]))
  return dict(label=label, cols=cols, tables=tabs, runs=[r.out('', vals=Rs(np.asarray(vals(r), np.float64))) for r in sorted(runs, key=lambda r: r.folder)])


def estimates(rec, arg):
  """Sweeps of the partition function estimate: one curve per sampler."""
  dc.stub_cluster()
  rng = np.random.default_rng(SEED + 80)
  for p in sorted(glob.glob(os.path.join(REPO, 'discs/run_configs/ebm/*/*.py'))):
    base, model = os.path.basename(p)[:-3], p.split('/')[-2]
    if model == 'lm':
      continue
    label = 'partition function figures of %s %s' % (model, base)
    root = './discs-%s-%s' % (model, base)
    try:
      runs = runs_of(p)

      def write(r, d):
        r.z = np.float32(rng.normal(size=int(rng.integers(1, 9))) * 5)
        dr.saver_for(dr.config(d)).save_logz([jnp.float32(v) for v in r.z])
      fill(root, runs, rng, write)
      figs = figures('plot_ais', gcs_results_path=root, key='name')
      rec('estimates', label=label, runs=[r.out('', z=Rs(r.z)) for r in runs], figs=[dict(v, group=group_in(f, '')) for f, v in sorted(figs.items())])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
    finally:
      shutil.rmtree(root, ignore_errors=True)


# ---- images ----
SHOW = ['gwg', 'dmala', 'path_auxiliary', 'blockgibbs', 'hammingball', 'dlmc', 'dlmcf', 'randomwalk']


def grids(rec, arg):
  """Image grids of samples."""
  from discs.plot_results import plot
  rng = np.random.default_rng(SEED + 81)
  for ci in range(arg['n']):
    n, h, w, c = int(rng.integers(1, 11)), int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.choice([1, 3]))
    pad, val = int(rng.integers(0, 3)), int(rng.integers(0, 256))
    cols = int(rng.choice([0] + [d for d in range(1, n + 1) if n % d == 0]))
    label = 'image grid %s' % dict(n=n, h=h, w=w, c=c, pad=pad, val=val, cols=cols)
    try:
      x = rng.integers(0, 256, size=(n, h, w, c)).astype(np.uint8)
      got = np.asarray(plot.np_tile_imgs(x, pad_pixels=pad, pad_val=val, num_col=cols))
      chan = got.ndim == 3
      got = got if chan else got[..., None]
      rec('grid', label=label, n=n, h=h, w=w, c=c, pad=pad, val=val, cols=cols, flat=not chan, imgs=Is(x), got=Is(got))
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
  for ci in range(3):
    label = 'image figure %d' % ci
    root = './discs-ebm%d' % ci
    try:
      rows = []
      order = rng.permutation(len(SHOW) - 1).tolist()
      order.insert(int(rng.integers(1, len(SHOW))), len(SHOW) - 1)
      for i, k in enumerate(order):
        s = SHOW[k]
        extra = ",solver='euler_forward'" if s == 'dlmcf' else ''
        d = os.path.join(root, "%d_chain_length=10,name='%s'%s" % (i + 1, 'dlmc' if s == 'dlmcf' else s, extra))
        if s in ('gwg', 'dmala', 'path_auxiliary', 'dlmc', 'dlmcf'):
          d += ",balancing_fn_type='SQRT'"
        os.makedirs(d)
        x = rng.integers(0, 2, size=(10, 4, 16))
        dr.saver_for(dr.config(d)).dump_samples([jnp.asarray(v) for v in x], visualize=True)
        shown = [[[plt.imread(os.path.join(d, 'sample_%d_of_chain_%d.jpeg' % (t, ch))).astype(int).tolist()] for t in range(10)] for ch in range(4)]
        rows.append((os.path.basename(d), dict(cfg=dict(name='dlmc' if s == 'dlmcf' else s, solver='euler_forward' if s == 'dlmcf' else '', balancing='', adaptive='',
                                                      step_size='', n='', num_flips=''), chains=shown)))
      fig, = figures('plot_ebm', see=images, gcs_results_path=root).values()
      rec('images', label=label, runs=[r for _, r in sorted(rows)], cells=[dict(label=c['label'], img=[np.asarray(c['img']).astype(int).tolist()]) for c in fig])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
    finally:
      shutil.rmtree(root, ignore_errors=True)


def progress(rec, arg):
  """Acceptance and hops over the steps of a run."""
  rng = np.random.default_rng(SEED + 82)
  for ci in range(arg['n']):
    label = 'progress figures %d' % ci
    root = './progress%d' % ci
    try:
      n = int(rng.integers(1, 30))
      acc, hops = rng.uniform(size=n).astype(np.float32), rng.uniform(0, 9, size=n).astype(np.float32)
      name = ['gwg', 'dlmc', 'gibbs'][ci % 3]
      sv = dr.saver_for(dr.config(root, sampler=name, extra=True, evaluator='co_eval'))
      see = lambda fig: [dict(x=Rs(np.asarray(l.get_xdata(), np.float64)), y=Rs(np.asarray(l.get_ydata(), np.float64)), axis=l.axes.get_ylabel(), sampler=name in l.axes.get_title())
                         for a in fig.axes for l in a.lines]
      figs = capture(lambda: sv.save_results([jnp.asarray(v) for v in acc], [jnp.asarray(v) for v in hops], None, 1.0), see)
      lines = [l for f in figs.values() for l in f]
      rec('progress', label=label, given=[dict(what='Acc Ratio', y=Rs(acc)), dict(what='Hops', y=Rs(hops))], lines=lines)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
    finally:
      shutil.rmtree(root, ignore_errors=True)

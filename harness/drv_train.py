"""Training: the PCD trainers, replay buffer, schedules, loaders, saved models."""
import contextlib
import os
import pickle
import sys
import types

import jax
import jax.numpy as jnp
import numpy as np

from harness import stubs
from harness.drv_co import quiet
from harness.util import *


def stub_modules():
  """torch is not installed; the trainer only needs it to load raw images."""
  for name in ('torch', 'torch.utils', 'torch.utils.data', 'torchvision', 'torchvision.transforms', 'tensorflow_datasets'):
    if name not in sys.modules:
      sys.modules[name] = types.ModuleType(name)
  sys.modules['torch'].utils = sys.modules['torch.utils']
  sys.modules['torch.utils'].data = sys.modules['torch.utils.data']
  sys.modules['torchvision'].transforms = sys.modules['torchvision.transforms']
  import tensorflow as tf
  tf.config.list_physical_devices = lambda *a: [None, None]
  tf.config.experimental.set_memory_growth = lambda *a: None


def trainer_module(kind):
  stub_modules()
  import importlib
  if kind == 'ebm':
    return importlib.import_module('discs.learning.binary_ebm.main_binary_training')
  return importlib.import_module('discs.learning.rbm.main_rbm_training')


class Model:
  """Log-likelihood <w, x> + c."""

  def __init__(self, D):
    self.D, self.init = D, None

  def make_init_params(self, rng):
    return {'w': jax.random.normal(rng, (self.D,)), 'c': jnp.float32(0.25)}

  def get_init_samples(self, rng, num_samples):
    self.init = np.array(jax.random.bernoulli(rng, 0.5, (num_samples, self.D)).astype(jnp.float32))
    return jnp.asarray(self.init)

  def forward(self, params, x):
    return x.astype(jnp.float32) @ params['w'] + params['c']


class Sampler:
  """Resamples coordinates; reports every call."""

  def __init__(self, three):
    self.three = three

  def make_init_state(self, rng):
    return {'n': jnp.zeros((), jnp.int32), 'birth': jnp.ravel(rng)[-1].astype(jnp.uint32)}

  def step(self, model, rng, x, model_param, state):
    k1, k2 = jax.random.split(rng)
    y = jnp.where(jax.random.bernoulli(k1, 0.4, x.shape), jax.random.bernoulli(k2, 0.5, x.shape).astype(x.dtype), x)
    stubs.report(dev=jax.lax.axis_index('shard'), x=x, y=y, key=rng, w=model_param['w'], c=model_param['c'], n=state['n'], birth=state['birth'])
    new = dict(state, n=state['n'] + 1)
    return (y, new, jnp.ones(())) if self.three else (y, new)


class Logger:

  def __init__(self):
    self.rows = []

  def write_scalars(self, step, d):
    self.rows.append((int(step), {k: float(v) for k, v in d.items()}))

  def flush(self):
    pass


CASES = [
    dict(kind='rbm', T=6, pcd=2, opt='sgd', lr='constant', clip=0.0, ema=0.0, log=2, save=3, init=0, data=99),
    dict(kind='rbm', T=9, pcd=1, opt='adam', lr='updown', clip=0.0, ema=0.9, log=1, save=4, init=2, data=99),
    dict(kind='ebm', T=7, pcd=3, opt='sgd', lr='updown', clip=0.3, ema=0.5, log=3, save=2, init=0, data=99),
    dict(kind='ebm', T=8, pcd=2, opt='adamw', lr='up_exp_down', clip=5.0, ema=0.99, log=1, save=5, init=0, data=5),
    dict(kind='ebm', T=12, pcd=1, opt='adam', lr='constant', clip=0.2, ema=0.3, log=2, save=3, init=1, data=99),
]


def train(rec, arg):
  from discs.common import train_configs
  rng = np.random.default_rng(SEED)
  nd = jax.local_device_count()
  for ci, a in enumerate(CASES):
    if a['kind'] != arg['kind']:
      continue
    label = 'training %s on %d device(s)' % (a, nd)
    try:
      mod = trainer_module(a['kind'])
      from discs.learning import replay_buffer
      from flax.training import checkpoints
      D, B, size = 12, 4, 11
      cfg = base_config()
      cfg.experiment.update(train_configs.get_common_train_config())
      root = os.path.abspath('train%d' % ci)
      os.makedirs(root)
      cfg.experiment.update(dict(
          total_train_steps=a['T'], optimizer=a['opt'], lr_schedule=a['lr'], learning_rate=0.05, warmup_frac=0.4, grad_norm=a['clip'], weight_decay=0.1,
          ema_decay=a['ema'], batch_size=B, log_every_steps=a['log'], save_every_steps=a['save'], plot_every_steps=2, save_root=root))
      with cfg.unlocked():
        cfg.experiment.update(dict(pcd_steps=a['pcd'], buffer_size=size, reinit_freq=0.0, buffer_init='mean', p_control=0.0, energy_l2=0.0))
        cfg.model.num_categories = 2
      x_train = (rng.uniform(size=(40, D)) < 0.5).astype(np.float32)
      model, sampler = Model(D), Sampler(a['kind'] == 'ebm')
      made = []

      class Buffer(replay_buffer.ReplayBuffer):

        def __init__(self, *p, **k):
          super().__init__(*p, **k)
          made.append(self)
      np.random.seed(SEED + ci)
      if a['kind'] == 'ebm':
        keep, replay_buffer.ReplayBuffer = replay_buffer.ReplayBuffer, Buffer
        try:
          tr = mod.EBMTrainer(cfg, model, sampler, x_train)
        finally:
          replay_buffer.ReplayBuffer = keep
      else:
        tr = mod.RBMTrainer(cfg, model, sampler)
      content = lambda: [Is(v) for _, v in sorted(zip(*[[int(i) for i in z[1]], z[0].astype(int).tolist()]))] if (z := made[0].sample(size)) else None
      gs, ls = tr.init_states(jax.random.PRNGKey(3 + ci))
      w0, c0 = np.asarray(gs.params['w']), float(gs.params['c'])
      if a['init']:
        gs = gs.replace(step=a['init'])
      buffer0 = content() if made else []
      batches = [x_train[rng.integers(0, 40, size=B)].reshape(nd, B // nd, D) for _ in range(min(a['data'], a['T'] - a['init']) + 3 * (a['data'] == 99))]
      used = []

      def feed():
        for i, b in enumerate(batches):
          used.append(i)
          yield b
      logger, saved, plots = Logger(), [], []
      stubs.LOG.clear()
      final = quiet(lambda: tr.train_loop(logger, jax.random.PRNGKey(ci), gs, ls, feed(), fn_plot=lambda s, g, l: plots.append((int(s), np.asarray(l.samples), np.asarray(l.step)))))
      for f in sorted(os.listdir(os.path.join(root, 'ckpts'))) if os.path.exists(os.path.join(root, 'ckpts')) else []:
        if f.startswith('checkpoint_'):
          d = quiet(lambda f=f: checkpoints.restore_checkpoint(os.path.join(root, 'ckpts', f), None))
          saved.append(dict(step=int(f.split('_')[1]), state=state_rec(types.SimpleNamespace(**d))))
      jax.effects_barrier()
      calls = sorted(stubs.LOG, key=lambda r: (int(r['n']), int(r['dev'])))
      steps, per = [], a['pcd'] * nd
      for s in range(len(calls) // per):
        chunk = calls[s * per:(s + 1) * per]
        steps.append(dict(batch=[[Is(v) for v in np.asarray(batches[s][d])] for d in range(nd)],
                          micro=[[dict(x=Is(r['x'].astype(int)), y=Is(r['y'].astype(int)), key='.'.join(str(int(v)) for v in r['key']), w=Rs(r['w']), c=R(r['c']),
                                       birth=str(int(r['birth']))) for r in chunk[m * nd:(m + 1) * nd]] for m in range(a['pcd'])]))
      rec('train', label=label, kind=a['kind'], devices=nd, T=a['T'], init=a['init'], pcd=a['pcd'], opt=a['opt'], sched=a['lr'], clip=R(a['clip']), ema=R(a['ema']),
          lr=R(0.05), wd=R(0.1), warm=int(0.4 * a['T']), log=a['log'], save=a['save'], w0=Rs(w0), c0=R(c0), x0=Is(np.asarray(model.init).reshape(nd, B // nd, D).astype(int)),
          steps=steps, extra=len(calls) - len(steps) * per, used=len(used), avail=len(batches), buffer0=buffer0, buffer1=content() if made else [],
          final=state_rec(jax.tree_util.tree_map(lambda v: np.asarray(v)[0], final)), replicas=[state_rec(jax.tree_util.tree_map(lambda v, d=d: np.asarray(v)[d], final)) for d in range(nd)],
          logs=[dict(step=s, lr=R(d['train/lr']), loss=R(d['loss']), pos=R(d['ll_pos']), neg=R(d['ll_neg'])) for s, d in logger.rows], saved=saved,
          plots=[dict(step=s, x=Is(x.astype(int)), moves=[int(v) for v in np.ravel(k)]) for s, x, k in plots], plotevery=2)
      # a second process of the same run: its own randomness, no checkpoints
      jax.process_index, real = (lambda *p: 1), jax.process_index
      try:
        other = os.path.abspath('train%d_other' % ci)
        os.makedirs(other)
        cfg.experiment.save_root = other
        tr = mod.EBMTrainer(cfg, model, sampler, x_train) if a['kind'] == 'ebm' else mod.RBMTrainer(cfg, model, sampler)
        gs, ls = tr.init_states(jax.random.PRNGKey(3 + ci))
        stubs.LOG.clear()
        quiet(lambda: tr.train_loop(Logger(), jax.random.PRNGKey(ci), gs, ls, iter(batches[:4])))
        jax.effects_barrier()
        key = lambda r: '.'.join(str(int(v)) for v in r['key'])
        rec('process', label=label + ', second process', first=[key(r) for r in calls], second=[key(r) for r in stubs.LOG],
            files=[f for _, _, fs in os.walk(other) for f in fs if f.startswith('checkpoint')])
      finally:
        jax.process_index = real
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


def state_rec(st):
  return dict(step=int(np.asarray(st.step)), w=Rs(st.params['w']), c=R(st.params['c']), ew=Rs(st.ema_params['w']), ec=R(st.ema_params['c']))


def buffers(rec, arg):
  from discs.learning import replay_buffer
  rng = np.random.default_rng(SEED)

  def make(size, D, freq, mean=None):
    cfg = base_config()
    with cfg.unlocked():
      cfg.experiment.update(dict(buffer_size=size, reinit_freq=freq, buffer_init='mean'))
      cfg.model.num_categories = 2
    x = (rng.uniform(size=(30,) + D) < (0.5 if mean is None else mean)).astype(np.float32)
    return replay_buffer.ReplayBuffer(cfg, x), x
  for ci in range(arg['n']):
    label = 'replay buffer %d' % ci
    try:
      np.random.seed(SEED * 1000 + ci)
      D, size, freq = (9,) if ci % 2 else (3, 4), int(rng.integers(4, 9)), [0.0, 0.0, 1.0][ci % 3]
      buf, _ = make(size, D, freq)
      # the contents: written by the caller
      start = (rng.uniform(size=(size,) + D) < 0.5).astype(np.float32)
      buf.update(start, np.arange(size) if ci % 2 else list(range(size)))
      flat = lambda v: Is(np.asarray(v).reshape(len(v), -1).astype(int))
      ops = []
      for _ in range(12):
        k = int(rng.integers(1, size + 1))
        x, idx = buf.sample(k)
        idx = [int(i) for i in idx]
        ops.append(dict(op='sample', n=k, idx=idx, rows=flat(x)))
        x[...] = 7  # the caller's copy
        if rng.uniform() < 0.7:
          y = (rng.uniform(size=(k,) + D) < 0.5).astype(np.float32)
          buf.update(y, idx)
          ops.append(dict(op='update', n=k, idx=idx, rows=flat(y)))
      rec('buffer', label=label, start=flat(start), ops=ops, reinit=int(freq * 100))
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)
  for freq in (0.3, 0.05):
    label = 'replay buffer, reinit_freq=%s' % freq
    try:
      np.random.seed(SEED)
      mean = np.array([0.0, 1.0, 0.5, 0.9] + [0.5] * 12)
      buf, x = make(4000, (16,), freq, mean)
      init = np.asarray(buf.sample(1)[0])
      fresh_buf, _ = make(4000, (16,), 0.0, mean)
      big = np.asarray(make(4000, (16,), 0.0)[0].sample(1)[0])
      del init, fresh_buf, big
      np.random.seed(SEED + 1)
      plain, xp = make(4000, (16,), 0.0, mean)
      first = np.asarray(plain.sample(4000)[0])
      rec_init = [int(v) for v in first.sum(axis=0)]
      mark = np.full((4000, 16), 5.0)
      buf.update(mark.astype(np.int64), np.arange(4000))
      drawn = np.concatenate([np.asarray(buf.sample(2000)[0]) for _ in range(10)])
      new = drawn[(drawn != 5).any(axis=1)]
      rec('law', label=label, n=int(len(drawn)), fresh=int(len(new)), freq=R(freq), ones=[int(v) for v in new.sum(axis=0)], mean=Rs(x.mean(axis=0)), init=[], size=4000)
      rec('law', label=label, n=1, fresh=1, freq=R(1.0), ones=[], mean=Rs(xp.mean(axis=0)), init=rec_init, size=4000)
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


def schedules(rec, arg):
  stub_modules()
  from discs.learning import train as tr
  rng = np.random.default_rng(SEED)
  for ci in range(arg['n']):
    label = 'learning rate schedule %d' % ci
    try:
      cfg = base_config().experiment
      from discs.common import train_configs
      cfg.update(train_configs.get_common_train_config())
      sched = ['constant', 'updown', 'up_exp_down'][ci % 3]
      total, frac, lr = int(rng.integers(5, 400)), float(np.round(rng.uniform(0.05, 0.6), 2)), float(10 ** rng.uniform(-4, -1))
      if ci % 2:
        total *= 1000
      cfg.update(dict(lr_schedule=sched, total_train_steps=total, warmup_frac=frac, learning_rate=lr))
      fn = tr.build_lr_schedule(cfg)
      warm = int(frac * total)
      at = sorted({0, 1, 2, warm - 1, warm, warm + 1, total - 1, total, total + 5} | {int(v) for v in rng.integers(0, total, size=8)})
      at = [t for t in at if t >= 0]
      rec('schedule', label=label, sched=sched, lr=R(lr), warm=warm, total=total, at=at, rates=[R(np.asarray(fn(t))) for t in at])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


def loading(rec, arg):
  """data_loader, with processes simulated; keys; sharding."""
  import tensorflow as tf
  from discs.common import data_loader, utils
  rng = np.random.default_rng(SEED)
  nd = jax.local_device_count()
  real = jax.process_count, jax.process_index, jax.device_count
  try:
    for ci in range(arg['n']):
      label = 'data loader %d on %d device(s)' % (ci, nd)
      try:
        procs = int(rng.integers(1, 4))
        proc = int(rng.integers(0, procs))
        B = procs * nd * int(rng.integers(1, 4))
        n = int(rng.integers(B, 6 * B))
        shuffled, repeat = ci % 3 == 1, ci % 4 == 3
        cfg = base_config().experiment
        cfg.update(dict(batch_size=B, shuffle_buffer_size=5 if shuffled else 0))
        jax.process_count, jax.process_index, jax.device_count = (lambda *a: procs), (lambda *a: proc), (lambda *a: procs * nd)
        ds = tf.data.Dataset.from_tensor_slices(np.arange(n).astype(np.int64))
        pre = ci % 2 == 0
        out = data_loader.prepare_dataloader(ds, cfg, fn_preprocess=(lambda v: v + 1000) if pre else None, repeat=repeat and not shuffled)
        got = []
        for k, b in enumerate(data_loader.numpy_iter(out)):
          got.append(np.asarray(b))
          if repeat and not shuffled and k > 12:
            break
        ids = [[[int(v) - (1000 if pre else 0) for v in d] for d in b] for b in got]
        rec('load', label=label, data=list(range(n)), procs=procs, proc=proc, batch=B, devices=nd, batches=ids, shuffled=shuffled, repeat=repeat and not shuffled, limit=14,
            pre=all(0 <= v < n for b in ids for d in b for v in d))
      except Exception as ex:  # pylint: disable=broad-except
        rec.raised(label, ex)
  finally:
    jax.process_count, jax.process_index, jax.device_count = real
  for ci in range(3):
    label = 'keys and shards %d on %d device(s)' % (ci, nd)
    try:
      name = lambda k: '.'.join(str(int(v)) for v in np.ravel(np.asarray(k)))
      g = utils.RngGen(jax.random.PRNGKey(ci))
      keys = [name(next(g)) for _ in range(20)]
      h = utils.RngGen(jax.random.PRNGKey(ci))
      it = iter(h)
      again = [name(next(it)) for _ in range(20)]
      j = 2 + 5 * ci
      rec('keys', label=label, keys=keys, count=j, jump=name(utils.RngGen(jax.random.PRNGKey(ci)).advance(j)), again=again)
      ks = [name(k) for k in utils.shard_prng_key(jax.random.PRNGKey(ci))]
      rec('keys', label=label + ', per device', keys=ks, count=1, jump=ks[0], again=ks)
      whole = rng.integers(0, 99, size=(nd * (ci + 1), 3))
      parts = utils.shard_to_local_devices({'a': jnp.asarray(whole)})['a']
      back = np.asarray(utils.all_gather(parts))
      rec('shard', label=label, whole=Is(whole), parts=Is(parts), devices=nd, gathered=Is(back))
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


def run_script(mod, flags_list):
  from absl import flags
  flags.FLAGS.unparse_flags()
  sys.argv = [mod.__name__] + flags_list  # config overrides are looked up there
  flags.FLAGS(sys.argv)
  quiet(lambda: mod.main([mod.__name__]))


def hook(cls, kept):
  """Keeps what train_loop returns."""
  real = cls.train_loop

  def loop(self, *a, **k):
    out = real(self, *a, **k)
    kept.append(jax.tree_util.tree_map(lambda v: np.asarray(v)[0], out.params))
    return out
  cls.train_loop = loop


def saved_rbm(rec, arg):
  """The RBM training script, then the model reloaded from its files."""
  import tensorflow as tf
  label = 'rbm training script'
  try:
    mod = trainer_module('rbm')
    from discs.learning import train as tr
    rng = np.random.default_rng(SEED)
    imgs = (rng.uniform(size=(60, 28, 28, 1)) * 256).astype(np.uint8)
    imgs[:, 0, 0] = 0
    imgs[:, 0, 1] = 255
    sys.modules['tensorflow_datasets'].load = lambda name, split=None, **k: tf.data.Dataset.from_tensor_slices({'image': imgs, 'label': np.zeros(60, np.int64)})
    kept = []
    hook(tr.Trainer, kept)
    root = os.path.abspath('rbm')
    os.makedirs(os.path.join(root, 'mnist-2-25'))
    run_script(mod, ['--config=%s/discs/learning/rbm/exp_config.py:mnist-2-25' % os.environ.get('REPO_ROOT', '/repo'), '--save_root=' + root,
                     '--config.experiment.total_train_steps=3', '--config.experiment.pcd_steps=2', '--config.experiment.batch_size=8',
                     '--config.experiment.shuffle_buffer_size=10', '--config.experiment.plot_every_steps=2', '--config.experiment.save_every_steps=2'])
    from discs.models import rbm
    from discs.models.configs import rbm_config
    cfg = base_config()
    cfg.model.update(rbm_config.get_config())
    with cfg.unlocked():
      cfg.model.num_categories = 2
      cfg.model.data_path = os.path.join(root, 'mnist-2-25')
    m = rbm.build_model(cfg)
    p = m.make_init_params(jax.random.PRNGKey(0))
    x = rng.integers(0, 2, size=(4, 784))
    q = {k: np.asarray(v, np.float64) for k, v in kept[0].items()}
    want = x @ q['b_v'] + np.logaddexp(0, x @ q['w'] + q['b_h']).sum(-1)
    mean = np.clip(imgs.reshape(60, -1).astype(np.float64).mean(0) / 255, 0.01, 0.99)
    with open(os.path.join(root, 'mnist-2-25', 'params.pkl'), 'rb') as f:
      disk = pickle.load(f)
    init = np.asarray(m.get_init_samples(jax.random.PRNGKey(5), 7))
    rec('model', label=label, trained=[Rs(q[k].ravel()[:40]) for k in ('b_h', 'b_v', 'w')] + [Rs(mean)],
        read=[Rs(np.asarray(disk['params'][k]).ravel()[:40]) for k in ('b_h', 'b_v', 'w')] + [Rs(disk['params']['data_mean'])],
        want=Rs(want), got=Rs(m.forward(p, jnp.asarray(x))), setting=[int(cfg.model.num_hidden), int(cfg.model.num_visible), int(cfg.model.num_categories)] + list(init.shape),
        wanted=[25, 784, 2, 7, 784])
  except Exception as ex:  # pylint: disable=broad-except
    rec.raised(label, ex)


def saved_ebm(rec, arg):
  """The image EBM training script, then the model reloaded from its files."""
  label = 'binary image training script'
  try:
    mod = trainer_module('ebm')
    from discs.learning import train as tr
    rng = np.random.default_rng(SEED)
    os.makedirs('data/MNIST_static')
    X = {}
    for part, n in (('train', 24), ('valid', 5), ('test', 5)):
      X[part] = rng.integers(0, 2, size=(n, 784))
      with open('data/MNIST_static/binarized_mnist_%s.amat' % part, 'w') as f:
        f.writelines(' '.join(map(str, r)) + '\n' for r in X[part])
    kept = []
    hook(tr.Trainer, kept)
    root = os.path.abspath('ebm')
    os.makedirs(os.path.join(root, 'static_mnist-2'))
    np.random.seed(SEED)
    run_script(mod, ['--config=%s/discs/learning/binary_ebm/exp_config.py:static_mnist-2' % os.environ.get('REPO_ROOT', '/repo'), '--save_root=' + root,
                     '--config.experiment.data_dir=' + os.path.abspath('data'), '--config.experiment.total_train_steps=2', '--config.experiment.batch_size=4',
                     '--config.experiment.buffer_size=10', '--config.experiment.plot_every_steps=2', '--config.experiment.save_every_steps=2'])
    from discs.models import resnet
    from discs.models.configs import resnet_config
    cfg = base_config()
    cfg.model.update(resnet_config.get_config())
    with cfg.unlocked():
      cfg.model.data_path = os.path.join(root, 'static_mnist-2')
    m = resnet.build_model(cfg)
    p = m.make_init_params(jax.random.PRNGKey(0))
    x = jnp.asarray(rng.integers(0, 2, size=(3, 784)))
    # the model as it was trained
    c2 = base_config()
    c2.model.update(resnet_config.get_config())
    with c2.unlocked():
      c2.model.update(dict(n_channels=2, data_path='', num_categories=2, image_shape=(28, 28), shape=(784,), data_mean=X['train'].mean(0).tolist()))
    want = quiet(lambda: resnet.build_model(c2).forward(jax.tree_util.tree_map(jnp.asarray, kept[0]), x))
    with open(os.path.join(root, 'static_mnist-2', 'params.pkl'), 'rb') as f:
      disk = pickle.load(f)['params']
    leaves = lambda t: [Rs(np.asarray(v).ravel()[:20]) for _, v in sorted((jax.tree_util.keystr(k), v) for k, v in jax.tree_util.tree_flatten_with_path(t)[0])]
    from flax.core import unfreeze
    trained = unfreeze(kept[0])
    mean = disk.pop('data_mean')
    rec('model', label=label, trained=leaves(trained) + [Rs(X['train'].mean(0))], read=leaves(disk) + [Rs(mean)], want=Rs(want), got=Rs(quiet(lambda: m.forward(p, x))),
        setting=[int(cfg.model.n_channels)] + list(cfg.model.shape), wanted=[2, 784])
  except Exception as ex:  # pylint: disable=broad-except
    rec.raised(label, ex)


def converted(rec, arg):
  """A torch checkpoint converted to the files the model loads."""
  label = 'converted torch checkpoint'
  try:
    stub_modules()
    from harness.drv_models import resnet_reference
    rng = np.random.default_rng(SEED)

    class T:

      def __init__(self, a):
        self.a = np.asarray(a, np.float32)

      def numpy(self):
        return self.a
    c = 3
    w = lambda *sh: T(rng.normal(size=sh) * 0.4)
    pt = {'mean': T(rng.uniform(0.1, 0.9, size=784)), 'net.proj.weight': w(c, 1, 3, 3), 'net.proj.bias': w(c),
          'net.energy_linear.weight': w(1, c), 'net.energy_linear.bias': w(1)}
    for l in range(8):
      for k in (1, 2):
        pt['net.net.%d.conv%d.weight' % (l, k)], pt['net.net.%d.conv%d.bias' % (l, k)] = w(c, c, 3, 3), w(c)
      if l < 2:
        pt['net.net.%d.shortcut_conv.weight' % l], pt['net.net.%d.shortcut_conv.bias' % l] = w(c, c, 1, 1), w(c)
    torch = sys.modules['torch']
    torch.load, torch.device = lambda *a, **k: {'ema_model': dict(pt)}, lambda name: name
    from discs.learning.binary_ebm import pt2params as mod
    root = os.path.abspath('pt')
    os.makedirs(root)
    run_script(mod, ['--config=%s/discs/learning/binary_ebm/exp_config.py:static_mnist-%d' % (os.environ.get('REPO_ROOT', '/repo'), c), '--save_root=' + root, '--pt_path=x'])
    from discs.models import resnet
    from discs.models.configs import resnet_config
    cfg = base_config()
    cfg.model.update(resnet_config.get_config())
    with cfg.unlocked():
      cfg.model.data_path = root
    m = resnet.build_model(cfg)
    x = rng.integers(0, 2, size=(4, 784))
    cv = lambda n: {'kernel': np.transpose(pt[n + '.weight'].a, (2, 3, 1, 0)), 'bias': pt[n + '.bias'].a}
    ref = {'Conv_0': cv('net.proj'), 'Dense_0': {'kernel': pt['net.energy_linear.weight'].a.T, 'bias': pt['net.energy_linear.bias'].a}}
    for l in range(8):
      ref['BasicBlock_%d' % l] = {'Conv_0': cv('net.net.%d.conv1' % l), 'Conv_1': cv('net.net.%d.conv2' % l)}
      if l < 2:
        ref['BasicBlock_%d' % l]['shortcut_conv'] = cv('net.net.%d.shortcut_conv' % l)
    want = resnet_reference(ref, x, (28, 28), pt['mean'].a)
    got = quiet(lambda: m.forward(m.make_init_params(jax.random.PRNGKey(0)), jnp.asarray(x, jnp.float32)))
    rec('model', label=label, trained=[], read=[], want=Rs(want), got=Rs(got), setting=[int(cfg.model.n_channels)] + list(cfg.model.shape), wanted=[c, 784])
  except Exception as ex:  # pylint: disable=broad-except
    rec.raised(label, ex)


def images(rec, arg):
  """Raw image files, as the training scripts read them."""
  stub_modules()
  from discs.learning import train as tr, raw_torch_dataset as raw
  from scipy.io import savemat
  import argparse
  rng = np.random.default_rng(SEED)

  def pictures(n, h=28, w=28):
    """Pictures whose rows are told apart by a few pixels; each asymmetric."""
    x = np.zeros((n, h, w))
    bits = ((np.arange(n)[:, None] >> np.arange(12)) & 1)
    x[:, 0, 1:13] = bits
    x[:, 1:, 0] = 1
    return x

  def ids(rows, want):
    table = {tuple(np.round(r, 4)): i for i, r in enumerate(want)}
    return [table.get(tuple(np.round(r, 4)), -1) for r in np.asarray(rows, np.float64)]
  os.makedirs('d/OMNIGLOT')
  os.makedirs('d/Caltech101Silhouettes')
  os.makedirs('d/Freyfaces')
  os.makedirs('d/HistopathologyGray')
  os.makedirs('d/MNIST_static')
  for name in ('omniglot', 'caltech', 'freyfaces', 'histopathology', 'static_mnist'):
    label = 'raw images: ' + name
    try:
      np.random.seed(SEED)
      if name == 'omniglot':
        x, sizes = pictures(1345 + 20 + 6), (20, 1345, 6)
        cols = x.transpose(0, 2, 1).reshape(len(x), -1).T  # the file stores columns first
        savemat('d/OMNIGLOT/chardata.mat', {'data': cols[:, :1365], 'testdata': cols[:, 1365:]})
        want, groups = x.reshape(len(x), -1), ['mixed', 'mixed', 'test']
      elif name == 'caltech':
        x, sizes = pictures(30), (15, 8, 7)
        cols = 1 - x.transpose(0, 2, 1).reshape(len(x), -1)
        savemat('d/Caltech101Silhouettes/caltech101_silhouettes_28_split1.mat', {'train_data': cols[:15], 'val_data': cols[15:23], 'test_data': cols[23:]})
        want, groups = x.reshape(len(x), -1), ['train', 'val', 'test']
      elif name == 'freyfaces':
        x, sizes = pictures(1965, 28, 20), (1565, 200, 200)
        savemat('d/Freyfaces/frey_rawface.mat', {'ff': (x * 128).reshape(len(x), -1).T})
        want, groups = (x * 128 / 256).reshape(len(x), -1), ['mixed', 'mixed', 'mixed']
      elif name == 'histopathology':
        x, sizes = pictures(24), (10, 8, 6)
        with open('d/HistopathologyGray/histopathology.pkl', 'wb') as f:
          pickle.dump({'training': x[:10], 'validation': x[10:18], 'test': x[18:]}, f)
        want, groups = np.clip(x, 1 / 512, 1 - 1 / 512).reshape(len(x), -1), ['train', 'val', 'test']
      else:
        x, sizes = pictures(21), (9, 7, 5)
        want, groups = x.reshape(len(x), -1), ['train', 'val', 'test']
        for part, rows in (('train', want[:9]), ('valid', want[9:16]), ('test', want[16:])):
          with open('d/MNIST_static/binarized_mnist_%s.amat' % part, 'w') as f:
            f.writelines(' '.join(str(int(v)) for v in r) + '\n' for r in rows)
      got = quiet(lambda: raw.load_raw_dataset(argparse.Namespace(dataset_name=name, data_dir='d')))
      np.random.seed(SEED)
      only = quiet(lambda: tr.load_numpyds(name, 'd'))
      parts = [ids(g, want) for g in got]
      rec('images', label=label, n=len(want), sizes=list(sizes), parts=parts, fixed=[g != 'mixed' for g in groups], train=ids(only, want))
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)

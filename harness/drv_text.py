"""Text infilling: task sets, the BERT energy (small random network), runs."""
import json
import os

import jax
import jax.numpy as jnp
import numpy as np

from harness import stubs
from harness.drv_co import quiet
from harness.util import *

WORDS = ['the', 'cat', 'sat', 'mat', 'dog', 'on', 'under', 'ran', 'blue', 'tree', 'house', '##s', 'you', 'me', 'we', '-', '.', ',']
C = 30522


SPECIAL = [0, 100, 101, 102, 103]


def vocab():
  v = ['[PAD]'] + ['[unused%d]' % i for i in range(99)] + ['[UNK]', '[CLS]', '[SEP]', '[MASK]'] + list('abcdefghijklmnopqrstuvwxyz') + WORDS
  return v + ['w%d' % i for i in range(C - len(v))]


def tokenizer():
  os.environ['TRANSFORMERS_VERBOSITY'] = 'error'
  from transformers import BertTokenizer
  os.makedirs('bert', exist_ok=True)
  with open('bert/vocab.txt', 'w') as f:
    f.write('\n'.join(vocab()))
  tok = BertTokenizer('bert/vocab.txt')
  tok.save_pretrained('bert')
  return tok


def stock():
  """The library's own masked language model, saved for the code to load."""
  import jaxlib.xla_extension as xe
  if not hasattr(xe, 'DeviceArray'):  # name used by the code in an annotation; gone from this jax
    xe.DeviceArray = jax.Array
  from transformers import BertConfig, FlaxBertForMaskedLM
  cfg = BertConfig(vocab_size=C, hidden_size=4, num_hidden_layers=1, num_attention_heads=2, intermediate_size=8, max_position_embeddings=32,
                   initializer_range=1.0)
  m = FlaxBertForMaskedLM(cfg, input_shape=(1, 6), seed=SEED)
  # special tokens are likely predictions as well
  from flax.core import freeze, unfreeze
  frozen = m.params
  p = unfreeze(frozen)
  p['cls']['predictions']['bias'] = jnp.asarray(p['cls']['predictions']['bias']).at[jnp.asarray(SPECIAL)].add(9.0)
  m.params = p if isinstance(frozen, dict) else freeze(p)
  m.save_pretrained('bert')
  return m


def clean(line, src):
  """The sentence without the markers of its corpus."""
  if src == 1:
    return line.replace('``', '').replace("''", '').strip('\n').split(' ')
  return line.replace('@@unknown@@', '[UNK]').replace('@@UNKNOWN@@', '[UNK]').replace('@-@', '-').strip('\n').split(' ')


def tasks(rec, arg):
  from discs.common import utils
  tok = tokenizer()
  rng = np.random.default_rng(SEED)
  for ci in range(arg['n']):
    label = 'task set %d' % ci
    try:
      root = 'data%d' % ci
      os.makedirs(root)
      quota, masks = int(rng.integers(1, 5)), int(rng.integers(1, 4))
      lo, hi = 6, 9
      raw = {}
      for src, f in ((1, 'tbc.5k.txt'), (2, 'wiki103.5k.txt')):
        lines = []
        for j in range(int(rng.integers(3, 14))):
          ln = int(rng.integers(4, 12))
          ws = [WORDS[int(q)] if WORDS[int(q)] != '##s' else 'cats' for q in rng.integers(0, len(WORDS), size=ln)]
          ws[0] = 'w%d' % (200 + j)  # every line is different
          if src == 1 and rng.uniform() < 0.4:
            ws[int(rng.integers(1, ln))] += "''"
          if src == 1 and rng.uniform() < 0.4:
            ws[int(rng.integers(1, ln))] = '``you'
          if src == 2:
            for mark in ('@@unknown@@', '@@UNKNOWN@@', '@-@'):
              if rng.uniform() < 0.3:
                ws[int(rng.integers(1, ln))] = mark
          lines.append(' '.join(ws) + '\n')
        raw[src] = lines
        with open(os.path.join(root, f), 'w') as fh:
          fh.writelines(lines)
      np.random.seed(SEED + ci)
      quiet(lambda: utils.create_infill_dataset(root, tok, masks, num_of_sentences=quota, min_length=lo, max_length=hi))
      with open(os.path.join(root, 'infilling_task.json')) as fh:
        data = json.load(fh)
      ids = {src: {' '.join(clean(x, src)): '%d.%d' % (src, j) for j, x in enumerate(raw[src])} for src in raw}
      rid = {src: {x: '%d.%d' % (src, j) for j, x in enumerate(raw[src])} for src in raw}
      refs = []
      for src, f in ((1, 'tbc_remove_infill.5k.txt'), (2, 'wiki103_remove_infill.5k.txt')):
        with open(os.path.join(root, f)) as fh:
          refs.append([rid[src].get(x, 'unknown ' + x) for x in fh.readlines()])
      ts = []
      for d in data:
        src = 1 if d['gt_sentence'] in ids[1] else 2
        ts.append(dict(id=ids[src].get(d['gt_sentence'], 'unknown'), src=src, words=d['gt_sentence'].split(' '), masked=d['sentence'].split(' '),
                       pos=[int(v) for v in d['infill_pos']], tokens=[tok.convert_ids_to_tokens(int(v)) for v in tok(d['sentence'])['input_ids']]))
      rec('task', label=label, quota=quota, masks=masks, min=lo, max=hi, tasks=ts, refs=refs,
          lines=[dict(id='%d.%d' % (src, j), src=src, words=clean(x, src)) for src in raw for j, x in enumerate(raw[src])])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)


SENTENCES = ['the [MASK] sat on [MASK] mat', 'we ran under [MASK] blue tree', 'you [MASK] cats [MASK] the [MASK] .', '[MASK] dogs ran , me too']


def model_for(root, random_init):
  from discs.models import text_infilling
  cfg = base_config()
  cfg.model.update(dict(name='text_infilling', bert_model='bert', data_root=root, num_categories=C, random_init_sample=random_init, shape=(1,)))
  return text_infilling.build_model(cfg)


def energies(rec, arg):
  tok, ref = tokenizer(), stock()
  rng = np.random.default_rng(SEED)
  os.makedirs('task', exist_ok=True)
  data = []
  for s in SENTENCES:
    toks = [tok.convert_ids_to_tokens(int(v)) for v in tok(s)['input_ids']]
    data.append({'sentence': s, 'gt_sentence': s, 'infill_pos': [i for i, t in enumerate(toks) if t == '[MASK]']})
  with open('task/infilling_task.json', 'w') as f:
    json.dump(data, f)

  def logits(ids):
    z = jnp.zeros_like(ids)
    return np.asarray(ref(input_ids=ids, attention_mask=z + 1, token_type_ids=z).logits, np.float64)

  def lsm(v):
    v = v - v.max()
    return v - np.log(np.exp(v).sum())
  for rand in (arg['random'],):
    try:
      m = quiet(lambda: model_for('task', rand))
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised('building the text model', ex)
      continue
    for si, d in enumerate(data):
      label = 'text model, sentence %d, random=%s' % (si, rand)
      try:
        params = quiet(lambda: m.make_init_params(jax.random.PRNGKey(si)))
        pos, n = d['infill_pos'], len(d['infill_pos'])
        ids = jnp.asarray([tok(d['sentence'])['input_ids']])
        if not rand:
          B = 3
          x = rng.integers(0, C, size=(B, n)).astype(np.int32)
          x[0, 0] = 103
          oh = jax.nn.one_hot(jnp.asarray(x), C)
          outs = quiet(lambda: [m.forward(params, jnp.asarray(x)), m.forward(params, jnp.asarray(x, jnp.float32)), m.forward(params, oh),
                                jax.jit(m.forward)(params, jnp.asarray(x)), jnp.concatenate([m.forward(params, jnp.asarray(x[b:b + 1])) for b in range(B)])])
          v, g = quiet(lambda: m.get_value_and_grad(params, oh))
          outs.append(v)
          g = np.asarray(g, np.float64)
          rows = []
          for b in range(B):
            lp = []
            full = np.array(ids)
            full[0, pos] = x[b]
            for i in range(n):
              q = full.copy()
              q[0, pos[i]] = 103
              lp.append(R(lsm(logits(jnp.asarray(q))[0, pos[i]])[x[b, i]]))
            dirs = []
            for _ in range(2):
              tokens = rng.integers(0, C, size=(n, 6))
              dr = np.zeros((n, C), np.float32)
              for i in range(n):
                dr[i, tokens[i]] = rng.normal(size=6)
                dr[i, x[b, i]] += 0.5
              h = 2e-3
              pair = jnp.stack([oh[b] + h * dr, oh[b] - h * dr])
              f = np.asarray(quiet(lambda: m.forward(params, pair)), np.float64)
              dirs.append([R((f[0] - f[1]) / (2 * h)), R(float((g[b].reshape(n, C) * dr).sum()))])
            rows.append(dict(lp=lp, vals=[R(np.asarray(o)[b]) for o in outs], dir=dirs))
          want = np.array(ids)
          want[0, pos] = x[1]
          rec('energy', label=label, rows=rows, decoded=m.decode(jnp.asarray(x[1:2]), params), wanted=tok.decode(want[0, 1:-1]))
        # initial samples
        N = arg['N']
        if rand:
          draw = lambda k: m.get_init_samples(k, 1)
        else:
          draw = lambda k: m.get_init_samples(k, 1)
        keys = jax.random.split(jax.random.PRNGKey(SEED + 7), N)
        xs = np.asarray(quiet(lambda: jax.jit(jax.vmap(draw))(keys) if rand else jnp.concatenate([jax.jit(jax.vmap(draw))(keys[i:i + 250]) for i in range(0, N, 250)])))
        ok = xs.reshape(N, -1).shape == (N, n) and np.issubdtype(xs.dtype, np.integer) and xs.min() >= 0 and xs.max() < C
        xs = xs.reshape(N, -1)
        full = np.array(ids)
        full[0, pos] = 103
        lg = logits(jnp.asarray(full))
        freq, prob = [], []
        for i in range(n):
          p = np.full(C, 1.0 / C) if rand else np.exp(lsm(lg[0, pos[i]]))
          order = np.argsort(-p)
          cum = np.cumsum(p[order])
          bins = np.minimum((cum - 1e-12) * 8, 7.999).astype(int)
          which = np.empty(C, int)
          which[order] = bins
          if rand:
            which = np.arange(C) * 8 // C
          else:
            which[SPECIAL] = np.arange(8, 8 + len(SPECIAL))  # one bin for each
          nb = which.max() + 1
          freq.append([int((which[xs[:, i]] == b).sum()) for b in range(nb)])
          prob.append([R(p[which == b].sum()) for b in range(nb)])
        rec('init', label=label, domain=bool(ok), freq=freq, prob=prob, n=N)
      except Exception as ex:  # pylint: disable=broad-except
        rec.raised(label, ex)
    try:
      if quiet(lambda: m.make_init_params(jax.random.PRNGKey(0))) is not None:
        raise AssertionError('parameters after the last sentence')
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised('text model: end of the task set', ex)


class TextModel(stubs.PlainModel):
  """M sentences; a sample is decoded to the words it spells."""

  def __init__(self, K, shape, M, scale=1.0):
    super().__init__(K, shape)
    self.M, self.served, self.scale = M, 0, scale

  def ident(self, p):
    return p['ident']

  def make_init_params(self, rng):
    self.served += 1
    if self.served > self.M:
      return None
    return {'ident': jnp.int32(self.served - 1), 'w': jnp.asarray([1.7, -2.3, 0.9][:self.shape[0]]) * self.scale * self.served}

  def forward(self, params, x):
    return x.astype(jnp.float32) @ params['w']

  def decode(self, x, params):
    return 'sentence %d has %s' % (int(params['ident']), ' '.join(str(int(v)) for v in np.asarray(x)[0]))


class Ev:
  """Stands for the language evaluator."""

  def __init__(self):
    self.calls = []

  def evaluate(self, sentences, data_root):
    self.calls.append(list(sentences))
    return {'infill_sents': list(sentences), 'call': len(self.calls), 'root': data_root}


def runs(rec, arg):
  from harness import drv_exp
  cases = [dict(M=3, R=4, L=5, topk=False, k=2), dict(M=2, R=12, L=4, topk=True, k=3), dict(M=3, R=3, L=6, topk=True, k=5), dict(M=1, R=1, L=3, topk=True, k=1),
           dict(M=1, R=103, L=2, topk=True, k=4, extra=True),
           dict(M=11, R=2, L=3, topk=True, k=1), dict(M=2, R=60, L=2, topk=True, k=9, scale=0.004), dict(M=1, R=2, L=300, topk=False, k=1)]
  K = 50
  for a in cases:
    label = 'Text_Infilling_Experiment %s' % a
    try:
      cfg = drv_exp.exp_config(K, (3,), model_name='text_infilling', name='Text_Infilling_Experiment', evaluator='lm_eval', num_models=1, batch_size=1,
                               chain_length=a['L'], ess_ratio=0.5, num_same_resample=a['R'], topk_num=a['k'], use_topk=a['topk'], run_parallel=False,
                               get_additional_metrics=bool(a.get('extra')), max_n_grams=4)
      cfg.model.data_root = 'root'
      model, saver, ev = TextModel(K, (3,), a['M'], a.get('scale', 1.0)), stubs.Saver(), Ev()
      stubs.LOG.clear()
      quiet(lambda: drv_exp.experiment(cfg).get_results(model, stubs.Sampler(K), ev, saver))
      jax.effects_barrier()
      rs = [[] for _ in range(a['M'])]
      for r in stubs.LOG:
        m = int(r['ident'])
        if int(r['step']) == 0:
          rs[m].append(dict(steps=[]))
        rs[m][-1]['steps'].append(dict(x=[int(v) for v in r['x'][0]], y=[int(v) for v in r['y'][0]], key='%d.%d' % tuple(int(v) for v in r['key'])))
      for m, lst in enumerate(rs):
        w = np.asarray([1.7, -2.3, 0.9]) * a.get('scale', 1.0) * (m + 1)
        for q in lst:
          y = q['steps'][-1]['y']
          q['text'] = 'sentence %d has %s' % (m, ' '.join(map(str, y)))
          q['ll'] = R(float(np.float32(np.dot(np.asarray(y, np.float64), w))))
      sv = [c for c in saver.calls if c[0] == 'save_lm_results']
      enc = lambda d: [str(int(np.asarray(d['call']))), str(d['root'])] if len(d) else []
      tops = ev.calls[1] if len(ev.calls) > 1 else []
      rec('run', label=label, M=a['M'], R=a['R'], L=a['L'], k=a['k'], topk=a['topk'], runs=rs, inits=[[int(v) for v in i[0]] for i in model.inits[:a['M']]],
          sents=ev.calls[0], tops=tops, nsaves=len(sv), saved=enc(sv[0][1][0]), evaluated=['1', 'root'], savedtop=enc(sv[0][1][1]), evaltop=['2', 'root'])
    except Exception as ex:  # pylint: disable=broad-except
      rec.raised(label, ex)

"""Sampler configurations whose one-step kernels are validated."""


def uninformed():
  L = []

  def add(**a):
    a['sid'] = len(L)
    a['label'] = ' '.join('%s=%s' % (k, v) for k, v in sorted(a.items()) if k != 'sid')
    L.append(a)
  # random walk
  for ad in (False, True):
    for K, shape, rad in ((2, [4], 1.0), (2, [2, 2], 2.7), (3, [3], 1.5), (4, [2], 1.0), (2, [3], 3.0), (5, [2], 1.9)):
      add(kind='randomwalk', K=K, shape=shape, radius=rad, over={'adaptive': ad},
          state={'radius': rad, 'steps': 5})
  # Gibbs: every coordinate of the scan
  for K, shape in ((2, [4]), (3, [3]), (2, [2, 2]), (4, [2])):
    n = 1
    for v in shape:
      n *= v
    for i in range(n):
      add(kind='gibbs', K=K, shape=shape, index=i, state={'index': i, 'steps': i})
  # block Gibbs, blocks that do and do not divide the dimension
  for K, shape, blk, idx in ((2, [4], 2, 0), (2, [4], 2, 2), (2, [2, 2], 3, 0),
                             (2, [4], 3, 3), (3, [3], 2, 0), (3, [3], 2, 2),
                             (3, [3], 1, 1), (2, [4], 4, 0), (4, [2], 2, 0)):
    add(kind='blockgibbs', K=K, shape=shape, blk=blk, index=idx,
        state={'index': idx, 'steps': 1})
  # Hamming ball
  for K, shape, blk, idx in ((2, [4], 2, 0), (2, [4], 2, 2), (2, [2, 2], 4, 0),
                             (2, [4], 3, 3), (3, [3], 3, 0), (3, [3], 2, 2),
                             (2, [4], 1, 1), (4, [2], 2, 0), (3, [3], 1, 2)):
    add(kind='hammingball', K=K, shape=shape, blk=blk, index=idx, scale=1.5,
        state={'index': idx, 'steps': 1})
  return L


BALS = ['SQRT', 'RATIO', 'MAX', 'MIN']


def gwg_pas():
  L = []

  def add(**a):
    a['sid'] = 200 + len(L)
    a['label'] = ' '.join('%s=%s' % (k, v) for k, v in sorted(a.items()) if k != 'sid')
    L.append(a)
  for i, (K, shape) in enumerate(((2, [4]), (2, [2, 2]), (2, [3]), (2, [4]))):
    bal = BALS[i]
    for nf in (1, 2, 3):
      add(kind='gwg', K=K, shape=shape, bal=bal, eff_flips=nf,
          over={'adaptive': False, 'num_flips': nf}, grad='exact' if nf == 1 else 'random')
  for i, rad in enumerate((1.0, 1.6, 2.4, 2.5, 3.5)):
    add(kind='gwg', K=2, shape=[3] if rad > 3 else [4] if i % 2 else [2, 2], bal=BALS[i % 4],
        eff_flips=min(3 if rad > 3 else 4, int(round(rad))), over={'adaptive': True},
        state={'radius': rad, 'steps': 3})
  add(kind='gwg', K=2, shape=[4], bal='SQRT', eff_flips=2, mask=[1, 0, 1, 1],
      over={'adaptive': False, 'num_flips': 2})
  add(kind='gwg', K=2, shape=[4], bal='RATIO', eff_flips=2, mask=[0, 1, 1, 0],
      over={'adaptive': True}, state={'radius': 2.0, 'steps': 3})
  for i, (K, shape) in enumerate(((3, [3]), (3, [2, 2]), (4, [2]), (5, [2]), (3, [2]))):
    add(kind='gwg', K=K, shape=shape, bal=BALS[i % 4], eff_flips=1,
        over={'adaptive': bool(i % 2)}, grad='exact' if i == 0 else 'random')
  # path auxiliary
  for i, (shape, nf) in enumerate((([4], 1), ([2, 2], 2), ([4], 3), ([3], 3), ([4], 4), ([4], 2))):
    add(kind='path_auxiliary', K=2, shape=shape, bal=BALS[i % 4], eff_flips=nf,
        over={'adaptive': False, 'num_flips': nf}, grad='exact' if i % 2 else 'random')
  for i, (shape, rad) in enumerate((([4], 1.0), ([2, 2], 1.6), ([4], 2.4), ([3], 3.0), ([4], 3.5))):
    nf = min(4, int(round(rad)))
    add(kind='path_auxiliary', K=2, shape=shape, bal=BALS[(i + 1) % 4], eff_flips=nf,
        over={'adaptive': True}, state={'radius': rad, 'steps': 3})
  for i, (K, shape, nf) in enumerate(((3, [3], 1), (3, [3], 2), (3, [2, 2], 2), (4, [2], 2), (3, [3], 3))):
    add(kind='path_auxiliary', K=K, shape=shape, bal=BALS[i % 4], eff_flips=nf,
        over={'adaptive': False, 'num_flips': nf})
    add(kind='path_auxiliary', K=K, shape=shape, bal=BALS[(i + 2) % 4], eff_flips=nf,
        over={'adaptive': True}, state={'radius': nf + 0.2, 'steps': 2})
  add(kind='path_auxiliary', K=2, shape=[4], bal='SQRT', eff_flips=2, mask=[1, 0, 1, 1],
      over={'adaptive': False, 'num_flips': 2})
  add(kind='path_auxiliary', K=2, shape=[4], bal='MIN', eff_flips=2, mask=[1, 1, 0, 1],
      over={'adaptive': True}, state={'radius': 2.0, 'steps': 2})
  add(kind='path_auxiliary', K=3, shape=[3], bal='SQRT', eff_flips=2, mask=[1, 0, 1],
      over={'adaptive': True}, state={'radius': 2.0, 'steps': 2})
  add(kind='path_auxiliary', K=3, shape=[3], bal='RATIO', eff_flips=1, mask=[1, 0, 1],
      over={'adaptive': False, 'num_flips': 1})
  # exact neighbourhood ratios instead of gradients
  for i, (shape, rad) in enumerate((([4], 1.0), ([4], 2.0), ([3], 3.0))):
    add(kind='path_auxiliary', K=2, shape=shape, bal=BALS[i], eff_flips=int(rad),
        over={'adaptive': bool(i % 2), 'num_flips': int(rad), 'approx_with_grad': False},
        state={'radius': rad, 'steps': 2}, grad='exact', exact_ratio=True)
  return L


def langevin():
  L = []

  def add(**a):
    a['sid'] = 500 + len(L)
    a['label'] = ' '.join('%s=%s' % (k, v) for k, v in sorted(a.items()) if k != 'sid')
    L.append(a)
  i = 0
  for K, shape in ((2, [4]), (2, [2, 2]), (3, [3]), (3, [2, 2]), (4, [2]), (5, [2])):
    bal = BALS[i % 4]
    i += 1
    # DMALA: fixed step size, adapted step size, re-normalised step size
    ss = (0.2, 0.7, 1.5)[i % 3]
    add(kind='dmala', K=K, shape=shape, bal=bal, taumode='fixed', logtau=-1 / (2 * ss),
        over={'adaptive': False, 'step_size': ss}, state={'steps': 3})
    add(kind='dmala', K=K, shape=shape, bal=BALS[i % 4], taumode='fixed', logtau=-0.4,
        over={'adaptive': True}, state={'steps': 3, 'log_tau': -0.4, 'log_z': 1.0})
    add(kind='dmala', K=K, shape=shape, bal=bal, taumode='local', tau0=3.0, co_opt=True,
        single=True, over={'adaptive': True}, state={'steps': 3, 'log_tau': 0.9})
    for solver in ('interpolate', 'euler_forward'):
      add(kind='dlmc', K=K, shape=shape, bal=BALS[(i + 1) % 4], solver=solver, taumode='fixed',
          logtau=-0.6, over={'adaptive': bool(i % 2), 'solver': solver},
          state={'steps': 3, 'log_tau': -0.6, 'log_z': 1.0})
      add(kind='dlmc', K=K, shape=shape, bal=BALS[(i + 3) % 4], solver=solver, taumode='local',
          tau0=3.0 if i % 2 else 2.0, co_opt=True, single=True,
          over={'adaptive': True, 'solver': solver, 'n': 3.0 if i % 2 else 2.0},
          state={'steps': 3, 'log_tau': 0.9})
  # exact gradients, large step
  add(kind='dmala', K=2, shape=[4], bal='SQRT', taumode='fixed', logtau=1.0, grad='exact',
      over={'adaptive': True}, state={'steps': 7, 'log_tau': 1.0, 'log_z': 1.0})
  add(kind='dlmc', K=2, shape=[4], bal='SQRT', taumode='fixed', logtau=1.0, grad='exact',
      over={'adaptive': True}, state={'steps': 7, 'log_tau': 1.0, 'log_z': 1.0})
  add(kind='dlmc', K=3, shape=[3], bal='SQRT', taumode='fixed', logtau=0.5, grad='exact',
      over={'adaptive': False}, state={'steps': 7, 'log_tau': 0.5, 'log_z': 1.0})
  return L


def chunks(L, k):
  return [L[i::k] for i in range(k) if L[i::k]]


def large(kinds):
  """Large spaces: more coordinates and categories than a byte can count."""
  L = []

  def add(**a):
    a['sid'] = 900 + len(L)
    a['label'] = 'large ' + ' '.join('%s=%s' % (k, v) for k, v in sorted(a.items()) if k != 'sid')
    L.append(a)
  wide, image, pairs = [300], [20, 15], [12, 25]
  # uninformed
  add(kind='randomwalk', K=2, shape=image, T=60, state={'radius': 3.0}, over={'adaptive': True})
  add(kind='randomwalk', K=2, shape=pairs, g=2, T=60, state={'radius': 2.0}, over={'adaptive': True})
  add(kind='randomwalk', K=300, shape=[4], T=12, state={'radius': 1.0}, over={'adaptive': True})
  add(kind='randomwalk', K=5, shape=image, T=60, state={'radius': 2.0}, over={'adaptive': True})
  add(kind='gibbs', K=2, shape=wide, T=300)
  add(kind='gibbs', K=2, shape=pairs, g=2, T=300)
  add(kind='gibbs', K=300, shape=[4], T=4)
  add(kind='gibbs', K=7, shape=[10, 6], T=60)
  add(kind='blockgibbs', K=2, shape=wide, T=60, blk=5, n=0.5)
  add(kind='blockgibbs', K=6, shape=[10, 3], T=10, blk=3, n=0.5)
  add(kind='blockgibbs', K=40, shape=[10], T=5, blk=2, n=0.3)
  add(kind='hammingball', K=2, shape=wide, T=30, blk=10, n=0.5)
  add(kind='hammingball', K=12, shape=[10, 3], T=15, blk=2, n=0.5)
  add(kind='hammingball', K=4, shape=[20], T=5, blk=4, n=0.5)
  # informed by gradients
  for k in ('gwg', 'path_auxiliary'):
    add(kind=k, K=2, shape=image, T=30, bal='SQRT', over={'adaptive': False, 'num_flips': 6})
    add(kind=k, K=2, shape=pairs, g=2, T=12, bal='RATIO', over={'adaptive': True}, state={'radius': 17.0}, n=0.5)
    add(kind=k, K=2, shape=[40], g=2, T=12, bal='MAX', over={'adaptive': True}, state={'radius': 4.0})
    add(kind=k, K=300, shape=[4], T=12, bal='SQRT', over={'adaptive': False, 'num_flips': 1}, n=0.5)
    add(kind=k, K=5, shape=[15, 4], T=30, bal='MIN', over={'adaptive': False, 'num_flips': 1})
  add(kind='path_auxiliary', K=4, shape=[50], g=2, T=12, bal='SQRT', over={'adaptive': True}, state={'radius': 9.0}, n=0.5)
  for k, more in (('dmala', [{}]), ('dlmc', [{'solver': 'interpolate'}, {'solver': 'euler_forward'}])):
    for o in more:
      lt = -1.0
      add(kind=k, K=2, shape=image, T=12, bal='SQRT', over={'adaptive': True, **o}, state={'log_tau': -2.0, 'log_z': 0.0, 'steps': 5})
      add(kind=k, K=2, shape=pairs, g=2, T=8, bal='RATIO', over={'adaptive': True, **o}, state={'log_tau': lt, 'log_z': 0.0, 'steps': 5})
      add(kind=k, K=300, shape=[4], T=8, bal='SQRT', over={'adaptive': True, **o}, state={'log_tau': lt, 'log_z': 0.0, 'steps': 5}, n=0.5)
      add(kind=k, K=5, shape=[15, 4], T=8, bal='MAX', over={'adaptive': True, **o}, state={'log_tau': lt, 'log_z': 0.0, 'steps': 5})
      add(kind=k, K=4, shape=[50], g=2, T=8, bal='SQRT', over={'adaptive': True, **o}, state={'log_tau': lt, 'log_z': 0.0, 'steps': 5})
  return [a for a in L if a['kind'] in kinds]


def flat(kinds):
  """Constant targets on large spaces."""
  L = []

  def add(**a):
    a['sid'] = 1000 + len(L)
    a['label'] = 'flat ' + ' '.join('%s=%s' % (k, v) for k, v in sorted(a.items()) if k != 'sid')
    L.append(a)
  for K, shape in ((2, [300]), (2, [17, 18]), (9, [70]), (270, [26]), (2, [3, 4, 25])):
    for r in (1.0, 24.0):
      add(kind='randomwalk', K=K, shape=shape, radius=r, T=160 if r == 1 else 20, over={'adaptive': True}, state={'radius': r})
  for K, shape in ((2, [270]), (2, [17, 16]), (9, [60]), (270, [20]), (2, [3, 4, 5])):
    add(kind='gibbs', K=K, shape=shape, T=prod_(shape))
    b = 4 if K == 2 else 2 if K < 99 else 1
    add(kind='blockgibbs', K=K, shape=shape, blk=b, T=-(-prod_(shape) // b))
    add(kind='hammingball', K=K, shape=shape, blk=5, T=prod_(shape) // 2)
  for k in ('gwg', 'path_auxiliary'):
    for f in (7, 19):
      add(kind=k, K=2, shape=[300], flips=f, T=14, bal='SQRT', over={'adaptive': False, 'num_flips': f})
      add(kind=k, K=2, shape=[17, 16], flips=f, T=14, bal='MAX', over={'adaptive': True}, state={'radius': float(f)})
    add(kind=k, K=2, shape=[3, 4, 5], flips=7, T=14, bal='MIN', over={'adaptive': False, 'num_flips': 7})
    add(kind=k, K=61, shape=[20], flips=1, T=60, bal='SQRT', over={'adaptive': False, 'num_flips': 1})
  add(kind='gwg', K=9, shape=[40], flips=1, T=60, bal='SQRT', over={'adaptive': False})
  add(kind='path_auxiliary', K=9, shape=[10, 8], flips=12, T=10, bal='SQRT', over={'adaptive': False, 'num_flips': 12})
  add(kind='path_auxiliary', K=9, shape=[80], flips=12, T=10, bal='RATIO', over={'adaptive': True}, state={'radius': 12.0})
  for k in ('dmala', 'dlmc'):
    for i, (K, shape) in enumerate(((2, [300]), (2, [17, 16]), (9, [70]), (40, [6, 5]), (2, [3, 4, 5]), (70, [9]))):
      for so in ({},) if k == 'dmala' else ({'solver': 'interpolate'}, {'solver': 'euler_forward'}):
        lt = -2.5 if K < 40 else -4.5
        add(kind=k, K=K, shape=shape, T=20, bal=BALS[i % 4], taumode='fixed', logtau=lt, over={'adaptive': True, **so},
            state={'log_tau': lt, 'log_z': 0.0, 'steps': 5}, **so)
  return [a for a in L if a['kind'] in kinds]


def prod_(t):
  r = 1
  for v in t:
    r *= v
  return r

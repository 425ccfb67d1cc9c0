"""What each property's check runs."""
from harness import kernel_configs as kc

T_ASSUME = [
    'IEEE-754 double arithmetic of the JVM for the specification side',
    'jax.random streams are independent uniform draws (statistical clauses: 6.5 sigma)',
]


def kernel_check(configs, parts, design, kinds):
  def build(tier):
    thorough = tier == 'thorough'
    N = 400000 if thorough else 60000
    return {
        'design': [dict(module='KernelsMC', cfg=design + ('_full.cfg' if thorough else '.cfg'))],
        'drivers': [dict(func='drv_kernel:kernels',
                         arg={'configs': ch, 'N': N}, trace_module='KernelTrace')
                    for ch in kc.chunks(configs(), parts)] +
                   [dict(func='drv_kernel:scale', optional=True, arg={'configs': ch, 'N': 40000 if thorough else 4000},
                         trace_module='KernelTrace')
                    for ch in kc.chunks(kc.large(kinds), 3)] +
                   [dict(func='drv_kernel:flat', optional=True, arg={'configs': ch, 'N': 6000 if thorough else 1500},
                         trace_module='KernelTrace')
                    for ch in kc.chunks(kc.flat(kinds), 2)],
        'assumptions': T_ASSUME,
    }
  return build


def chain_check(groups, parts=7):
  def build(tier):
    return {
        'design': [dict(module='SamplerStateMC', cfg='SamplerStateMC_full.cfg' if tier == 'thorough' else 'SamplerStateMC.cfg')],
        'drivers': [dict(func='drv_chain:chains', arg={'part': i, 'parts': parts},
                         trace_module='ChainTrace', groups=groups)
                    for i in range(parts)],
        'assumptions': T_ASSUME,
    }
  return build


def counter_check(tier):
  r = chain_check(['counters', 'accept'], 5)(tier)
  cs = [a for a in kc.uninformed() + kc.gwg_pas() + kc.langevin()
        if not a.get('single') and a['kind'] not in ('gibbs', 'blockgibbs', 'hammingball')]
  r['drivers'] += [dict(func='drv_kernel:accepts', arg={'configs': ch, 'N': 100000 if tier == 'thorough' else 10000}, trace_module='KernelTrace')
                   for ch in kc.chunks(cs, 3)]
  return r


def pure_check(tier):
  r = chain_check(['pure'], 4)(tier)
  N = 60000 if tier == 'thorough' else 20000
  r['drivers'] += [dict(func='drv_math:joint', arg={'N': N, 'part': i, 'parts': 4}, trace_module='MathTrace')
                   for i in range(4)]
  r['drivers'] += [dict(func='drv_math:lags', optional=True, arg={'part': i, 'parts': 3}, trace_module='MathTrace')
                   for i in range(3)]
  kinds = ('randomwalk', 'gibbs', 'blockgibbs', 'hammingball', 'gwg', 'path_auxiliary', 'dmala', 'dlmc')
  r['drivers'] += [dict(func='drv_kernel:flat', optional=True, arg={'configs': ch, 'N': 1000}, trace_module='KernelTrace', groups=['indep'])
                   for ch in kc.chunks(kc.flat(kinds)[::2], 3)]
  return r


def math_check(tier):
  N = 400000 if tier == 'thorough' else 60000
  return {
      'design': [dict(module='MathPrimsMC', cfg=full('MathPrimsMC', tier))],
      'drivers': [dict(func='drv_math:draws', arg={'N': N}, trace_module='MathTrace'),
                  dict(func='drv_math:many', arg={'N': N}, trace_module='MathTrace'),
                  dict(func='drv_math:prims', arg={'N': N}, trace_module='MathTrace')],
      'assumptions': T_ASSUME,
  }


def full(cfg, tier):
  return cfg + ('_full.cfg' if tier == 'thorough' else '.cfg')


def energy_check(tier):
  reps, n = (12, 24) if tier == 'thorough' else (2, 12)
  return {
      'design': [dict(module='EnergiesMC', cfg=full('EnergiesMC', tier))],
      'drivers': [dict(func='drv_models:energies', arg={'part': i, 'parts': 6, 'reps': reps, 'n': n}, trace_module='EnergyTrace')
                  for i in range(6)] +
                 [dict(func='drv_models:net', arg={}, trace_module='EnergyTrace')],
      'assumptions': T_ASSUME[:1] + ['float32 evaluation: relative tolerance 3e-4'],
  }


def init_check(tier):
  N = 300000 if tier == 'thorough' else 40000
  return {
      'design': [dict(module='InitLawsMC', cfg=full('InitLawsMC', tier))],
      'drivers': [dict(func='drv_models:inits', arg={'N': N}, trace_module='InitTrace'),
                  dict(func='drv_models:laws', arg={'N': N}, trace_module='InitTrace')],
      'assumptions': T_ASSUME,
  }


def co_check(tier):
  reps, n = (6, 12) if tier == 'thorough' else (1, 6)
  return {
      'design': [dict(module='GraphsMC', cfg=full('GraphsMC', tier))],
      'drivers': [dict(func='drv_co:objectives', arg={'part': i, 'parts': 7, 'reps': reps, 'n': n}, trace_module='GraphTrace')
                  for i in range(7)],
      'assumptions': T_ASSUME[:1] + ['float32 evaluation: relative tolerance 8e-4', 'instances have no self loops'],
  }


def nbr_check(tier):
  reps, n, N = (6, 12, 300000) if tier == 'thorough' else (1, 6, 40000)
  return {
      'design': [dict(module='GraphsMC', cfg='GraphsMC.cfg')],
      'drivers': [dict(func='drv_co:neighbourhoods', arg={'part': i, 'parts': 6, 'reps': reps, 'n': n}, trace_module='GraphTrace')
                  for i in range(6)] + [dict(func='drv_co:jumps', arg={'N': N}, trace_module='GraphTrace')],
      'assumptions': T_ASSUME + ['float32 evaluation: relative tolerance 8e-4'],
  }


def loader_check(tier):
  reps, n = (6, 600) if tier == 'thorough' else (1, 80)
  return {
      'design': [dict(module='LoaderMC', cfg=full('LoaderMC', tier)), dict(module='CnfMC', cfg=full('CnfMC', tier))],
      'drivers': [dict(func='drv_loader:loaders', arg={'part': i, 'parts': 5, 'reps': reps}, trace_module='LoaderTrace')
                  for i in range(5)] +
                 [dict(func='drv_loader:formulas', arg={'n': n}, trace_module='LoaderTrace'),
                  dict(func='drv_loader:generators', arg={'n': n // 5}, trace_module='LoaderTrace')],
      'assumptions': ['several processes are simulated by replacing jax.process_index and jax.process_count',
                      'data sets are generated in the formats the loaders read; the published data is not in the repository'],
  }


FOUR = {'XLA_FLAGS': '--xla_force_host_platform_device_count=4'}


def anneal_check(tier):
  reps = 6 if tier == 'thorough' else 1
  return {
      'design': [dict(module='AnnealingMC', cfg=full('AnnealingMC', tier))],
      'drivers': [dict(func='drv_exp:co', arg={'devices': 1, 'part': i, 'parts': 4, 'reps': reps}, trace_module='AnnealTrace')
                  for i in range(4)] +
                 [dict(func='drv_exp:co', arg={'devices': 4, 'part': i, 'parts': 3, 'reps': reps}, trace_module='AnnealTrace', env=FOUR)
                  for i in range(3)],
      'assumptions': ['four devices are simulated on the CPU', 'instances, sampler and saver are scripted; the experiment and evaluator are the real ones'],
  }


def sampling_check(tier):
  th = tier == 'thorough'
  n = 6
  return {
      'design': [dict(module='SamplingMC', cfg=full('SamplingMC', tier))],
      'drivers': [dict(func='drv_exp:sampling', arg={'devices': 1, 'part': i, 'parts': 2}, trace_module='SamplingTrace') for i in range(2)] +
                 [dict(func='drv_exp:sampling', arg={'devices': 4}, trace_module='SamplingTrace', env=FOUR),
                  dict(func='drv_exp:ess', arg={'n': 400 if th else 40}, trace_module='SamplingTrace')] +
                 [dict(func='drv_exp:combos', arg={'devices': 1, 'part': i, 'parts': n}, trace_module='SamplingTrace') for i in range(n)] +
                 [dict(func='drv_exp:combos', arg={'devices': 4, 'part': i, 'parts': n if th else 1, 'some': 0 if th else 9}, trace_module='SamplingTrace', env=FOUR)
                  for i in range(n if th else 1)],
      'assumptions': ['four devices are simulated on the CPU', 'model, sampler and saver are scripted in the flow checks; the experiment and evaluator are the real ones',
                      'autocorrelations within 3e-5 of zero may be cut either way'],
  }


def ais_check(tier):
  th = tier == 'thorough'
  law = lambda names: dict(func='drv_exp:ais_law', arg={'samplers': names, 'B': 100000 if th else 20000, 'tol': 0.03 if th else 0.06, 'nets': 6 if th else 2},
                           trace_module='AisTrace')
  return {
      'design': [dict(module='AisMC', cfg=full('AisMC', tier))],
      'drivers': [dict(func='drv_exp:ais', arg={'devices': 1, 'reps': 8 if th else 2}, trace_module='AisTrace'),
                  dict(func='drv_exp:ais', arg={'devices': 4, 'reps': 8 if th else 2}, trace_module='AisTrace', env=FOUR),
                  law(['gibbs', 'gwg']), law(['dmala', 'randomwalk', 'path_auxiliary'])],
      'assumptions': ['four devices are simulated on the CPU', 'the estimate of the tabulated target is compared within 0.06 (0.03 thorough)'],
  }


def results_check(tier):
  th = tier == 'thorough'
  return {
      'design': [dict(module='ResultsMC', cfg=full('ResultsMC', tier))],
      'drivers': [dict(func='drv_results:saves', arg={'n': 60 if th else 8}, trace_module='ResultsTrace'),
                  dict(func='drv_results:experiment_saves', arg={}, trace_module='ResultsTrace'),
                  dict(func='drv_results:tables', arg={'reps': 6 if th else 1}, trace_module='ResultsTrace')],
      'assumptions': ['result folders are named after the configuration as the launcher names them'],
  }


def infill_check(tier):
  th = tier == 'thorough'
  return {
      'design': [dict(module='InfillMC', cfg=full('InfillMC', tier))],
      'drivers': [dict(func='drv_text:tasks', arg={'n': 60 if th else 8}, trace_module='InfillTrace'),
                  dict(func='drv_text:runs', arg={}, trace_module='InfillTrace'),
                  dict(func='drv_text:energies', arg={'N': 20000 if th else 1500, 'random': False}, trace_module='InfillTrace'),
                  dict(func='drv_text:energies', arg={'N': 20000 if th else 3000, 'random': True}, trace_module='InfillTrace')],
      'assumptions': T_ASSUME[:1] + ['a small random BERT stands for the pretrained one (not in the repository); its stock implementation in transformers is the reference',
                                     'the name jaxlib.xla_extension.DeviceArray, which the code only uses in an annotation, is supplied'],
  }


def metrics_check(tier):
  th = tier == 'thorough'
  return {
      'design': [dict(module='MetricsMC', cfg=full('MetricsMC', tier))],
      'drivers': [dict(func='drv_eval:lm', arg={'n': 400 if th else 40}, trace_module='MetricsTrace'),
                  dict(func='drv_eval:bernoulli', arg={'n': 200 if th else 24}, trace_module='MetricsTrace'),
                  dict(func='drv_eval:estimation', arg={}, trace_module='MetricsTrace'),
                  dict(func='drv_eval:partitions', arg={'n': 200 if th else 20}, trace_module='MetricsTrace')],
      'assumptions': ['at least one generated sentence has max_n_grams words', 'partitions of graphs without weights and self loops'],
  }


def training_check(tier):
  th = tier == 'thorough'
  d = lambda f, env=None, **a: dict(func='drv_train:' + f, arg=a, trace_module='TrainTrace', **({'env': env} if env else {}))
  return {
      'design': [dict(module='TrainingMC', cfg=full('TrainingMC', tier))],
      'drivers': [d('train', kind='rbm'), d('train', kind='ebm'), d('train', FOUR, kind='rbm'), d('train', FOUR, kind='ebm'),
                  d('buffers', n=60 if th else 12), d('schedules', n=300 if th else 30), d('loading', n=100 if th else 16), d('loading', FOUR, n=100 if th else 16),
                  d('saved_rbm'), d('saved_ebm'), d('saved_rbm', FOUR), d('converted'), d('images')],
      'assumptions': ['torch, torchvision and tensorflow_datasets are not installed: stand-ins supply the pictures', 'four devices are simulated on the CPU; several processes by replacing jax.process_index and jax.process_count',
                      'the training loop is driven with a linear model, whose gradients are exact'],
  }


def config_check(tier):
  th = tier == 'thorough'
  d = lambda f, **a: dict(func='drv_config:' + f, arg=a, trace_module='ConfigTrace')
  return {
      'design': [dict(module='ConfigMC', cfg=full('ConfigMC', tier))],
      'drivers': [d('shipped', part=i, parts=3, all=th) for i in range(3)] +
                 [d('sweeps', n=200 if th else 24), d('strings', n=400 if th else 60), d('local'), d('built', full=list(range(15)) if th else [0, 5])],
      'assumptions': ['the cluster is a stand-in that runs the job generators it is given', 'configuration files are read as data'],
  }


def run_check(tier):
  th = tier == 'thorough'
  d = lambda env=None, **a: dict(func='drv_run:runs', arg=a, trace_module='EndTrace', **({'env': env} if env else {}))
  return {
      'design': [dict(module='AnnealingMC', cfg=full('AnnealingMC', tier)), dict(module='GraphsMC', cfg=full('GraphsMC', tier))],
      'drivers': [d(part=i, parts=6, all=th, of=3, phase=0) for i in range(6)] + [d(FOUR, part=i, parts=4, all=th, of=8, phase=1) for i in range(2 if not th else 4)],
      'assumptions': ['small data sets of every kind in place of the published ones; the shipped settings apart from sizes, chain length and logging', 'four devices are simulated on the CPU'],
  }


def figures_check(tier):
  th = tier == 'thorough'
  d = lambda f, **a: dict(func='drv_figures:' + f, arg=a, trace_module='FiguresTrace')
  return {
      'design': [dict(module='FiguresMC', cfg=full('FiguresMC', tier))],
      'drivers': [d('bars', part=i, parts=4, reps=6 if th else 1) for i in range(4)] + [d('temperatures', reps=4 if th else 1), d('estimates'),
                  d('annealing', part=0, parts=2, reps=6 if th else 1), d('annealing', part=1, parts=2, reps=6 if th else 1), d('grids', n=400 if th else 40), d('progress', n=60 if th else 6), d('own_bars', n=60 if th else 9)],
      'assumptions': ['figures are looked at as matplotlib holds them when they are saved', 'the cluster is a stand-in; result folders get the names the launcher gives them, results are written by the saver'],
  }


CHECKS = {
    'C23': figures_check,
    'C22': run_check,
    'C21': config_check,
    'C20': training_check,
    'C19': metrics_check,
    'C18': infill_check,
    'C17': results_check,
    'C16': ais_check,
    'C15': sampling_check,
    'C14': anneal_check,
    'C11': co_check,
    'C12': nbr_check,
    'C13': loader_check,
    'C09': energy_check,
    'C10': init_check,
    'C04': counter_check,
    'C05': chain_check(['tuning']),
    'C06': chain_check(['domain']),
    'C07': pure_check,
    'C08': math_check,

    'C01': kernel_check(kc.uninformed, 7, 'KernelsMC_C01', ('randomwalk', 'gibbs', 'blockgibbs', 'hammingball')),
    'C02': kernel_check(kc.gwg_pas, 7, 'KernelsMC_C02', ('gwg', 'path_auxiliary')),
    'C03': kernel_check(kc.langevin, 7, 'KernelsMC_C03', ('dmala', 'dlmc')),
}

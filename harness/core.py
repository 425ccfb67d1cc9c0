"""Check runner: drives the real code, validates its traces with TLC.

A check is: (1) TLC on the design specification (exhaustive, small constants);
(2) drivers run the code in /repo and record ndjson traces; (3) TLC validates
each trace against the trace specification and writes a verdict naming every
violated clause; (4) evidence/<id>.json is rewritten.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
PY = '/opt/venv/bin/python'
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
  pass


def driver_env(extra=None):
  env = {
      'HOME': os.environ.get('HOME', '/root'),
      'LANG': 'C.UTF-8',
      'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
      'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
      'PYTHONNOUSERSITE': '1', 'HF_HUB_OFFLINE': '1',
      'TRANSFORMERS_OFFLINE': '1', 'JAX_PLATFORMS': 'cpu',
      'CUDA_VISIBLE_DEVICES': '', 'TF_CPP_MIN_LOG_LEVEL': '3',
      'MPLBACKEND': 'Agg', 'PYTHONPATH': REPO + ':' + VERIF,
      'PYTHONWARNINGS': 'ignore',
      'VERIF_SEED': os.environ.get('VERIF_SEED', '1'),
      'VERIF_TIER': os.environ.get('VERIF_TIER', 'quick'),
  }
  if extra:
    env.update(extra)
  return env


class Ctx:
  """One run of one check."""

  def __init__(self, prop, tier, seed):
    self.prop, self.tier, self.seed = prop, tier, seed
    self.t0 = time.time()
    self.scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    self.classes = os.path.join(self.scratch, 'classes')
    self.design_states = 0
    self.design_transitions = 0
    self.design_runs = []
    self.trace_states = 0
    self.traces = 0
    self.events = 0
    self.trace_runs = []
    self.samples = []
    self.violations = []   # (clause, replay payload)
    self.driver_stats = []

  def compile_overrides(self):
    os.makedirs(self.classes)
    r = subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', self.classes] +
                       glob.glob(os.path.join(SPEC, 'java', '*.java')),
                       capture_output=True, text=True)
    if r.returncode:
      raise MachineryError('javac: ' + r.stderr[-2000:])

  def tlc(self, module, cfg, workers=1, env=None, timeout=800, heap='3g',
          args=()):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
    cmd = ['java', '-XX:+UseParallelGC' if workers != 1 else '-XX:+UseSerialGC',
           '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC, '-cp', JARS + ':' + self.classes,
           '-Djava.io.tmpdir=' + meta,
           'tlc2.TLC', '-nowarning', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg] + list(args) + [module]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env:
      e.update(env)
    try:
      r = subprocess.run(cmd, cwd=meta, env=e, capture_output=True, text=True,
                         timeout=timeout)
    except subprocess.TimeoutExpired:
      raise MachineryError('TLC timeout on %s' % module)
    finally:
      shutil.rmtree(os.path.join(meta, 'states'), ignore_errors=True)
    return r

  # ---- design ----
  def run_design(self, module, cfg, workers=2, timeout=800, heap='4g'):
    r = self.tlc(os.path.join(SPEC, module + '.tla'),
                 os.path.join(SPEC, cfg), workers=workers, timeout=timeout,
                 heap=heap)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    if r.returncode != 0 or not m:
      raise MachineryError('design check %s/%s failed (rc %s):\n%s' % (
          module, cfg, r.returncode, r.stdout[-3000:] + r.stderr[-500:]))
    return {'module': module, 'cfg': cfg, 'states': int(m.group(2)),
            'transitions': int(m.group(1))}

  # ---- drivers ----
  def run_driver(self, func, arg, trace_module, env=None, timeout=700,
                 tlc_timeout=700, groups=None, optional=False):
    """Runs harness.<func>, validates its trace. Returns dict.

    A driver that does not finish is a violation (the code hangs), except an
    optional one (large sizes, where compilation may just take long): there the
    cases finished in time are judged, and the evidence says it was cut short.
    """
    if optional and self.tier == 'quick':
      timeout = min(timeout, 300)
    d = tempfile.mkdtemp(prefix='drv-', dir=self.scratch)
    out = os.path.join(d, 'trace.ndjson')
    cmd = [PY, '-m', 'harness.driver', func, json.dumps(arg), out]
    t0 = time.time()
    hang = False
    try:
      r = subprocess.run(cmd, cwd=d, env=driver_env(env), capture_output=True,
                         text=True, timeout=timeout)
      rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired as ex:
      hang, rc, err = True, -1, ''
    t1 = time.time()
    if hang:
      with open(out, 'a') as f:
        if not optional:
          f.write('\n' + json.dumps({'ev': 'raised', 'what': 'driver %s did not finish within %ds' % (func, timeout)}) + '\n')
      lines = [x for x in open(out).read().split('\n') if x.strip()]
      good = []
      for x in lines:
        try:
          json.loads(x)
          good.append(x)
        except ValueError:
          pass
      with open(out, 'w') as f:
        f.write('\n'.join(good) + '\n')
    elif rc != 0:
      raise MachineryError('driver %s %s rc=%s\n%s' % (func, json.dumps(arg)[:300], rc, err[-3000:]))
    with open(out) as f:
      lines = [x for x in f.read().split('\n') if x.strip()]
    if not lines and hang and optional:
      shutil.rmtree(d, ignore_errors=True)
      return {'func': func, 'arg': arg, 'module': trace_module, 'events': 0, 'driver_s': round(t1 - t0, 1),
              'tlc_s': 0, 'bad': [], 'env': env or {}, 'states': 0, 'lines': [], 'sample': '', 'cut': True}
    if not lines:
      raise MachineryError('driver %s recorded nothing' % func)
    verdict = os.path.join(d, 'verdict.json')
    r = self.tlc(os.path.join(SPEC, trace_module + '.tla'),
                 os.path.join(SPEC, 'Trace.cfg'),
                 env={'TRACE': out, 'VERDICT': verdict}, timeout=tlc_timeout)
    t2 = time.time()
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    res = {'func': func, 'arg': arg, 'module': trace_module,
           'events': len(lines), 'driver_s': round(t1 - t0, 1),
           'tlc_s': round(t2 - t1, 1), 'bad': [], 'env': env or {}, 'cut': hang and optional}
    if not os.path.exists(verdict):
      # the specification could not explain the trace: name the line reached
      if ('java.lang.OutOfMemory' in r.stdout + r.stderr or r.returncode in (137, 143, -9, -15)
          or 'Parsing or semantic analysis failed' in r.stdout):
        raise MachineryError('TLC on %s: %s' % (trace_module, (r.stdout + r.stderr)[-3000:]))
      res['bad'].append({'line': 0, 'clause': 'trace-not-explainable: ' +
                         (r.stdout[-1500:] if r.stdout else r.stderr[-500:])})
    else:
      v = json.load(open(verdict))
      if v['lines'] != len(lines):
        raise MachineryError('TLC read %s of %s lines' % (v['lines'], len(lines)))
      res['bad'] = v['bad']
      if groups:  # clauses of other properties are judged by their own checks
        res['bad'] = [b for b in v['bad'] if b['clause'].split(':')[0] in groups + ['raised']]
    res['states'] = int(m.group(2)) if m else 0
    res['lines'] = lines
    ex = json.loads(lines[-1] if len(lines) == 1 else lines[0])
    res['sample'] = json.dumps(ex)[:600]
    shutil.rmtree(d, ignore_errors=True)
    return res

  def run(self, design, drivers, known, level, note_assumptions):
    self.compile_overrides()
    jobs = []
    with cf.ThreadPoolExecutor(max_workers=max(2, NCPU)) as ex:
      for d in drivers:
        jobs.append(('driver', d, ex.submit(self.run_driver, **d)))
      for d in design:
        jobs.append(('design', d, ex.submit(self.run_design, **d)))
      for kind, d, fut in jobs:
        r = fut.result()
        if kind == 'design':
          self.design_states += r['states']
          self.design_transitions += r['transitions']
          self.design_runs.append(r)
        else:
          self.traces += 1
          self.events += r['events']
          self.trace_states += r['states']
          self.trace_runs.append({k: r[k] for k in ('func', 'module', 'events', 'driver_s', 'tlc_s', 'cut')})
          if len(self.samples) < 6:
            self.samples.append({'driver': r['func'], 'event': r['sample']})
          for b in r['bad']:
            line = b['line']
            event = r['lines'][line - 1] if 0 < line <= len(r['lines']) else ''
            self.violations.append({
                'clause': b['clause'], 'driver': r['func'], 'arg': r['arg'],
                'trace_module': r['module'], 'line': line, 'env': r['env'],
                'event': event})
    return self.finish(known, level, note_assumptions)

  def finish(self, known, level, assumptions):
    listed, fresh = [], []
    for v in self.violations:
      k = [f for f in known if f['property'] == self.prop and
           f['driver'] == v['driver'] and re.fullmatch(f['clause'], v['clause'])
           and f['event_contains'] in v['event']]
      (listed if k else fresh).append((v, k))
    seen = set()
    for v, k in listed:
      if k[0]['id'] not in seen:
        seen.add(k[0]['id'])
        print('KNOWN-FINDING: property=%s %s' % (self.prop, k[0]['what']))
    ev = {
        'property': self.prop, 'tier': self.tier, 'seed': self.seed,
        'level': level,
        'coverage': {
            'states': self.design_states + self.trace_states,
            'transitions': self.design_transitions + self.events,
            'design_states': self.design_states,
            'design_transitions_generated': self.design_transitions,
            'traces_validated_against_impl': self.traces,
            'trace_events_validated': self.events,
            'design_runs': self.design_runs,
            'trace_runs': self.trace_runs,
            'samples': self.samples,
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - self.t0, 1),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
    if fresh:
      rd = os.path.join(VERIF, 'replays')
      os.makedirs(rd, exist_ok=True)
      path = os.path.join(rd, '%s.json' % self.prop)
      with open(path, 'w') as f:
        json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                   'violations': [v for v, _ in fresh][:20]}, f, indent=1)
      for v, _ in fresh[:12]:
        try:
          what = json.loads(v['event']).get('label', '')
        except ValueError:
          what = ''
        print('  violated clause: %s  [driver %s, trace line %s] %s' % (
            v['clause'][:600], v['driver'], v['line'], what or json.dumps(v['arg'])[:200]))
      print('VIOLATION property=%s replay=%s' % (self.prop, path))
      return 1
    print('OK property=%s states=%d traces=%d events=%d wall=%.0fs' % (
        self.prop, self.design_states + self.trace_states, self.traces,
        self.events, time.time() - self.t0))
    return 0

  def cleanup(self):
    shutil.rmtree(self.scratch, ignore_errors=True)

"""Subprocess entry: python -m harness.driver module:function ARG_JSON OUT."""
import importlib
import json
import sys
import traceback


class Recorder:
  """Writes one ndjson event per line."""

  def __init__(self, path):
    self.f = open(path, 'w')
    self.n = 0

  def __call__(self, ev, **kw):
    kw['ev'] = ev
    self.f.write(json.dumps(kw) + '\n')
    self.f.flush()
    self.n += 1

  def raised(self, where, ex):
    self('raised', what='%s: %s: %s' % (where, type(ex).__name__, str(ex)[:200].replace('\n', ' ')))


def main():
  func, arg, out = sys.argv[1:4]
  mod, fn = func.split(':')
  rec = Recorder(out)
  try:
    m = importlib.import_module('harness.' + mod)
    getattr(m, fn)(rec, json.loads(arg))
  except Exception as ex:  # the code under test (or its results) broke the run
    traceback.print_exc()
    rec.raised(func, ex)
  rec.f.close()


if __name__ == '__main__':
  main()
